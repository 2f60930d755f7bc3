"""P04: merging of tracks."""
import tracker_drv as d
import vlib


def run(c):
  """Drive and validate"""
  c.design("MC_Tracker.tla", "MC_TrackerMerge.cfg")
  rng = d.rng_for("p04")
  traces = []
  n = 12000 if vlib.THOROUGH else 1800
  for _ in range(n):
    k = dict(d.BASE, kind=rng.choice(["open", "modal", "modal"]),
             merge=rng.choice(["average", "single"]),
             cap=rng.choice([2, 3, 6]), off=rng.choice([1, 2, 4, 6]),
             sn=rng.choice([0, 1]), sd=rng.choice([2, 8, 16]),
             durn=rng.choice([0, 1, 1, 3]), durd=rng.choice([1, 2]),
             rev=rng.random() < .3,
             hasstrip=rng.random() < .15, stripn=rng.choice([1, 3, 8]))
    if k["kind"] == "open":
      k["hasstrip"] = False
    if rng.random() < .3:  # sparse peaks in a narrow band: many short tracks
      h = d.random_hist(rng, rng.randint(6, 14), 2, rng.choice([6, 14]), 0)
      k.update(kind="open", hasstrip=False)
    else:
      h = d.partials_hist(rng, rng.randint(6, 15), rng.randint(1, 3), 16,
                          drop=rng.choice([.3, .6]), slope=(-2, 0))
    traces.append(d.record(k, h))
  c.validate("TrackerTrace.tla", traces, label="merging")
  merges = sum(
      any(p["id"] == 0 for t in tr["events"][-1]["pub"] for p in t["pts"])
      for tr in traces)
  c.extra["traces_with_merges"] = merges
