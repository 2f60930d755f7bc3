"""P02: continuation rule of the tracker."""
import tracker_drv as d
import vlib


def cfg(rng):
  """Configuration that shows every track and never merges"""
  sd = rng.choice([1, 2, 4, 16])
  return dict(d.BASE, kind="open", merge="none", cap=rng.choice([0, 1, 2, 3, 5]),
              off=rng.choice([0, 1, 2, 3, 5]), sn=rng.choice([0, 0, 1, 1]),
              sd=sd, fs=rng.choice([1, 2, 4]), h=1)


def run(c):
  """Drive and validate"""
  c.design("MC_Tracker.tla",
           "MC_Tracker.cfg" if vlib.THOROUGH else "MC_Tracker_quick.cfg")
  rng = d.rng_for("p02")
  traces = []
  for b in d.tlc_hists(3000 if vlib.THOROUGH else 300):
    # replay each generated behaviour as an open tracker
    k = dict(b["c"], kind="open", merge="none", hasstrip=False, rev=False)
    traces.append(d.record(k, b["hist"]))
  n = 12000 if vlib.THOROUGH else 1500
  for _ in range(n):
    k = cfg(rng)
    r = rng.random()
    if r < .4:
      h = d.random_hist(rng, rng.randint(1, 7), rng.randint(1, 6),
                        rng.choice([6, 12, 30]), rng.choice([1, 3, 8]))
    elif r < .6:  # crowded: many peaks contend for few tracks
      h = d.random_hist(rng, rng.randint(2, 5), 6, 9, 5, distinct=False)
    else:
      h = d.partials_hist(rng, rng.randint(3, 12), rng.randint(1, 5),
                          rng.choice([10, 40]), jitter=rng.choice([1, 2, 4]))
    traces.append(d.record(k, h))
  # wide ranges: large frequencies make the slope matter
  for _ in range(n // 5):
    k = dict(d.BASE, kind="open", merge="none", cap=rng.choice([2, 4, 8]),
             off=rng.choice([0, 5, 20]), sn=rng.choice([1, 3, 5]),
             sd=rng.choice([64, 128, 512]))
    h = d.partials_hist(rng, rng.randint(3, 9), rng.randint(2, 6), 1600,
                        jitter=rng.choice([5, 20, 60]))
    traces.append(d.record(k, h))
  c.validate("TrackerTrace.tla", traces, label="continuation")
  c.extra["inputs"] = "TLC behaviours, random frames, drifting partials"
