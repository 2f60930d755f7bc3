"""P03: only clean tracks are published."""
import tracker_drv as d
import vlib


def cfg(rng):
  """Configuration exercising the criteria"""
  fs, h = rng.choice([(1, 1), (2, 1), (4, 1), (1, 2), (8, 4), (2, 4)])
  lo = rng.choice([None, None, 3, 6, 10])
  hi = rng.choice([None, None, 5, 10, 20])
  strip = rng.random() < .4
  return dict(d.BASE, kind="base" if rng.random() < .1 else "modal",
              merge=rng.choice(["average", "single"]),
              cap=rng.choice([1, 2, 4, 8]),
              off=rng.choice([1, 2, 3]), sn=rng.choice([0, 1]),
              sd=rng.choice([4, 16]), fs=fs, h=h,
              durn=rng.choice([0, 1, 3, 5, 7]), durd=rng.choice([1, 2, 4, 8]),
              haslo=lo is not None, lo=lo or 0, hashi=hi is not None,
              hi=hi or 0, th=rng.choice([-1000, 0, 5, 10, 20]),
              rev=rng.random() < .5, hasstrip=strip,
              stripn=rng.choice([0, 1, 3, 5]), stripd=rng.choice([1, 2, 4]))


def run(c):
  """Drive and validate"""
  c.design("MC_Tracker.tla",
           "MC_Tracker.cfg" if vlib.THOROUGH else "MC_Tracker_quick.cfg")
  rng = d.rng_for("p03")
  traces = []
  for b in d.tlc_hists(3000 if vlib.THOROUGH else 300):
    if b["c"]["kind"] == "modal":
      traces.append(d.record(b["c"], b["hist"]))
  n = 9000 if vlib.THOROUGH else 1000
  for _ in range(n):
    k = cfg(rng)
    if k["kind"] == "base":
      k["merge"] = "none"
      k["hasstrip"] = False
    h = d.partials_hist(rng, rng.randint(3, 14), rng.randint(1, 4), 24,
                        drop=rng.choice([0, .1, .3]),
                        slope=rng.choice([(-3, 0), (-2, 2), (0, 3), (0, 0)]))
    traces.append(d.record(k, h))
  # one partial, exactly at the borders of the criteria
  for _ in range(n // 2):
    k = cfg(rng)
    if k["kind"] == "base":
      k["merge"] = "none"
      k["hasstrip"] = False
    f = rng.randint(2, 20)
    m, dm = rng.randint(0, 24), rng.choice([-3, -1, 0, 0, 1, 2])
    s, ln = rng.randint(0, 5), rng.randint(1, 9)
    fr = [[] for _ in range(s)] + [[(f + (i % 2) * rng.choice([0, 1]),
                                     m + dm * i + rng.choice([0, 0, 1, -1]))]
                                   for i in range(ln)]
    fr += [[] for _ in range(rng.randint(0, 4))]
    if rng.random() < .4:
      k.update(haslo=True, lo=f)
    if rng.random() < .4:
      k.update(hashi=True, hi=f)
    if rng.random() < .4:
      k.update(th=m)
    traces.append(d.record(k, d.number(fr)))
  c.validate("TrackerTrace.tla", traces, label="cleanliness")
