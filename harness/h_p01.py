"""P01: conservation of spectral peaks."""
import numpy as np
import tracker_drv as d
import vlib
from sample.sms import mm, sm


def signal(rng, n):
  """Decaying partials, click and noise"""
  t = np.arange(n)
  x = np.zeros(n)
  for _ in range(rng.randint(1, 4)):
    f = rng.uniform(.02, .45)
    x += rng.uniform(.1, 1) * np.exp(-t * rng.uniform(0, .01)) \
        * np.cos(2 * np.pi * f * t + rng.uniform(0, 6))
  g = np.random.RandomState(rng.randrange(2**31))
  x += 10**rng.uniform(-5, -1.5) * g.randn(n)
  if rng.random() < .3:
    x[:rng.randint(0, n // 2)] = 0
  return x


def fit_trace(rng):
  """A whole analysis: its saved peaks and its final tracks"""
  cls, trk = rng.choice([(sm.SinusoidalModel, "sine"), (mm.ModalModel, "modal"),
                         (mm.ModalModel, "modal")])
  cap = rng.choice([1, 2, 4, 50])
  kw = dict(w=np.hamming(rng.choice([32, 33, 64])), n=rng.choice([64, 128]),
            t=rng.choice([-90, -60, -30]), tracker__fs=8000,
            tracker__h=rng.choice([8, 16, 32, 100]),
            tracker__max_n_sines=cap,
            tracker__min_sine_dur=rng.choice([0, .01, .02]),
            tracker__freq_dev_offset=rng.choice([20, 200]),
            tracker__freq_dev_slope=rng.choice([0., .01, .1]),
            intermediate__save=True, padded=rng.random() < .5)
  if trk == "modal":
    kw.update(tracker__reverse=rng.random() < .4,
              tracker__merge_strategy=rng.choice(["average", "single"]),
              tracker__frequency_bounds=(None, None),
              tracker__peak_threshold=rng.choice([-90, -200]),
              tracker__strip_t=rng.choice([None, None, .02]))
  x = signal(rng, rng.choice([0, 20, 200, 500, 700]))

  def go():
    m = cls(**kw).fit(x)
    peaks = m.intermediate.get_state().get("peaks", [])
    return [tuple(np.array(a, dtype=float) for a in p) for p in peaks], \
        list(m.tracks_)

  ok, r = vlib.attempt(go)
  cfg = dict(d.BASE, cap=cap, obs="final",
             merge="average" if trk == "modal" else "none")
  if not ok:
    return dict(cfg=cfg, events=[dict(peaks=[], nact=0, pub=[], tracks=[],
                                      err=r)])
  fs_n = kw["tracker__fs"] / kw["n"]
  events, ids, k = [], [], 0
  for loc, mag, ph in r[0]:
    pk, table = [], {}
    for a, b, e in zip(loc, mag, ph):
      k += 1
      pk.append(dict(f=k, m=k, id=k))
      table[(float(a * kw["tracker__fs"] / kw["n"]), float(b), float(e))] = k
    ids.append(table)
    events.append(dict(peaks=pk, nact=0, pub=[], tracks=[], err=""))
  del fs_n
  tracks = []
  for t in r[1]:
    s = vlib.xint(t["start_frame"])
    pts = []
    cols = [np.asarray(t[q]).ravel() for q in ("freq", "mag", "phase")]
    sizes = {q.size for q in cols}
    for i in range(max(sizes)):
      v = tuple(float(q[i]) for q in cols) if len(sizes) == 1 else None
      if v is None:
        q = vlib.BAD
      elif all(d.is_nan(z) for z in v):
        q = 0
      else:
        q = vlib.BAD
        if s != vlib.BAD and 0 <= s + i < len(ids):
          tb = ids[s + i]
          q = tb.get(v, vlib.BAD)
          if q == vlib.BAD:  # same up to rounding
            for key, j in tb.items():
              if np.allclose(key, v, rtol=1e-9, atol=1e-9):
                q = j
      pts.append(dict(f=q, m=q, id=q))
    tracks.append(dict(start=s, pts=pts))
  if not events:
    events = [dict(peaks=[], nact=0, pub=[], tracks=[], err="")]
  events[-1]["tracks"] = tracks
  return dict(cfg=cfg, events=events)


def run(c):
  """Drive and validate"""
  c.design("MC_Tracker.tla",
           "MC_Tracker.cfg" if vlib.THOROUGH else "MC_Tracker_quick.cfg")
  rng = d.rng_for("p01")
  traces = []
  for b in d.tlc_hists(2000 if vlib.THOROUGH else 200):
    k = dict(b["c"], kind="open", hasstrip=False, obs="frame")
    traces.append(d.record(k, b["hist"]))
  n = 9000 if vlib.THOROUGH else 1200
  for _ in range(n):
    k = dict(d.BASE, kind="open", obs="frame",
             merge=rng.choice(["none", "average", "single"]),
             cap=rng.choice([0, 1, 2, 3, 6]), off=rng.choice([0, 1, 3, 5]),
             sn=rng.choice([0, 1]), sd=rng.choice([1, 4, 16]),
             rev=rng.random() < .3)
    if rng.random() < .5:
      h = d.random_hist(rng, rng.randint(1, 9), 5, rng.choice([8, 40]), 4,
                        distinct=rng.random() < .7)
    else:
      h = d.partials_hist(rng, rng.randint(4, 14), rng.randint(1, 5), 30,
                          drop=rng.choice([.1, .4]))
    traces.append(d.record(k, h))
  c.validate("ConserveTrace.tla", traces, label="conservation")
  fits = [fit_trace(rng) for _ in range(600 if vlib.THOROUGH else 80)]
  c.validate("ConserveTrace.tla", fits, label="conservation in a whole fit")
