"""P07: time axis and data of each track's regression."""
import random

import numpy as np
import vlib
from sample import sample as sample_mod
from sample.beatsdrop import decision
from sample.beatsdrop import sample as bds
from sample.sms import mm, sm
from sklearn import base

LOG = []
BLOG = []
NIL = -888888888
DB2 = 20 * np.log10(2)


class Recorder(base.BaseEstimator):
  """Regressor that records its data"""

  def __init__(self, slope="k_", icpt="q_"):
    self.slope = slope
    self.icpt = icpt

  def fit(self, x, y):
    """Record"""
    x, y = np.asarray(x), np.asarray(y)
    LOG.append((x.shape, x.ravel().copy(), y.copy()))
    n = y.size
    setattr(self, self.slope, 0. if n % 4 == 3 else -(1. + n))
    setattr(self, self.icpt, float(y[0]))
    return self


class BeatRecorder(base.BaseEstimator):
  """Beat regressor that records its data"""

  def __init__(self, fs=1):
    self.fs = fs

  def fit(self, t, a, f):
    """Record"""
    BLOG.append((np.array(t), np.array(a), np.array(f), self.fs))
    self.params_ = (0.,) * 8
    return self


class Fixed:
  """Mixin: a tracker whose tracks are given"""
  given = ()

  @property
  def all_tracks_(self):
    """Given tracks"""
    return iter([{k: np.copy(v) for k, v in t.items()} for t in self.given])


class FixedModal(Fixed, mm.ModalTracker):
  """Modal tracker with given tracks"""


class FixedSine(Fixed, sm.SineTracker):
  """Sine tracker with given tracks"""


def tracks(rng):
  """Abstract tracks"""
  out = []
  for _ in range(rng.choice([0, 1, 1, 2, 3])):
    n = rng.randint(2, 9)
    pts = [dict(f=rng.randint(1, 900), m=rng.randint(-60, 20))
           for _ in range(n)]
    if rng.random() < .5:
      for i in range(1, n - 1):
        if rng.random() < .4:
          pts[i] = dict(f=0, m=NIL)
    out.append(dict(start=rng.randint(0, 12), pts=pts))
  return out


def concrete(t):
  """Track in the form of the code"""
  nan = float("nan")
  f = [nan if p["m"] == NIL else float(p["f"]) for p in t["pts"]]
  m = [nan if p["m"] == NIL else float(p["m"]) for p in t["pts"]]
  return dict(start_frame=np.array(t["start"]), freq=np.array(f),
              mag=np.array(m), phase=np.array(m) * 0)


REDUCE = dict(mean=np.mean, max=np.max, min=np.min, first=lambda f: f[0])


def build(rng, k, fs, beats, real):
  """Model under test"""
  slope, icpt = rng.choice([("k_", "q_"), ("coef_", "intercept_")])
  cls = bds.SAMPLEBeatsDROP if beats else sample_mod.SAMPLE
  if real:
    trk = mm.ModalTracker()
  else:
    trk = FixedModal() if k["rev"] or rng.random() < .6 else FixedSine()
  mod = mm.ModalModel if isinstance(trk, mm.ModalTracker) else \
      sm.SinusoidalModel
  kw = dict(sinusoidal=mod(tracker=trk), regressor=Recorder(slope, icpt),
            regressor_k=slope, regressor_q=icpt,
            sinusoidal__w=np.hamming(k["w"]), sinusoidal__n=256,
            sinusoidal__padded=k["padded"], sinusoidal__tracker__fs=fs,
            sinusoidal__tracker__h=k["h"])
  if mod is mm.ModalModel:
    kw["sinusoidal__tracker__reverse"] = k["rev"]
  else:
    k["rev"] = False
  if beats:
    kw.update(beatsdrop=BeatRecorder(), beat_decisor=decision.BeatDecisor())
  if k["reduce"] != "mean" or rng.random() < .5:
    kw["freq_reduce"] = REDUCE[k["reduce"]]
  return cls(**kw), trk


def ax(t, fs):
  """Times in half samples"""
  return [vlib.xround(v, 2 * fs, 1e-5) for v in t]


def trace(rng, beats):
  """One fit on given tracks"""
  k = dict(h=rng.choice([1, 3, 16, 50]), w=rng.choice([2, 7, 32, 61]),
           n=rng.randint(70, 200), padded=rng.random() < .5,
           rev=rng.random() < .5,
           reduce=rng.choice(["mean", "mean", "max", "min", "first"]))
  fs = rng.choice([64, 100, 44100])
  ts = tracks(rng)
  out = dict(kind="given tracks", k=k, tracks=ts, fits=[], beats=[],
             isbeats=beats, fs=fs, modes=[], err="")

  def go():
    m, trk = build(rng, k, fs, beats, False)
    trk.given = [concrete(t) for t in ts]
    m.fit(np.random.RandomState(1).randn(k["n"]))
    return m.param_matrix_

  del LOG[:], BLOG[:]
  ok, r = vlib.attempt(go)
  if not ok:
    out["err"] = r
    return out
  out["fits"] = [dict(t=ax(x, fs) if s == (len(y), 1) else [vlib.BAD],
                      y=[vlib.xround(v - DB2) for v in y])
                 for s, x, y in LOG]
  out["beats"] = [dict(t=ax(x, fs), y=[vlib.xround(v - DB2) for v in y],
                       f=[vlib.xround(v) for v in f], fs=vlib.xround(r_))
                  for x, y, f, r_ in BLOG]
  out["modes"] = modes(r, beats, k["reduce"],
                       lambda v, n: vlib.xround(v * n, tol=1e-6),
                       lambda q: vlib.xround(q - DB2, tol=1e-6))
  return out


def modes(mat, beats, reduce, fint, qint):
  """Abstract modes"""
  res = []
  if mat.shape[0] != (4 if beats else 3):
    return [dict(f=vlib.BAD, k=vlib.BAD, q=vlib.BAD)]
  for col in mat.T:
    kk = vlib.xround(-40 * np.log10(np.e) / col[1], tol=1e-6)
    n = -kk - 1
    if beats and col[3] != 0:
      kk = vlib.BAD
    res.append(dict(f=fint(col[0], n if reduce == "mean" else 1), k=kk,
                    q=qint(20 * np.log10(col[2]))))
  return res


def lookup(values):
  """Rank of a value among known ones, up to rounding"""
  u = np.array(sorted(set(values)))

  def fn(v):
    if not u.size:
      return vlib.BAD
    i = int(np.argmin(np.abs(u - v)))
    return i + 1 if abs(u[i] - v) <= 1e-8 * max(1, abs(v)) else vlib.BAD

  return fn


def whole(rng, beats):
  """One whole analysis of a sound"""
  fs = 8000
  k = dict(h=rng.choice([16, 33, 64]), w=rng.choice([64, 101]),
           n=rng.randint(900, 2200), padded=rng.random() < .5,
           rev=rng.random() < .5, reduce=rng.choice(["max", "min", "first"]))
  t = np.arange(k["n"]) / fs
  g = np.random.RandomState(rng.randrange(2**31))
  x = sum(np.exp(-t * rng.uniform(2, 40)) * np.cos(2 * np.pi * f * t)
          for f in rng.sample([300, 700, 1100, 1900, 2600, 3300],
                              rng.randint(1, 4))) + 1e-4 * g.randn(k["n"])
  if rng.random() < .5:  # dropouts make merged tracks
    a = rng.randint(300, 600)
    x[a:a + rng.randint(60, 200)] *= 1e-4
  out = dict(kind="whole analysis", k=k, tracks=[], fits=[], beats=[],
             isbeats=beats, fs=fs, modes=[], err="")

  def go():
    m, _ = build(rng, k, fs, beats, True)
    m.set_params(sinusoidal__tracker__min_sine_dur=.01,
                 sinusoidal__t=-60, sinusoidal__tracker__peak_threshold=-60)
    m.fit(x)
    return m.param_matrix_, m.sinusoidal.tracks_

  del LOG[:], BLOG[:]
  ok, r = vlib.attempt(go)
  if not ok:
    out["err"] = r
    return out
  mat, trs = r
  fl = lookup([v for q in trs for v in q["freq"] if v == v])
  ml = lookup([v for q in trs for v in q["mag"] if v == v])
  for q in trs:
    out["tracks"].append(dict(
        start=int(q["start_frame"]),
        pts=[dict(f=fl(f), m=ml(m)) if m == m else dict(f=0, m=NIL)
             for f, m in zip(q["freq"], q["mag"])]))
  out["fits"] = [dict(t=ax(a, fs), y=[ml(v - DB2) for v in y])
                 for _, a, y in LOG]
  out["beats"] = [dict(t=ax(a, fs), y=[ml(v - DB2) for v in y],
                       f=[fl(v) for v in f], fs=vlib.xround(r_))
                  for a, y, f, r_ in BLOG]
  out["modes"] = modes(mat, beats, k["reduce"], lambda v, n: fl(v),
                       lambda q: ml(q - DB2))
  return out


def run(c):
  """Drive and validate"""
  c.design("MC_TimeAxis.tla", "MC_TimeAxis.cfg")
  rng = random.Random(f"p07-{vlib.SEED}")
  n = 5000 if vlib.THOROUGH else 700
  tr = [trace(rng, rng.random() < .3) for _ in range(n)]
  w = [whole(rng, rng.random() < .3) for _ in range(300 if vlib.THOROUGH
                                                    else 50)]
  c.validate("TimeAxisTrace.tla", tr + w, label="time axis")
  c.extra["whole_analyses_with_tracks"] = sum(bool(t["tracks"]) for t in w)
  c.extra["whole_analyses_with_gaps"] = sum(
      any(p["m"] == NIL for q in t["tracks"] for p in q["pts"]) for t in w)
