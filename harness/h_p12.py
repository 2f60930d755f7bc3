"""P12: the mode table lists exactly the valid modes of the tracks."""
import math
import random

import numpy as np
import vlib
from sample import sample as smp
from sample.beatsdrop import decision, regression
from sample.beatsdrop import sample as bds
from sample.sms import mm, sm
from sklearn import base

EPS = float(np.finfo(float).eps)
HALF = EPS / 2
# code -> value; 0 is for what is not finite
VALS = [None, 0., HALF, EPS, 2 * EPS, 3 * EPS, .5, 1., 2., 3., 7., -1., 1e-9,
        100., 440., 1e4, 1e300, -3.5]
NF = [float("nan"), float("inf"), float("-inf")]
SCRIPT = []          # per track: dict(lin=(f, d, a), beats=..., say=...)


def code(v):
  """Code of a value"""
  v = float(v)
  if not math.isfinite(v):
    return 0
  best = [i for i, u in enumerate(VALS) if u is not None
          and abs(u - v) <= 1e-7 * abs(u)]
  return best[0] if best else vlib.BAD


class Tracks(mm.ModalTracker):
  """Tracker with prescribed tracks; the mags carry the track number"""

  def __call__(self, *args):
    return self

  @property
  def all_tracks_(self):
    """Prescribed"""
    return iter([dict(start_frame=i % 3, freq=np.full(3 + i % 2, t["f"]),
                      mag=np.full(3 + i % 2, 10. * i),
                      phase=np.zeros(3 + i % 2))
                 for i, t in enumerate(SCRIPT)])

  @property
  def tracks_(self):
    """Prescribed"""
    return list(self.all_tracks_)

  @tracks_.setter
  def tracks_(self, v):
    pass


def who(mag):
  """Track number"""
  return int(round(float(mag[0]) / 10.))


class Regressor(base.BaseEstimator):
  """Prescribed line"""

  def fit(self, x, y):
    """As prescribed for the track"""
    del x
    t = SCRIPT[who(np.asarray(y) - 6.)]
    with np.errstate(all="ignore"):
      self.k_ = np.float64(-40 * math.log10(math.e)) / np.float64(t["d"])
      self.q_ = 20 * np.log10(np.float64(t["a"]))
    return self


class Beats(regression.BeatRegression):
  """Prescribed beats"""

  def fit(self, t, a, f, **kwargs):  # pylint: disable=W0221
    """As prescribed for the track"""
    self.params_ = SCRIPT[who(np.asarray(a) - 6.)]["beats"]
    return self


class Scripted(decision.BeatDecisor):
  """Prescribed decisions"""

  def decide_beat(self, i, t, track, beatsdrop, params):
    return SCRIPT[i]["say"]


def value(rng, bad):
  """Value and code"""
  if rng.random() < bad:
    return rng.choice(NF)
  return VALS[rng.randrange(1, len(VALS))]


def track(rng, dec, bad):
  """One prescribed track: real script and abstract record"""
  f = value(rng, bad)
  d = value(rng, 0)
  a = abs(value(rng, bad))
  if rng.random() < bad:
    d = rng.choice([float("nan"), float("inf")])
  # decays and amplitudes go through the regression's slope and intercept
  if math.isfinite(d) and (abs(d) < 1e-3 or abs(d) > 1e200):
    d = 2.
  if math.isfinite(a) and abs(a) > 1e200:
    a = 3.
  if math.isfinite(a) and rng.random() < .1:
    a = 0.
  bt = [value(rng, bad) for _ in range(8)]
  if rng.random() < .6:      # a0, a1 and frequencies near the threshold
    small = [0., HALF, EPS, 2 * EPS, 3 * EPS, 1.]
    bt[0], bt[1] = rng.choice(small), rng.choice(small)
    if rng.random() < .6:
      bt[2], bt[3] = rng.choice(small), rng.choice([0., 0., EPS, 1.])
  a0, a1, f0, f1, d0, d1, p0, p1 = bt
  with np.errstate(all="ignore"):
    df = float(np.float64(f0) - np.float64(f1))

  def half(v):
    if math.isnan(v):
      return -1
    return int(round(max(-1e6, min(1e6, v / HALF))))

  say = rng.random() < .5
  real = dict(f=f, d=d, a=a, beats=tuple(bt), say=say)
  dcode = code(d)
  abs_ = dict(lin=[code(f), dcode, code(a)],
              beats=[[code(f0), code(d0), code(a0), code(p0)],
                     [code(f1), code(d1), code(a1), code(p1)]],
              dec=dec, say=say, a0=half(abs(a0)), a1=half(abs(a1)), df=0 if math.isnan(df) else half(df),
              dfnan=math.isnan(df), th=1)
  return real, abs_


def one(rng, n=None):
  """One fit"""
  dec = rng.choice(["plain", "never", "script", "almost", "almost"])
  bad = rng.choice([0., .1, .4, .9])
  n = rng.choice([0, 1, 2, 3, 4, 6]) if n is None else n
  ts = [track(rng, dec, bad) for _ in range(n)]
  SCRIPT[:] = [t[0] for t in ts]
  th = rng.choice([1, 1, 2]) if dec == "almost" else 1
  for t in ts:
    t[1]["th"] = th
  save = rng.random() < .5
  kw = dict(sinusoidal=sm.SinusoidalModel(tracker=Tracks(fs=1000, h=10),
                                          w=np.ones(16), n=32),
            regressor=Regressor())
  if dec == "plain":
    m = smp.SAMPLE(**kw)
  else:
    d = dict(never=decision.BeatDecisor, script=Scripted,
             almost=decision.AlmostNotABeatDecisor)[dec]()
    if dec == "almost":
      d.set_params(th=th)
    m = bds.SAMPLEBeatsDROP(beatsdrop=Beats(), beat_decisor=d,
                            beat_decisor__intermediate__save=save, **kw)
  out = dict(kind="plain" if dec == "plain" else "beats",
             tracks=[t[1] for t in ts], err="", rows=0, table=[], access=[],
             look=False, saved=[])
  ok, r = vlib.attempt(m.fit, np.zeros(rng.choice([8, 100])))
  if not ok:
    out["err"] = r
    return out
  p = np.asarray(m.param_matrix_)
  out["rows"] = int(p.shape[0]) if p.ndim == 2 else 0
  out["table"] = [[code(v) for v in c] for c in p.T]
  acc = [m.freqs_, m.decays_, m.amps_]
  if dec != "plain":
    acc.append(m.phases_)
    if save and ts:
      out["look"] = True
      out["saved"] = [bool(b) for b in m.beat_decisor.intermediate["decision"]]
  out["access"] = [[code(v) for v in np.ravel(x)] for x in acc]
  return out


def run(c):
  """Drive and validate"""
  c.design("MC_ModeTable.tla", "MC_ModeTable.cfg")
  rng = random.Random(f"p12-{vlib.SEED}")
  tr = [one(rng) for _ in range(12000 if vlib.THOROUGH else 1500)]
  tr.append(one(rng, 300))
  c.validate("ModeTableTrace.tla", tr, label="mode table")
  c.extra["tracks"] = sum(len(t["tracks"]) for t in tr)
  c.extra["columns"] = sum(len(t["table"]) for t in tr)
