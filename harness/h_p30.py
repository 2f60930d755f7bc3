"""P30: every track can be fitted, from a start within its bounds."""
import random
import warnings

import numpy as np
import vlib
from sample.beatsdrop import regression
from sample.beatsdrop.sample import SAMPLEBeatsDROP
from sample.hinge import HingeRegression
from sklearn.linear_model import LinearRegression


def ranks(*values):
  """Ranks of values among each other"""
  order = {v: i for i, v in enumerate(sorted(set(values)))}
  return [order[v] for v in values]


def levels(rnd, t):
  """Levels (dB) of a track"""
  n = len(t)
  kind = rnd.choice(["flat", "rise", "fall", "fall", "slow", "const", "noise",
                     "beat"])
  k = dict(flat=0, rise=rnd.uniform(1, 60), fall=-rnd.uniform(1, 60),
           slow=-rnd.uniform(0, .1), const=0, noise=-10, beat=-12)[kind]
  a = rnd.uniform(-90, 0) + k * (t - t[0])
  if kind == "beat":
    a = a + 20 * np.log10(1 + .5 * np.cos(2 * np.pi * rnd.uniform(3, 30) * t))
  std = dict(const=0, noise=3).get(kind, rnd.choice([0, .01, .3]))
  return a + std * np.array([rnd.gauss(0, 1) for _ in range(n)])


def times(rnd):
  """Times of the frames of a track"""
  n = rnd.choice([2, 3, rnd.randrange(2, 60)])
  return (np.arange(n) * rnd.choice([64, 256, 512]) / 44100
          + rnd.choice([0, 0, rnd.uniform(0, 2)]))


def clean(v):
  """As plain numbers"""
  return [float(x) for x in v]


def beat(rnd):
  """One beat regression of a track"""
  while True:
    t = times(rnd)
    a = levels(rnd, t)
    slope, icpt = np.polyfit(t, a, 1)
    # what the level extrapolated to time zero is must be representable
    if abs(icpt) < 600 and abs(slope * np.max(t)) < 600:
      break
  f = rnd.uniform(50, 8000) + np.array([rnd.gauss(0, 1) for _ in t]) * (
      rnd.choice([0, .1, 3]))
  cls = rnd.choice([regression.BeatRegression, regression.DualBeatRegression,
                    regression.DualBeatRegression])
  seen = {}
  default = cls()

  def init(*args):
    seen["start"] = clean(default.params_init(*args))
    seen["res"] = args[3]
    return tuple(seen["start"])

  def bounds(*args):
    b = default.bounds(*args)
    seen["bounds"] = [clean(v) for v in b]
    return b

  kw = dict(fs=rnd.choice([100, 1000]))
  if cls is regression.DualBeatRegression:
    kw["disambiguate"] = rnd.random() < .5
  m = cls(params_init=init, bounds=bounds, **kw)
  opts = dict(loss=rnd.choice(["cauchy", "linear"]))
  if rnd.random() < .8:
    opts["max_nfev"] = rnd.choice([1, 5])
  else:
    opts["max_nfev"] = 60
  copies = [v.copy() for v in (t, a, f)]
  ok, r = vlib.attempt(m.fit, t, a, f, secs=60, **opts)
  if ok and not all(np.array_equal(x, z) for x, z in zip(copies, (t, a, f))):
    ok, r = False, "changed its arguments"
  if not ok:
    return dict(kind="beat", err=str(r))
  res = clean(m.result_.x)
  lo, hi = seen["bounds"]
  amp = 10 ** (a / 20)
  lows = [np.min(amp)] * 2 + [np.min(f)] * 2 + [0.] * 4
  highs = [np.max(amp)] * 2 + [np.max(f)] * 2 + [0.] * 4
  params, zero, extremes = [], [], []
  for j in range(8):
    # observed amplitudes up to rounding
    x, z = (float(v) for v in (lows[j] * (1 + 1e-9), highs[j] * (1 - 1e-9)))
    if j in (2, 3):
      x, z = float(lows[j]), float(highs[j])
    c = ranks(lo[j], seen["start"][j], hi[j], res[j], x, z, 0.)
    params.append(dict(zip(("lo", "st", "hi", "re"), c)))
    extremes.append([c[4], c[5]])
    zero.append(c[6])

  def cost(p):
    v = np.square(seen["res"](p))
    return .5 * float(np.sum(np.log1p(v) if opts["loss"] == "cauchy" else v))

  c0, c1 = cost(seen["start"]), cost(res)
  return dict(kind="beat", err="", params=params, zero=zero,
              seen=extremes[:4],
              turn=[round(1000 * (hi[j] - lo[j]) / np.pi) for j in (6, 7)],
              cost=ranks(c0, min(c1, c0) if c1 <= c0 * (1 + 1e-9) else c1))


class Line(LinearRegression):
  """Linear regressor with other names"""

  def fit(self, X, y, sample_weight=None):
    super().fit(X, y, sample_weight)
    self.slope_, self.base_ = self.coef_, self.intercept_
    self.coef_ = self.intercept_ = None
    return self


def hinge(rnd):
  """One hinge regression of integer data"""
  n = rnd.choice([2, 3, rnd.randrange(2, 12)])
  x = sorted(rnd.sample(range(rnd.choice([n, 40])), n))
  if rnd.random() < .04:
    x = [x[0]] * n
  y = [rnd.randrange(-60, 1) for _ in range(n)]
  kind = rnd.choice(["any", "any", "const", "fall", "rise"])
  if kind == "const":
    y = [y[0]] * n
  elif kind != "any":
    y.sort(reverse=kind == "fall")
  den = n * sum(v * v for v in x) - sum(x) ** 2
  default = HingeRegression()
  seen = {}

  def init(x_, y_, k, q):
    seen["lin"] = k, q
    seen["start"] = clean(default.coeffs_init(x_, y_, k, q))
    return tuple(seen["start"])

  def bounds(*args):
    b = default.bounds(*args)
    seen["bounds"] = [clean(v) for v in b]
    return b

  kw = {}
  if rnd.random() < .3:
    kw = dict(linear_regressor=Line(), linear_regressor_k="slope_",
              linear_regressor_q="base_")
  m = HingeRegression(coeffs_init=init, bounds=bounds,
                      method=rnd.choice(["dogbox", "trf"]), **kw)
  ax, ay = np.array(x, dtype=float)[:, None], np.array(y, dtype=float)
  if rnd.random() < .3:
    ay = ay[:, None]
  opts = dict(max_nfev=rnd.randrange(1, 4)) if rnd.random() < .3 else {}
  ok, r = vlib.attempt(m.fit, ax, ay, secs=60, **opts)
  if ok and (ax[:, 0].tolist() != x or np.ravel(ay).tolist() != y):
    ok, r = False, "changed its arguments"
  if ok and m.result_.nfev > opts.get("max_nfev", 10 ** 9):
    ok, r = False, "more evaluations than allowed"
  if not ok:
    return dict(kind="hinge", err=str(r))
  res = clean(m.coeffs_)
  if res != clean([m.a_, m.k_, m.q_]):
    return dict(kind="hinge", err="other coefficients in its attributes")
  lo, hi = seen["bounds"]
  params, knees = [], []
  for j in range(3):
    c = ranks(lo[j], seen["start"][j], hi[j], res[j], float(x[0]), float(x[-1]))
    params.append(dict(zip(("lo", "st", "hi", "re"), c)))
    knees.append(c[4:])

  def cost(p):
    h = p[1] * np.minimum(ax[:, 0], p[0]) + p[2]
    return float(np.sum(np.square(h - np.ravel(ay))))

  c0, c1 = cost(seen["start"]), cost(res)
  return dict(kind="hinge", err="", x=x, y=y, params=params, seen=knees[0],
              lin=[vlib.xround(float(v) * den, tol=1e-5) for v in seen["lin"]],
              cost=ranks(c0, min(c1, c0) if c1 <= c0 * (1 + 1e-9) + 1e-18
                         else c1))


def refuse(rnd):
  """Bounds that exclude the start are refused"""
  p = [rnd.uniform(.1, 1), rnd.uniform(.1, 1), 100., 104., .5, .6, 0., 1.]
  lo, hi = [v - .05 for v in p], [v + .05 for v in p]
  j = rnd.randrange(8)
  how = rnd.randrange(4)
  if how == 0:
    lo[j] = p[j] + .01
  elif how == 1:
    hi[j] = p[j] - .01
  elif how == 2:
    lo[j] = p[j]
  else:
    p[j] = float("nan")
  cls = rnd.choice([regression.BeatRegression, regression.DualBeatRegression])
  m = cls(params_init=lambda *a: tuple(p), bounds=lambda *a: (lo, hi))
  t = np.arange(30) / 100
  ok, r = vlib.attempt(m.fit, t, -9. - 20 * t, 100. + t, max_nfev=1)
  return dict(kind="refuse", err="", out="ok" if ok else str(r))


def predict(rnd):
  """The prediction of known coefficients"""
  x = [rnd.randrange(-20, 20) for _ in range(rnd.randrange(1, 9))]
  a, k, q = (rnd.randrange(-15, 16) for _ in range(3))
  m = HingeRegression()
  m.coeffs_ = np.array([a, k, q], dtype=float)
  col = rnd.random() < .5
  arr = np.array(x, dtype=rnd.choice([float, int]))
  arr = arr[:, None] if col else arr
  ok, r = vlib.attempt(m.predict, arr)
  if ok and (np.shape(r) != arr.shape or np.ravel(arr).tolist() != x):
    ok, r = False, "shape"
  return dict(kind="predict", err="" if ok else str(r), x=x, a=a, k=k, q=q,
              got=[vlib.xint(v) for v in np.ravel(r)] if ok else [])


def whole(c, rnd):
  """Analysis of sounds with partials that rise, stay or slowly decay"""
  fs = 8000
  t = np.arange(fs) / fs
  rs = np.random.RandomState(rnd.randrange(10 ** 6))
  x = 1e-4 * rs.randn(fs)
  for f in (440, 900, 2000, 3000):
    b, e = (0, .7) if f in (440, 3000) else (.1, .6)
    env = np.exp(-rnd.choice([-1, 0, .03, 3, 10]) * t)
    x += rs.rand() * env * np.cos(2 * np.pi * f * t + 6 * rs.rand()) * (
        (t > b) & (t < e))
  m = SAMPLEBeatsDROP(sinusoidal__n=1024, sinusoidal__tracker__fs=fs,
                      sinusoidal__tracker__h=64,
                      sinusoidal__tracker__max_n_sines=10,
                      sinusoidal__tracker__reverse=rnd.random() < .5,
                      sinusoidal__tracker__strip_t=.01,
                      sinusoidal__tracker__peak_threshold=-60)
  ok, r = vlib.attempt(m.fit, x, secs=120)
  c.expect(ok, f"the analysis of a sound raises {r}", dict(x=x.tolist()))


def late(c):
  """A track whose level extrapolated to time zero is not representable"""
  t = 100 + np.arange(20) * 64 / 44100
  a = -20 - 300 * (t - 100)
  f = 440 + np.sin(1e5 * t)
  ok, r = vlib.attempt(regression.DualBeatRegression().fit, t, a, f, max_nfev=2)
  c.expect(ok, "late steep track (from 100 s, -300 dB/s): "
           f"DualBeatRegression.fit raises {r}")


def run(c):
  """Entry point"""
  warnings.simplefilter("ignore")
  np.seterr(all="ignore")
  c.design("MC_Start.tla",
           "MC_StartDeep.cfg" if vlib.THOROUGH else "MC_Start.cfg",
           timeout=3000)
  c.design_violates("MC_Start.tla", "MC_Start_narrow.cfg", ["FreqFeasible"])
  c.design_violates("MC_Start.tla", "MC_Start_decaying.cfg", ["DecayFeasible"])
  c.design_violates("MC_Start.tla", "MC_Start_free.cfg", ["Inside"])
  rnd = random.Random(vlib.SEED)
  m = 10 if vlib.THOROUGH else 1
  traces = ([beat(rnd) for _ in range(300 * m)]
            + [hinge(rnd) for _ in range(400 * m)]
            + [refuse(rnd) for _ in range(60 * m)]
            + [predict(rnd) for _ in range(200 * m)])
  c.validate("StartTrace.tla", traces)
  for _ in range(6 * m):
    whole(c, rnd)
  late(c)
  c.assumptions += [
      "tracks whose level, extrapolated to time zero, is within 600 dB; costs "
      "and initial lines are recomputed from their definitions"]
