"""P40: regressions of beats minimise the differences they announce."""
import math
import random
import warnings

import numpy as np
import vlib
from sample.beatsdrop import regression
from sklearn import linear_model

LN = 4 * np.log(2)
WIDE = ([-1e4] * 8, [1e4] * 8)


def db(v):
  """Decibels"""
  return 20 * np.log10(np.asarray(v, dtype=float))


def partial(rnd, top=4, k=(0, 1)):
  """Amplitude, halvings per quarter second, frequency, quarter turns at zero"""
  return dict(a=rnd.randrange(top), k=rnd.choice(k), f=rnd.randrange(20),
              q=rnd.randrange(4))


def now(p, n, top):
  """A partial after n quarters, amplitudes times 2 ** (top * n)"""
  return dict(a=p["a"] * 2 ** ((top - p["k"]) * n), k=p["k"], f=p["f"],
              q=(p["q"] + p["f"] * n) % 4)


def params(rnd, *ps):
  """As the model takes them"""
  return tuple(float(p["a"]) for p in ps) + tuple(
      float(p["f"]) for p in ps) + tuple(
          2 / (LN * p["k"]) if p["k"] else 1e300 for p in ps) + tuple(
              (p["q"] + 4 * rnd.randrange(-1, 2)) * np.pi / 2 for p in ps)


class Residuals(Exception):
  """Stops a fit once it has started"""


def residuals(m, t, a, f, p):
  """Residuals of a regression for some parameters"""
  got = []

  def start(t_, a_, f_, fn, model):
    del t_, a_, f_, model
    got.append(fn(p))
    raise Residuals

  m.set_params(params_init=start)
  before = [np.copy(z) for z in (t, a, f)]
  ok, r = vlib.attempt(m.fit, t, a, f)
  if not all(map(np.array_equal, before, (t, a, f))):
    return False, "the track has changed"
  if got:
    return True, np.ravel(np.array(got[0], dtype=float))
  return False, "no residual" if ok else r


def amp(rnd):
  """Residuals of amplitude"""
  u, v = partial(rnd), partial(rnd)
  v["f"] = u["f"] + 2 * rnd.randrange(-5, 6)
  v["q"] = (u["q"] + 2 * rnd.randrange(2)) % 4
  n0, n = rnd.choice([0, rnd.randrange(5)]), rnd.randrange(1, 7)
  A = [rnd.randrange(1, 9) for _ in range(n)]
  at = sorted(rnd.sample(range(n0, n0 + 10), n))
  fs = rnd.choice([4, 20, 100, 100, 1000])
  t = np.array(at + [at[-1] + 1]) / 4.   # the last is on the end of the grid
  kw = {} if fs == 100 and rnd.random() < .5 else dict(fs=fs)
  ok, r = residuals(regression.BeatRegression(**kw), t, db(A + [1]),
                    np.zeros(n + 1), params(rnd, u, v))
  top = max(u["k"], v["k"])
  pts = [dict(u=now(u, j, top), v=now(v, j, top), unit=2 ** (top * j))
         for j in at]
  out = dict(kind="amp", err="" if ok else str(r), A=A, pts=pts)
  return dict(out, got=[vlib.xround(abs(z) * p["unit"], tol=1e-5)
                        for z, p in zip(r, pts)] if ok else [])


def dual(rnd):
  """Residuals of amplitude and frequency"""
  u, v = partial(rnd, 5, (0,)), partial(rnd, 5, (0,))
  while u["a"] == v["a"]:
    v = partial(rnd, 5, (0,))
  if rnd.random() < .5:
    v["f"] = max(u["f"] % 2, u["f"] + 2 * rnd.randrange(-2, 3))
  else:
    v["f"] = u["f"] % 2 + 2 * rnd.randrange(10)
  v["q"] = (u["q"] + 2 * rnd.randrange(2)) % 4
  n = rnd.choice([5, 5, 9, 13])
  at = sorted(rnd.sample(range(0, 30), n))
  A = [rnd.randrange(1, 9) for _ in at]
  f = [rnd.randrange(-20, 21) for _ in at]
  c = rnd.choice([-1, 0, 1, 2, 4, 10, 10])
  w = rnd.randrange(4)
  seen = {}
  ta, tf = ([rnd.randrange(-9, 10) for _ in at] for _ in range(2))

  def aloss(true, est):
    seen["a"] = np.array(true), np.array(est)
    return np.array(ta, dtype=float)

  def floss(true, est):
    seen["f"] = np.array(true), np.array(est)
    return np.array(tf, dtype=float)

  kw = dict(freq_clip=None if c < 0 else c / 4)
  if c == 10 and rnd.random() < .5:
    kw = {}
  m = regression.DualBeatRegression(
      amp_loss=aloss, freq_loss=floss, freq_w=float(w),
      disambiguate=rnd.random() < .5, **kw)
  ok, r = residuals(m, np.array(at) / 4, db(A), np.array(f, dtype=float),
                    params(rnd, u, v))
  out = dict(kind="dual", err="" if ok else str(r), A=A, f=f, c=c, w=w, ta=ta,
             tf=tf, pts=[dict(u=now(u, j, 0), v=now(v, j, 0)) for j in at])
  if not ok:
    return out
  ints = lambda q, s, tol: [vlib.xround(z, s, tol) for z in np.ravel(q)]
  return dict(out, atrue=ints(seen["a"][0], 1, 1e-6),
              aest=ints(seen["a"][1], 1, 1e-6),
              ftrue=ints(seen["f"][0], 1000, 1e-6),
              fest=ints(seen["f"][1], 1000, 1),
              ssq=vlib.xround(np.sum(r ** 2)))


def mel(rnd):
  """Default losses: only one partial, whose frequency is off"""
  g, h = rnd.randrange(20), rnd.randrange(20)
  hz = lambda z: 700 * (10 ** (z / 12) - 1)
  n = rnd.choice([5, 9])
  m = regression.DualBeatRegression()
  w = 1 / 3800
  if rnd.random() < .5:
    w = rnd.choice([1e-3, 1., 20.])
    m.set_params(freq_w=w)
  A = rnd.randrange(1, 9)
  ok, r = residuals(m, np.arange(n) / 7, db([A] * n), np.full(n, hz(g)),
                    (float(A), 0., hz(h), 5., 1e300, 1e300, rnd.random(), 0.))
  out = dict(kind="mel", err="" if ok else str(r), g=g, h=h)
  if not ok:
    return out
  r = np.sqrt(np.sum(r ** 2) / n)     # no residual of amplitude
  return dict(out, got=vlib.xround(r / w, 12, 1e-5))


def begin(m, t, a, f):
  """Where a fit begins by default"""
  ok, r = vlib.attempt(m.fit, t, a, f, max_nfev=1)
  if not ok:
    return False, r
  return True, [float(z) for z in m.initial_params_]


def regress(rnd):
  """A regression whose disambiguation does not matter"""
  fs = rnd.choice([100, 100, 200])
  kw = {} if fs == 100 and rnd.random() < .5 else dict(fs=fs)
  if rnd.random() < .3:
    kw["linear_regressor"] = linear_model.LinearRegression()
  return rnd.choice([regression.BeatRegression,
                     regression.DualBeatRegression])(**kw)


def start(rnd):
  """Start for levels on a line"""
  m, d = rnd.randrange(-6, 5), rnd.uniform(.2, 50)
  h, n = rnd.choice([.005, .01, 256 / 44100]), rnd.randrange(50, 200)
  t = rnd.choice([0, rnd.uniform(0, 1)]) + np.arange(n) * h
  mean = rnd.uniform(100, 5000)
  f = np.cumsum([rnd.choice([-.1, .1]) for _ in t])
  f += mean - np.mean(f)
  # ripples that leave the line as it is
  ok, p = begin(regress(rnd), t, db(2. ** m) - 40 * np.log10(np.e) / d * t, f)
  out = dict(kind="start", err="" if ok else str(p))
  if not ok:
    return out
  want = [2. ** m / 2, 2. ** m / 2, d, d, 2 * mean]
  got = [p[0], p[1], p[4], p[5], p[2] + p[3]]
  return dict(out, got=[vlib.xround(g / w, 1000, 1e-6)
                        for g, w in zip(got, want)])


def rate(rnd):
  """Start for two partials which beat"""
  T, d = rnd.uniform(.7, 2), rnd.uniform(.3, 3)
  B, phi = rnd.uniform(6 / T, 12), rnd.uniform(0, 2 * np.pi)
  h, g = rnd.choice([.005, .01, 256 / 44100]), rnd.uniform(.75, .9)
  t = rnd.choice([0, rnd.uniform(0, 2)]) + np.arange(0, T, h)
  a = np.abs(1 + g * np.exp(1j * (2 * np.pi * B * t + phi))) * np.exp(-2 * t / d)
  a = a * 10 ** rnd.uniform(-3, 1)
  mean = rnd.uniform(100, 5000)
  f = np.array([rnd.gauss(0, .1) for _ in t])
  f += mean - np.mean(f)
  ok, p = begin(regress(rnd), t, db(a), f)
  out = dict(kind="rate", err="" if ok else str(p))
  if not ok:
    return out
  b = p[2] - p[3]
  off = (b - B * np.sign(b)) * np.mean(t) + (
      p[6] - p[7] - phi * np.sign(b)) / (2 * np.pi)
  off -= np.round(off)
  return dict(out, rate=vlib.xround(abs(b) / B, 100, math.inf),
              phase=vlib.xround(off, 100, math.inf),
              mean=vlib.xround((p[2] + p[3]) / (2 * mean), 1000, 1e-6))


def call(rnd):
  """What a fit asks for, in order"""
  n = rnd.randrange(5, 30)
  t = np.arange(n) / 50 + .02
  a, f = (np.array([rnd.uniform(-60, 0) for _ in t]) for _ in range(2))
  begin_ = tuple(float(z) for z in rnd.sample(range(1, 1000), 8))
  lo, hi = [z - 1. for z in begin_], [z + 2. for z in begin_]
  events, fns = [], []
  kw = {}
  cls = regression.BeatRegression
  if rnd.random() < .5:
    cls = regression.DualBeatRegression
    kw = dict(disambiguate=False)

  def note(what, good=True):
    if what not in events[-1:]:
      events.append(what if good else what + " of something else")

  def same(args, model):
    return all(x is y or np.array_equal(x, y)
               for x, y in zip(args, (t, a, f))) and model is m

  def init(t_, a_, f_, fn, model):
    fns.append(fn)
    note("start", same((t_, a_, f_), model))
    return begin_

  def bounds(t_, a_, f_, p, model):
    note("bounds", same((t_, a_, f_), model) and tuple(p) == begin_)
    return lo, hi

  def jac(x, *args, **kws):
    del args, kws
    # the extra argument of the caller arrives, and the start
    note("optimise", tuple(x) == begin_)
    return np.zeros((np.size(fns[0](x)), 8))

  m = cls(params_init=init, bounds=bounds, **kw)
  ok, r = vlib.attempt(m.fit, t, a, f, jac=jac)
  out = dict(kind="call", err="" if ok else str(r), events=events,
             fitted=[int(z) for z in begin_], kept=[])
  if not ok:
    return out
  if r is not m:
    note("something else returned")
  return dict(out, events=events, kept=[vlib.xint(z) for z in m.params_])


def run(c):
  """Entry point"""
  warnings.simplefilter("ignore")
  np.seterr(all="ignore")
  c.design("MC_Resid.tla", "MC_ResidDeep.cfg" if vlib.THOROUGH
           else "MC_Resid.cfg", timeout=3000)
  for v in ("fromzero", "unweighted"):
    c.design_violates("MC_Resid.tla", f"MC_Resid_{v}.cfg", ["Truth"])
  rnd = random.Random(vlib.SEED)
  k = 10 if vlib.THOROUGH else 1
  traces = [f(rnd) for f, n in ((amp, 300), (dual, 400), (mel, 60),
                                (start, 60), (rate, 100), (call, 60))
            for _ in range(n * k)]
  c.validate("ResidTrace.tla", traces)
  c.assumptions += [
      "residuals at multiples of a quarter second and integer frequencies, "
      "partials in phase or in opposition, levels that do not fall where "
      "frequencies are compared (1/100 Hz)",
      "the start of a fit is compared exactly (one part in a million) for "
      "levels on a line, and within 15% and a fifth of turn for beats with at "
      "least six periods"]
