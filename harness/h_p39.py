"""P39: psychoacoustic scales are the published ones."""
import math
import random

import numpy as np
import vlib
from sample import psycho

CRITICAL = [100, 200, 300, 400, 510, 630, 770, 920, 1080, 1270, 1480, 1720,
            2000, 2320, 2700, 3150, 3700, 4400, 5300, 6400, 7700, 9500,
            12000, 15500]
# scale: function, name of the definition, unit, points, frequency of a point
POINTS = {
    "zwicker": (psycho.hz2bark, "zwicker", 100, 24, CRITICAL.__getitem__),
    "traunmuller": (psycho.hz2bark, "traunmuller", 1000, 200,
                    lambda g: 100 * g),
    "wang": (psycho.hz2bark, "wang", 100000, 24,
             lambda g: 600 * math.sinh(g * math.log(2) / 4)),
    "mel": (psycho.hz2mel, "default", 1200, 19,
            lambda g: 700 * (10 ** (g / 12) - 1)),
    "fant": (psycho.hz2mel, "fant", 100, 18,
             lambda g: 1000 * (2 ** (g / 4) - 1)),
    "erb": (psycho.erb, "quadratic", 10000, 200, lambda g: 100 * g),
    "erb linear": (psycho.erb, "linear", 10000, 200, lambda g: 100 * g),
    "cams": (psycho.hz2cams, "quadratic", 100000, 22,
             lambda g: (312 - 14675 * 2 ** (-g / 4)) / (2 ** (-g / 4) - 1)
             if g else math.inf),
    "cams linear": (psycho.hz2cams, "linear", 1200, 25,
                    lambda g: (10 ** (g / 12) - 1) / .00437),
    "A": (psycho.a_weighting, None, 100, 34,
          lambda g: 1000 * 10 ** ((g - 20) / 10)),
}
KEY = {psycho.hz2bark: "mode", psycho.hz2mel: "mode", psycho.erb: "degree",
       psycho.hz2cams: "degree"}
DEFAULT = {"traunmuller", "mel", "erb", "cams"}
WAYS = {
    "bark": (psycho.hz2bark, psycho.bark2hz, "mode",
             ["traunmuller", "zwicker", "wang"], ["zwicker"]),
    "mel": (psycho.hz2mel, psycho.mel2hz, "mode", ["default", "fant"], []),
    "cams": (psycho.hz2cams, psycho.cams2hz, "degree",
             ["quadratic", "linear"], []),
    "erb": (psycho.erb, None, "degree", ["quadratic", "linear"],
            ["quadratic", "linear"]),
}


def form(rnd, v):
  """The same numbers, in another form, and how to read the result"""
  how = rnd.randrange(5)
  if how == 0:
    return tuple(v), np.ravel
  if how == 1:
    return np.array(v), np.ravel
  if how == 2:
    return np.array(v)[None, :], np.ravel
  if how == 3:
    return np.array([v, v])[:, ::-1], lambda r: r[0][::-1]
  return list(v), np.ravel


def point(rnd, scale, g):
  """A value of a scale"""
  f, name, unit, _, at = POINTS[scale]
  kw = {}
  if name is not None and not (scale in DEFAULT and rnd.random() < .5):
    kw[KEY[f]] = name
  x = at(g)
  out = dict(kind="point", err="", scale=scale, g=g, form=0, v=0)
  if scale == "A" and rnd.random() < .5:
    ok, r = vlib.attempt(lambda: 20 * np.log10(
        f(x, db=False) / f(1000, db=False)))
  elif rnd.random() < .5:
    a, read = form(rnd, [x, x + 1])
    ok, r = vlib.attempt(f, a, **kw)
    r = read(r)[0] if ok else r
  else:
    ok, r = vlib.attempt(f, x, **kw)
  if not ok:
    return dict(out, err=str(r))
  return dict(out, v=vlib.xround(r, unit, tol=math.inf))


def walk(rnd):
  """To scales and back"""
  kind = rnd.choice(["bark", "bark", "mel", "cams", "erb"])
  to, fro, key, ways, oneway = WAYS[kind]
  fs = sorted(rnd.sample(range(1, 25000), rnd.randrange(1, 7)))
  out = dict(kind=kind, err="", fs=fs, steps=[])
  now = list(fs)
  for _ in range(rnd.randrange(1, 5)):
    i = rnd.randrange(len(ways))
    kw = {} if i == 0 and rnd.random() < .4 else {key: ways[i]}
    a, read = form(rnd, now)
    ok, r = vlib.attempt(to, a, **kw)
    if not ok:
      return dict(out, err=str(r))
    r = np.array(read(r), dtype=float)
    j = rnd.randrange(len(now))
    ok, one = vlib.attempt(to, now[j], **kw)
    s = dict(way=i + 1, rising=bool(np.all(np.diff(r) > 0)), back=[],
             same=ok and np.ndim(one) == 0 and bool(
                 abs(one - r[j]) <= 1e-12 * (1 + abs(r[j]))))
    if ways[i] not in oneway:
      a, read = form(rnd, r)
      ok, b = vlib.attempt(fro, a, **kw)
      if not ok:
        return dict(out, err=str(b))
      b = np.array(read(b), dtype=float)
      ok, one = vlib.attempt(fro, float(r[j]), **kw)
      s["same"] = s["same"] and ok and np.ndim(one) == 0 and bool(
          abs(one - b[j]) <= 1e-12 * abs(b[j]))
      s["back"] = [vlib.xround(u / v, 10 ** 6, 1e-3) for u, v in zip(b, fs)]
      now = b.tolist()
    out["steps"].append(s)
  return out


def run(c):
  """Entry point"""
  c.design("MC_Scale.tla", "MC_ScaleDeep.cfg" if vlib.THOROUGH
           else "MC_Scale.cfg", timeout=3000)
  for v in ("other", "const"):
    c.design_violates("MC_Scale.tla", f"MC_Scale_{v}.cfg", ["Inverse"])
  rnd = random.Random(vlib.SEED)
  k = 10 if vlib.THOROUGH else 1
  traces = [point(rnd, s, g) for s, p in POINTS.items()
            for g in range(s == "cams", p[3]) for _ in range(2)]
  traces += [walk(rnd) for _ in range(400 * k)]
  c.validate("ScaleTrace.tla", traces)
  c.assumptions += [
      "published tables: edges of critical bands (0.2 Bark), A-weighting at "
      "thirds of octave (tenths of dB); formulas of the other scales at the "
      "points where their values are fractions",
      "frequencies from 1 to 25000 Hz; back within one part in a million"]
