"""P38: spectral losses are distances of spectrograms."""
import random

import numpy as np
import vlib
from sample.evaluation import metrics
from scipy import signal

LOSS = metrics.lin_log_spectral_loss
ABSENT = -10000


def lp(rnd):
  """Distance of two arrays of integers"""
  n, p = rnd.randrange(0, 9), rnd.choice([1, 2, 3])
  x, y = ([rnd.randrange(-9, 10) for _ in range(n)] for _ in range(2))
  if rnd.random() < .1:
    y = x[:]
  a, b = np.array(x, dtype=float), np.array(y, dtype=float)
  if n % 2 == 0 and rnd.random() < .5:
    a, b = a.reshape(2, -1), b.reshape(2, -1)
  out = dict(kind="lp", err="", x=x, y=y, p=p)
  ok, r = vlib.attempt(metrics.lp_distance, a, b,
                       **({} if p == 1 and rnd.random() < .5 else dict(p=p)))
  if not ok:
    return dict(out, err=str(r))
  return dict(out, got=vlib.xround(float(r) ** p),
              intact=a.ravel().tolist() == x and b.ravel().tolist() == y)


def sound(levels, n, w, rnd):
  """Tones on bins"""
  i = np.arange(n)
  x = np.zeros(n)
  for k, e in enumerate(levels):
    if e is None:
      continue
    a = 10 ** (e / 20) * (1 if k == 0 or 2 * k == w else 2)
    q = 0 if k == 0 or 2 * k == w else rnd.uniform(0, 7)
    x += rnd.choice([-1, 1]) * a * np.cos(
        2 * np.pi * ((i * k) % w) / w + q)
  return x


def window(rnd, w, n):
  """The rectangular window, in one of the ways it can be asked for"""
  how = rnd.randrange(3)
  if how == 0:
    return dict(w=np.ones(w) * rnd.choice([1, 1, 7.5, .01]))
  if how == 1 and n == w:
    return dict(wtype="boxcar")
  return dict(wtype="boxcar", wsize=w)


def tones(rnd):
  """Sounds of tones on bins"""
  w = rnd.choice([4, 8, 9, 16, 17, 32])
  bins = w // 2 + 1
  k16 = rnd.randrange(0, 15)
  o = w * k16 // 16
  n = rnd.randrange(w, 4 * w)
  p = rnd.choice([1, 1, 2, 3])
  es = [-40, -20, 0] + [20] * (p < 3)
  u, v = ([rnd.choice(es + [None]) for _ in range(bins)] for _ in range(2))
  if rnd.random() < .1:
    u = [None] * bins
  if rnd.random() < .1:
    v = u[:]
  fl = rnd.choice([-60, -100, -50, -30, -20, -7, 0, 5, rnd.randrange(-150, 15)])
  mag = lambda q: [0 if e is None else round(100 * 10 ** (e / 20)) for e in q]
  lev = lambda q: [ABSENT if e is None else e for e in q]
  frames = 1 + (n - w) // (w - o)
  if p == 3 and frames * bins * 210 ** 3 > 10 ** 9:
    p = 2
  k = rnd.randrange(1, 17)
  out = dict(kind="tones", err="", c=dict(n=n, w=w, o=o), u=mag(u), v=mag(v),
             lu=lev(u), lv=lev(v), fl=fl, p=p, k=k)
  x, y = sound(u, n, w, rnd), sound(v, n, w, rnd)
  kw = dict(n=w, olap=k16 / 16, norm_p=p, floor_db=fl, boundary=None,
            padded=False, **window(rnd, w, w))
  if p == 1 and rnd.random() < .5:
    del kw["norm_p"]
  if fl == -60 and rnd.random() < .5:
    del kw["floor_db"]
  if k16 == 12 and rnd.random() < .5:
    del kw["olap"]
  r = []
  for a in (0, 1, k / 8):
    ok, b = vlib.attempt(LOSS, x, y, alpha=a, **kw)
    if not ok:
      return dict(out, err=str(b))
    r.append(float(b))
  return dict(out, lin=vlib.xround(r[0] ** p, 100 ** p),
              log=vlib.xround((r[1] - r[0]) ** p),
              mix=vlib.xround(r[2], 800) if p == 1 else 0)


def scaled(rnd):
  """Sounds of which one is the other, less loud"""
  w = rnd.choice([15, 16, 40, 64, 101])
  n = rnd.choice([w, w, w + 1, 2 * w, 128 if w < 128 else w])
  kind = rnd.choice(["boxcar", "hamming", "hamming", "hann"])
  N, pad = rnd.randrange(w, 5 * w), rnd.random() < .6 and kind != "hann"
  # no frame of padding only
  k16 = rnd.choice([8, 10, 12, 12, 14]) if pad else rnd.randrange(0, 15)
  kw = dict(olap=k16 / 16)
  if k16 == 12 and rnd.random() < .6:
    del kw["olap"]
  if rnd.random() < .2:
    w = n = 2048
    N, kind, kw, k16 = rnd.randrange(2048, 6000), "hamming", {}, 12
    pad = rnd.random() < .6
  elif rnd.random() < .4:
    kw.update(w=signal.get_window(kind, w), n=n)
  else:
    kw.update(n=n)
    if kind != "hamming" or rnd.random() < .3:
      kw.update(wtype=kind)
    if w != n or rnd.random() < .3:
      kw.update(wsize=w)
  if not pad:
    kw.update(boundary=None, padded=False)
  o = w * k16 // 16
  e = rnd.choice([0, 1, 20, 60, rnd.randrange(100)])
  g = np.random.default_rng(rnd.randrange(10 ** 6))
  x = g.standard_normal(N)
  y = x * 10 ** (-e / 20)
  if rnd.random() < .5:
    x, y = y, x
  out = dict(kind="scaled", err="", c=dict(n=N, w=w, o=o), pad=bool(pad),
             bins=n // 2 + 1, e=e)
  r = []
  for a in (1, 0):
    ok, b = vlib.attempt(LOSS, x, y, alpha=a, floor_db=-1000, **kw)
    if not ok:
      return dict(out, err=str(b))
    r.append(float(b))
  return dict(out, got=vlib.xround(r[0] - r[1]))


def metric(rnd):
  """Distances of any two sounds"""
  g = np.random.default_rng(rnd.randrange(10 ** 6))
  N = rnd.randrange(300, 1000)
  x, y = g.standard_normal((2, N)) * 10 ** rnd.uniform(-3, 1)
  if rnd.random() < .3:
    y[rnd.randrange(N):] = 0
  kw = dict(n=rnd.choice([64, 256]), norm_p=rnd.choice([1, 2, 3]),
            wtype=rnd.choice(["hamming", "hann", "blackman"]),
            alpha=rnd.choice([0, .01, 1, 3]))
  fl = rnd.choice([-60, -30, -90])
  c = x.copy(), y.copy()
  out = dict(kind="metric", err="")
  d = []
  for a, b, f in ((x, y, fl), (y, x, fl), (x, x.copy(), fl),
                  (x, y, fl + rnd.randrange(1, 30))):
    ok, r = vlib.attempt(LOSS, a, b, floor_db=f, **kw)
    if not ok:
      return dict(out, err=str(r))
    d.append(float(r))
  top = d[0] if d[0] > 0 else -1
  return dict(out, d=[vlib.xround(v / top, 10 ** 6, .5) for v in d],
              intact=np.array_equal(x, c[0]) and np.array_equal(y, c[1]))


def scales(rnd):
  """The loss on many scales, of tones 20 dB apart"""
  g = np.random.default_rng(rnd.randrange(10 ** 6))
  x, y = g.standard_normal((2, rnd.randrange(2048, 5000)))
  kw = dict(floor_db=rnd.choice([-60, -30]), norm_p=rnd.choice([1, 2]))
  ns = [1 << i for i in range(6, 12)]
  args = {}
  if rnd.random() < .7:
    ns = [rnd.choice([50, 64, 100, 256]) for _ in range(rnd.randrange(1, 5))]
    args = dict(stfts=[dict(n=n) for n in ns])
  want = sum(LOSS(x, y, n=n, **kw) for n in ns)
  ok, r = vlib.attempt(metrics.multiscale_spectral_loss, x, y, **args, **kw)
  out = dict(kind="scales", err="" if ok else str(r), sum=10 ** 6)
  return dict(out, got=vlib.xround(float(r) / want, 10 ** 6) if ok else 0)


def run(c):
  """Entry point"""
  c.design("MC_Loss.tla", "MC_LossDeep.cfg" if vlib.THOROUGH
           else "MC_Loss.cfg", timeout=3000)
  c.design("MC_Loss.tla", "MC_LossTwo.cfg", timeout=3000)
  for v in ("signed", "early", "level", "one"):
    c.design_violates("MC_Loss.tla", f"MC_Loss_{v}.cfg", ["Defined"])
  rnd = random.Random(vlib.SEED)
  k = 10 if vlib.THOROUGH else 1
  traces = [lp(rnd) for _ in range(150 * k)]
  traces += [tones(rnd) for _ in range(400 * k)]
  traces += [scaled(rnd) for _ in range(200 * k)]
  traces += [metric(rnd) for _ in range(100 * k)]
  traces += [scales(rnd) for _ in range(20 * k)]
  c.validate("LossTrace.tla", traces)
  c.assumptions += [
      "tones on bins of a rectangular window, levels multiples of 20 dB, "
      "floors and differences of level whole dB; distances are compared to "
      "one part in a million",
      "exponents of the norm 1, 2 and 3"]
