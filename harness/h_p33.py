"""P33: autocorrelograms are exactly those of the signal."""
import random
import warnings

import numpy as np
import vlib
from sample.utils import dsp


def ints(rnd, n, top=9):
  """Integer signal"""
  k = rnd.randrange(4)
  if k == 0:
    return [rnd.randrange(-top, top + 1) for _ in range(n)]
  if k == 1:
    return [rnd.choice([-1, 0, 0, 1]) for _ in range(n)]
  if k == 2:
    p = [rnd.randrange(-top, top + 1) for _ in range(rnd.randrange(1, 5))]
    return [p[i % len(p)] for i in range(n)]
  v = [0] * n
  v[rnd.randrange(n)] = rnd.randrange(-top, top + 1)
  return v


def codes(v, scale=1):
  """Near integers"""
  return [vlib.xround(u, scale, tol=1e-6) for u in np.ravel(v)]


def spectrum(rnd):
  """From an FFT, a magnitude or a power spectrum"""
  size = rnd.randrange(1, 20)
  m = size + rnd.choice([0, 0, 1, 2, size, rnd.randrange(20)])
  real = rnd.random() < .6
  x = ints(rnd, size)
  y = [] if real else ints(rnd, size)
  n = rnd.choice([m, size, rnd.randrange(1, m + 1)])
  kw = {}
  if not real or rnd.random() < .5:
    kw["real"] = real
  s = np.array(x) if real else np.array(x) + 1j * np.array(y)
  a = (np.fft.rfft if real else np.fft.fft)(s, m)
  how = rnd.randrange(3)
  if how == 1:
    a = np.abs(a)
  elif how == 2:
    a = np.abs(a) ** 2
    kw["power"] = True
  if real and m % 2 or n != m:
    kw["n"] = n
    if n != m:
      kw["nfft"] = m
  if "n" not in kw and rnd.random() < .5:
    kw[rnd.choice(["n", "nfft"])] = m
  out = dict(kind="real" if real else "complex", x=x, y=y, m=m, n=n, err="")
  keep = a.copy()
  ok, r = vlib.attempt(dsp.fft2autocorrelogram, a, **kw)
  if not ok:
    return dict(out, err=f"{r} {kw}")
  if not np.array_equal(a, keep):
    return dict(out, err="changed its input")
  if real and np.iscomplexobj(r):
    return dict(out, err="complex output")
  return dict(out, re=codes(np.real(r)), im=codes(np.imag(r)))


def uniform(rnd):
  """Uniform sampling, odd sizes (no Nyquist bin)"""
  m = 2 * rnd.randrange(1, 11) + 1
  x = ints(rnd, m)
  fs = 2. ** rnd.randrange(-2, 12)
  t = (np.arange(m) + rnd.choice([0, 0, 1, 17])) / fs
  n = rnd.choice([m, rnd.randrange(1, m + 1)])
  kw = {} if fs == 1 else dict(fs=fs)
  if rnd.random() < .3:
    kw["hpf"] = rnd.choice([None, 0])
  if rnd.random() < .3:
    kw["lpf"] = fs
  v = np.array(x, dtype=float)
  keep = t.copy(), v.copy()
  ok, r = vlib.attempt(dsp.lombscargle_autocorrelogram, t, v, n=n, nfft=m, **kw)
  out = dict(kind="uniform", x=x, m=m, n=n, err="", re=[])
  if not ok:
    return dict(out, err=str(r))
  if not (np.array_equal(t, keep[0]) and np.array_equal(v, keep[1])):
    return dict(out, err="changed its input")
  return dict(out, re=codes(r, m ** 3))


def noise(rnd):
  """Irregular times"""
  rs = np.random.RandomState(rnd.randrange(2**31))
  k = rnd.randrange(5, 40)
  return np.sort(rs.uniform(0, k, k)), rs.randn(k)


def band(rnd):
  """Limited periodogram of unevenly sampled noise"""
  fs = 2. ** rnd.randrange(-2, 12)
  t, x = noise(rnd)
  t /= fs
  m = rnd.choice([4, 8, 16, 32, 64, 5, 9, 33])
  d = rnd.choice([1, 2, 4])
  bins = m // 2 + 1
  hp = rnd.choice([-1, 0, 0, 1, d, rnd.randrange(d * bins + 5)])
  lp = rnd.choice([-1, d * m, 1, rnd.randrange(1, d * bins + 5),
                   max(hp, 0) + d * rnd.randrange(1, 4)])
  if m % 2:  # corners would be subject to rounding
    hp = lp = -1
  kw = {}
  if hp >= 0:
    kw["hpf"] = hp / d * fs / m
  if lp >= 0:
    kw["lpf"] = lp / d * fs / m
  if fs != 1 or rnd.random() < .5:
    kw["fs"] = fs
  out = dict(kind="band", hp=hp, lp=lp, d=d, full=bins, err="", same=[],
             zero=[], freqs=[])
  ok, r = vlib.attempt(dsp.lombscargle_as_fft, t, x, m, **kw)
  if not ok:
    return dict(out, err=f"{r} {kw}")
  ls, f = r
  full = dsp.lombscargle_as_fft(t, x, m, fs=fs)[0]
  if ls.shape != full.shape:
    return dict(out, err=f"shape {ls.shape}")
  return dict(out, freqs=codes(f, m / fs),
              same=[j for j in range(bins) if np.isclose(ls[j], full[j])],
              zero=[j for j in range(bins) if ls[j] == 0])


def periodogram(c, rnd):
  """Values of the periodogram: projections on each frequency"""
  t, x = noise(rnd)
  fs, m = 1., rnd.choice([7, 16, 33])
  ls = dsp.lombscargle_as_fft(t, x, m, fs)[0]
  c.expect(np.isclose(ls[0], np.mean(x) ** 2), "mean of the periodogram")
  for j in range(1, m // 2 + 1):
    w = 2 * np.pi * j / m
    a = np.stack([np.cos(w * t), np.sin(w * t)], 1)
    # energy explained by the sinusoid of least squares
    if np.linalg.cond(a) < 1e6:
      p = a @ np.linalg.lstsq(a, x, rcond=None)[0]
      c.expect(np.isclose(ls[j], np.sum(p * x) / 2, rtol=1e-6, atol=1e-9),
               f"bin {j} of the periodogram")


def sizes(rnd):
  """Default sizes"""
  u = rnd.choice([1, 2, 4])
  fs = 2. ** rnd.randrange(0, 12)
  t, x = noise(rnd)
  t = np.floor(t * u) / u
  t = np.unique(t)
  x = x[:t.size]
  last = int(round(t[-1] * u))
  out = dict(kind="size", last=last, u=u, err="", len=0, same=False)
  kw = dict(fs=fs)
  if rnd.random() < .5:
    kw["hpf"] = fs / 16
  ok, r = vlib.attempt(dsp.lombscargle_autocorrelogram, t / fs, x, **kw)
  if not ok:
    return dict(out, err=str(r))
  n = len(r)
  e = dsp.lombscargle_autocorrelogram(t / fs, x, n=n, nfft=2 * n, **kw)
  p = dsp.lombscargle_as_fft(t / fs, x, 2 * n, **kw)[0]
  full = np.fft.irfft(p, 2 * n)[:n]
  return dict(out, len=n, same=bool(np.allclose(r, e) and np.allclose(r, full)))


def line(rnd):
  """Removal of the line of least squares"""
  n = rnd.randrange(2, 12)
  y = ints(rnd, n)
  kw = {}
  x = list(range(n))
  if rnd.random() < .6:
    x = rnd.sample(range(-15, 16), n)
    kw["x"] = rnd.choice([list, np.array])(x)
  if rnd.random() < .2:
    from sklearn import linear_model
    kw["model"] = linear_model.LinearRegression()
  out = dict(kind="line", x=x, y=y, err="", got=[])
  v = np.array(y, dtype=float)
  ok, r = vlib.attempt(dsp.detrend, v, **kw)
  if not ok:
    return dict(out, err=str(r))
  if list(v) != y or ("x" in kw and list(kw["x"]) != x):
    return dict(out, err="changed its input")
  den = n * sum(u * u for u in x) - sum(x) ** 2
  return dict(out, got=[vlib.xround(u * den, tol=1e-6)
                        if abs(u * den) > 1e-4 else 0 for u in np.ravel(r)])


def bins(rnd):
  """Frequencies and bins"""
  fs = 2. ** rnd.randrange(-2, 12)
  m = 2 ** rnd.randrange(1, 12)
  d = rnd.choice([1, 2, 4])
  f = [rnd.randrange(-20, 4 * m) for _ in range(rnd.randrange(1, 9))]
  v = np.array(f) / d * fs / m
  out = dict(kind="bins", f=f, d=d, err="", up=[], back=[])
  kw = dict(fs=fs) if fs != 1 or rnd.random() < .5 else {}
  def drive():
    up = dsp.f2bin(list(v) if rnd.random() < .3 else v, m, **kw)
    return up, dsp.bin2f(up, m, **kw)
  ok, r = vlib.attempt(drive)
  if not ok:
    return dict(out, err=str(r))
  if r[0].dtype.kind != "i":
    return dict(out, err="bins are not integers")
  return dict(out, up=[int(k) for k in r[0]], back=codes(r[1], m / fs))


def run(c):
  """Entry point"""
  warnings.simplefilter("ignore")
  c.design("MC_Auto.tla", "MC_AutoDeep.cfg" if vlib.THOROUGH
           else "MC_Auto.cfg", timeout=3000)
  c.design_violates("MC_Auto.tla", "MC_Auto_half.cfg", ["Right"])
  c.design_violates("MC_Auto.tla", "MC_Auto_twice.cfg", ["Right"])
  rnd = random.Random(vlib.SEED)
  k = 10 if vlib.THOROUGH else 1
  traces = [f(rnd) for f, n in ((spectrum, 500), (uniform, 250), (band, 300),
                                (sizes, 100), (line, 200), (bins, 100))
            for _ in range(n * k)]
  c.validate("AutoTrace.tla", traces)
  for _ in range(40 * k):
    periodogram(c, rnd)
  c.assumptions += [
      "integer signals and dyadic sampling frequencies; the Nyquist bin of "
      "uniformly sampled signals is excluded (its phase is undetermined)"]
