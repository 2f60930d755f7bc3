"""P31: mel filterbanks are the published triangles."""
import functools
import math
import random
import warnings

import numpy as np
import vlib
from scipy import signal
from sample import psycho

IDENTITY = (lambda f: f, lambda m: m)
FANT = tuple(functools.partial(f, mode="fant")
             for f in (psycho.hz2mel, psycho.mel2hz))
AFFINE = (lambda f: 2 * np.asarray(f) - 7, lambda m: (np.asarray(m) + 7) / 2)


def lcm(values):
  """Least common multiple"""
  return math.lcm(1, *(int(v) for v in values))


def codes(m, unit):
  """Matrix in integer units"""
  return [[vlib.xround(v * unit, tol=1e-7) for v in row] for row in m]


def freqs_of(rnd, lo, hi):
  """Frequency axis"""
  k = rnd.randrange(3)
  if k == 0:
    return list(range(lo, hi + 1))
  f = [rnd.randrange(lo - 20, hi + 20) for _ in range(rnd.randrange(1, 30))]
  return sorted(f) if k == 1 else f


def corners(rnd, n):
  """Increasing corners with few distances"""
  c = [rnd.randrange(-5, 50)]
  for _ in range(n - 1):
    c.append(c[-1] + rnd.choice([1, 2, 3, 4, 5, 6, 8, 10, 12]))
  return c


def bank(rnd):
  """One filterbank"""
  kw, b = {}, []
  kind = rnd.choice(["corners", "spaced", "mel", "band", "bandspaced"])
  n = rnd.randrange(1, 8)
  give = True
  if kind == "corners":
    c = corners(rnd, n + 2)
    kw["flim"] = rnd.choice([tuple, list, np.array])(c)
    freqs = freqs_of(rnd, c[0], c[-1])
  elif kind == "band":
    c = corners(rnd, n)
    kw["flim"] = rnd.choice([tuple, list, np.array])(c)
    freqs = freqs_of(rnd, c[0] - 9, c[-1] + 9)
  else:
    if kind == "mel":
      n = min(n, 4)
      k = 700
      if rnd.random() < .5:
        k = 1000
        kw["freq_transform"] = FANT
      c = [k * (2 ** i - 1) for i in range(n + 2)]
      kw["flim"] = (0, c[-1])
    else:
      w = rnd.choice([2, 4, 6, 12])
      c0 = rnd.randrange(50)
      c = [c0 + w * i for i in range(n + 2)]
      kw["flim"] = rnd.choice([tuple, list])((c[0], c[-1]))
      if rnd.random() < .2:
        kw["flim"] = (c[0], c0 + 1, c[-1])
      kw["freq_transform"] = rnd.choice([IDENTITY, AFFINE])
    kw["n_filters"] = n
    if rnd.random() < .3:        # limits of the axis
      del kw["flim"]
      mid = [rnd.randrange(c[0], c[-1]) for _ in range(9)]
      freqs = [c[0], *mid, c[-1]]
    else:
      freqs = freqs_of(rnd, c[0], c[-1]) if kind != "mel" else [
          rnd.randrange(0, c[-1] + 2) for _ in range(40)]
    if kind == "bandspaced":
      c = c[1:-1]
  if kind in ("band", "bandspaced"):
    table = {x: rnd.choice([1, 2, 4, 6, 10]) for x in c}
    b = [table[x] for x in c]
    kw["bandwidth"] = lambda f: table[int(round(float(f)))]
  gaps = b or [z - x for x, z in zip(c, c[1:])]
  unit = lcm(gaps)
  shape = freqs
  arr = np.array(shape, dtype=float)
  if rnd.random() < .15 and len(freqs) % 2 == 0 and "flim" in kw:
    arr = arr.reshape(2, -1)
  keep = arr.copy(), np.array(kw.get("flim", [0]), dtype=float)
  first = rnd.random() < .5
  call = (lambda: psycho.mel_triangular_filterbank(arr, **kw)) if first else (
      lambda: psycho.mel_triangular_filterbank(freqs=arr, **kw))
  ok, r = vlib.attempt(call)
  out = dict(kind="bank", c=c, b=b, L=unit, freqs=freqs, err="", got=[], at=[])
  if not ok:
    return dict(out, err=str(r))
  m, at = r
  if not (np.array_equal(arr, keep[0])
          and np.array_equal(kw.get("flim", [0]), keep[1])):
    return dict(out, err="changed its arguments")
  if np.shape(m) != (len(at), *arr.shape):
    return dict(out, err=f"shape {np.shape(m)}")
  return dict(out, got=codes(np.reshape(m, (len(at), -1)), unit),
              at=[vlib.xround(v, tol=1e-9) for v in at])


def short(rnd):
  """Not enough corners for a filter"""
  kw = rnd.choice([dict(), dict(flim=(1., 5.)), dict(flim=[3.]), dict(flim=()),
                   dict(n_filters=0), dict(n_filters=0, bandwidth=abs),
                   dict(n_filters=-1), dict(flim=[], bandwidth=abs)])
  f = np.arange(10.)
  fn = rnd.choice([psycho.mel_triangular_filterbank,
                   lambda f, **kw: psycho.stft2mel(np.ones((10, 3)), f, **kw)])
  ok, r = vlib.attempt(fn, f, **kw)
  return dict(kind="short", err="", out="ok" if ok else str(r))


TRIPLES = [(3, 4, 5), (4, 3, 5), (-3, 4, 5), (6, -8, 10), (5, 12, 13),
           (0, 0, 0), (1, 0, 1), (0, -2, 2), (-7, 0, 7), (8, -15, 17)]


def apply(rnd):
  """Filters applied to columns of integer magnitudes"""
  n, nf, cols = (rnd.randrange(1, 6) for _ in range(3))
  z = [[rnd.choice(TRIPLES) for _ in range(nf)] for _ in range(cols)]
  stft = np.array([[complex(*z[j][k][:2]) for j in range(cols)]
                   for k in range(nf)])
  real = rnd.randrange(4)
  if real < 2:  # real spectra, with signs or already magnitudes
    z = [[(t[0] if real else t[2], 0, t[2] if not real else abs(t[0]))
          for t in col] for col in z]
    stft = np.array([[float(z[j][k][0]) for j in range(cols)]
                     for k in range(nf)])
  kw, p = {}, rnd.choice([1, 2, 3, None])
  if p != 2 or rnd.random() < .5:
    kw["power"] = p
  unit = 1
  c = None
  if rnd.random() < .5:
    b = [[rnd.randrange(0, 9) for _ in range(nf)] for _ in range(n)]
    kw["filterbank"] = rnd.choice([np.array(b), np.array(b, dtype=float)])
    freqs = None if rnd.random() < .5 else np.arange(float(nf))
  else:
    c = corners(rnd, n + 2)
    unit = lcm(z - x for x, z in zip(c, c[1:]))
    f = [rnd.randrange(c[0], c[-1] + 1) for _ in range(nf)]
    freqs = np.array(f, dtype=float)
    b = [[(unit * max(0, f[k] - c[i])) // (c[i + 1] - c[i]) if f[k] <= c[i + 1]
          else (unit * max(0, c[i + 2] - f[k])) // (c[i + 2] - c[i + 1])
          for k in range(nf)] for i in range(n)]
    kw["flim"] = c
  keep = stft.copy()
  ok, r = vlib.attempt(psycho.stft2mel, stft, freqs, **kw)
  out = dict(kind="apply" if p else "linear", err="", bank=b)
  if not ok:
    return dict(out, err=str(r))
  mel, at = r
  if not np.array_equal(stft, keep):
    return dict(out, err="changed its input")
  if (at is None) != (c is None) or (
      c is not None and list(at) != c[1:-1]):
    return dict(out, err=f"centres {at}")
  if np.shape(mel) != (n, cols):
    return dict(out, err=f"shape {np.shape(mel)}")
  mags = [[t[2] for t in col] for col in z]
  if p is None:
    return dict(out, re=[[t[0] for t in col] for col in z],
                im=[[t[1] for t in col] for col in z],
                gre=codes(np.real(mel).T, unit), gim=codes(np.imag(mel).T, unit))
  if np.iscomplexobj(mel):
    return dict(out, err="complex magnitudes")
  return dict(out, cols=mags, p=p,
              got=codes(np.power(mel, p).T, unit))


def spectrogram(c, rnd):
  """The mel spectrogram is that of the STFT of the sound"""
  rs = np.random.RandomState(rnd.randrange(1000))
  x = rs.randn(rnd.choice([600, 2000]))
  fs = rnd.choice([8000., 22050.])
  stft_kws = dict(fs=fs, nperseg=rnd.choice([128, 256]))
  if rnd.random() < .5:
    stft_kws["noverlap"] = 100
  kw = dict(n_filters=rnd.randrange(1, 20))
  if rnd.random() < .5:
    kw["power"] = rnd.choice([1, 2, .5])
  if rnd.random() < .5:
    kw["flim"] = (rnd.uniform(0, 100), rnd.uniform(1000, 4000))
  copies = x.copy(), dict(stft_kws)
  ok, r = vlib.attempt(psycho.mel_spectrogram, x, stft_kws=stft_kws, **kw)
  if not c.expect(ok, f"mel_spectrogram raises {r}"):
    return
  f, t, z = signal.stft(x, **stft_kws)
  m, at = psycho.stft2mel(z, f, **kw)
  c.expect(np.array_equal(r[0], at) and np.array_equal(r[1], t)
           and np.allclose(r[2], m, rtol=1e-9, atol=0),
           "mel_spectrogram is not that of the STFT")
  c.expect(np.array_equal(x, copies[0]) and stft_kws == copies[1],
           "mel_spectrogram changes its arguments")


def run(c):
  """Entry point"""
  warnings.simplefilter("ignore")
  c.design("MC_Mel.tla", "MC_MelDeep.cfg" if vlib.THOROUGH else "MC_Mel.cfg",
           timeout=3000)
  c.design_violates("MC_Mel.tla", "MC_Mel_late.cfg", ["Partition",
                                                      "SameAsTriangles"])
  rnd = random.Random(vlib.SEED)
  m = 10 if vlib.THOROUGH else 1
  traces = ([bank(rnd) for _ in range(800 * m)]
            + [short(rnd) for _ in range(60 * m)]
            + [apply(rnd) for _ in range(600 * m)])
  c.validate("MelTrace.tla", traces)
  for _ in range(30 * m):
    spectrogram(c, rnd)
  c.assumptions += [
      "integer frequencies, corners and magnitudes; spacing on the mel scale "
      "at points where it is exact (700 (2^k - 1) Hz, 1000 (2^k - 1) Hz for Fant)"]
