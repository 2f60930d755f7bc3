"""P36: spectra carry true frequencies, levels and phases."""
import random

import numpy as np
import vlib
from sample.sms import dsp, mm, sm
from sample.utils import learn
from scipy import signal


def ints(v, tol=1e-6):
  """Integer codes"""
  return [vlib.xround(u, tol=tol) for u in v]


def dft(rnd):
  """Spectrum of an integer frame"""
  W = rnd.randrange(2, 13)
  n = W + rnd.choice([0, 0, 1, 2, 3, rnd.randrange(8)])
  x = [rnd.randrange(-9, 10) for _ in range(W)]
  w = [rnd.randrange(1, 6) for _ in range(W)]
  if rnd.random() < .15:
    x = [0] * W
  a, b = np.array(x, dtype=float), np.array(w, dtype=float)
  if rnd.random() < .2:
    a = np.array(x)
  out = dict(kind="dft", err="", x=x, w=w, n=n)
  c = a.copy(), b.copy()
  ok, r = vlib.attempt(dsp.dft, a, b, n)
  if not ok:
    return dict(out, err=str(r))
  if not (np.array_equal(a, c[0]) and np.array_equal(b, c[1])):
    return dict(out, err="changed its input")
  m, p = r
  lin = 10 ** (np.asarray(m) / 20)
  lin[lin < 1e-14] = 0
  with np.errstate(all="ignore"):
    got = np.fft.irfft(lin * np.exp(1j * np.asarray(p)), n)
    auto = np.fft.irfft(lin ** 2, n)
  return dict(out, got=ints(got), auto=ints(auto), bins=len(m) if
              len(p) == len(m) else -1,
              smooth=bool(np.all(np.abs(np.diff(p)) <= np.pi + 1e-9)))


class Spy(mm.ModalTracker):
  """Remembers what it is given"""

  def __call__(self, freq, mag, phase):
    SEEN.append((np.array(freq), np.array(mag), np.array(phase)))
    return super().__call__(freq, mag, phase)


SEEN = []
WINDOWS = [("hann", 1), ("hamming", 1), ("blackman", 2), ("nuttall", 3)]


def tones(rnd):
  """Sound of stationary tones on bins, analysed"""
  name, lobe = rnd.choice(WINDOWS)
  n = rnd.choice([48, 63, 64, 65, 100, 128, 256])
  gap = 2 * lobe + 2
  ks, k = [], gap
  while k < n // 2 - gap and len(ks) < 5:
    ks.append(k)
    k += gap + rnd.randrange(0, 12)
  low = rnd.choice([-60, -30, -10])
  rec = [dict(k=k, e=rnd.randrange(low, 10), p=rnd.randrange(n)) for k in ks]
  order = rec[:]
  rnd.shuffle(order)
  N, h = rnd.randrange(n, 3 * n), rnd.randrange(1, n)
  t = rnd.choice([0, rnd.randrange(-70, 5) + .5, rnd.randrange(-70, 5) + .5])
  for o in rec:
    o["e"] += t == o["e"]  # no tone at the threshold
  padded, rev = rnd.random() < .4, rnd.random() < .4
  step = rnd.choice([1, 5, 8])
  i = np.arange(N)
  x = sum((2 * 10 ** (o["e"] / 20) * np.cos(
      2 * np.pi * ((i * o["k"] + o["p"]) % n) / n) for o in order),
          np.zeros(N))
  w = signal.get_window(name, n) * rnd.choice([1, 1, 7.5, .01, -2])
  kw = dict(w=w, n=n, t=t, padded=padded, intermediate=learn.OptionalStorage(
      save=rnd.random() < .5))
  trk = Spy(fs=n * step, h=h, reverse=rev)
  how = rnd.randrange(3)
  m = (sm.SinusoidalModel if how else mm.ModalModel)(tracker=trk, **kw)
  out = dict(kind="tones", err="", tones=rec, t2=int(2 * t), N=N, W=n, n=n,
             h=h, rev=rev, pad=(n + 1) // 2 if padded else 0)
  c = x.copy(), w.copy()
  SEEN.clear()
  ok, r = vlib.attempt(m.fit, x)
  if not ok:
    return dict(out, err=str(r))
  if m.intermediate.save:
    pk = m.intermediate["peaks"]
    if len(pk) != len(SEEN) or any(
        not np.allclose(q[0] * step, s[0]) or not np.array_equal(q[1], s[1])
        or not np.array_equal(q[2], s[2]) for q, s in zip(pk, SEEN)):
      return dict(out, err="other peaks stored")
  got = []
  for j, (f, g, p) in enumerate(SEEN):
    got.append([dict(k=vlib.xround(a / step, tol=1e-6), e=vlib.xround(
        b, tol=1e-6), p=vlib.xround(d / (2 * np.pi) * n, tol=1e-3) % n)
                for a, b, d in zip(f, g, p)])
  return dict(out, got=got, intact=np.array_equal(c[0], x)
              and np.array_equal(c[1], w))


U = 64


def between(rnd):
  """Sound of stationary tones anywhere, analysed, with zero padding or not"""
  name = rnd.choice(["hann", "hamming", "blackman", "nuttall"])
  W, z = rnd.choice([48, 63, 64, 65, 100, 128]), rnd.choice([1, 2])
  n = W * z
  gap = 12 * z
  t = rnd.choice([-20, -20, -5])
  rec, k = [], gap * U + rnd.randrange(U)
  while k < (n // 2 - gap) * U and len(rec) < 3:
    e = rnd.choice([rnd.randrange(-25, 1), rnd.randrange(-100, -52)])
    rec.append(dict(k=k, e=e, p=rnd.randrange(n * U)))
    k += gap * U + rnd.randrange(8 * U)
  order = rec[:]
  rnd.shuffle(order)
  N, h = rnd.randrange(W, 3 * W), rnd.randrange(1, W)
  padded, rev = rnd.random() < .4, rnd.random() < .4
  step = rnd.choice([1, 5, 8])
  i = np.arange(N)
  x = sum((2 * 10 ** (o["e"] / 200) * np.cos(
      2 * np.pi * ((i * o["k"] + o["p"]) % (n * U)) / (n * U))
           for o in order), np.zeros(N))
  w = signal.get_window(name, W) * rnd.choice([1, 1, 7.5, .01, -2])
  trk = Spy(fs=n * step, h=h, reverse=rev)
  m = rnd.choice([sm.SinusoidalModel, mm.ModalModel])(
      tracker=trk, w=w, n=n, t=t, padded=padded)
  out = dict(kind="between", err="", tones=rec, t2=20 * t, N=N, W=W, h=h, n=n,
             turn=n * U, rev=rev, pad=(W + 1) // 2 if padded else 0,
             sk=4 if name == "hamming" else 2,
             se=6 if z == 1 and name[0] == "h" else 2, sp=n * U // 500)
  c = x.copy(), w.copy()
  SEEN.clear()
  ok, r = vlib.attempt(m.fit, x)
  if not ok:
    return dict(out, err=str(r))
  got = [[dict(k=int(np.round(a / step * U)), e=int(np.round(b * 10)),
               p=int(np.round(d / (2 * np.pi) * n * U)) % (n * U))
          for a, b, d in zip(*s)] for s in SEEN]
  return dict(out, got=got, intact=np.array_equal(c[0], x)
              and np.array_equal(c[1], w))


def run(c):
  """Entry point"""
  c.design("MC_Spectrum.tla", "MC_SpectrumDeep.cfg" if vlib.THOROUGH
           else "MC_Spectrum.cfg", timeout=3000)
  c.design_violates("MC_Spectrum.tla", "MC_Spectrum_front.cfg",
                    ["Measured", "Real"])
  c.design_violates("MC_Spectrum.tla", "MC_Spectrum_ceil.cfg",
                    ["Measured", "Real"])
  rnd = random.Random(vlib.SEED)
  k = 10 if vlib.THOROUGH else 1
  traces = [dft(rnd) for _ in range(300 * k)]
  traces += [tones(rnd) for _ in range(150 * k)]
  traces += [between(rnd) for _ in range(150 * k)]
  c.validate("SpectrumTrace.tla", traces)
  c.assumptions += [
      "levels and phases are rounded to dB and to n-ths of a turn (tolerances "
      "1e-6 and 1e-3); tones on bins are far enough from one another for the "
      "window, which is as long as the transform",
      "tones between bins, or zero padding: at least 12 bins of the window "
      "apart and within 10 dB, thresholds at least 2 dB away; 1/32 of a bin "
      "(1/16 with sidelobes as high as those of hamming), "
      "0.2 dB (0.6 with one window length and a wide lobe), 1/500 turn",
      "windows have at least two samples"]
