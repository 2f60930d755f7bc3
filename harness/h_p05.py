"""P05: analysis frames tile the signal exactly."""
import itertools
import random

import numpy as np
import vlib
from sample.sms import mm, sm
from sample.utils import dsp


def layout(n, how):
  """Values 1..n in some memory layout: (array, buffer)"""
  v = np.arange(1, n + 1)
  if how == "plain":
    b = v.astype(float)
    return b, b
  if how == "int":
    b = v.astype(np.int64)
    return b, b
  if how == "float32":
    b = v.astype(np.float32)
    return b, b
  if how == "middle":
    b = np.full(n + 64, -7777.)
    b[32:32 + n] = v
    return b[32:32 + n], b
  if how == "strided":
    b = np.full(3 * n + 64, -7777.)
    b[32:32 + 3 * n:3] = v
    return b[32:32 + 3 * n:3], b
  if how == "negative":
    b = np.full(n + 64, -7777.)
    b[32:32 + n] = v[::-1]
    return b[32:32 + n][::-1], b
  if how == "fortran":
    b = np.full((n, 2), -7777.)
    b[:, 0] = v
    return b[:, 0], b
  if how == "readonly":
    b = v.astype(float)
    b.flags.writeable = False
    return b, b
  raise ValueError(how)


def matrix(frames):
  """Frames as integers"""
  return [[vlib.xround(x) for x in f] for f in frames]


def rec(kind, n, w, hop, padded, rev, fn, how="plain"):
  """Observe one framing"""
  x, buf = layout(n, how)
  before = buf.copy()
  ok, r = vlib.attempt(fn, x)
  k = dict(n=n, w=w, hop=hop, padded=padded, rev=rev)
  t = dict(kind=kind, k=k, how=how, nw=0, frames=[], padl=0, intact=True,
           err="")
  if not ok:
    t["err"] = r
    return t
  t["nw"], t["frames"], t["padl"] = r
  t["intact"] = bool(np.array_equal(buf, before))
  return t


def windows(w, hop, explicit):
  """overlapping_windows and n_windows"""

  def fn(x):
    kw = dict(hop=hop) if explicit else {}
    f = dsp.overlapping_windows(x, w, **kw)
    nw = int(dsp.n_windows(x.size, w, **kw))
    if f.ndim != 2 or (f.shape[0] and f.shape[1] != w):
      return nw, [[vlib.BAD]], 0
    return nw, matrix(f), 0

  return fn


def model(cls, w, hop, padded, rev, n=None, **kw):
  """Sinusoidal model with a rectangular window"""
  if cls is mm.ModalModel:
    kw["tracker__reverse"] = rev
  return cls(w=np.ones(w), n=n or 2 * w + 6, padded=padded, tracker__fs=64,
             tracker__h=hop, **kw)


def time_frames(cls, w, hop, padded):
  """SinusoidalModel.time_frames"""

  def fn(x):
    m = model(cls, w, hop, padded, False)
    f = list(m.time_frames(x))
    y, a = m.pad_input(x)
    if not padded and y.size != x.size:
      a = vlib.BAD
    return len(m.time_frames(x)), matrix(f), int(a)

  return fn


def invert(mx, px, w, n):
  """Frame whose zero-phase spectrum was taken with a rectangular window"""
  s = 10**(np.asarray(mx) / 20) * np.exp(1j * np.asarray(px))
  b = np.fft.irfft(s, n) * w
  hw = w // 2
  return np.concatenate((b[n - hw:], b[:w - hw]))


def fit_frames(cls, w, hop, padded, rev, n):
  """Frames analysed by a fit, recovered from the saved spectra"""

  def fn(x):
    m = model(cls, w, hop, padded, rev, n=n, intermediate__save=True)
    m.fit(x)
    st = m.intermediate.get_state().get("stft", [])
    f = [[vlib.xround(v, tol=1e-4) for v in invert(*s, w, n)] for s in st]
    _, a = m.pad_input(x)
    return len(m.time_frames(x)), f, int(a)

  return fn


def run(c):
  """Drive and validate"""
  c.design("MC_Framing.tla", "MC_Framing.cfg")
  rng = random.Random(f"p05-{vlib.SEED}")
  tr = []
  # everything small
  for n, w, hop in itertools.product(range(0, 10), range(1, 6), range(1, 7)):
    how = rng.choice(["plain", "int", "middle", "strided", "negative"])
    tr.append(rec("windows", n, w, hop, False, False, windows(w, hop, True),
                  how))
    p = rng.random() < .7
    tr.append(rec("time_frames", n, w, hop, p, False,
                  time_frames(rng.choice([sm.SinusoidalModel, mm.ModalModel]),
                              w, hop, p), how))
  for n, w in itertools.product(range(0, 14), range(1, 8)):
    tr.append(rec("windows", n, w, w, False, False, windows(w, w, False)))
  big = 4000 if vlib.THOROUGH else 700
  hows = ["plain", "int", "float32", "middle", "strided", "negative",
          "fortran", "readonly"]
  for _ in range(big):
    n, w, hop = rng.randint(0, 70), rng.randint(1, 20), rng.randint(1, 26)
    how = rng.choice(hows)
    if rng.random() < .5:
      tr.append(rec("windows", n, w, hop, False, False, windows(w, hop, True),
                    how))
    else:
      p = rng.random() < .7
      tr.append(rec("time_frames", n, w, hop, p, False,
                    time_frames(rng.choice([sm.SinusoidalModel,
                                            mm.ModalModel]), w, hop, p), how))
  for _ in range(big):
    n, w, hop = rng.randint(0, 50), rng.randint(2, 16), rng.randint(1, 20)
    cls = rng.choice([sm.SinusoidalModel, mm.ModalModel, mm.ModalModel])
    rev = cls is mm.ModalModel and rng.random() < .6
    p = rng.random() < .5
    fft = rng.choice([w, w + 1, 2 * w + 1, 32])
    fft = max(w, fft + fft % 2)
    tr.append(rec("fit", n, w, hop, p, rev,
                  fit_frames(cls, w, hop, p, rev, fft), rng.choice(hows)))
  c.validate("FramingTrace.tla", tr, label="framing")
  c.extra["inputs"] = ("all n<10, w<6, hop<7 and random n<=70; eight memory "
                       "layouts; frames of whole fits recovered from spectra")
