"""P23: onsets are local maxima selected by the published rule."""
import random

import numpy as np
import vlib
from sample.utils import dsp

EXACT = {}


def mask(v):
  """0/1 list"""
  return [int(b) for b in np.asarray(v).reshape(-1)]


def sequence(rnd, n, top):
  """Integers with plateaus"""
  k = rnd.randrange(6)
  if k == 0:
    return [rnd.randrange(-top, top + 1)] * n
  if k == 1:      # plateaus
    out = []
    while len(out) < n:
      out += [rnd.randrange(-top, top + 1)] * rnd.randrange(1, 5)
    return out[:n]
  if k == 2:      # isolated peaks
    out = [0] * n
    for _ in range(rnd.randrange(1, 4)):
      if n:
        out[rnd.randrange(n)] = rnd.randrange(1, top + 1)
    return out
  if k == 3:      # ramps
    s = rnd.choice([-1, 1])
    return [max(-top, min(top, s * (i % (2 * top + 1) - top)))
            for i in range(n)]
  return [rnd.randrange(-top, top + 1) for _ in range(n)]


def exact_sequence(rnd):
  """Integers of mean 0 and deviation a power of two"""
  if not EXACT:
    for n in (2, 4, 6, 8, 9, 12, 13):
      EXACT[n] = []
      while len(EXACT[n]) < 25:
        s = rnd.choice([1, 2])
        x = [rnd.randrange(-2 * s, 2 * s + 1) for _ in range(n)]
        if sum(x) == 0 and sum(v * v for v in x) == n * s * s:
          EXACT[n].append(x)
  n = rnd.choice(list(EXACT))
  x = list(rnd.choice(EXACT[n]))
  rnd.shuffle(x)
  return x


def dtype(rnd, x):
  """Any real float (or, for maxima, any number) type"""
  return np.array(x, dtype=rnd.choice([float, float, np.float32]))


def maxima(rnd):
  """One call of local_maxima"""
  n = rnd.choice([0, 1, 2, 3, 5, 8, 13, 40, rnd.randrange(1, 120)])
  x = sequence(rnd, n, rnd.choice([1, 2, 9]))
  w = rnd.choice([0, 1, 1, 2, 3, 5, rnd.randrange(0, 60)])
  if n > 0 and rnd.random() < .2:      # windows which just fit
    w = max(0, (n - 1) // 2 + rnd.choice([-1, 0, 1]))
  kind = rnd.choice([float, int, np.float32, np.int16])
  kw = dict(w=w)
  key = x
  if rnd.random() < .4:
    key = sequence(rnd, n, 2) + sequence(rnd, rnd.choice([0, 0, 3]), 2)
    kw["key"] = np.array(key, dtype=kind)
  both = rnd.random() < .4
  prev = [rnd.randrange(2) for _ in range(n)]
  if both:
    kw.update(logical_and=True, out=np.array(prev, dtype=bool))
  elif rnd.random() < .3:
    kw["out"] = np.array(prev, dtype=bool)
  if rnd.random() < .1 and w == 1:
    del kw["w"]
  arr = np.array(x, dtype=kind)
  ok, r = vlib.attempt(dsp.local_maxima, arr, **kw)
  if ok and arr.tolist() != x:
    ok, r = False, "changed the input"
  return {"kind": "max", "x": x, "key": key, "w": w, "and": both, "prev": prev,
          "err": "" if ok else str(r), "got": mask(r) if ok else []}


def selection(rnd, detect):
  """One call of onset_selection or onset_detection"""
  exact = rnd.random() < .5
  if exact:
    x, scale = exact_sequence(rnd), 4 ** 9
  else:
    long = rnd.random() < .5
    n = rnd.randrange(1, 41 if long else 17)
    x, scale = sequence(rnd, n, 2 if long else 9), 64
    if len(set(x)) == 1:       # normalised to zero exactly
      exact = True
  n = len(x)
  w = rnd.choice([0, 1, 1, 1, 2, 2, 3, 4])
  m = rnd.choice([0, 1, 1, 2, 3])
  a = rnd.choice([0, 1, 2, 3, 4])
  d = rnd.choice([-2, -1, 0, 0, 1, 2, 3, 4])
  kw = dict(w=w, m=m, alpha=a / 4, delta=d / 2)
  if rnd.random() < .2:      # defaults
    w, m, a, d = 3, 3, 3, 3
    kw = {}
  # shifts and scales leave the selection as it is where they are exact
  arr = np.array(x, dtype=float) * rnd.choice([1, 1, 2, .25, 1024])
  rec = dict(x=x, w=w, m=m, a=a, d=d, K=scale, exact=exact)
  if not detect:
    if rnd.random() < .2 and n % 2 == 0:
      arr = arr.reshape(2, -1)
    ok, r = vlib.attempt(dsp.onset_selection, arr, **kw)
    return dict(rec, kind="sel", err="" if ok else str(r),
                got=mask(r) if ok else [])
  size = rnd.choice([n, 1, max(1, n - 1), n * 7, n * 7 + 3, 1000,
                     rnd.randrange(1, 400)])
  audio = np.zeros(size)
  seen = []

  def fn(y, **kws):
    seen.append((y is audio, kws))
    return arr

  extra = dict(nperseg=5) if rnd.random() < .5 else {}
  ok, r = vlib.attempt(dsp.onset_detection, audio, detection_fn=fn, **kw,
                       **extra)
  if ok and seen != [(True, extra)]:
    ok, r = False, "other arguments for the detection function"
  return dict(rec, kind="det", size=size, err="" if ok else str(r),
              len=int(r.size) if ok else 0,
              got=[int(i) for i in np.flatnonzero(r)] if ok else [])


PHASES = [1, -1, 1j, -1j]


def flux(rnd):
  """One call of the spectral flux"""
  b, t = rnd.randrange(1, 6), rnd.randrange(2, 9)
  mat = [[rnd.randrange(0, 5) for _ in range(t)] for _ in range(b)]
  arr = np.array(mat, dtype=float)
  if rnd.random() < .5:
    arr = arr * np.array([[rnd.choice(PHASES) for _ in range(t)]
                          for _ in range(b)])
  before = arr.copy()
  if rnd.random() < .5:
    ok, r = vlib.attempt(dsp.spectral_flux_from_tf, arr)
  else:
    x = np.arange(3.)
    ok, r = vlib.attempt(dsp.spectral_flux, x, tf_fn=lambda y, k=0: (
        None, None, arr) if y is x and k == 3 else None, k=3)
  if ok and not np.array_equal(arr, before):
    ok, r = False, "changed the input"
  return {"kind": "flux", "mat": mat, "err": "" if ok else str(r),
          "got": [vlib.xint(v) for v in r] if ok else []}


def clicks(c, rnd):
  """A click in a silent sound is found next to where it is"""
  for _ in range(60 if vlib.THOROUGH else 12):
    n = rnd.choice([8192, 20000])
    at = rnd.randrange(n // 4, 3 * n // 4)
    x = np.zeros(n)
    x[at:] = np.exp(-np.arange(n - at) / 800) * np.sin(np.arange(n - at))
    ok, r = vlib.attempt(dsp.onset_detection, x, nperseg=256)
    got = np.flatnonzero(r) if ok else []
    # frames are 128 samples apart, and a window is 256 samples
    c.expect(ok and len(got) >= 1 and min(abs(int(g) - at) for g in got) <= 512,
             f"a click at {at} of {n} has onsets at {list(got)[:5]} "
             f"({r if not ok else ''})", dict(at=at, n=n))


def run(c):
  """Entry point"""
  c.design("MC_Onset.tla", "MC_Onset.cfg")
  for k in ("Strict", "Left", "Current", "Symmetric", "Envelope"):
    c.design_violates("MC_Onset.tla", f"MC_Onset{k}.cfg", ["Def" + k])
  if vlib.THOROUGH:
    c.design("MC_Onset.tla", "MC_OnsetDeep.cfg", timeout=3000)
  rnd = random.Random(vlib.SEED)
  n = 10 if vlib.THOROUGH else 1
  c.validate("OnsetTrace.tla",
             [maxima(rnd) for _ in range(3000 * n)]
             + [selection(rnd, False) for _ in range(2500 * n)]
             + [selection(rnd, True) for _ in range(800 * n)]
             + [flux(rnd) for _ in range(400 * n)])
  clicks(c, rnd)
  c.assumptions += [
      "detection functions have integer values times a power of two; where "
      "mean and deviation are not exact in floating point, ties with the "
      "envelope and the mean are left open",
      "up to 40 samples for the selection, 120 for maxima"]
