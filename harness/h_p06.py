"""P06: spectral peak detection and refinement."""
import itertools
import random

import numpy as np
import vlib
from sample.sms import dsp, mm, sm

SCALE = 20000


def q(v):
  """Quantise"""
  try:
    v = float(v) * SCALE
    return int(round(v)) if abs(v) < 2**30 else vlib.BAD
  except (ValueError, OverflowError):
    return vlib.BAD


def rec(x, t, ph, dtype=float):
  """Observe one detection"""
  xa = np.array(x, dtype=dtype)
  pa = None if ph is None else np.array(ph, dtype=float)
  out = dict(kind="refine", x=list(x), hast=t is not None, t=t or 0,
             ph=list(ph or []), det=[], loc=[], mag=[], pha=[], scale=SCALE,
             intact=True, err="")

  def go():
    det = [int(i) + 1 for i in
           (dsp.peak_detect(xa, t) if t is not None else dsp.peak_detect(xa))]
    r = dsp.peak_detect_interp(xa, pa, t)
    return det, r

  ok, r = vlib.attempt(go)
  if not ok:
    out["err"] = r
    return out
  out["det"], r = r
  if len(r) != (2 if ph is None else 3):
    out["err"] = "wrong number of results"
    return out
  # locations are 0-based in the code, 1-based in the specification
  out["loc"] = [q(v + 1) for v in r[0]]
  out["mag"] = [q(v) for v in r[1]]
  if ph is not None:
    out["pha"] = [q(v) for v in r[2]]
  out["intact"] = xa.tolist() == list(x) and (ph is None or
                                              pa.tolist() == list(ph))
  return out


def ranks(v):
  """Order-preserving integers"""
  u = sorted(set(v))
  d = {a: i for i, a in enumerate(u)}
  return [d[a] for a in v], d, u


def model_recs(rng):
  """Peaks saved by a whole analysis against its saved spectra"""
  g = np.random.RandomState(rng.randrange(2**31))
  n = rng.choice([64, 128])
  w = rng.choice([np.hamming(31), np.hanning(48), np.ones(32),
                  np.blackman(n)])
  size = w.size + rng.randint(0, 60)
  x = g.randn(size) * 10**rng.uniform(-4, 0)
  if rng.random() < .3:
    x = np.cos(np.arange(size) * rng.uniform(.1, 3))
  if rng.random() < .1:
    x[:] = 0
  if rng.random() < .1:
    x[:] = 0
    x[size // 2] = 1
  t = rng.choice([-120, -90, -60, -40, -20])
  cls = rng.choice([sm.SinusoidalModel, mm.ModalModel])

  def go():
    m = cls(w=w, n=n, t=t, tracker__fs=8000, tracker__h=rng.choice([16, 40]),
            intermediate__save=True).fit(x)
    s = m.intermediate.get_state()
    return s["stft"], s["peaks"]

  ok, r = vlib.attempt(go)
  base = dict(kind="ranks", x=[], hast=True, t=0, ph=[], det=[], loc=[],
              mag=[], pha=[], scale=SCALE, intact=True, err="")
  if not ok:
    return [dict(base, err=r)]
  out = []
  if len(r[0]) != len(r[1]):
    out.append(dict(base, err="different numbers of spectra and peaks"))
  for (mx, _), (loc, _, _) in zip(*r):
    xs, d, _ = ranks([float(v) for v in mx] + [float(t)])
    out.append(dict(base, x=xs[:-1], t=xs[-1],
                    det=[vlib.xint(np.rint(v)) + 1 for v in loc]))
  return out


def run(c):
  """Drive and validate"""
  c.design("MC_Peaks.tla", "MC_Peaks.cfg")
  rng = random.Random(f"p06-{vlib.SEED}")
  tr = []
  for n in range(0, 7):
    for x in itertools.product(range(3), repeat=n):
      t = rng.choice([None, 0, 1, 2])
      ph = None if not x or rng.random() < .3 else [rng.randint(-9, 9) for _ in x]
      tr.append(rec(x, t, ph))
  for n in range(3, 6):
    for x in itertools.product(range(3), repeat=n):
      for t in (None, -1, 0, 1, 2):
        tr.append(rec(x, t, None))
  for _ in range(6000 if vlib.THOROUGH else 1200):
    n, k = rng.randint(0, 20), rng.choice([2, 3, 6, 12])
    x = [rng.randint(-k, k) for _ in range(n)]
    t = rng.choice([None, rng.randint(-k, k)])
    ph = None if not x or rng.random() < .3 else [rng.randint(-20, 20) for _ in x]
    tr.append(rec(x, t, ph))
  for _ in range(400 if vlib.THOROUGH else 60):
    tr.extend(model_recs(rng))
  c.validate("PeaksTrace.tla", tr, label="peaks", batch=20000)
  c.extra["inputs"] = ("all sequences of length <= 6 over 3 values, random "
                       "ones, spectra of whole analyses by rank")
