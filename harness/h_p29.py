"""P29: a beat is exactly the sum of its two partials."""
import random
import warnings

import numpy as np
import vlib
from sample import beatsdrop
from sample.beatsdrop import regression

PER = 2048      # time-steps per quarter second
LN = 4 * np.log(2)


def now(p, n, top):
  """A partial n quarters after the first time-step, amplitudes times
  2 ** (top * n)"""
  a, k, f, q = p
  return dict(a=a * 2 ** ((top - k) * n), k=k, f=f, q=(q + f * n) % 4)


def make(rnd, u, v, n0):
  """The beat of two partials given at quarter n0"""
  a, f, d, ph = [], [], [], []
  for amp, k, freq, q in (u, v):
    a.append(amp * 2. ** (k * n0))
    f.append(float(freq))
    d.append(2 / (LN * k) if k else np.inf)
    ph.append((q - freq * n0 + 4 * rnd.randrange(-2, 3)) * np.pi / 2)
  kind = rnd.choice(["modal", "modal", "regression", "beat"])
  if kind == "modal":
    return beatsdrop.ModalBeat(a0=a[0], a1=a[1], f0=f[0], f1=f[1], d0=d[0],
                               d1=d[1], p0=ph[0], p1=ph[1]).compute
  if kind == "regression":
    r = regression.BeatRegression()
    r.params_ = tuple(a + f + d + ph)
    r.beat_ = beatsdrop.ModalBeat(*r.params_)

    def predict(t, output):
      if isinstance(output, str):
        return r.predict(t[:, None], *([output] if output != "x" else []))[0]
      return r.predict(t[:, None], *output)

    return predict
  amps = [beatsdrop.ExponentialDecay(a[i], d[i])
          if (u, v)[i][1] or rnd.random() < .3 else a[i] for i in range(2)]
  b = beatsdrop.Beat(*amps, *f, *ph)
  if rnd.random() < .5:
    return b.compute
  return lambda t, output: (getattr(b, output)(t) if isinstance(output, str)
                            else [getattr(b, o)(t) for o in output])


def partial(rnd):
  """Amplitude, halvings per quarter second, frequency, quarter turns"""
  return (rnd.choice([0, 1, 1, 2, 3]), rnd.choice([0, 0, 1]),
          rnd.randrange(0, 20), rnd.randrange(4))


def beat(rnd):
  """One beat"""
  u, v = partial(rnd), partial(rnd)
  if rnd.random() < .3:
    v = v[:2] + (max(0, u[2] + rnd.randrange(-2, 3)), v[3])
  quarters = rnd.randrange(1, 5)
  n0 = rnd.choice([0, rnd.randrange(-8, 9), rnd.randrange(40)])
  compute = make(rnd, u, v, n0)
  t = np.arange(quarters * PER + 1) / (4 * PER) + n0 / 4
  axis = t.copy()
  names = ["am", "fm", "x"]
  if rnd.random() < .5:
    rnd.shuffle(names)
    ok, r = vlib.attempt(compute, t, names)
    if ok:
      r = dict(zip(names, r))
  else:
    rnd.shuffle(names)
    r = {}
    for k in names:
      ok, r[k] = vlib.attempt(compute, t, k)
      if not ok:
        r = r[k]
        break
  if not ok:
    return dict(err=f"raised {r}", steps=[])
  if not np.array_equal(t, axis):
    return dict(err="changed its time axis", steps=[])
  for k in names:
    if np.shape(r[k]) != t.shape and not (k == "am" and np.ndim(r[k]) == 0):
      return dict(err=f"{k} of shape {np.shape(r[k])}", steps=[])
  top = max(u[1], v[1])
  steps = []
  # the sound is integrated: the two must never nearly cancel out
  alone = [(now(u, n, top), now(v, n, top)) for n in range(quarters + 1)]
  heard = u[0] + v[0] > 0 and (all(p["a"] >= 2 * q["a"] for p, q in alone) or all(
      q["a"] >= 2 * p["a"] for p, q in alone))
  for n, (p, q) in enumerate(alone):
    i, unit = n * PER, 2. ** (top * n)
    amp = float(np.broadcast_to(r["am"], t.shape)[i]) * unit
    step = dict(at=n0 + n, u=p, v=q, am2=vlib.xround(amp ** 2, tol=1e-5),
                fm=[], x=[])
    if amp ** 2 > .1:
      turns = r["fm"][i] / (2 * np.pi) * 2 * amp ** 2 * 1000
      step["fm"] = [int(round(turns)) if abs(turns) < 2 ** 30 else vlib.BAD]
    if heard:
      step["x"] = [vlib.xround(r["x"][i] * unit, tol=.02)]
    steps.append(step)
  return dict(err="", steps=steps)


def run(c):
  """Entry point"""
  warnings.simplefilter("ignore")
  c.design("MC_BeatSum.tla",
           "MC_BeatSumDeep.cfg" if vlib.THOROUGH else "MC_BeatSum.cfg",
           timeout=3000)
  c.design_violates("MC_BeatSum.tla", "MC_BeatSumZero.cfg", ["PhaseOfSum"])
  rnd = random.Random(vlib.SEED)
  np.seterr(all="ignore")
  traces = [beat(rnd) for _ in range(15000 if vlib.THOROUGH else 1500)]
  c.extra["sounds"] = sum(bool(s["x"]) for t in traces for s in t["steps"])
  c.validate("BeatSumTrace.tla", traces)
  c.assumptions += [
      "compared at multiples of a quarter second, where integer frequencies "
      "make every phase a whole number of quarter turns and every value an "
      "integer; the sound, whose phase is integrated numerically, is compared "
      "for partials one of which is at least twice the other"]
