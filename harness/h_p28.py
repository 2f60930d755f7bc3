"""P28: random test sounds are reproducible and within their ranges."""
import random

import numpy as np
import vlib
from sample import psycho
from sample.evaluation import random as rnds


def settings(rnd):
  """Settings of a generator"""
  kw = {}
  if rnd.random() < .7:
    kw["f_min"] = rnd.choice([60, 200, 500])
    kw["f_max"] = rnd.choice([2500, 6000])
  if rnd.random() < .5:
    kw["beat_min"] = rnd.choice([.5, 2, 5])
    kw["beat_max"] = rnd.choice([5.5, 18, 30])
  if rnd.random() < .5:
    kw["delta_min"] = rnd.choice([.5, 1.5])
    kw["delta_max"] = rnd.choice([1.6, 3, 4])
  if rnd.random() < .5:
    kw["decay_min"] = rnd.choice([0, .1, .2])
    kw["decay"] = rnd.choice([.3, .5, 2])
  if rnd.random() < .5:
    kw["amp_min"] = rnd.choice([-40, -20, -1])
  if rnd.random() < .3:
    kw["onlybeat"] = True
  for k in ("f", "beat", "delta"):
    if rnd.random() < .4:     # pushed towards one end
      kw[k + "_a"], kw[k + "_b"] = rnd.choice([(.3, 5), (5, .3), (.2, .2)])
  return kw


def flat(v):
  """Bytes of a value"""
  if isinstance(v, (tuple, list)):
    return b"|".join(map(flat, v))
  return np.asarray(v, dtype=float).tobytes()


KINDS = {
    "freqs": lambda g, **kw: g.freqs(**kw),
    "decays": lambda g, **kw: g.decays(**kw),
    "amps": lambda g, **kw: g.amps(**kw),
    "noise3": lambda g, **kw: g.noise(nsamples=3, **kw),
    "noise8": lambda g, **kw: g.noise(8, **kw),
    "two": lambda g, **kw: g.beta_twosides(2, 3, **kw),
    "twoside": lambda g, **kw: g.beta_twosides(a=2, b=3, left=1, right=4,
                                               positive=.3, **kw),
    "audio": lambda g, **kw: g.audio(dur=.25, fs=64, **kw),
    "audio16": lambda g, **kw: g.audio(.5, 16, **kw),
}


def history(rnd):
  """Requests to a few generators"""
  base = [(rnd.choice([0, rnd.randrange(10 ** 6)]), settings(rnd))
          for _ in range(rnd.choice([1, 2]))]
  if len(base) == 2 and base[0][0] == base[1][0]:
    base.pop()
  gens, cfg = [], []
  for _ in range(rnd.randrange(2, 4)):
    c = rnd.randrange(len(base))
    seed, kw = base[c]
    if rnd.random() < .3:
      g = rnds.BeatsGenerator(rng=np.random.default_rng(seed), **kw)
    else:
      g = rnds.BeatsGenerator(seed=seed, **kw)
    gens.append(g)
    cfg.append(c + 1)
  kinds = rnd.sample(list(KINDS), rnd.choice([1, 2, 3]))
  codes, steps, plans = {}, [], [[] for _ in gens]
  # each generator gets the same requests, cut into other sizes
  plan = []
  for _ in range(rnd.randrange(1, 5)):
    plan += [rnd.choice(kinds)] * rnd.randrange(1, 4)
  for p in plans:
    i = 0
    while i < len(plan):
      j = i
      while j < len(plan) and plan[j] == plan[i] and (
          j == i or rnd.random() < .6):
        j += 1
      p.append((plan[i], j - i))
      i = j
    if rnd.random() < .2:
      p.insert(rnd.randrange(len(p) + 1), (rnd.choice(kinds), 0))
  while any(plans):
    g = rnd.choice([i for i, p in enumerate(plans) if p])
    kind, n = plans[g].pop(0)
    if rnd.random() < .3:
      np.random.seed(rnd.randrange(100))
    if rnd.random() < .3:
      np.random.rand(2)
      random.random()
    before = np.random.get_state()[1].tobytes(), random.getstate()
    one = n == 1 and rnd.random() < .6
    ok, r = vlib.attempt(KINDS[kind], gens[g], **({} if one else dict(size=n)))
    private = before == (np.random.get_state()[1].tobytes(), random.getstate())
    if ok and not one and not isinstance(r, (list, tuple, np.ndarray)):
      ok, r = False, "not several"
    vals = ([r] if one else list(r)) if ok else []
    steps.append(dict(
        g=g + 1, kind=kind, n=n, err="" if ok else str(r), private=private,
        values=[codes.setdefault((kind, flat(v)), len(codes)) for v in vals],
        parts=[[codes.setdefault((j, flat(z)), len(codes))
                for j, z in enumerate(v[2])] if "audio" in kind else []
               for v in vals]))
  return dict(gens=cfg, steps=steps)


def milli(v, scale=1000):
  """Thousandths"""
  return vlib.xround(np.round(float(v) * scale))


def sound(rnd):
  """One value and its ranges"""
  kw = settings(rnd)
  kind = rnd.choice(["freqs", "freqs", "decays", "amps", "two", "audio"])
  try:
    return dict(SOUNDS[kind](rnd, kw), kind=kind, err="")
  except vlib.Hang:
    raise
  except Exception as e:  # pylint: disable=W0703
    return dict(kind=kind, err=type(e).__name__)


def _freqs(rnd, kw):
  g = rnds.BeatsGenerator(seed=rnd.randrange(10 ** 6), **kw)
  f = g.freqs()
  bark = psycho.hz2bark(np.array(f))
  return dict(f=[milli(v) for v in f], fmin=milli(g.f_min), fmax=milli(g.f_max),
              bmin=milli(g.beat_min), bmax=milli(g.beat_max),
              delta=milli(bark[2] - bark[0]), dmin=milli(g.delta_min),
              dmax=milli(g.delta_max))


def _decays(rnd, kw):
  g = rnds.BeatsGenerator(seed=rnd.randrange(10 ** 6), **kw)
  d = np.ravel(g.decays(size=400))
  # the mean of 1200 values is within a sixth of what it is above the minimum
  off = (np.mean(d) - g.decay) / (g.decay - g.decay_min)
  return dict(d=[milli(v) for v in d[:3]], min=milli(g.decay_min),
              off=vlib.xround(np.round(100 * off)))


def _amps(rnd, kw):
  kw["snr"] = rnd.choice([0, 6, 45, 200])
  g = rnds.BeatsGenerator(seed=rnd.randrange(10 ** 6), **kw)
  snr = 10 ** (kw["snr"] / 20)
  return dict(a=[milli(v, 1e6) for v in g.amps()],
              sum=milli(snr / (1 + snr), 1e6), only=g.onlybeat,
              least=milli(10 ** (g.amp_min / 20)))


def _two(rnd, kw):
  g = rnds.BeatsGenerator(seed=rnd.randrange(10 ** 6), **kw)
  left = rnd.choice([0, .5, 1])
  right = left + rnd.choice([.1, 2])
  pos = rnd.choice([0, 1, .5])
  x = g.beta_twosides(a=rnd.choice([.2, 2]), b=rnd.choice([.2, 3]), left=left,
                      right=right, positive=pos)
  return dict(x=milli(x), left=milli(left), right=milli(right),
              positive=2 if pos == .5 else pos)


def _audio(rnd, kw):
  quiet = rnd.random() < .6
  kw["snr"] = 200 if quiet else rnd.choice([0, 20])
  g = rnds.BeatsGenerator(seed=rnd.randrange(10 ** 6), **kw)
  fs = rnd.choice([1024, 4096])
  dur = rnd.choice([.25, .5, 1.125, .3, .33, 0]) if quiet else 2
  args = dict(dur=dur, fs=fs)
  if quiet and rnd.random() < .2:
    del args["dur"]
    g.decay = rnd.choice([.5, 1.])
    dur = 3 * g.decay
  x, got_fs, (f, d, a, p) = g.audio(**args)
  t = np.arange(len(x)) / fs
  ref = sum(a[k] * np.exp(-2 * t / d[k]) * np.cos(2 * np.pi * f[k] * t + p[k])
            for k in range(3))
  noise = 1 / (1 + 10 ** (kw["snr"] / 20))
  off = np.asarray(x) - ref
  if quiet:
    ok = np.max(np.abs(off), initial=0) <= 20 * noise + 1e-9
  else:
    ok = .8 <= np.std(off) / noise <= 1.25 and abs(np.mean(off)) < .2 * noise
  return dict(n=len(x), size=int(dur * fs), off=0 if ok and got_fs == fs else 2)


SOUNDS = dict(freqs=_freqs, decays=_decays, amps=_amps, two=_two, audio=_audio)


def run(c):
  """Entry point"""
  c.design("Generator.tla",
           "GeneratorDeep.cfg" if vlib.THOROUGH else "Generator.cfg",
           timeout=3000)
  for k in ("Global", "Shared", "Block"):
    c.design_violates("Generator.tla", f"Generator{k}.cfg", ["Reproducible"])
  c.design_violates("Generator.tla", "GeneratorAgain.cfg", ["Fresh"])
  rnd = random.Random(vlib.SEED)
  m = 10 if vlib.THOROUGH else 1
  c.validate("GeneratorTrace.tla", [history(rnd) for _ in range(400 * m)])
  c.validate("SoundTrace.tla", [sound(rnd) for _ in range(3000 * m)])
  c.assumptions += [
      "frequency limits far enough apart for the configured differences",
      "noise is judged by its level over 2048 samples or more"]
