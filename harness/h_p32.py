"""P32: gammatone filters always reflect their current settings."""
import copy
import math
import pickle
import random
import warnings

import numpy as np
import vlib
from sample import psycho

TAU = 1 / (2 * np.pi)
FNS = dict(bw=lambda g: g.f / 100, tc=lambda g: g.n * TAU,
           phi=lambda g: float(g.n), a=lambda g: 2. * g.n)


def setting(rnd, what):
  """Abstract and concrete setting"""
  k = rnd.choice(["none", "num", "num", "fn"])
  if k != "num":
    return dict(k=k, v=0), FNS[what] if k == "fn" else None
  if what == "bw":
    v = rnd.choice([5, 10, 40, 100])
    return dict(k=k, v=v), rnd.choice([int, float])(v)
  if what == "tc":
    v = rnd.choice([0, 0, 500, 7000, 120000])
    return dict(k=k, v=v), v * TAU / 1e5
  v = rnd.choice([0, 1, 3, 7]) if what == "phi" else rnd.choice([1, 3, 7])
  return dict(k=k, v=v), float(v)


def read(o):
  """Quantities of a filter in the units of the model"""
  r = lambda x, s: vlib.xround(float(x) * s, tol=1)  # pylint: disable=C3001
  a = o.a
  return dict(f=r(o.f, 1e-3), n=int(o.n), bw=r(o.bandwidth, 1e3),
              raw=r(o.raw_group_delay / TAU, 1e5), tc=r(o.t_c / TAU, 1e5),
              gd=r(o.group_delay / TAU, 1e5), phi=r(o.phi / 1e3, 1e5),
              a=0 if a is None else r(a, 1))


class Through:
  """Member of a bank read through the attributes of the bank"""

  def __init__(self, bank, i):
    self.bank, self.i = bank, i

  def __getattr__(self, key):
    return getattr(self.bank, key)[self.i]


NAMES = dict(g="f", n="n", bw="bandwidth", tc="t_c", phi="phi", a="a",
             gd="group_delay")


def history(rnd):
  """Random assignments to a filter"""
  s, kw = {}, {}
  for w in ("bw", "tc", "phi", "a"):
    s[w], v = setting(rnd, w)
    if v is not None or rnd.random() < .3:
      kw[NAMES[w]] = v
  s["g"], s["n"] = rnd.choice([1, 2]), rnd.choice([1, 2, 3, 4, 5])
  if s["n"] != 4 or rnd.random() < .5:
    kw["n"] = s["n"]
  out = dict(kind="filter", err="", init=s, steps=[], obs=0)
  look = o = None

  def drive():
    nonlocal look, o
    if rnd.random() < .3:
      bank = psycho.GammatoneFilterbank(
          freqs=[300., s["g"] * 1e3, 700.], **kw)
      if rnd.random() < .5:
        bank = rnd.choice([copy.copy, copy.deepcopy])(bank)
      o, look = bank[1], Through(bank, 1)
    else:
      o = look = psycho.GammatoneFilter(f=s["g"] * 1e3, **kw)
    out["obs"] = read(look)
    for _ in range(rnd.randrange(9)):
      w = rnd.choice(list(NAMES))
      if w == "g":
        v = rnd.choice([1, 2])
        c = v * 1e3
      elif w == "n":
        c = v = rnd.choice([1, 2, 3, 4, 5])
      elif w == "gd":
        v = rnd.choice([0, 0, 500, 7000])
        c = v * TAU / 1e5
      else:
        v, c = setting(rnd, w)
      setattr(o, NAMES[w], c)
      if rnd.random() < .3:
        o.envelope(np.linspace(0, .01, 5))
      out["steps"].append(dict(what=w, v=v, obs=read(look)))

  ok, r = vlib.attempt(drive)
  return out if ok else dict(out, err=str(r))


def bank(rnd):
  """Centres on a linear scale"""
  lo = rnd.randrange(-20, 100)
  hi = lo + rnd.randrange(2, 60)
  u = rnd.choice([1, 2, 4, 8])
  n = rnd.choice([0, rnd.randrange(1, 12)])
  kw = dict(flim=rnd.choice([(lo, hi), [lo, hi], (lo, lo + 1, hi)]),
            freq_transform=(lambda f: np.asarray(f, dtype=float) / u,
                            lambda t: u * np.asarray(t)))
  if n:
    kw["n_filters"] = n
  elif (hi - lo) * 2 <= u:
    return bank(rnd)
  ok, r = vlib.attempt(lambda: psycho.GammatoneFilterbank(**kw))
  out = dict(kind="bank", err="", lo=lo, hi=hi, n=n, u=u, at=[])
  if not ok:
    return dict(out, err=str(r))
  at = [f.f for f in r]
  if len(r) != len(at) or tuple(at) != r.f or r[len(at) - 1].f != at[-1]:
    return dict(out, err="members differ")
  return dict(out, at=[vlib.xround(f * 2 * (len(at) + 1), tol=1e-9)
                       for f in at])


def members(rnd):
  """A bank is the sequence of its filters, also when copied"""
  given = [rnd.randrange(20, 5000) for _ in range(rnd.randrange(1, 6))]
  fs = [psycho.GammatoneFilter(f=f) for f in given]
  how = rnd.randrange(3)
  make = [lambda: psycho.GammatoneFilterbank(iter(fs)),
          lambda: psycho.GammatoneFilterbank(freqs=given),
          lambda: psycho.GammatoneFilterbank(filters=fs, freqs=[1.])][how]
  dup = rnd.choice([lambda b: b, copy.copy, copy.deepcopy,
                    lambda b: pickle.loads(pickle.dumps(b))])
  out = dict(kind="members", err="", given=given, got=[])
  ok, b = vlib.attempt(lambda: dup(make()))
  if not ok:
    return dict(out, err=str(b))
  ok, r = vlib.attempt(lambda: b.no_such_attribute)
  if ok or str(r) != "AttributeError":
    return dict(out, err=f"unknown attribute: {r}")
  return dict(out, got=[int(v) for v in rnd.choice([
      lambda: b.f, lambda: [g.f for g in b],
      lambda: [b[i].f for i in range(len(b))]])()])


def size(rnd):
  """Suggested size of a response"""
  f = rnd.choice([50, 100, 250, 440, 1000])
  fs = rnd.choice([1000, 4000, 8000, 16000])
  m = rnd.choice([0, 0, 1, 5, rnd.randrange(30)])
  p = rnd.choice([0, 0, 1, -1, 2, 7])
  n = rnd.choice([1, 2, 3, 4, 4, 6])
  bw = rnd.choice([None, 20., 60., 150.])
  floor = rnd.choice([-60, -60, -40, -20])
  kw = {}
  if floor != -60:
    kw["floor"] = floor
  if rnd.random() < .3:
    kw["steps"] = 40
  if rnd.random() < .2:
    kw["initial_range"] = rnd.choice([1e-3, .1])
  out = dict(kind="size", err="", f=f, fs=fs, m=m, p=p)
  def drive():
    g = psycho.GammatoneFilter(f=f, n=n, bandwidth=bw, t_c=m / fs,
                               phi=p * np.pi / 2)
    return g, g.t60(**kw), g.ir_size(fs=fs, **kw), g.ir(fs=fs, **kw)
  ok, r = vlib.attempt(drive, secs=20)
  if not ok:
    return dict(out, err=f"{r} (order {n})")
  g, t, k, ir = r
  peak = (n - 1) / (2 * np.pi * float(g.bandwidth)) - m / fs
  level = 20 * np.log10(g.envelope(t) / g.envelope(peak))
  x = 4 * f * t + p
  if abs(x - round(x)) < 2e-3:
    return size(rnd)
  if ir.shape != (k,):
    return dict(out, err=f"response of shape {ir.shape}")
  return dict(out, level=vlib.xround(level, 100, tol=1),
              floor=100 * floor, after=bool(t > peak), size=int(k),
              x=math.ceil(x * 1000))


def response(rnd):
  """Response that halves at each sample"""
  fs = 2 ** rnd.randrange(1, 14)
  n = rnd.choice([1, 2, 3, 4])
  m, q = rnd.randrange(0, 5), rnd.randrange(-3, 4)
  last = rnd.randrange(3, 14)
  first = rnd.choice([0, 0, -2, 1])
  a = rnd.choice([None, 1, 3])
  part = rnd.choice(["re", "re", "im"])
  default = rnd.random() < .4
  g = psycho.GammatoneFilter(
      f=fs / 4, n=n, t_c=m / fs, bandwidth=fs * np.log(2) / (2 * np.pi),
      phi=None if default else q * np.pi / 2,
      a=(lambda _: a) if a and rnd.random() < .3 else a)
  if default:
    q = -m
  t = (np.arange(first, last + 1) - m) / fs
  kw = dict(analytic=True) if part == "im" or rnd.random() < .3 else {}
  out = dict(kind="response", err="", n=n, q=q, m=m, last=last, part=part,
             a=a or 1)
  out["from"] = first
  keep = t.copy()
  ok, r = vlib.attempt(lambda: g.ir(t=t, **kw))
  if not ok:
    return dict(out, err=str(r))
  if not np.array_equal(t, keep) or r.shape != t.shape:
    return dict(out, err="changed its time axis")
  r = np.real(r) if part == "re" else np.imag(r)
  return dict(out, got=[vlib.xround(v * 2 ** last * fs ** (n - 1), tol=1e-9)
                        if abs(v * 2 ** last * fs ** (n - 1)) > 1e-3 else 0
                        for v in r])


def energy(rnd):
  """Normalised responses"""
  a = rnd.choice([None, 1, 2, 5])
  g = psycho.GammatoneFilter(f=rnd.uniform(40, 3000), n=rnd.randrange(1, 6),
                             normalize=True, a=a)
  ok, r = vlib.attempt(lambda: g.ir(fs=8000., analytic=rnd.random() < .5))
  out = dict(kind="energy", a=a or 1, err="", got=0)
  if not ok:
    return dict(out, err=str(r))
  return dict(out, got=vlib.xround(np.sum(np.abs(r) ** 2), tol=1e-6))


def run(c):
  """Entry point"""
  warnings.simplefilter("ignore")
  c.design("MC_Gamma.tla", "MC_GammaDeep.cfg" if vlib.THOROUGH
           else "MC_Gamma.cfg", timeout=3000)
  c.design_violates("MC_Gamma.tla", "MC_Gamma_kept.cfg", ["Centred", "PeakTime"])
  c.design_violates("MC_Gamma.tla", "MC_Gamma_late.cfg", ["Assigned"])
  rnd = random.Random(vlib.SEED)
  k = 10 if vlib.THOROUGH else 1
  traces = ([history(rnd) for _ in range(600 * k)]
            + [bank(rnd) for _ in range(200 * k)]
            + [members(rnd) for _ in range(100 * k)]
            + [size(rnd) for _ in range(200 * k)]
            + [response(rnd) for _ in range(300 * k)]
            + [energy(rnd) for _ in range(40 * k)])
  c.validate("GammaTrace.tla", traces)
  # a time axis or a sampling frequency is needed
  ok, r = vlib.attempt(psycho.GammatoneFilter(f=100.).ir)
  c.expect(not ok and str(r) == "ValueError", f"response of unknown times: {r}")
  c.assumptions += [
      "settings given as functions are fixed samples; derived times are "
      "compared to 5 digits, responses exactly"]
