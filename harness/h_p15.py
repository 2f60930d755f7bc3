"""P15: output buffers receive the result and inputs stay intact."""
import random
import re
import warnings

import numpy as np
import vlib
from sample import beatsdrop, hinge, psycho, utils
from sample import sample as smp
from sample.utils import dsp

GT = psycho.GammatoneFilter(f=70.)
GTN = psycho.GammatoneFilter(f=70., normalize=True, a=2.)


def _erbq(f):
  return 6.23e-6 * f**2 + 0.009339 * f + 28.52


def _env(t, g=GT):
  b, n = _erbq(70.), 4
  tc = (n - 1) / (2 * np.pi * b)
  u = np.asarray(t, dtype=float) + tc
  return np.where(u >= 0, u, 0)**(n - 1) * np.exp(
      -2 * np.pi * b * np.where(u >= 0, u, 0)) * (u >= 0)


def _wave(t, analytic):
  b = _erbq(70.)
  ph = 2 * np.pi * 70. * np.asarray(t, dtype=float) \
      - 2 * np.pi * 70. * 3 / (2 * np.pi * b)
  return _env(t) * (np.exp(1j * ph) if analytic else np.cos(ph))


def _irn(t, analytic):
  w = _wave(t, analytic)
  return 2. * w / np.sqrt(np.sum(np.abs(w)**2))


def _aw(f):
  f2 = np.square(np.asarray(f, dtype=float))
  return 12194.**2 * f2**2 / ((f2 + 20.6**2) * np.sqrt(
      (f2 + 107.7**2) * (f2 + 737.9**2)) * (f2 + 12194.**2))


def _db(a):
  return 20 * np.log10(a)


FREQ = (1, 12000)  # domain of values
# name, function, key of the variant, default, variants -> reference,
# domain, takes integers, complex input, complex output, scalar input
FUNS = [
    ("hz2bark", psycho.hz2bark, "mode", "traunmuller", {
        "zwicker": lambda f: 13 * np.arctan(7.6e-4 * f)
                   + 3.5 * np.arctan((f / 7500)**2),
        "traunmuller": lambda f: 26.81 * f / (1960 + f) - .53,
        "wang": lambda f: 6 * np.arcsinh(f / 600)}, FREQ),
    ("bark2hz", psycho.bark2hz, "mode", "traunmuller", {
        "traunmuller": lambda b: 1960 * (b + .53) / (26.28 - b),
        "wang": lambda b: 600 * np.sinh(b / 6)}, (0, 20)),
    ("hz2mel", psycho.hz2mel, "mode", "default", {
        "default": lambda f: 2595 * np.log10(1 + f / 700),
        "fant": lambda f: 1000 * np.log2(1 + f / 1000)}, FREQ),
    ("mel2hz", psycho.mel2hz, "mode", "default", {
        "default": lambda m: 700 * (10**(m / 2595) - 1),
        "fant": lambda m: 1000 * (2**(m / 1000) - 1)}, (0, 3000)),
    ("erb", psycho.erb, "degree", "quadratic", {
        "quadratic": _erbq, "linear": lambda f: 24.7 * (.00437 * f + 1)}, FREQ),
    ("hz2cams", psycho.hz2cams, "degree", "quadratic", {
        "quadratic": lambda f: 11.17 * np.log((f + 312) / (f + 14675)) + 43,
        "linear": lambda f: 21.4 * np.log10(1 + .00437 * f)}, FREQ),
    ("cams2hz", psycho.cams2hz, "degree", "quadratic", {
        "quadratic": lambda c: (312 - 14675 * np.exp((c - 43) / 11.17)) / (
            np.exp((c - 43) / 11.17) - 1),
        "linear": lambda c: (10**(c / 21.4) - 1) / .00437}, (4, 30)),
    ("normalize", dsp.normalize, "mode", "peak", {
        "peak": lambda x: x / np.max(np.abs(x)),
        "rms": lambda x: (x - np.mean(x)) / np.std(x),
        "range": lambda x: (x - np.min(x)) / (np.max(x) - np.min(x))},
     (-50, 60)),
]


def _plain(name, fn, ref, dom):
  return (name, fn, None, "value", {"value": ref}, dom)


FUNS += [
    _plain("db2a", dsp.db2a, lambda d: 10**(d / 20), (-60, 20)),
    _plain("a2db", dsp.a2db, _db, (1, 90)),
    _plain("a2db floor", lambda a, **k: dsp.a2db(a, 20., **k),
           lambda a: _db(np.maximum(a, 20.)), (1, 90)),
    _plain("a2db floor_db",
           lambda a, **k: dsp.a2db(a, floor=20., floor_db=True, **k),
           lambda a: _db(np.maximum(a, 10.)), (1, 90)),
    _plain("bin2f", lambda b, **k: dsp.bin2f(b, 64, 8., **k),
           lambda b: b / 8., (0, 40)),
    ("a_weighting", psycho.a_weighting, "db", True,
     {True: lambda f: _db(_aw(f)) - _db(_aw(1000.)), False: _aw}, FREQ),
    _plain("hwr", psycho.hwr, lambda x: np.maximum(x, 0), (-20, 20)),
    _plain("hwr th", lambda x, **k: psycho.hwr(x, th=3., **k),
           lambda x: np.maximum(x, 3.), (-20, 20)),
    _plain("hinge", lambda x, **k: hinge.hinge_function(x, 3., -2., .5, **k),
           lambda x: -2. * np.minimum(x, 3.) + .5, (-20, 20)),
    _plain("decay", beatsdrop.ExponentialDecay(3., .5),
           lambda t: 3. * np.exp(-4 * t), (0, 4)),
    _plain("decay dt", beatsdrop.ExponentialDecay(3., .5).dt,
           lambda t: -12. * np.exp(-4 * t), (0, 4)),
    _plain("envelope", GT.envelope, _env, (-1, 1)),
    ("wavefun", GT.wavefun, "analytic", False,
     {False: lambda t: _wave(t, False), True: lambda t: _wave(t, True)},
     (-1, 1)),
    ("ir", GTN.ir, "analytic", False,
     {False: lambda t: _irn(t, False), True: lambda t: _irn(t, True)}, (-1, 1)),
    _plain("expi", dsp.expi, lambda x: np.exp(1j * x), (-6, 6)),
    _plain("complex2db", dsp.complex2db, lambda c: _db(np.abs(c)), (1, 50)),
    _plain("complex2db floor", lambda c, **k: dsp.complex2db(c, floor=9., **k),
           lambda c: _db(np.maximum(np.abs(c), 9.)), (1, 50)),
    # two array inputs: the other one is given by the driver
    _plain("energy", smp.modal_energy, lambda a, d: a**2 * d / 4, (-9, 9)),
    _plain("a2db floors", lambda a, f, **k: dsp.a2db(a, f, **k),
           lambda a, f: _db(np.maximum(a, f)), (1, 90)),
]
FLOAT_ONLY = {"normalize", "hwr", "hwr th", "hinge", "ir"}
NO_SCALAR = {"normalize", "ir"}
TWO = {"energy", "a2db floors"}
TIME = {"envelope", "wavefun", "ir"}
SHAPES = [(3,), (5,), (1,), (2, 3), (0,)]


def close(a, b, tol):
  """Same values (not a number included)"""
  a, b = np.asarray(a), np.asarray(b)
  return a.shape == b.shape and bool(
      np.allclose(a, b, rtol=tol, atol=tol * (1 + float(
          np.max(np.abs(b[np.isfinite(b)]))
          if np.isfinite(b).any() else 0)), equal_nan=True))


def make(rng, dom, how, shape, time):
  """An input of one kind"""
  def num():
    v = rng.uniform(*dom)
    return v / 20 if time and "int" not in how else v
  n = int(np.prod(shape))
  if how == "float":
    return num()
  if how == "int":
    return rng.randint(int(dom[0]), int(dom[1]))
  if how == "np.int64":
    return np.int64(rng.randint(int(dom[0]), int(dom[1])))
  if how == "np.float64":
    return np.float64(num())
  if how == "np.float32":
    return np.float32(num())
  if how == "0d":
    return np.array(num())
  vals = [num() for _ in range(n)]
  if how == "list":
    return np.array(vals).reshape(shape).tolist()
  if how == "ints":
    return np.array([rng.randint(int(dom[0]), int(dom[1]))
                     for _ in range(n)], dtype=int).reshape(shape)
  if how == "float32":
    return np.array(vals, dtype=np.float32).reshape(shape)
  a = np.array(vals).reshape(shape)
  if how == "strided":
    b = np.full(shape[:-1] + (2 * shape[-1],), 777.)
    b[..., ::2] = a
    return b[..., ::2]
  if how == "fortran":
    return np.asfortranarray(a)
  if how == "readonly":
    a.flags.writeable = False
  return a


SCALARS = ["float", "int", "np.float64", "np.float32", "0d", "np.int64"]
ARRAYS = ["array", "array", "ints", "float32", "list", "strided", "fortran",
          "readonly"]


def shares(a, b):
  """Whether a result is (a view of) an input"""
  return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and \
      np.shares_memory(a, b)


def one(rng, fun):
  """One call"""
  name, fn, key, default, variants, dom = fun
  sel = rng.choice(list(variants))
  unknown = key is not None and isinstance(default, str) and rng.random() < .1
  given = key is not None and (unknown or sel != default or rng.random() < .5)
  if unknown:
    sel = rng.choice(["Default", "quadratic ", "none", "zwickers", "PEAK"])
  elif not given:
    sel = default
  hows = list(ARRAYS) + ([] if name in NO_SCALAR else SCALARS)
  if name in FLOAT_ONLY:
    hows = [h for h in hows if "int" not in h]
  how = rng.choice(hows)
  scalar = how in SCALARS
  shape = () if scalar else rng.choice(
      [s for s in SHAPES if name not in NO_SCALAR or
       (len(s) == 1 or name == "normalize") and np.prod(s) > 1])
  if how == "list" and (len(shape) != 1 or not np.prod(shape)):
    how = "array"  # lists: flat and not empty
  if name == "complex2db" or name == "complex2db floor":
    a = make(rng, dom, how, shape, False)
    if how in ("array", "0d", "float") and rng.random() < .7:
      a = a * (np.cos(1.) + 1j * np.sin(1.))
  else:
    a = make(rng, dom, how, shape, name in TIME)
  other = []
  if name in TWO:
    h2 = rng.choice(SCALARS if scalar else
                    ["array", "ints", "list"] if shape in ((3,), (5,)) else
                    ["array", "ints"])
    other = [make(rng, dom, h2, shape, False)]
  keys = {} if not given else {key: sel}
  arrays = [v for v in (a, *other) if isinstance(v, np.ndarray)]
  x = [np.array(v, copy=True) if isinstance(v, np.ndarray) else
       np.array(v) for v in (a, *other)]
  ref_in = [v.astype(complex if np.iscomplexobj(v) else float) for v in x]
  with np.errstate(all="ignore"):
    refs = {k: np.asarray(f(*ref_in)) for k, f in variants.items()}
  cplx = name == "expi" or (name in ("wavefun", "ir") and sel is True)
  bufs = ["none", "none", "fresh"]
  target = None
  cands = [v for v in arrays if v.flags.writeable and v.ndim and
           v.dtype == (complex if cplx else float)]
  if cands:
    bufs += ["alias", "alias"]
  buf = rng.choice(bufs)
  keep = a if isinstance(a, list) else None
  if buf == "fresh":
    dt = complex if cplx else np.float64
    target = rng.choice([lambda: np.full(shape, 55., dtype=dt),
                         lambda: np.full((2,) + shape, 55., dtype=dt)[1]])()
    if not isinstance(target, np.ndarray):
      target = np.full(shape, 55., dtype=dt)
  elif buf == "alias":
    target = rng.choice(cands)
  if buf != "none":
    keys["out"] = target
  tol = 2e-4 if "float32" in how or name == "expi" else 1e-7
  out = dict(fn=name, how=how, variants=[str(v) for v in variants],
             default=str(default), sel=str(sel) if given else "", buf=buf,
             scalar=scalar, err="", named=True, ret="", kind="", shape=True,
             val=[], bufval=[], intact=True)
  with warnings.catch_warnings(), np.errstate(all="ignore"):
    warnings.simplefilter("ignore")
    try:
      with vlib.deadline(20):
        r = fn(a, *other, **keys)
    except vlib.Hang:
      out["err"] = "Hang"
    except Exception as e:  # pylint: disable=W0703
      out["err"] = type(e).__name__
      quoted = re.findall(r"'([^']*)'", str(e))
      out["named"] = all(str(v) in quoted for v in variants)

  def matches(v):
    v = np.asarray(v)
    return [str(k) for k, q in refs.items()
            if close(v, q, tol) and
            (np.iscomplexobj(v) == np.iscomplexobj(q) or v.size == 0)]

  for v, w in zip((a, *other), x):
    if v is not target and not (isinstance(v, np.ndarray) and target is not None
                                and shares(v, target)):
      out["intact"] = out["intact"] and np.array_equal(
          np.asarray(v), w, equal_nan=True)
  if isinstance(a, np.ndarray) and how == "strided" and buf != "alias":
    out["intact"] = out["intact"] and bool(np.all(a.base[..., 1::2] == 777.))
  if isinstance(keep, list):
    out["intact"] = out["intact"] and isinstance(a, list)
  if not out["err"]:
    out["kind"] = "array" if isinstance(r, np.ndarray) else "scalar"
    out["shape"] = bool(np.shape(r) == tuple(shape))
    out["ret"] = "buffer" if target is not None and r is target else \
        "input" if any(shares(r, v) for v in arrays) else "new"
    out["val"] = matches(r)
    if target is not None:
      out["bufval"] = matches(target)
  return out


def operators(rng, c):
  """Symmetric sum and difference operators used by beat models"""
  for _ in range(60):
    a, b = (np.array([rng.uniform(-5, 5) for _ in range(4)]) for _ in "ab")
    a0, b0 = a.copy(), b.copy()
    s = utils.Numpy2Paragraph._semisum(a, b)
    d = utils.Numpy2Paragraph._semidiff(a, b)
    c.expect(np.allclose(s, (a0 + b0) / 2) and np.allclose(d, (a0 - b0) / 2)
             and np.array_equal(a, a0) and np.array_equal(b, b0),
             "half sum and half difference")


def run(c):
  """Drive and validate"""
  c.design("OutBuffer.tla", "OutBuffer.cfg")
  c.design_violates("OutBuffer.tla", "OutBufferNoRule.cfg", ["Sound"])
  rng = random.Random(f"p15-{vlib.SEED}")
  k = 600 if vlib.THOROUGH else 70
  tr = [one(rng, f) for f in FUNS for _ in range(k * (2 if f[2] else 1))]
  c.extra["functions"] = [f[0] for f in FUNS]
  c.validate("OutTrace.tla", tr, label="output buffers")
  if hasattr(utils.Numpy2Paragraph, "_semisum"):
    operators(rng, c)
