"""P25: filterbank convolution aligns and subsamples exactly."""
import math
import random

import numpy as np
import vlib
from sample import psycho
from sample.utils import dsp

BACK = 40      # taps are known from -BACK samples on


class Filter(psycho.GammatoneFilter):
  """Filter whose response is prescribed at every sample"""

  def __init__(self, fs, lead, size, table, frac):
    super().__init__(f=1 + size, t_c=(lead - frac) / fs)
    self.fs, self.size, self.table = fs, size, table

  def ir_size(self, fs=1, **kwargs):
    """As prescribed"""
    assert fs == self.fs
    return np.int64(self.size)

  def ir(self, t=None, fs=None, analytic=False, out=None, **kwargs):
    """As prescribed"""
    if t is None:
      t = np.arange(self.size) / fs - self.t_c
    n = np.round(np.asarray(t) * self.fs).astype(int)
    r = np.array([self.table[i + BACK] for i in n], dtype=complex)
    return r if analytic else r.real


def prescribed(rnd, fs):
  """Bank and its abstract record"""
  bank, rec = [], []
  for _ in range(rnd.choice([1, 1, 2, 2, 3, 5])):
    lead = rnd.choice([0, 0, 1, 2, 3, rnd.randrange(0, 20)])
    size = rnd.choice([1, 2, 3, 5, rnd.randrange(1, 25)])
    table = [complex(rnd.randrange(-4, 5), rnd.randrange(-4, 5))
             for _ in range(2 * BACK)]
    bank.append(Filter(fs, lead, size, table, rnd.choice([0, .25, .5])))
    taps = table[BACK - lead:BACK - lead + size]
    rec.append(dict(lead=lead, size=size, re=[int(z.real) for z in taps],
                    im=[int(z.imag) for z in taps]))
  return psycho.GammatoneFilterbank(bank), rec


def ints(v):
  """Integers and near integers (transforms are used)"""
  return [vlib.xround(z, tol=1e-5) for z in np.asarray(v, dtype=float)]


def signal(rnd, n):
  """Integers"""
  k = rnd.randrange(4)
  if k == 0:
    return [int(i == rnd.randrange(n)) for i in range(n)]
  if k == 1:
    return [0] * (n - 1) + [rnd.choice([1, -3])]
  return [rnd.randrange(-5, 6) for _ in range(n)]


def bank_call(rnd):
  """One call on a bank"""
  fs = rnd.choice([1, 8, 1024, 44100])
  bank, rec = prescribed(rnd, fs)
  if fs == 44100:      # rounding of lead times
    for f, r in zip(bank, rec):
      f.t_c = (r["lead"] - .5) / fs
  n = rnd.choice([1, 2, 3, 7, rnd.randrange(1, 60)])
  x = signal(rnd, n)
  xi = [0] * n
  arr = np.array(x, dtype=rnd.choice([float, float, int, np.float32]))
  analytic = rnd.random() < .4
  if rnd.random() < .15:
    xi = signal(rnd, n)
    arr = np.array(x) + 1j * np.array(xi)
  kw, s, refuse = {}, 1, False
  if rnd.random() < .6:
    s = rnd.choice([1, 2, 3, 4, 5, 7, 16, rnd.randrange(1, 40)])
    kw["stride"] = s
    if rnd.random() < .08:
      kw["method"] = rnd.choice(["auto", "direct", "fft", "overlap-add"])
    refuse = "method" in kw or np.iscomplexobj(arr)
  elif rnd.random() < .7:
    kw["method"] = rnd.choice(["auto", "direct", "fft", "overlap-add"])
  way = rnd.randrange(5)
  hwr = False
  before = arr.copy()

  def cochlea(**kws):
    """Through the function, with or without precomputation"""
    nonlocal hwr
    post = rnd.randrange(3)
    if post == 0:
      kws["postprocessing"] = None
    elif post == 1 and (analytic or not np.iscomplexobj(arr)):
      hwr = not analytic          # the default
    else:
      kws["postprocessing"] = lambda m: m + 0
    return kws

  if way == 0:
    pre = bank.precompute(fs=fs, **(
        dict(analytic=analytic) if analytic or rnd.random() < .5 else {}))
    ok, r = vlib.attempt(pre.convolve, arr, **kw)
    if ok and rnd.random() < .3:     # nothing is kept from the first time
      ok, r = vlib.attempt(pre.convolve, arr, **kw)
  elif way == 1:
    kw = cochlea(**kw)
    if analytic and rnd.random() < .5:
      kw["analytic"] = "ir"
    pre = bank.precompute(fs=fs, **(
        dict(analytic=analytic) if analytic or rnd.random() < .5 else {}))
    if analytic and rnd.random() < .1:
      kw["analytic"] = rnd.choice(["output", "input"])
      refuse = True
    ok, r = vlib.attempt(psycho.cochleagram, arr, filterbank=pre, **kw)
    if ok:
      r, f = r
      if list(f) != list(bank.f):
        ok, r = False, "frequencies"
  elif way == 2:
    kw = cochlea(**kw)
    if analytic:
      kw["analytic"] = "ir"
    if rnd.random() < .9:
      kw["fs"] = fs
    else:
      refuse = True
    ok, r = vlib.attempt(psycho.cochleagram, arr, filterbank=bank, **kw)
    if ok:
      r = r[0]
  else:
    kw = cochlea(**kw)
    if analytic:
      kw["analytic"] = "ir"
    ok, r = vlib.attempt(bank.convolve, arr, fs=fs, **kw)
  if not np.array_equal(arr, before):
    ok, r = False, "changed the input"
  cplx = analytic or np.iscomplexobj(arr)
  if ok and np.iscomplexobj(r) != cplx:
    ok, r = False, "type"
  for f in rec:
    if not analytic:
      f["im"] = [0] * f["size"]
  got = [dict(re=ints(np.real(v)), im=ints(np.imag(v)) if cplx else [])
         for v in r] if ok else []
  return dict(kind="bank", bank=rec, x=x, xi=xi, s=s, hwr=hwr, refuse=refuse,
              complex=cplx, err="" if ok else str(r), got=got)


def analytic_call(rnd):
  """The analytic signal of the input or of the output: with four samples its
  imaginary part is known exactly"""
  fs, side = rnd.choice([1, 8, 1024]), rnd.choice(["input", "output"])
  while True:
    bank, rec = prescribed(rnd, fs)
    n = 4 if side == "input" else rnd.randrange(1, 12)
    s = rnd.choice([1, 1, 2, 3, rnd.randrange(1, 20)])
    top = max(r["lead"] for r in rec)
    if side == "input" or -(-(n - 1 + max(
        r["size"] + top - r["lead"] for r in rec)) // s) == 4:
      break
  if side == "input":
    s = 1
  x = [2 * v for v in signal(rnd, n)]
  arr = np.array(x, dtype=rnd.choice([float, int, np.float32]))
  kw = dict(analytic=side)
  if s > 1 or (side == "output" and rnd.random() < .3):
    kw["stride"] = s
  elif rnd.random() < .5:
    kw["method"] = rnd.choice(["auto", "direct", "fft", "overlap-add"])
  if rnd.random() < .6:
    kw["postprocessing"] = rnd.choice([None, lambda m: m + 0])
  before = arr.copy()
  way = rnd.randrange(3)
  if way == 0:
    ok, r = vlib.attempt(bank.convolve, arr, fs=fs, **kw)
  else:
    kw["filterbank"] = bank if way == 1 else bank.precompute(fs=fs)
    if way == 1 or rnd.random() < .5:
      kw["fs"] = fs
    ok, r = vlib.attempt(psycho.cochleagram, arr, **kw)
    r = r[0] if ok else r
  if ok and not (np.array_equal(arr, before) and np.iscomplexobj(r)):
    ok, r = False, "type or input"
  for f in rec:
    f["im"] = [0] * f["size"]
  got = [dict(re=ints(np.real(v)), im=ints(np.imag(v))) for v in r] \
      if ok else []
  return dict(kind=side, bank=rec, x=x, xi=[0] * n, s=s, hwr=False,
              refuse=False, complex=True, err="" if ok else str(r), got=got)


def cut_call(rnd):
  """Half-wave rectification"""
  x = [rnd.randrange(-9, 10) for _ in range(rnd.randrange(1, 9))]
  th = rnd.randrange(-5, 6)
  arr = np.array(x, dtype=rnd.choice([float, int]))
  kw = dict(th=th)
  if rnd.random() < .4:
    kw, th = {}, 0
  if rnd.random() < .3:
    kw["out"] = np.full_like(arr, 77)
  ok, r = vlib.attempt(psycho.hwr, arr, **kw)
  if ok and arr.tolist() != x:
    ok, r = False, "changed its input"
  return dict(kind="cut", x=x, th=th, refuse=False, err="" if ok else str(r),
              got=[vlib.xint(v) for v in r] if ok else [])


def strided_call(rnd):
  """One strided convolution"""
  n = rnd.choice([1, 2, 3, rnd.randrange(1, 20)])
  x = signal(rnd, rnd.choice([n, n + 1, max(1, n - 1), rnd.randrange(1, 80)]))
  re = signal(rnd, n)
  im = signal(rnd, n)
  s = rnd.choice([1, 2, 3, 5, rnd.randrange(1, 30)])
  cplx = rnd.random() < .5
  kw = dict(stride=s)
  if s == 1 and rnd.random() < .5:
    kw = {}
  arr = np.array(x, dtype=rnd.choice([float, np.float32]))
  if cplx:
    ker = np.array(re) + 1j * np.array(im)
    w = max(0, 1 + (len(x) - n) // s)
    given = rnd.random() < .4
    if given:
      kw["out"] = np.full(w, 7 + 7j)
    dt = rnd.choice([None, np.complex64, complex])
    if dt is not None and not given:
      kw["dtype"] = dt
    ok, r = vlib.attempt(dsp.strided_convolution_complex_kernel, arr, ker,
                         **kw)
    if ok and not given and r.dtype != (dt or complex):
      ok, r = False, f"type {r.dtype}"
    if ok and given and r is not kw["out"] and not np.shares_memory(
        r, kw["out"]):
      ok, r = False, "not in the given array"
  else:
    ok, r = vlib.attempt(dsp.strided_convolution, arr, np.array(re, float),
                         **kw)
  got = dict(re=[], im=[])
  if ok:
    r = np.reshape(r, (-1,))
    got = dict(re=ints(np.real(r)), im=ints(np.imag(r)))
  return dict(kind="strided", x=x, re=re, im=im, s=s, refuse=False,
              complex=cplx, err="" if ok else str(r), got=got)


def real_bank(c, rnd):
  """A real bank: every row is the response of its filter, origins aligned"""
  fs = rnd.choice([8000, 22050])
  bank = psycho.GammatoneFilterbank(
      freqs=[rnd.uniform(100, 3000) for _ in range(rnd.randrange(1, 4))],
      normalize=rnd.random() < .5)
  at, n = rnd.randrange(0, 20), rnd.randrange(20, 60)
  x = np.zeros(n)
  x[at] = 1
  out, freqs = psycho.cochleagram(x, fs=fs, filterbank=bank,
                                  postprocessing=None)
  s = rnd.randrange(1, 30)
  sub = bank.convolve(x, fs=fs, stride=s, postprocessing=None)
  leads = [math.ceil(f.t_c * fs) for f in bank]
  for i, f in enumerate(bank):
    t = (np.arange(out.shape[1]) - at - max(leads)) / fs
    e = f.ir(t=(np.arange(f.ir_size(fs=fs)) - leads[i]) / fs)
    b = at + max(leads) - leads[i]
    ref = np.zeros(out.shape[1])
    ref[b:b + e.size] = e
    c.expect(out.shape[1] == t.size and np.allclose(
        out[i], ref, atol=1e-9 * np.max(np.abs(ref))),
             f"row {i} of a real bank is not the response of its filter",
             dict(freqs=[float(g) for g in bank.f], fs=fs, at=at))
    c.expect(freqs[i] == f.f, "frequencies of a real bank")
  c.expect(sub.shape == out[:, ::s].shape and np.allclose(
      sub, out[:, ::s], atol=1e-9 * np.max(np.abs(out))),
           f"stride {s} of a real bank is not every {s}-th sample",
           dict(freqs=[float(g) for g in bank.f], fs=fs, at=at, n=n, s=s))


def run(c):
  """Entry point"""
  c.design("MC_Bank.tla",
           "MC_BankDeep.cfg" if vlib.THOROUGH else "MC_Bank.cfg",
           timeout=3000)
  c.design_violates("MC_Bank.tla", "MC_BankTail.cfg", ["Aligned"])
  c.design_violates("MC_Bank.tla", "MC_BankRest.cfg", ["Aligned"])
  rnd = random.Random(vlib.SEED)
  m = 10 if vlib.THOROUGH else 1
  c.validate("BankTrace.tla", [bank_call(rnd) for _ in range(1500 * m)]
             + [strided_call(rnd) for _ in range(800 * m)]
             + [analytic_call(rnd) for _ in range(200 * m)]
             + [cut_call(rnd) for _ in range(40 * m)])
  for _ in range(40 * m):
    real_bank(c, rnd)
  c.assumptions += [
      "responses are integers prescribed by the harness (some banks are real "
      "gammatone banks); up to 5 filters, 25 taps, 60 samples, stride 40",
      "values are compared within 1e-5, as transforms are used"]
