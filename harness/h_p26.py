"""P26: the multi-scale loss does not depend on how it is scheduled."""
import multiprocessing as mp
import random
import time
import warnings

import fakepool
import numpy as np
import vlib
from sample import psycho
from sample.evaluation import metrics

X = np.arange(7.)
Y = np.arange(7.)[::-1].copy()
RUNS = {}


def scale_loss(x, y, factor=1, *, worth, pos, fail=(), undef=(), nap=0):
  """Loss with a known value"""
  RUNS[pos] = RUNS.get(pos, 0) + 1
  if nap:
    time.sleep(nap)
  if pos in fail:
    raise ValueError(f"scale {pos}")
  if not (np.array_equal(x, X) and np.array_equal(y, Y)):
    raise KeyError("other signals")
  return float("nan") if pos in undef else factor * worth


class Watched(fakepool.FakePool):
  """Pool which remembers being closed"""
  closed = False

  def close(self):
    """As in multiprocessing"""
    self.closed = True

  terminate = join = close

  def __exit__(self, *args):
    self.close()


def history(rnd, real, pools):
  """One loss and its calls"""
  n = rnd.choice([1, 2, 2, 3, 4, 6])
  worth = [8 ** k for k in range(n)]
  rnd.shuffle(worth)
  if rnd.random() < .2:
    worth[-1] = worth[0]
  naps = [rnd.choice([0, 0, .004, .01]) if real else 0 for _ in range(n)]
  stfts = [dict(worth=w, pos=p, nap=z)
           for p, (w, z) in enumerate(zip(worth, naps), 1)]
  keep = rnd.random() < .7
  obj = metrics.MultiScaleSpectralLoss(
      scale_loss, rnd.choice([list, tuple, iter])(stfts)) if keep else None
  steps = []
  for _ in range(rnd.randrange(1, 4 if real else 6)):
    fail = rnd.sample(range(1, n + 1), rnd.randrange(1, n + 1)) if (
        rnd.random() < .25) else []
    factor = rnd.choice([1, 1, 2, 5])
    args, kw = (), {}
    if factor != 1:
      if rnd.random() < .5:
        args = (factor,)
      else:
        kw["factor"] = factor
    if fail:
      kw["fail"] = tuple(fail)
    undef = sorted(rnd.sample(range(1, n + 1), rnd.randrange(1, n + 1))) if (
        rnd.random() < .15) else []
    if undef:
      kw["undef"] = tuple(undef)
    how = rnd.choice(["serial", "given", "internal"] if real
                     else ["serial", "given", "given"])
    pool = None
    if how == "given":
      pool = rnd.choice(pools) if real else Watched(
          rnd, rnd.sample(range(n), n))
      kw["pool"] = pool
      if rnd.random() < .3:
        kw["njobs"] = 2
    elif how == "internal":
      kw["njobs"] = rnd.choice([1, 2, 3, 8])
    RUNS.clear()
    if obj is not None:
      ok, r = call(obj, X, Y, *args, **kw)
    else:
      ok, r = call(metrics.multiscale_spectral_loss, X, Y, *args,
                   spectral_loss=scale_loss,
                   stfts=rnd.choice([list, tuple, iter])(stfts), **kw)
    seen = how == "serial" or (how == "given" and not real)
    usable = True
    if how == "given":
      usable = (pool.apply(abs, (-3,)) == 3 if real else not pool.closed)
    steps.append(dict(
        how=how, factor=factor, failing=sorted(fail),
        got=(-1 if r != r else vlib.xint(r)) if ok else 0, undef=undef, err="" if ok else r, usable=usable,
        runs=[RUNS.get(p, 0) for p in range(1, n + 1)] if seen else []))
  return dict(worth=worth, steps=steps)


def call(fn, *args, **kw):
  """Outcome with the text of the error"""
  def safe():
    try:
      return True, fn(*args, **kw)
    except vlib.Hang:
      raise
    except Exception as e:  # pylint: disable=W0703
      return False, str(e) if isinstance(e, ValueError) else type(e).__name__
  ok, r = vlib.attempt(safe, secs=60)
  return r if ok else (False, str(r))


def distance(rnd):
  """Distance of integer vectors"""
  n = rnd.randrange(1, 9)
  p = rnd.choice([1, 1, 2, 3])
  x = [rnd.randrange(-9, 10) for _ in range(n)]
  y = list(x) if rnd.random() < .1 else [rnd.randrange(-9, 10)
                                          for _ in range(n)]
  a, b = np.array(x, dtype=float), np.array(y, dtype=float)
  kw = dict(p=p) if p != 1 or rnd.random() < .5 else {}
  ok, r = vlib.attempt(metrics.lp_distance, a, b, **kw)
  if ok and (a.tolist() != x or b.tolist() != y):
    ok, r = False, "changed its arguments"
  return dict(x=x, y=y, p=p, err="" if ok else str(r),
              got=vlib.xround(float(r) ** p) if ok else 0)


def spectral(c, rnd, pool):
  """Real losses: zero on the same, symmetric, the sum of their scales"""
  np.random.seed(rnd.randrange(1000))
  n = rnd.choice([300, 1000, 3000])
  x, y = np.random.randn(2, n) * 10 ** rnd.uniform(-5, 1)
  if rnd.random() < .2:
    y = np.zeros(n)
  x0, y0 = x.copy(), y.copy()
  kw = {}
  if rnd.random() < .5:
    kw.update(norm_p=rnd.choice([1, 2]), floor_db=rnd.choice([-60, -20]))
  f = metrics.lin_log_spectral_loss
  size = rnd.choice([64, 256])
  a, b = f(x, y, n=size, **kw), f(y, x, n=size, **kw)
  c.expect(a == b, "the loss is not symmetric", dict(a=a, b=b))
  c.expect(a > 0, "the loss of different signals is not positive")
  c.expect(f(x, x.copy(), n=size, **kw) == 0, "loss of identical signals")
  lin, one = f(x, y, n=size, alpha=0, **kw), f(x, y, n=size, alpha=1, **kw)
  c.expect(abs(f(x, y, n=size, alpha=3, **kw) - (lin + 3 * (one - lin)))
           <= 1e-9 * one + 1e-9, "the log loss is not weighted by alpha")
  floor = kw.get("floor_db", -60)
  c.expect(abs(a - (lin + (one - lin) / max(1, -floor))) <= 1e-9 * one,
           "default weight of the log loss")
  # the signals scaled: the linear part scales with them
  c.expect(abs(f(2 * x, 2 * y, n=size, alpha=0, **kw) - 2 * lin)
           <= 1e-9 * abs(lin), "the linear loss does not scale")
  stfts = [dict(n=1 << i) for i in rnd.sample(range(5, 9), 3)]
  m = metrics.multiscale_spectral_loss
  serial = m(x, y, stfts=stfts, **kw)
  c.expect(abs(serial - sum(f(x, y, **s, **kw) for s in stfts))
           <= 1e-12 * serial, "the loss is not the sum of its scales")
  c.expect(m(x, y, stfts=stfts, pool=pool, **kw) == serial,
           "the loss in a pool is not the same")
  if n == 3000:
    c.expect(abs(m(x, y, **kw) - sum(f(x, y, n=1 << i, **kw)
                                     for i in range(6, 12)))
             <= 1e-12 * serial * 10, "default scales are not 64 to 2048")
  c.expect(np.array_equal(x, x0) and np.array_equal(y, y0),
           "the loss changes its signals")


def cochlear(c, rnd):
  """The loss on cochleagrams"""
  np.random.seed(rnd.randrange(1000))
  x, y = np.random.randn(2, 200)
  kw = dict(freqs=[300., 700.])
  kw["analytic"] = rnd.choice([None, "ir", "ir", "input", "output"])
  if rnd.random() < .5 and kw["analytic"] in (None, "ir"):
    kw["stride"] = rnd.choice([3, 10])
  elif rnd.random() < .5:
    kw["method"] = rnd.choice(["auto", "fft", "direct", "overlap-add"])
  if rnd.random() < .4:
    kw["p"] = rnd.choice([2, 3])
  if rnd.random() < .4:
    kw["postprocessing"] = rnd.choice([np.square, np.abs]) \
        if kw["analytic"] is None else lambda m: np.abs(m) ** 2
  if kw["analytic"] == "ir" and rnd.random() < .5:
    del kw["analytic"]  # the default
  loss = metrics.CochleagramLoss(8000, **kw)
  a = loss(x, y)
  c.expect(a == loss(y, x) and a > 0, "cochleagram loss not symmetric")
  c.expect(loss(x, x.copy()) == 0, "cochleagram loss of identical signals")
  c.expect(a == loss(x, y), "cochleagram loss changes with calls")
  # the same, for a strided or whole cochleagram, from its definition
  cx, cy = loss.cochleagram(x), loss.cochleagram(y)
  p = kw.pop("p", 1)
  kw.setdefault("analytic", "ir")
  kw.setdefault("postprocessing", psycho.hwr if kw["analytic"] is None
                else np.abs)
  for u, cu in ((x, cx), (y, cy)):
    want, _ = psycho.cochleagram(u, fs=8000, **kw)
    c.expect(np.shape(want) == np.shape(cu) and np.allclose(
        want, cu, rtol=1e-9, atol=1e-12),
             "the compared cochleagrams are not those asked for")
  ref = np.sum(np.abs(cx - cy) ** p) ** (1 / p)
  c.expect(not np.iscomplexobj(cx) and np.min(cx) >= 0,
           "the compared cochleagrams are not magnitudes")
  c.expect(abs(a - ref) <= 1e-9 * ref, "cochleagram loss is not the distance")


def run(c):
  """Entry point"""
  rnd = random.Random(vlib.SEED)
  warnings.simplefilter("ignore")
  pools = [mp.Pool(1), mp.Pool(3)]      # before anything else is started
  m = 6 if vlib.THOROUGH else 1
  try:
    traces = [history(rnd, True, pools) for _ in range(60 * m)]
    for _ in range(40 * m):
      spectral(c, rnd, pools[1])
  finally:
    for p in pools:
      p.terminate()
      p.join()
  c.design("MultiLoss.tla",
           "MultiLossDeep.cfg" if vlib.THOROUGH else "MultiLoss.cfg",
           timeout=3000)
  c.design_violates("MultiLoss.tla", "MultiLossSwallow.cfg",
                    ["SameEverywhere"])
  c.design_violates("MultiLoss.tla", "MultiLossImpatient.cfg",
                    ["SameEverywhere"])
  c.design_violates("MultiLoss.tla", "MultiLossSkip.cfg", ["SameEverywhere"])
  traces += [history(rnd, False, None) for _ in range(1500 * m)]
  c.validate("MultiLossTrace.tla", traces)
  c.validate("DistTrace.tla", [distance(rnd) for _ in range(400 * m)])
  for _ in range(60 * m):
    cochlear(c, rnd)
  c.assumptions += [
      "losses of known integer value, in controlled pools (any completion "
      "order) and in real ones; the values of the real losses are compared "
      "between ways of computing them"]
