"""P24: bisection keeps the zero bracketed."""
import random

import numpy as np
import vlib
from sample import psycho
from sample.utils import dsp


class Fn:
  """Function with prescribed signs, which records where it is asked"""

  def __init__(self, rnd, steps, lo, size):
    self.unit = size / 2 ** (steps + 3)      # exact
    self.lo, self.n = lo, 2 ** (steps + 3)
    self.rnd = rnd
    grid = 4 * rnd.randrange(1, self.n // 4)
    cuts = {rnd.randrange(1, self.n) for _ in range(rnd.choice(
        [1, 1, 1, 2, 3, 5]))} | ({grid + rnd.choice([-1, 1])}
                                 if rnd.random() < .3 else set())
    sign = self.first = rnd.choice([-1, 1])
    self.cuts = []
    for p in sorted(cuts):
      sign = -sign
      self.cuts.append(dict(at=p, sign=sign))
    self.zeros = set()
    if rnd.random() < .3:
      self.zeros.add(rnd.choice([0, self.n, self.n // 2, self.n // 4, grid]))
    if rnd.random() < .1:
      self.zeros |= {0, self.n}
    self.zeros |= {p["at"] for p in self.cuts if rnd.random() < .3}
    # how large the values are
    self.mag = rnd.choice([1., 1., 3, 1e-30, 1e-200, 1e200, 0])
    self.asked = []

  def pos(self, t):
    """Position of an argument"""
    return vlib.xint((float(t) - self.lo) / self.unit)

  def __call__(self, t):
    p = self.pos(t)
    self.asked.append(p)
    if p in self.zeros:
      return self.rnd.choice([0, 0., -0.])
    s = self.first
    for c in self.cuts:
      if c["at"] <= p:
        s = c["sign"]
    m = self.mag or self.rnd.choice([1e-200, 1e-3, 1., 2, 1e5])
    v = s * m * self.rnd.choice([1, 1, 2])
    return np.float64(v) if self.rnd.random() < .3 else v


def search(rnd):
  """One search"""
  steps = rnd.choice([0, 1, 1, 2, 3, 4, 5, 8, 10, 16, 20, 26,
                      rnd.randrange(0, 27)])
  size = rnd.choice([1., 2., 64., 2. ** -10])
  lo = size * rnd.randrange(-5, 6)
  f = Fn(rnd, steps, lo, size)
  ends = [lo, lo + size]
  if rnd.random() < .5:
    ends.reverse()
  kw = dict(steps=steps)
  if steps == 16 and rnd.random() < .7:
    kw = {}
  if rnd.random() < .5:
    ok, r = vlib.attempt(dsp.dychotomic_zero_crossing, f, *ends, **kw)
  else:
    ok, r = vlib.attempt(dsp.dychotomic_zero_crossing, func=f, lo=ends[0],
                         hi=ends[1], **kw)
  return dict(first=f.first, cuts=f.cuts, zeros=sorted(f.zeros), size=f.n,
              steps=steps, asked=f.asked, a=f.pos(r) if ok else 0,
              err="" if ok else str(r))


def t60(c, rnd):
  """The decay time built on the search"""
  f = 10 ** rnd.uniform(1, 4.2)
  flt = psycho.GammatoneFilter(f, n=rnd.randrange(2, 7))
  if rnd.random() < .3:
    flt.t_c = rnd.choice([0, 1e-3])
  floor = rnd.choice([-60, -20, -90])
  kw = {}
  if rnd.random() < .3:
    kw["initial_range"] = rnd.choice([.05, .5]) / f
  ok, t = vlib.attempt(flt.t60, floor=floor, n_starts=32, **kw)
  if not c.expect(ok, f"the t60 of a filter at {f} Hz raises {t}"):
    return
  peak = flt.envelope(flt.group_delay)
  level = 20 * np.log10(flt.envelope(t) / peak)
  c.expect(abs(level - floor) < 1e-2 and t > flt.group_delay,
           f"the envelope of a filter at {f} Hz is at {level} dB at its "
           f"decay time and not at {floor} dB")


def run(c):
  """Entry point"""
  c.design("Bisect.tla", "Bisect.cfg")
  c.design_violates("Bisect.tla", "BisectNoSwap.cfg", ["Found"])
  c.design_violates("Bisect.tla", "BisectShort.cfg", ["Found"])
  c.design_violates("Bisect.tla", "BisectPass.cfg", ["Exact"])
  if vlib.THOROUGH:
    c.design("Bisect.tla", "BisectDeep.cfg", timeout=3000)
  rnd = random.Random(vlib.SEED)
  c.validate("BisectTrace.tla", [
      search(rnd) for _ in range(40000 if vlib.THOROUGH else 4000)])
  for _ in range(2000 if vlib.THOROUGH else 200):
    t60(c, rnd)
  c.assumptions += [
      "intervals whose midpoints are exact in floating point, up to 26 steps; "
      "the specification lets an adversary choose the signs for 9 steps"]
