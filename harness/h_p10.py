"""P10: parallel fitting is indistinguishable from serial fitting."""
import contextlib
import itertools
import random
from multiprocessing import managers

import fakepool
import fits
import inproc
import vlib
from sample import _training
from sample.utils import learn

NONE = dict(t=-1, cap=-1, save=-1, rev=-1)


def storages(m):
  """The model's storage objects"""
  out = [m.sinusoidal.intermediate]
  if hasattr(m, "beat_decisor"):
    out.append(m.beat_decisor.intermediate)
  return out


def manager_class():
  """The manager class for storages"""
  for v in vars(_training).values():
    if isinstance(v, type) and issubclass(v, managers.BaseManager) \
        and "OptionalStorage" in getattr(v, "_registry", {}):
      return v
  return None


class Driver:
  """Fits of one kind of model"""

  def __init__(self, rng):
    self.rng = rng
    self.canon, self.fresh = fits.Canon(), {}
    self.manager = None
    self.pools = 0

  def get_fresh(self, kind, p, x, used):
    """What a fresh model shows after fitting serially"""
    key = (kind, tuple(sorted(p.items())), x)
    if key not in self.fresh:
      fits.Plan.arm()
      f = fits.build(kind, p)
      ok, r = vlib.attempt(lambda: fits.visible(f.fit(fits.sound(x))), secs=60)
      self.fresh[key] = (self.canon(r), r, len(r["tracks"])) if ok \
          else (0, {}, 0)
    used[key] = dict(p=dict(p), x=x, seen=self.fresh[key][0])
    return self.fresh[key]

  def history(self, kind, steps, real=0, order=None, xs=(0, 1, 2, 3, 4)):
    """One history; order: completion order for the first fit"""
    rng = self.rng
    p = dict(t=rng.randint(0, 1), cap=rng.randint(0, 1),
             save=rng.choice([0, 1, 1]), rev=rng.randint(0, 1))
    if order is not None:
      p.update(cap=1, t=0, save=1)
    m = fits.build(kind, p)
    init, events, used = dict(p), [], {}
    own = storages(m)
    for _ in range(steps):
      d = dict(NONE)
      if rng.random() < .4 and order is None:
        k = rng.choice(sorted(d))
        d[k] = rng.randint(0, 1)
      p.update({k: v for k, v in d.items() if v != -1})
      x = rng.choice(xs)
      fr = self.get_fresh(kind, p, x, used)
      kw = fits.set_kwargs(kind, d)
      how = rng.choice(["par", "par", "par", "own", "serial"])
      if order is not None:
        how = "par"
      serial = how == "serial"
      if real:
        kw["n_jobs"] = real
      elif not serial:
        kw["pool"] = fakepool.FakePool(rng, order or ())
        if rng.random() < .4:
          kw["n_jobs"] = rng.choice([0, 1, 3])
        if how == "own" and self.manager is not None:
          kw["mp_manager"] = self.manager
      fits.Plan.arm()
      will = False
      if rng.random() < .3 and order is None:
        stage = rng.choice(["track", "track", "beat", "frame"])
        j = 0 if real else rng.randint(0, 3)
        fits.Plan.arm(stage, j)
      arms = fits.Plan.stage
      ok, r = vlib.attempt(lambda: m.fit(  # pylint: disable=W0640
          fits.sound(x), **kw), secs=60)
      if real and arms:
        # the failure may happen in another process
        will = fits.Plan.stage is None or (
            fr[2] > 0 and (arms == "track" or
                           (arms == "beat" and kind == "beats")))
      else:
        will = arms is not None and fits.Plan.stage is None
      fits.Plan.arm()
      seen, diff = 0, ""
      if ok and not will:
        ok, r = vlib.attempt(fits.visible, m)
        if ok:
          seen, diff = self.canon(r), fits.difference(r, fr[1])
      now = storages(m)
      mine = len(now) == len(own) and all(
          a is b and type(a) is learn.OptionalStorage
          for a, b in zip(now, own))
      events.append(dict(op="fit", p=d, x=x, fail=will,
                         out="ok" if ok else r, seen=seen, diff=diff,
                         own=mine))
    return dict(kind=kind, init=init, fresh=list(used.values()), events=events)


def run(c):
  """Drive and validate"""
  c.design("ParallelFit.tla", "ParallelFit.cfg")
  rng = random.Random(f"p10-{vlib.SEED}")
  d = Driver(rng)
  # real pools first: they fork
  tr = []
  for i in range(24 if vlib.THOROUGH else 5):
    tr.append(d.history("beats" if i % 2 else "plain", 2, real=1 + i % 3,
                        xs=(0, 1)))
  c.validate("FitHistoryTrace.tla", tr, label="worker processes")
  with inproc.inproc_managers(), contextlib.ExitStack() as stack:
    cls = manager_class()
    if cls is not None:
      d.manager = stack.enter_context(cls())
    tr = []
    for i in range(1500 if vlib.THOROUGH else 130):
      tr.append(d.history("beats" if i % 3 else "plain", rng.randint(1, 4)))
    c.validate("FitHistoryTrace.tla", tr, label="chosen schedule")
    # every completion order
    tr, orders = [], 0
    for x in (0, 1):
      fr = d.get_fresh("beats", dict(t=0, cap=1, save=1, rev=0), x, {})
      n = min(fr[2], 5 if vlib.THOROUGH else 4)
      c.extra[f"tracks_of_sound_{x}"] = fr[2]
      for order in itertools.permutations(range(n)):
        tr.append(d.history("beats", 1, order=order, xs=(x,)))
        orders += 1
    c.validate("FitHistoryTrace.tla", tr, label="completion order")
    c.extra["completion_orders"] = orders
