"""P21: reported progress is consistent."""
import importlib
import random

import fakepool
import fits
import inproc
import numpy as np
import throttle
import vlib
from sample import _training


class Count:
  """Items processed in this process"""
  frames = 0
  tracks = 0


class CountingTracker(fits.FlakyTracker):
  """Counts frames"""

  def __call__(self, *args, **kwargs):
    r = super().__call__(*args, **kwargs)
    Count.frames += 1
    return r


class CountingMean:
  """Counts tracks"""

  def __call__(self, f):
    try:
      return fits.flaky_mean(f)
    finally:
      Count.tracks += 1


class Recorder(_training.FitArgs):
  """Notes the calls"""

  def __init__(self, log, known, **kwargs):
    self.log, self.known = log, known
    super().__init__(**kwargs)

  def note(self, op, mx=0, v=0):
    """One call"""
    self.log.append(dict(op=op, max=xi(mx), v=xi(v),
                         f=Count.frames,
                         t=Count.tracks if self.known else -1))

  def progress_start(self, maximum, value=0):
    """Start"""
    self.note("start", maximum, value)

  def progress_update(self, value=None):
    """Update"""
    self.note("update", 0, -1 if value is None else value)

  def progress_stop(self):
    """Stop"""
    self.note("stop")


def xi(v):
  """Integer"""
  return vlib.xint(v)


class Bar:
  """Stand-in for the progress bar of the GUI"""

  def __init__(self):
    self.opts = dict(value=0, maximum=100)
    self.draws = []

  def __setitem__(self, k, v):
    self.opts[k] = v

  def __getitem__(self, k):
    return self.opts[k]

  cget = __getitem__

  def configure(self, **kw):
    """Change options"""
    self.opts.update(kw)

  config = configure

  def update(self):
    """Draw"""
    self.draws.append([xi(self.opts["value"]), xi(self.opts["maximum"])])

  update_idletasks = update


class Valve:
  """Which of the throttled updates get through"""
  rng = random.Random(0)
  p = 1.

  @classmethod
  def wrap(cls, *args, **kwargs):
    """Stands in for throttle.wrap"""
    def deco(f):
      def wrapped(*a, **k):
        return f(*a, **k) if cls.rng.random() < cls.p else throttle.fail
      return wrapped
    return deco


def gui_module():
  """The GUI's module under the harness's throttle"""
  old = throttle.wrap
  throttle.wrap = Valve.wrap
  try:
    from sample.widgets import sample as wsample  # pylint: disable=C0415
    return importlib.reload(wsample)
  finally:
    throttle.wrap = old


def model(kind, p):
  """Model that counts"""
  m = fits.build(kind, p)
  m.set_params(sinusoidal__tracker=CountingTracker(
      **m.sinusoidal.tracker.get_params()), freq_reduce=CountingMean())
  return m


def one(rng, pool_kind, gui=None):
  """One fit and its trace"""
  kind = rng.choice(["plain", "beats"])
  p = dict(t=rng.randint(0, 1), cap=rng.randint(0, 1), save=rng.randint(0, 1),
           rev=rng.randint(0, 1))
  m = model(kind, p)
  x = fits.sound(rng.randint(0, 4))
  if rng.random() < .1:
    x = np.zeros(rng.randint(1, 200))
  log = []
  kw = {}
  if pool_kind == "fake":
    kw["pool"] = fakepool.FakePool(rng)
  elif pool_kind == "real":
    kw["n_jobs"] = 2
  Count.frames = Count.tracks = 0
  fits.Plan.arm()
  fail = rng.random() < .15 and pool_kind != "real"
  if fail:
    fits.Plan.arm(rng.choice(["frame", "track", "beat"]), rng.randint(0, 3))
  bar = None
  if gui is not None:
    bar = Bar()
    Valve.p = rng.choice([0., .3, 1., 1.])
    Valve.rng = rng
    made, fit_kw = gui.sample_factory(beatsdrop=kind == "beats",
                                      progressbar=bar)
    del made
    fit_kw.update(kw)
    kw = fit_kw
  else:
    kw["_fit_args"] = Recorder(log, pool_kind != "real")
  if pool_kind == "serial" and rng.random() < .2:
    # the same object has been used for a parallel fit
    pool = fakepool.FakePool(rng)
    with inproc.inproc_managers():
      vlib.attempt(lambda: m.fit(x, pool=pool, **kw), secs=60)
    pool.apply_async = None
    log.clear()
    Count.frames = Count.tracks = 0
    if bar is not None:
      bar.__init__()
  ok, r = vlib.attempt(lambda: m.fit(x, **kw), secs=60)
  hit = fail and fits.Plan.stage is None
  fits.Plan.arm()
  tracks = len(m.sinusoidal.tracks_) if Count.frames or ok else 0
  nf = len(m.sinusoidal.time_frames(x))
  if bar is not None:
    if not ok and not hit:
      bar.draws.append([-1, -1])
    return dict(frames=nf, tracks=tracks, whole=ok, draws=bar.draws,
                err="" if ok else r)
  if not ok and not hit:
    log.append(dict(op="error", max=0, v=0, f=0, t=0))
  return dict(frames=nf, tracks=tracks, whole=ok, events=log, err="" if ok
              else r, pool=pool_kind)


def run(c):
  """Drive and validate"""
  c.design("ParallelFit.tla", "ParallelFit.cfg")
  rng = random.Random(f"p21-{vlib.SEED}")
  k = 10 if vlib.THOROUGH else 1
  tr = [one(rng, "real") for _ in range(4 * k)]
  tr += [one(rng, "serial") for _ in range(120 * k)]
  gui = gui_module()
  bars = [one(rng, "serial", gui) for _ in range(60 * k)]
  with inproc.inproc_managers():
    tr += [one(rng, "fake") for _ in range(120 * k)]
    bars += [one(rng, "fake", gui) for _ in range(60 * k)]
  c.validate("ProgressTrace.tla", tr, label="progress")
  c.validate("BarTrace.tla", bars, label="progress bar")
