"""Whole fits of the real models on small sounds, and their comparison."""
import numpy as np
import vlib
from sample import hinge
from sample import sample as sample_mod
from sample.beatsdrop import decision, regression
from sample.beatsdrop import sample as bds
from sample.sms import mm
from sklearn import base

FS = 8000


class Injected(Exception):
  """Failure injected by the harness"""


class Plan:
  """Where to fail: (stage, countdown)"""
  stage = None
  left = 0

  @classmethod
  def arm(cls, stage=None, left=0):
    """Fail at the left-th occurrence of the stage (0-based)"""
    cls.stage, cls.left = stage, left

  @classmethod
  def hit(cls, stage):
    """One occurrence"""
    if cls.stage == stage:
      if cls.left == 0:
        cls.stage = None
        raise Injected(stage)
      cls.left -= 1


class FlakyTracker(mm.ModalTracker):
  """Tracker that can be told to fail at some frame"""

  def __call__(self, *args, **kwargs):
    Plan.hit("frame")
    return super().__call__(*args, **kwargs)


def flaky_mean(f):
  """Frequency reduction that can be told to fail at some track"""
  Plan.hit("track")
  return np.mean(f)


class WarmHinge(hinge.HingeRegression):
  """Regression that goes on from what it learned before"""

  def fit(self, x, y=None, **kwargs):
    """Remember having been fitted"""
    super().fit(x, y, **kwargs)
    self.past_ = getattr(self, "past_", -1) + 1
    a, k, q = self.coeffs_
    self.coeffs_ = (a, k, q + self.past_)
    return self


class CheapBeats(regression.BeatRegression):
  """Beat regression without an optimisation"""

  def fit(self, t, a, f, **kwargs):  # pylint: disable=W0221
    """Deterministic parameters; whether a beat depends on the data"""
    Plan.hit("beat")
    two = len(t) % 2 == 0
    self.past_ = getattr(self, "past_", 0) + 1
    self.params_ = (float(self.past_), .5 if two else 0., float(np.mean(f)),
                    float(np.mean(f)) + 3., 1., 2., 0., .25)
    return self


def sound(which):
  """Sounds: 0, 1 ordinary; 2 silent; 3 shorter than the window; 4 click"""
  n = {0: 1500, 1: 1100, 2: 800, 3: 40, 4: 900}[which]
  t = np.arange(n) / FS
  if which == 0:
    x = sum(a * np.exp(-d * t) * np.cos(2 * np.pi * f * t)
            for a, d, f in ((.8, 12, 430), (.5, 25, 1210), (.3, 8, 2150),
                            (.2, 16, 3000)))
    x[500:600] *= 1e-4
  elif which == 1:
    x = sum(a * np.exp(-d * t) * np.cos(2 * np.pi * f * t)
            for a, d, f in ((.6, 9, 650), (.55, 9.5, 668), (.4, 30, 1700)))
  elif which == 4:
    x = np.zeros(n)
    x[200] = 1
  else:
    x = np.zeros(n)
  if which in (0, 1):
    x = x + 1e-5 * np.random.RandomState(which).randn(n)
  return x


DIMS = dict(t=("sinusoidal__t", (-60, -35)),
            cap=("sinusoidal__tracker__max_n_sines", (1, 6)),
            save=("sinusoidal__intermediate__save", (False, True)),
            rev=("sinusoidal__tracker__reverse", (False, True)))


def kwargs_of(p):
  """Keyword arguments for abstract parameters (-1: leave alone)"""
  out = {DIMS[k][0]: DIMS[k][1][v] for k, v in p.items() if v != -1
         and k in DIMS}
  return out


def build(kind, p=None, real=False):
  """Model: kind "plain" or "beats" """
  kw = dict(sinusoidal=mm.ModalModel(tracker=FlakyTracker()),
            sinusoidal__w=np.hamming(128), sinusoidal__n=256,
            sinusoidal__tracker__fs=FS, sinusoidal__tracker__h=64,
            sinusoidal__tracker__min_sine_dur=.02,
            sinusoidal__tracker__peak_threshold=-70,
            freq_reduce=flaky_mean)
  if kind == "plain":
    m = sample_mod.SAMPLE(regressor=WarmHinge(), **kw)
  else:
    m = bds.SAMPLEBeatsDROP(
        beatsdrop=regression.DualBeatRegression() if real else CheapBeats(),
        beat_decisor=decision.AlmostNotABeatDecisor(), **kw)
  if p is not None:
    set_params(m, kind, p)
  return m


def set_kwargs(kind, p):
  """Arguments for set_params"""
  kw = kwargs_of(p)
  if kind == "beats" and p.get("save", -1) != -1:
    kw["beat_decisor__intermediate__save"] = bool(p["save"])
  return kw


def set_params(m, kind, p):
  """Apply abstract parameters"""
  return m.set_params(**set_kwargs(kind, p))


def visible(m):
  """Everything a user sees after a fit"""
  out = dict(modes=np.array(m.param_matrix_),
             tracks=[dict(t) for t in m.sinusoidal.tracks_],
             saved=m.sinusoidal.intermediate.get_state())
  if hasattr(m, "beat_decisor"):
    out["decisions"] = m.beat_decisor.intermediate.get_state()
  return out


def same(a, b):
  """Structural equality up to rounding"""
  if isinstance(a, dict) and isinstance(b, dict):
    return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  if a is None or b is None:
    return a is b
  try:
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
      return False
    return bool(np.allclose(x.astype(complex), y.astype(complex), rtol=1e-6,
                            atol=1e-9, equal_nan=True))
  except (TypeError, ValueError):
    return a == b


def difference(a, b):
  """Name of the parts that differ"""
  ks = [k for k in sorted(set(a) | set(b)) if not same(a.get(k), b.get(k))]
  return ", ".join(ks)


class Canon:
  """Small integers for values that are the same up to rounding"""

  def __init__(self):
    self.values = []

  def __call__(self, v):
    for i, u in enumerate(self.values):
      if same(u, v):
        return i + 1
    self.values.append(v)
    return len(self.values)


def nothing_learned(m):
  """Whether a model shows no trace of a fit"""
  if hasattr(m, "param_matrix_") or m.sinusoidal.intermediate.get_state():
    return False
  if hasattr(m, "beat_decisor") and m.beat_decisor.intermediate.get_state():
    return False
  ok, r = vlib.attempt(lambda: m.sinusoidal.tracks_)
  return not ok or not r


def clone(m):
  """Clone"""
  return base.clone(m)
