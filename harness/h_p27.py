"""P27: beat parameters stay attached to their partials."""
import random
import warnings

import numpy as np
import vlib
from sample.beatsdrop import decision, regression
from sample.beatsdrop.sample import SAMPLEBeatsDROP

SCALE = [1., .25, 1 / 1024]


def ints(v):
  """Codes of integer values"""
  return [vlib.xint(z) for z in v]


def octuple(rnd, top=4):
  """Small integers, often equal"""
  p = [rnd.randrange(0, top) for _ in range(8)]
  if rnd.random() < .3:      # all different
    p = rnd.sample(range(1, 20), 8)
  if rnd.random() < .2:
    p[rnd.choice([0, 4])] *= -1
  return p


def sorting(rnd):
  """One call of sort_params"""
  p = octuple(rnd)
  kw, keys = {}, []
  if rnd.random() < .5:
    keys = [rnd.randrange(-2, 3) for _ in range(2)]
    vals = [float(k) for k in keys]
    if rnd.random() < .5:
      j = rnd.choice([0, 2, 4, 6])
      keys = p[j:j + 2]
      kw["key"] = lambda q: (q[j], q[j + 1])
    else:
      kw["key"] = lambda q: tuple(vals)
  desc = rnd.random() < .5
  if desc or rnd.random() < .5:
    kw["descending"] = desc
  arr = [float(v) for v in p]
  arr = rnd.choice([tuple, list, np.array])(arr)
  ok, r = vlib.attempt(regression.sort_params, arr, **kw)
  if ok and list(arr) != p:
    ok, r = False, "changed its argument"
  return dict(kind="sort", p=p, keys=keys, desc=desc, err="" if ok else str(r),
              got=ints(r) if ok else [])


def output(rnd):
  """One call of output_beat_params"""
  p = octuple(rnd)
  ok, r = vlib.attempt(decision.BeatDecisor().output_beat_params,
                       rnd.choice([tuple, np.array])([float(v) for v in p]))
  return dict(kind="out", p=p, err="" if ok else str(r),
              got=[ints(m) for m in r] if ok else [])


def partials(t, p):
  """Analytic signal and its derivative, from the definition of a beat"""
  a, f, d, ph = (np.array(p[k:k + 2])[:, None] for k in (0, 2, 4, 6))
  z = a * np.exp(-2 * t / d + 1j * (2 * np.pi * f * t + ph))
  return np.sum(z, axis=0), np.sum(z * (2j * np.pi * f - 2 / d), axis=0)


def ssr(t, a, f, p, w):
  """Sum of the squared residuals"""
  z, dz = partials(t, p)
  am = np.abs(z)
  fm = np.abs(np.imag(dz / z)) / (2 * np.pi)
  return np.sum((a - am) ** 2) + np.sum((w * (np.abs(f) - fm)) ** 2)


def other(p):
  """Frequencies and phases exchanged"""
  return [p[i] for i in (0, 1, 3, 2, 4, 5, 7, 6)]


def fitting(rnd):
  """One fit, whose optimisation ends where it begins"""
  n = rnd.choice([30, 60])
  t = np.arange(n) / n + .01
  f0 = rnd.uniform(40, 90)
  p = [rnd.uniform(.2, 1), rnd.uniform(.2, 1), f0, f0 + rnd.uniform(1, 9),
       rnd.uniform(.3, 2), rnd.uniform(.3, 2), rnd.uniform(-1, 1),
       rnd.uniform(-1, 1)]
  if rnd.random() < .2:
    p[3] = p[2]
  start = other(p) if rnd.random() < .5 else list(p)
  start = [v * (1 + .02 * rnd.gauss(0, 1)) for v in start]
  z, dz = partials(t, p)
  a, f = np.abs(z), np.imag(dz / z) / (2 * np.pi)
  f = f + .3 * np.array([rnd.gauss(0, 1) for _ in t])
  on = rnd.random() < .8
  w = rnd.choice([1 / 3800, .01, 1.])
  m = regression.DualBeatRegression(
      params_init=lambda *args: tuple(start),
      bounds=lambda *args: ([-1e4] * 8, [1e4] * 8),
      freq_loss=np.subtract, amp_loss=np.subtract, freq_w=w, freq_clip=None,
      disambiguate=on)
  ok, r = vlib.attempt(m.fit, t, 20 * np.log10(a), f, max_nfev=1)
  if not ok:
    return dict(kind="fit", err=str(r))
  got = list(map(float, m.params_))
  fitted = list(map(float, m.result_.x))
  # codes: equal codes are equal values
  codes = {}
  for v in fitted:
    codes.setdefault(v, len(codes))
  r1, r2 = (ssr(t, a, f, q, w) for q in (fitted, other(fitted)))
  cmp = 0
  if abs(r1 - r2) > 1e-6 * max(r1, r2):
    cmp = -1 if r1 < r2 else 1
  u = np.linspace(0, .5, 2000)      # phases are integrated numerically
  heard = m.predict(u)[0]
  code = [codes.get(v, vlib.BAD) for v in got]
  # the sound is nearer to that of the result than to the other one's
  off = [np.max(np.abs(heard - np.real(partials(u, q)[0])))
         for q in (got, other(got))]
  low = [np.min(v) / np.max(v) for v in (
      np.abs(partials(u, q)[0]) for q in (got, other(got)))]
  if min(low) < .05:     # the phase cannot be integrated so numerically
    off = [0, 0]
  return dict(kind="fit", p=[codes[v] for v in fitted], on=on, r=cmp, got=code,
              err="", beat=code if off[0] <= off[1] + 1e-3 else [])


class Beats(regression.BeatRegression):
  """Prescribed beats"""
  fitted = None

  def fit(self, t, a, f, **kwargs):  # pylint: disable=W0221
    """As prescribed"""
    self.params_ = tuple(float(v) for v in self.octuple)
    self.fitted = (t, a, f)
    return self


class Says(decision.BeatDecisor):
  """Prescribed decision"""

  def decide_beat(self, i, t, track, beatsdrop, params):
    return self.say


def tracks(rnd):
  """One decision about a track"""
  p = octuple(rnd)
  single = [rnd.randrange(1, 30) for _ in range(3)]
  auto = rnd.random() < .5
  th = rnd.choice([0, 0, 0, 1, 2]) + .5 if auto and rnd.random() < .6 else 0
  kw = dict(th=th / np.finfo(float).eps) if th else {}
  dec = (decision.AlmostNotABeatDecisor if auto else Says)(**kw)
  dec.intermediate.save = True
  say = rnd.random() < .5
  if auto:
    say = abs(p[0]) > th and abs(p[1]) > th and abs(p[2] - p[3]) > th
  else:
    dec.say = say
  b = Beats()
  b.octuple = p
  t, track = np.arange(3.), dict(mag=np.zeros(3), freq=np.ones(3))
  i = rnd.randrange(3)
  dec.intermediate.reset()
  ok, r = vlib.attempt(dec.track_params, i=i, t=t, track=track, beatsdrop=b,
                       params=tuple(map(float, single)), fit=True)
  kept = None
  if ok:
    if b.fitted is None or not all(
        np.array_equal(g, e)
        for g, e in zip(b.fitted, (t, track["mag"], track["freq"]))):
      ok, r = False, "fitted to something else"
    kept = bool(dec.intermediate["decision"][i])
  return dict(kind="track", p=p, single=single, say=say,
              err="" if ok else str(r), kept=kept if ok else False,
              got=[ints(m) for m in r] if ok else [])


def whole(c, rnd):
  """A sound of two close partials: the modes are those partials"""
  fs = 8000
  t = np.arange(fs) / fs
  f = rnd.uniform(400, 1200)
  df = rnd.uniform(4, 7)
  p = [.6, rnd.uniform(.2, .4), f, f + df * rnd.choice([-1, 1]), 1.2, .9, 0, 0]
  x = np.real(partials(t, p)[0])
  m = SAMPLEBeatsDROP(sinusoidal__n=1024, sinusoidal__tracker__h=64,
                      sinusoidal__tracker__max_n_sines=4,
                      sinusoidal__tracker__fs=fs)
  ok, r = vlib.attempt(m.fit, x, secs=60)
  if not c.expect(ok, f"fitting a beat raises {r}"):
    return
  k = [i for i in range(len(m.freqs_)) if abs(m.freqs_[i] - f) < 20]
  if len(k) < 2:
    return
  # the louder partial is the one with the frequency of the louder partial
  k = sorted(k, key=lambda i: -m.amps_[i])[:2]
  # nothing is said about fits that have found other partials
  if not (np.allclose([m.amps_[i] for i in k], p[:2], rtol=.3) and
          np.allclose(sorted(m.freqs_[i] for i in k), sorted(p[2:4]), rtol=0,
                      atol=1)):
    return
  c.expect(abs(m.freqs_[k[0]] - p[2]) < abs(m.freqs_[k[0]] - p[3]),
           "the louder mode of a beat has the frequency of the other one",
           dict(p=p, matrix=m.param_matrix_.tolist()))


def run(c):
  """Entry point"""
  warnings.simplefilter("ignore")
  c.design("MC_Beat.tla",
           "MC_BeatDeep.cfg" if vlib.THOROUGH else "MC_Beat.cfg", timeout=3000)
  c.design_violates("MC_Beat.tla", "MC_BeatPhase.cfg", ["SamePartials"])
  rnd = random.Random(vlib.SEED)
  m = 10 if vlib.THOROUGH else 1
  traces = ([sorting(rnd) for _ in range(3000 * m)]
            + [output(rnd) for _ in range(300 * m)]
            + [tracks(rnd) for _ in range(800 * m)])
  fits = [fitting(rnd) for _ in range(400 * m)]
  c.extra["fits_exchanged"] = sum(
      1 for f in fits if not f["err"] and f["got"] != f["p"])
  c.validate("BeatTrace.tla", traces + fits)
  for _ in range(5 * m):
    whole(c, rnd)
  c.assumptions += [
      "the optimisation is stopped where it begins, so that the fitted "
      "association is the one the harness chose; residuals are recomputed "
      "from the definition of a beat and compared when they differ by more "
      "than 1e-6 of their value"]
