"""P34: plots draw exactly the data they are given."""
import random
import warnings

import matplotlib

matplotlib.use("Agg")
# pylint: disable=C0413
import numpy as np
import vlib
from matplotlib import pyplot as plt
from sample import plots
from sample import sample as smp
from sample.beatsdrop import sample as bds
from sample.sms import mm, sm
from sample.utils import learn
from sklearn import base


def near(v, scale=1):
  """Integer codes"""
  return [vlib.xround(u, scale, tol=1e-6) for u in np.ravel(v)]


class Tracks(mm.ModalTracker):
  """Tracker with prescribed tracks"""
  tracks = ()

  @property
  def tracks_(self):
    """Prescribed"""
    return list(self.tracks)

  @tracks_.setter
  def tracks_(self, v):
    pass

  @property
  def all_tracks_(self):
    """Prescribed"""
    return iter(self.tracks)


def model(rnd):
  """Model whose analysis is prescribed"""
  fs = 2 ** rnd.randrange(5, 14)
  h = 2 ** rnd.randrange(1, 7)
  reverse = rnd.random() < .5
  kept = rnd.random() < .5
  frames = rnd.randrange(1, 20)
  tracks, rec = [], []
  for _ in range(rnd.choice([0, 1, 1, 2, 2, 3, 5])):
    start = rnd.randrange(frames)
    n = rnd.randrange(1, frames - start + 1)
    f = [rnd.randrange(1, 5000) for _ in range(n)]
    m = [rnd.randrange(-90, 0) for _ in range(n)]
    rec.append(dict(start=start, f=f, m=m))
    tracks.append(dict(start_frame=start, freq=np.array(f, dtype=float),
                       mag=np.array(m, dtype=float), phase=np.zeros(n)))
  t = Tracks(fs=fs, h=h, reverse=reverse) if rnd.random() < .8 else None
  if t is None:
    # a tracker that cannot be reversed
    class Plain(sm.SineTracker):
      """Prescribed"""
      tracks_ = property(lambda self: list(self.tracks), lambda self, v: None)
      all_tracks_ = property(lambda self: iter(self.tracks))
    t = Plain(fs=fs, h=h)
    reverse = False
  t.tracks = tuple(tracks)
  s = sm.SinusoidalModel(w=np.hanning(2 * h), tracker=t,
                         intermediate=learn.OptionalStorage(save=kept))
  if kept:
    for _ in range(frames):
      s.intermediate.append("stft", (np.zeros(3), np.zeros(3)))
  beats = []
  kind = rnd.randrange(4)
  if kind == 0:
    o = s
  elif kind == 1:
    o = smp.SAMPLE(sinusoidal=s)
  else:
    o = bds.SAMPLEBeatsDROP(sinusoidal=s)
    o.beat_decisor.intermediate.save = kind == 3
    if kind == 3:
      beats = [rnd.random() < .5 for _ in tracks]
      order = list(range(len(tracks)))
      rnd.shuffle(order)
      for i in order:
        o.beat_decisor.intermediate.append("decision", beats[i], index=i)
  return o, dict(tracks=rec, beats=beats, reverse=reverse, kept=kept,
                 frames=frames, err=""), fs / h


def tracking(rnd):
  """Plots of tracks"""
  o, out, rate = model(rnd)
  plt.close("all")
  if rnd.random() < .5:
    ax = None if rnd.random() < .5 else plt.subplots(2, 1)[1]
    ok, r = vlib.attempt(plots.sine_tracking_2d, o, ax,
                         **rnd.choice([{}, {"alpha": .5, "c": "C0"}]))
    if not ok:
      return dict(out, kind="two", err=str(r))
    got = [[dict(x=near(l.get_xdata(), rate), y=near(l.get_ydata()),
                 dash=l.get_linestyle() == "--") for l in a.lines] for a in r]
    return dict(out, kind="two", got=got)
  ax = None if rnd.random() < .5 else plt.figure().add_subplot(projection="3d")
  ok, r = vlib.attempt(plots.sine_tracking_3d, o, ax)
  if not ok:
    return dict(out, kind="three", err=str(r))
  got = []
  for l in r.lines:
    x, y, z = l.get_data_3d()
    got.append(dict(x=near(x, rate), y=near(y), z=near(z),
                    dash=l.get_linestyle() == "--"))
  return dict(out, kind="three", got=got)


def limits(rnd):
  """Increasing pair"""
  a = rnd.randrange(-3, 20)
  return [a, a + rnd.randrange(1, 20)]


def tf(rnd):
  """Time-frequency plots"""
  m = np.array([[rnd.randrange(100) for _ in range(rnd.randrange(1, 4))]])
  m = np.concatenate([m, m + 1, m * 2])[:rnd.randrange(1, 4)]
  t, f = limits(rnd), limits(rnd)
  x, y = (limits(rnd) if rnd.random() < .5 else [] for _ in range(2))
  ratio, width = rnd.choice([16, 16, 12, 9]), rnd.choice([8, 8, 4])
  own = rnd.random() < .5
  plt.close("all")
  kw = {}
  if x:
    kw["xlim"] = tuple(x)
  if y:
    kw["ylim"] = y
  if ratio != 16:
    kw["aspect_ratio"] = ratio / 12
  if width != 8:
    kw["width"] = width
  if not own:
    kw["ax"] = plt.subplots(1, 2)[1][rnd.randrange(2)]
  if rnd.random() < .5:
    kw["cmap"] = "gray"
  out = dict(kind="tf", err="", m=m.tolist(), t=t, f=f, x=x, y=y, ratio=ratio,
             width=width, own=own)
  ok, r = vlib.attempt(lambda: plots.tf_plot(m, tlim=tuple(t), flim=f, **kw))
  if not ok:
    return dict(out, err=str(r))
  im, = r.images
  if "ax" in kw and r is not kw["ax"] or im.origin != "lower":
    return dict(out, err="wrong axes")
  xl, yl = near(r.get_xlim()), near(r.get_ylim())
  asp = float(np.ravel(r.get_aspect())[0])
  return dict(out, got=dict(
      m=np.asarray(im.get_array()).astype(int).tolist(),
      extent=near(im.get_extent()), xl=xl, yl=yl,
      aspect=vlib.xround(asp * ratio * (yl[1] - yl[0]), tol=1e-6),
      size=near(r.get_figure().get_size_inches(), 12)))


class Synth:
  """Model that predicts a prescribed signal"""

  def __init__(self, fs, y):
    self.sinusoidal = type("S", (), {"fs": fs})
    self.y, self.t = y, None

  def predict(self, t):
    """Prescribed"""
    self.t = t
    return np.array(self.y)


EXPS = [-4, -2, -1, 0, 1, 2, 3]


def resynthesis(rnd):
  """Signals and their models"""
  n = rnd.randrange(2, 9)
  n -= n % 2
  original = rnd.random() < .7
  names = rnd.sample(["a", "b b", "c", "Original2"], rnd.randrange(
      0 if original else 1, 4))
  sigs, ms, table = [], {}, {}
  rates = [2 ** rnd.randrange(3, 10) for _ in names]
  key = rnd.choice(["Original", "x"])
  used = set()
  for i, k in enumerate(([key] if original else []) + names):
    while True:
      e = [rnd.choice(EXPS) for _ in range(n)]
      y = [rnd.randrange(-50, 50) for _ in range(n)]
      if tuple(y) not in used:
        break
    used.add(tuple(y))
    table[tuple(float(v) for v in y)] = 10. ** np.array(e)
    sigs.append(dict(k=k, y=y, e=e))
    if not (original and i == 0):
      ms[k] = Synth(rates[i - original], y)
  x = np.array(sigs[0]["y"], dtype=float) if original else np.zeros(n)
  want = max(rates, default=44100)
  kw = {}
  if rnd.random() < .3:
    want = kw["fs"] = 2 ** rnd.randrange(3, 10)
  lim = [0, want // 2]
  seen, calls = [], []
  floor = rnd.choice([1, -90, -40, -20, 0])
  def fun(v, fs):
    seen.append(fs)
    return lim, table[tuple(float(u) for u in v)].reshape(2, -1) * 1.
  if floor != -90:
    kw["db_floor"] = None if floor == 1 else floor
  call = rnd.random() < .6
  if call:
    kw["foreach"] = lambda i, k, y: calls.append(dict(i=i, k=k, y=near(y)))
  if not original:
    kw["original"] = False
  if key != "Original":
    kw["original_k"] = key
  if rnd.random() < .3:
    kw["wav_kws"] = {"alpha": .1, "linewidth": 3}
  if rnd.random() < .3:
    kw["tf_kws"] = {"cmap": "gray"}
  plt.close("all")
  how = rnd.randrange(3)
  if how == 1:
    kw["axs"] = list(np.ravel(plt.subplots(1, len(sigs) + 1)[1]))
  elif how == 2:
    kw["fig"] = plt.figure()
  out = dict(kind="resynth", err="", sigs=sigs, floor=floor, n=n, want=want,
             lim=lim, call=call)
  models = None if not ms and rnd.random() < .5 else ms
  ok, r = vlib.attempt(lambda: plots.resynthesis(x, models, tf_fun=fun, **kw))
  if not ok:
    return dict(out, err=str(r))
  fig, axs = r
  fs = set(seen)
  if (how == 2 and fig is not kw["fig"] or len(fs) != 1
      or len(axs) != len(sigs) + 1):
    return dict(out, err="wrong figure")
  fs = fs.pop()
  for m in ms.values():
    if near(m.t, fs) != list(range(n)):
      return dict(out, err="predicts at other times")
  if "wav_kws" in kw and any(l.get_alpha() != .1 or l.get_linewidth() != 3
                             for l in axs[0].lines):
    return dict(out, err="ignores the options of lines")
  scale = 10000 if floor == 1 else 100
  images = []
  for a in axs[1:]:
    ext = a.images[0].get_extent()
    images.append(dict(
        k=a.get_title(), m=near(a.images[0].get_array(), scale),
        extent=near(np.multiply(ext[:2], fs)) + near(ext[2:])))
  return dict(out, fs=int(fs), calls=calls, images=images, lines=[
      dict(k=l.get_label(), x=near(l.get_xdata(), fs), y=near(l.get_ydata()))
      for l in axs[0].lines])


FITS = []


class Beats(base.BaseEstimator):
  """Beat regression with prescribed predictions"""

  def __init__(self, rec=None):
    self.rec = rec

  def fit(self, t, a, f):
    """Record"""
    FITS.append((np.array(t), np.array(a), np.array(f)))
    r = self.rec
    self.params_ = (1., 1., r["n1"], r["n2"], -1., -1., 0., 0.)
    return self

  def predict(self, t, *what):
    """Prescribed"""
    v = []
    for w in what:
      u = self.rec[w]
      v.append(2 * np.pi * np.array(u, dtype=float) if w == "fm"
               else 10. ** np.array(u, dtype=float))
      assert np.shape(t) == np.shape(v[-1])
    return tuple(v) if len(v) > 1 else v[0]


def modulated(rnd, size):
  """Modulated oscillation and its envelope (even at every sixth of a cycle)"""
  a, b = rnd.choice([(9, 4), (7, 6), (5, -4), (8, 0)])
  i, p = np.arange(size), size // 6
  m = a + b * np.cos(2 * np.pi * p * i / size)
  q = rnd.randrange(p + 1, size // 2 - p)
  return m * np.cos(2 * np.pi * q * i / size), near(m)


def shape(coll, scale):
  """Times, upper and lower ends of a filled area"""
  pts = {}
  for path in coll.get_paths():
    for u, v in path.vertices:
      pts.setdefault(vlib.xround(u, scale, tol=1e-6), []).append(v)
  return dict(x=sorted(pts), hi=near([max(pts[k]) for k in sorted(pts)]),
              lo=near([min(pts[k]) for k in sorted(pts)]))


def compare(rnd):
  """Beat regressions of a track"""
  fs, h = 2 ** rnd.randrange(5, 14), 2 ** rnd.randrange(1, 7)
  size = h * rnd.randrange(4, 20) + rnd.randrange(h)
  hilbert = rnd.choice([False, False, True, 2, 3, 5])
  if hilbert:
    size += -size % 6 if size > 6 else 12 - size
  start, n = rnd.randrange(9), rnd.randrange(2, 8)
  reverse, padded = rnd.random() < .3, rnd.random() < .5
  e = [rnd.choice(EXPS[3:]) for _ in range(n)]
  f = [rnd.randrange(1, 5000) for _ in range(n)]
  bad = [rnd.random() < .15 for _ in range(n)]
  if sum(bad) > n - 2:
    bad = [False] * n
  t = Tracks(fs=fs, h=h, reverse=reverse)
  j = rnd.randrange(3)
  other = dict(start_frame=0, freq=np.ones(3), mag=np.ones(3), phase=np.ones(3))
  me = dict(start_frame=start, freq=np.array(f, dtype=float), phase=np.zeros(n),
            mag=np.where(bad, np.nan, 20. * np.array(e)))
  t.tracks = tuple([other] * j + [me, other])
  s = sm.SinusoidalModel(w=np.hanning(2 * h), tracker=t, padded=padded)
  o = smp.SAMPLE(sinusoidal=s)
  keep = [k for k in range(n) if not bad[k]]
  ts = [2 * (start + k) * h + (0 if padded else 2 * h) for k in keep]
  if reverse:
    ts = [2 * size - v for v in ts]
  regs = []
  for k in rnd.sample(["A", "B b", "C"], rnd.choice([1, 1, 2, 3])):
    regs.append(dict(k=k, n1=rnd.randrange(1, 999), n2=rnd.randrange(1, 999),
                     fm=[rnd.randrange(1, 999) for _ in keep],
                     **{w: [rnd.choice(EXPS) for _ in keep]
                        for w in ("am", "a0", "a1")}))
  bs = {r["k"]: Beats(dict(r)) for r in regs}
  x = np.array([rnd.randrange(-9, 10) for _ in range(size)], dtype=float)
  kw = {}
  if j or rnd.random() < .5:
    kw["track_i"] = j
  given = fs
  if rnd.random() < .3:
    given = kw["fs"] = 2 * fs
  transpose = rnd.random() < .4
  plt.close("all")
  how = rnd.randrange(4)
  if how == 1:
    kw["axs"] = plt.subplots(3, len(regs), squeeze=False)[1]
    if rnd.random() < .5:
      kw["axs"] = kw["axs"].tolist()
    transpose = False
  elif how == 2:
    kw["fig"] = plt.figure()
  if transpose:
    kw["transpose"] = True
  if hilbert:
    kw["signal_hilbert_am"] = hilbert
    x, env = modulated(rnd, size)
  elif rnd.random() < .3:
    kw["signal_hilbert_am"] = False
  out = dict(kind="compare", err="", regs=regs, track=dict(
      t=ts, m=[e[k] for k in keep], f=[f[k] for k in keep]))
  FITS.clear()
  copies = x.copy(), me["mag"].copy()
  ok, r = vlib.attempt(lambda: plots.beatsdrop_comparison(o, bs, x, **kw))
  if not ok:
    return dict(out, err=str(r))
  fig, axs = r
  if how == 2 and fig is not kw["fig"] or np.shape(axs) != (
      (len(regs), 3) if transpose else (3, len(regs))):
    return dict(out, err="wrong axes")
  if not (np.array_equal(x, copies[0])
          and np.array_equal(me["mag"], copies[1], equal_nan=True)):
    return dict(out, err="changed its input")
  axs = axs.T if transpose else axs
  got, sig = [], near(x)
  if hilbert:
    sub = int(hilbert)
    sig = [dict(x=list(range(0, sub * n, sub)), hi=env[:sub * n:sub],
                lo=[-v for v in env[:sub * n:sub]])
           for n in (size // sub, -(-size // sub))]
  def line(l, unit, scale):
    return dict(x=near(l.get_xdata(), unit), y=near(l.get_ydata(), scale))
  for c in range(len(regs)):
    amp = list(axs[0, c].lines)
    if hilbert:
      cs = axs[0, c].collections
      s0 = shape(cs[0], given) if len(cs) == 1 else dict(n=len(cs))
      # a last incomplete step may be drawn or not
      s0 = sig if s0 in sig else [s0]
    else:
      s0 = amp.pop(0)
      s0 = near(s0.get_ydata()) if near(
          s0.get_xdata(), given) == list(range(size)) else ["times"]
    got.append(dict(k=axs[0, c].get_title(), sig=s0,
                    amp=[line(l, 2 * fs, 1e4) for l in amp],
                    db=[dict(x=near(l.get_xdata(), 2 * fs),
                             y=[-1 if np.isnan(v) else
                                vlib.xround(v, 100, tol=.1)
                                for v in l.get_ydata()])
                        for l in axs[1, c].lines],
                    freq=[line(l, 2 * fs, 1) for l in axs[2, c].lines]))
  seen = [dict(t=near(u, 2 * fs), a=[vlib.xround(v, 100, tol=.1) for v in a],
               f=near(g)) for u, a, g in FITS]
  return dict(out, got=got, seen=seen, sig=sig,
              intact=not any(hasattr(b, "params_") for b in bs.values()))


def run(c):
  """Entry point"""
  warnings.simplefilter("ignore")
  c.design("MC_Plot.tla", "MC_PlotDeep.cfg" if vlib.THOROUGH
           else "MC_Plot.cfg", timeout=3000)
  c.design_violates("MC_Plot.tla", "MC_Plot_flat.cfg", ["InOrder", "TrueTime"])
  c.design_violates("MC_Plot.tla", "MC_Plot_each.cfg", ["TrueTime", "Together",
                                                       "Spaced", "InOrder"])
  rnd = random.Random(vlib.SEED)
  k = 8 if vlib.THOROUGH else 1
  traces = [f(rnd) for f, n in ((tracking, 160), (tf, 80), (resynthesis, 80),
                                (compare, 60)) for _ in range(n * k)]
  plt.close("all")
  c.validate("PlotTrace.tla", traces)
  c.assumptions += [
      "what is drawn is read from the artists of the axes, not from pixels; "
      "analyses, models and beat regressions are prescribed"]
