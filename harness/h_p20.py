"""P20: played and exported results belong to the last analysis."""
import contextlib
import io
import json
import os
import random
import tempfile
import types
from unittest import mock

import numpy as np
import vlib

import headless

BASE = dict(
    max_n_modes=None, sinusoidal__n=256, sinusoidal__w=np.hanning(256),
    sinusoidal__tracker__h=64, sinusoidal__tracker__max_n_sines=6,
    sinusoidal__tracker__frequency_bounds=(20, 16000),
    sinusoidal__tracker__peak_threshold=-60, sinusoidal__t=-80,
    sinusoidal__tracker__min_sine_dur=0., sinusoidal__tracker__strip_t=None,
    sinusoidal__tracker__reverse=False, sinusoidal__padded=False,
    beatsdrop=False, n_jobs=0)
GOOD = dict(
    base={}, one=dict(max_n_modes=1), rev=dict(sinusoidal__tracker__reverse=True),
    none=dict(sinusoidal__t=0., sinusoidal__tracker__peak_threshold=0.),
    bd=dict(beatsdrop=True, beat_decisor__th=4.))
FAIL = dict(
    win=dict(sinusoidal__w=None),                     # fails at once
    reg=dict(regressor__coeffs_init=3),               # fails in the tracks
    late=dict(max_n_modes="x"),                       # fails afterwards
    bounds=dict(sinusoidal__tracker__frequency_bounds=3),
    unknown=dict(sinusoidal__tracker__max_n_sines="a"))


def sounds(home, rnd):
  """Audio files: name -> path"""
  from scipy.io import wavfile
  out = {}
  t = np.arange(2400)

  def mode(f, a, d=.002):
    return a * np.exp(-d * t) * np.cos(2 * np.pi * f * t)

  f = [rnd.uniform(.03, .2) for _ in range(4)]
  for name, x, sr in (
      ("a", mode(f[0], .5) + mode(f[1], .3), 8000),
      ("b", mode(f[2], .4) + mode(f[3], .4, .004), 22050),
      ("loud", np.float32(mode(f[1], 1.7, .0005) + mode(f[2], 1.4, .0004)), 8000),
      ("short", mode(f[0], .5)[:300], 11025),
      ("quiet", np.zeros(700), 8000),
      ("nan", np.full(900, np.nan), 8000)):
    p = os.path.join(home, name + ".wav")
    if x.dtype == float and name != "nan":
      x = np.int16(np.clip(x, -1, 1) * 32767)
    wavfile.write(p, sr, x)
    out[name] = p
  return out


class Known:
  """Reference results, one per sound, region and settings"""

  def __init__(self, factory, deadline):
    self.factory, self.deadline = factory, deadline
    self.tab = {}
    self.recs = []

  def get(self, name, x, a, b, sr, setting):
    """Number and record of what is to be analysed"""
    k = (name, a, b, setting)
    if k not in self.tab:
      y = np.array(x[a:b])
      r = dict(x=y, sr=int(sr), id=len(self.recs) + 1)
      try:
        m, _ = self.factory(sinusoidal__tracker__fs=sr,
                            **{**BASE, **GOOD.get(setting, {}),
                               **FAIL.get(setting, {})})
        m.fit(y)
        r["y"] = np.clip(m.predict(np.arange(y.size) / sr), -1, 1)
        r["j"] = json.loads(json.dumps(m.sdt_params_()))
        r["m"], r["good"] = m, True
      except Exception:  # pylint: disable=W0703
        r["good"] = False
      self.tab[k] = r
      self.recs.append(r)
    return self.tab[k]

  @staticmethod
  def same(u, v):
    """Same sound"""
    return np.shape(u) == np.shape(v) and bool(
        np.allclose(u, v, rtol=1e-5, atol=1e-6, equal_nan=True))

  def which(self, u, key, sr=None):
    """Records with this sound (and rate)"""
    return [r["id"] for r in self.recs if key in r and self.same(u, r[key])
            and (sr is None or sr == r["sr"])]

  def which_plot(self, ax):
    """Records whose analysis is drawn on these axes"""
    return [r["id"] for r in self.recs if r["good"] and self.drawn(r, ax)]

  def drawn(self, r, ax):
    """These axes show the tracks and spectra of this record"""
    from matplotlib import pyplot as plt
    from sample import plots
    if "plot" not in r:
      fig, ref = plt.subplots(2, 1)
      plots.sine_tracking_2d(r["m"], ax=ref)
      s = r["m"].sinusoidal
      try:
        image = np.array([mag for mag, _ in s.intermediate["stft"]]).T
      except KeyError:
        image = np.zeros(0)
      if s.tracker.reverse and image.size:
        image = image[:, ::-1]
      n = image.shape[-1]
      r["plot"] = [[l.get_xydata() for l in a.get_lines()] for a in ref], \
          image, (0, n * s.h / s.fs, 0, s.fs / 2)
      plt.close(fig)
    lines, image, extent = r["plot"]
    for a, want in zip(ax, lines):
      got = [l.get_xydata() for l in a.get_lines()]
      if len(got) != len(want) or not all(map(self.same, got, want)):
        return False
    got = ax[0].images
    return len(got) == (image.size > 0) and all(
        self.same(np.ma.filled(g.get_array(), np.nan), image)
        and self.same(g.get_extent(), extent)
        for g in got)

  def which_json(self, j):
    """Records with this export"""

    def eq(a, b):
      if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(
            eq(a[k], b[k]) for k in a)
      if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(
            map(eq, a, b))
      if isinstance(a, float) or isinstance(b, float):
        return bool(np.isclose(a, b, rtol=1e-5, atol=1e-9, equal_nan=True))
      return a == b

    return [r["id"] for r in self.recs if "j" in r and eq(j, r["j"])]


class Tab:
  """One history"""

  def __init__(self, mods, dlg, home, files, known, drawn, mixer):
    self.mixer = mixer
    self.dlg, self.files, self.known, self.home = dlg, files, known, home
    self.errs, self.steps, self.name = [], [], None
    self.played = []
    self.gui = mods["main"].SAMPLEGUI(
        persistent_dir=mods["userfiles"].UserDir(os.path.join(home, "u")),
        tabs=(("Load Audio", mods["audioload"].AudioLoadTab, None),
              ("Analysis", mods["analysis"].AnalysisTab, None)))
    self.gui.report_callback_exception = \
        lambda t, *a: self.errs.append(t.__name__)
    self.load, self.tab = self.gui.tabs
    self.load.ax = mock.MagicMock()
    self.load.ax.get_xlim.return_value = (0, 1)
    self.load.ax.get_ylim.return_value = (-1, 1)
    self.lines = None
    if not drawn:
      self.fake_axes()
    self.setting = None
    self.nfile = 0
    self.seen = dict(boxes=dlg.errors(), infos=self.infos())
    self.set("base")
    self.steps.clear()

  def fake_axes(self):
    """Axes which only remember their lines"""
    ax = tuple(mock.MagicMock() for _ in range(3))
    for a in ax:
      a.get_xlim.return_value = a.get_ylim.return_value = (0, 1)
      a.lines_ = []
      a.clear.side_effect = a.lines_.clear
      a.plot.side_effect = lambda t, y, *_, label=None, _a=a, **__: \
          _a.lines_.append((label, np.array(t), np.array(y))) or [mock.MagicMock()]
    self.tab.ax = ax

  def plotted(self, label):
    """Line with a label, None if there are none"""
    ax = self.tab.ax[2]
    if isinstance(ax, mock.MagicMock):
      ls = [(t, y) for k, t, y in ax.lines_ if k == label]
    else:
      ls = [l.get_data() for l in ax.get_lines() if l.get_label() == label]
    return ls

  @staticmethod
  def rate(t):
    """Sample rate of times"""
    n = np.size(t)
    sr = round(1 / t[1]) if n > 1 and t[1] > 0 else None
    return None if n < 2 else sr if sr and Known.same(
        t, np.arange(n) / sr) else -1

  def infos(self):
    """Information boxes"""
    return sum(k == "showinfo" for k, _ in self.dlg.shown)

  def close(self):
    """Destroy"""
    self.gui.destroy()

  def record(self, act, err="", **kw):
    """Record an event"""
    t = self.tab
    loaded = self.name is not None
    r = dict(act=act, loaded=loaded, id=0, good=False, path="", err=err,
             heard=False, snd=[], file=False, saved=[], clip=True, torn=False)
    if self.errs and not err:
      r["err"] = self.errs[0]
    self.errs.clear()
    if loaded:
      k = self.known.get(self.name, t.audio_x, int(t.audio_trim_start),
                         int(t.audio_trim_stop), t.audio_sr, self.setting)
      r["id"], r["good"] = k["id"], k["good"]
    r["boxes"] = self.dlg.errors() - self.seen["boxes"]
    r["infos"] = self.infos() - self.seen["infos"]
    self.seen = dict(boxes=self.dlg.errors(), infos=self.infos())
    if self.played:
      sr, y, freq = self.played[-1]
      r["heard"] = True
      if freq == sr and len(self.played) == 1:
        r["snd"] = [["r", i] for i in self.known.which(y, "y", sr)] + \
            [["o", i] for i in self.known.which(y, "x", sr)]
      if act == "playr":
        r["clip"] = bool(np.all(np.abs(np.nan_to_num(y)) <= 1))
      self.played.clear()
    r.update(kw)
    po, pr = self.plotted("original"), self.plotted("resynthesis")
    r["drawn"] = bool(po or pr)
    r["po"] = r["pr"] = r["pt"] = []
    r["full"] = not isinstance(t.ax[2], mock.MagicMock)
    if r["full"] and r["drawn"]:
      r["pt"] = self.known.which_plot(t.ax)
    if len(po) == 1 and len(pr) == 1:
      r["po"] = self.known.which(po[0][1], "x", self.rate(po[0][0]))
      r["pr"] = self.known.which(pr[0][1], "y", self.rate(pr[0][0]))
    self.steps.append(r)
    return r["err"] == ""

  def do(self, act, fn, **kw):
    """Run and record"""
    ok, e = vlib.attempt(fn, secs=60)
    return self.record(act, "" if ok else e, **kw)

  def set(self, setting):
    """Other settings"""
    self.setting = setting
    self.tab.sample_object_kwargs = {**BASE, **GOOD.get(setting, {}),
                                     **FAIL.get(setting, {})}
    return self.record("set")

  def open(self, name):
    """Load a file"""
    self.dlg.open_ = self.files[name]
    ok, e = vlib.attempt(headless.click, self.load.load_button, secs=60)
    self.name = name
    return self.record("load", "" if ok else e)

  def trim(self, start, frac):
    """Type a time"""
    v = self.load.trim_start_input_var if start else \
        self.load.trim_stop_input_var

    def fn():
      n, sr = (np.size(self.tab.audio_x), self.tab.audio_sr) if self.name \
          else (1, 1)
      v.set(str((int(frac * n) + .5) / sr))

    return self.do("trim", fn)

  def play(self, original):
    """Play"""
    b = self.tab.play_button_o if original else self.tab.play_button_r
    return self.do("playo" if original else "playr",
                   lambda: headless.click(b))

  def export(self, what, path):
    """Export"""
    self.nfile += 1
    p = os.path.join(self.home, f"out{self.nfile}.{what}")
    if path == "bad":
      p = os.path.join(self.home, "nowhere", "out." + what)
    self.dlg.save = "" if path == "cancel" else p
    b = self.tab.export_button if what == "json" else \
        self.tab.wav_export_button
    ok, e = vlib.attempt(headless.click, b, secs=60)
    kw = dict(path=path)
    if os.path.exists(p):
      kw["file"] = True
      try:
        if what == "json":
          with open(p, encoding="utf-8") as f:
            kw["saved"] = self.known.which_json(json.load(f))
        else:
          from scipy.io import wavfile
          sr, y = wavfile.read(p)
          kw["saved"] = self.known.which(y, "y", sr)
          kw["clip"] = bool(np.all(np.abs(np.nan_to_num(y)) <= 1))
      except Exception:  # pylint: disable=W0703
        pass
      os.unlink(p)
    return self.record(what, "" if ok else e, **kw)

  def analyse_broken(self, k=2):
    """Analyse, when the results cannot be drawn"""

    def boom(*_, **__):
      raise ValueError("cannot draw")

    with contextlib.ExitStack() as st:
      if isinstance(self.tab.ax[k], mock.MagicMock):
        old = self.tab.ax[k].plot.side_effect
        self.tab.ax[k].plot.side_effect = boom
        st.callback(lambda: setattr(self.tab.ax[k].plot, "side_effect", old))
      else:
        st.enter_context(mock.patch("matplotlib.axes.Axes.plot", boom))
      return self.analyse(torn=True)

  def play_broken(self, original):
    """Play, without speakers"""
    self.mixer["broken"] = True
    try:
      b = self.tab.play_button_o if original else self.tab.play_button_r
      ok, e = vlib.attempt(headless.click, b, secs=60)
    finally:
      self.mixer.pop("broken")
    e = "" if ok else e
    if self.errs:
      e = self.errs[0]
      self.errs.clear()
    self.record("deaf", e)
    return e != "Hang"

  def analyse(self, during=(), torn=False):
    """Analyse; actions that happen while it runs"""
    if not self.record("begin"):
      return False
    todo = list(during)

    def later():
      if todo:
        todo.pop(0)()
        if todo:
          self.gui.after(0, later)

    if todo:
      self.gui.after(0, later)
    ok, e = vlib.attempt(headless.click, self.tab.analysis_button, secs=60)
    if torn:
      e = "" if ok else e
      if self.errs:
        e = self.errs[0]
        self.errs.clear()
      self.record("end", e, torn=True)
      return e != "Hang"
    return self.record("end", "" if ok else e)


def action(rnd, tab, nested=False):
  """A random action, as a function"""
  u = rnd.random()
  names = list(tab.files)
  if u < (.1 if nested else .08) or tab.name is None and u < .5:
    return lambda n=rnd.choice(names): tab.open(n)
  if u < .25:
    return lambda s=rnd.random() < .5, f=rnd.choice([0, .1, .3, .5, .8, 1]): \
        tab.trim(s, f)
  if u < .35:
    s = rnd.choice([*GOOD, *GOOD, *FAIL])
    if s == "bd" and rnd.random() < .7:
      s = "base"
    return lambda: tab.set(s)
  if u < .42:
    return lambda: tab.play(True)
  if u < .58:
    return lambda: tab.play(False)
  if u < .74:
    p = rnd.choice(["ok"] * 6 + ["bad", "cancel"])
    return lambda w=rnd.choice(["wav", "json"]): tab.export(w, p)
  if nested:
    return tab.analyse
  if u < .78:
    return lambda o=rnd.random() < .5: tab.play_broken(o)
  if u < .82:
    return lambda k_=rnd.choice([0, 1, 2]): tab.analyse_broken(k_)
  k = rnd.choice([0, 0, 1, 2, 4])
  return lambda: tab.analyse([action(rnd, tab, True) for _ in range(k)])


def history(tab, rnd, length):
  """A random history"""
  for _ in range(length):
    if not action(rnd, tab)():
      return
  tab.play(False)
  tab.export("wav", "ok")
  tab.export("json", "ok")


def scripts(tab):
  """Systematic histories: every action during and after each other"""
  acts = dict(
      load=lambda: tab.open("b"), trim=lambda: tab.trim(True, .5),
      trim2=lambda: tab.trim(False, .4), fail=lambda: tab.set("reg"),
      other=lambda: tab.set("one"), again=tab.analyse,
      playr=lambda: tab.play(False), playo=lambda: tab.play(True),
      wav=lambda: tab.export("wav", "ok"), json=lambda: tab.export("json", "ok"),
      badwav=lambda: tab.export("wav", "bad"),
      badjson=lambda: tab.export("json", "bad"),
      no=lambda: tab.export("wav", "cancel"), deaf=lambda: tab.play_broken(False),
      torn=tab.analyse_broken)
  check = ("playr", "wav", "json", "playo")
  for first in ("ok", *FAIL, "none", "never"):
    for act in acts:
      if act == "torn" and first == "never":
        continue
      for where in ("during", "after", "before"):
        yield first, act, where, acts, check


def scripted(tab, spec):
  """Run one of them"""
  first, act, where, acts, check = spec
  tab.open("a")
  if where == "before":
    acts[act]()
  if first == "never":
    pass
  else:
    tab.set("base" if first == "ok" else first)
    tab.analyse([acts[act]] if where == "during" else [])
  if where == "after":
    acts[act]()
  for k in check:
    acts[k]()
  tab.set("base")
  tab.analyse([acts[act]] if where == "during" else [])
  for k in check:
    acts[k]()


@contextlib.contextmanager
def speakers(played, cur):
  """Sounds played are recorded"""
  import pygame
  from pygame import mixer

  def init(frequency=44100, **_):
    if cur.get("broken"):
      raise pygame.error("no speakers")
    cur["freq"] = frequency

  def load(buf, *_):
    cur["buf"] = buf

  def play(*_, **__):
    from scipy.io import wavfile
    b = cur["buf"]
    p = b.tell()
    sr, y = wavfile.read(io.BytesIO(b.getvalue()))
    b.seek(p)
    played().append((sr, y, cur.get("freq")))

  music = mock.MagicMock(load=load, play=play)
  with mock.patch.object(mixer, "init", init), \
      mock.patch.object(mixer, "quit", lambda: None), \
      mock.patch.object(mixer, "music", music), \
      mock.patch.object(pygame, "init", lambda: None), \
      mock.patch.object(pygame, "quit", lambda: None):
    yield


def run(c):
  """Entry point"""
  c.design("Analysis.tla", "Analysis.cfg")
  c.design("Analysis.tla", "AnalysisHalf.cfg")
  c.design_violates("Analysis.tla", "AnalysisLateAudio.cfg", ["LastHeard"])
  c.design_violates("Analysis.tla", "AnalysisLateRate.cfg", ["LastHeard"])
  c.design_violates("Analysis.tla", "AnalysisKeepOld.cfg", ["LastHeard"])
  c.design_violates("Analysis.tla", "AnalysisNoLock.cfg", ["OneAtATime"])
  c.design_violates("Analysis.tla", "AnalysisLoseLock.cfg", ["CanAnalyse"])
  home = tempfile.mkdtemp(prefix="p20-")
  traces = []
  try:
    dlg = headless.install(home)
    from sample.widgets import analysis, audioload, main, userfiles
    from sample.widgets import sample as gs
    mods = dict(main=main, userfiles=userfiles, audioload=audioload,
                analysis=analysis)
    rnd = random.Random(vlib.SEED)
    files = sounds(home, rnd)
    known = Known(gs.sample_factory, None)
    now = []
    mixer = {}
    with speakers(lambda: now[-1].played, mixer):

      def one(drawn, fn):
        t = Tab(mods, dlg, home, files, known, drawn, mixer)
        now[:] = [t]
        fn(t)
        traces.append(dict(steps=t.steps))
        t.close()

      def nth(i):
        return lambda t: scripted(t, list(scripts(t))[i])

      idx = list(range(len(list(scripts(types.SimpleNamespace(
          analyse=0, analyse_broken=0))))))
      if not vlib.THOROUGH:
        rnd.shuffle(idx)
      for j, i in enumerate(idx[:None if vlib.THOROUGH else 160]):
        one(j % 16 == 0, nth(i))
      for i in range(2000 if vlib.THOROUGH else 160):
        one(i % 16 == 0,
            lambda t: history(t, rnd, rnd.randrange(3, 20)))
  finally:
    headless.rmtree(home)
  c.validate("AnalysisTrace.tla", traces)
  c.extra["gui_events"] = sum(len(t["steps"]) for t in traces)
  c.extra["analyses"] = sum(s["act"] == "end" for t in traces
                            for s in t["steps"])
  c.assumptions += [
      "the toolkit is replaced as in P16; sounds are recorded where they reach "
      "the mixer",
      "reference results come from the same models fitted directly (that they "
      "are right is P01 to P13)",
      "settings are set directly; analyses run in one process"]
