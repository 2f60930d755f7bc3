"""P41: sounds enter and leave unchanged."""
import contextlib
import io
import os
import random
import tempfile
import wave
from unittest import mock

import headless
import numpy as np
import vlib

DIRS = 3
FMT = dict(u8=("u", 128), i16=("s", 32768), i24=("s", 32768), i32=("s", 32768),
           f32=("f", 1024), f64=("f", 1024))


class Disk:
  """Files, as written by others"""

  def __init__(self, home, rnd):
    self.home, self.rnd = home, rnd
    self.recs, self.paths = [], []
    for k in range(1, DIRS + 1):
      os.makedirs(os.path.join(home, f"d{k}"))
    self.dirs = [home] + [os.path.join(home, f"d{k}")
                          for k in range(1, DIRS + 1)]

  def token(self, d):
    """Number of a folder"""
    if d is None:
      return -1
    d = os.path.abspath(d)
    return self.dirs.index(d) if d in self.dirs else vlib.BAD

  def add(self, rec, d, stem):
    """One more file"""
    self.recs.append(dict(rec, dir=d, stem=stem))
    self.paths.append(os.path.join(self.dirs[d], stem + ".wav"))
    return len(self.recs)

  def make(self):
    """A new file"""
    from scipy.io import wavfile
    rnd = self.rnd
    d, stem = rnd.randrange(1, DIRS + 1), f"f{len(self.recs)}"
    if rnd.random() < .3:
      stem += rnd.choice([".x", " y", "-1.2"])
    fmt = rnd.choice(list(FMT))
    kind, full = FMT[fmt]
    rate = rnd.choice([8000, 11025, 44100, 48000])
    if rnd.random() < .15:
      self.add(dict(kind="bad", full=1, rate=rate, rows=[]), d, stem)
      how = rnd.randrange(3)
      if how == 0:
        wavfile.write(self.paths[-1], rate, np.zeros(0, np.int16))
      elif how == 1:
        with open(self.paths[-1], "wb") as f:
          f.write(b"RIFF but not really")
      return
    lo, hi = dict(u=(0, 256), s=(-32768, 32768), f=(-1500, 1501))[kind]
    ch, n = rnd.choice([1, 1, 2, 2, 3]), rnd.randrange(1, 12)

    def sample():
      return rnd.choice([lo, hi - 1, rnd.randrange(lo, hi),
                         rnd.randrange(lo, hi), full if kind == "u" else 0])

    rows = [[sample() for _ in range(ch)] for _ in range(n)]
    self.add(dict(kind=kind, full=full, rate=rate, rows=rows), d, stem)
    x = np.array(rows)
    p = self.paths[-1]
    if fmt == "i24":
      with wave.open(p, "wb") as f:
        f.setparams((ch, 3, rate, n, "NONE", ""))
        f.writeframes(b"".join(int(v * 256).to_bytes(3, "little", signed=True)
                               for v in x.ravel()))
      return
    if ch == 1 and rnd.random() < .7:
      x = x[:, 0]
    x = dict(u8=lambda: x.astype(np.uint8), i16=lambda: x.astype(np.int16),
             i32=lambda: (x * 65536).astype(np.int32),
             f32=lambda: (x / 1024).astype(np.float32),
             f64=lambda: x / 1024)[fmt]()
    wavfile.write(p, rate, x)


class Model:
  """Stands for a model"""

  def __init__(self, seen, pred, fs):
    self.seen, self.pred = seen, pred
    self.fs = fs

  def fit(self, x, **_):
    """Note the sound"""
    self.seen.update(x=np.array(x), fs=self.fs)
    return self

  def predict(self, t, **_):
    """What was decided"""
    self.seen["t"] = np.array(t)
    return np.array(self.pred[:np.size(t)]) / 1024


class Gui:
  """One history"""

  def __init__(self, mods, dlg, disk, out, cached):
    self.dlg, self.disk, self.out = dlg, disk, out
    self.errs, self.steps, self.asked = [], [], []
    self.cur, self.res = cached, False
    d = mods["userfiles"].UserDir(os.path.join(disk.home, "u"))
    if cached:
      r = disk.recs[cached - 1]
      off = r["full"] if r["kind"] == "u" else 0
      x = np.mean(np.array(r["rows"]) - off, axis=-1) / r["full"]
      d.user_file("audio.cache").save_pickled(dict(
          audio_x=x, audio_sr=r["rate"], audio_trim_start=0,
          audio_trim_stop=np.size(x)))
    self.gui = mods["main"].SAMPLEGUI(persistent_dir=d, tabs=(
        ("Load Audio", mods["audioload"].AudioLoadTab, None),
        ("Analysis", mods["analysis"].AnalysisTab, None)))
    self.gui.report_callback_exception = \
        lambda t, *a: self.errs.append(t.__name__)
    self.load, self.tab = self.gui.tabs
    self.load.update_plot = lambda *_, **__: None
    self.tab.update_plot = lambda *_, **__: None
    self.tab.sample_object_kwargs = {}

  def unit(self):
    """Unit of the audio"""
    r = self.disk.recs[self.cur - 1] if self.cur else dict(full=1, rows=[[0]])
    return r["full"] * len(r["rows"][0])

  @staticmethod
  def ints(x, unit):
    """In units"""
    if np.ndim(x) != 1:
      return [vlib.BAD, np.ndim(x)]
    return [vlib.xround(float(v) * unit, tol=1e-6) for v in x]

  def do(self, act, fn, **kw):
    """Run and record"""
    r = dict(act=act, id=0, tab=0, pred=[], times=[], path="", dir=0, stem="",
             fitted=[], frate=0, wrote=False)
    r.update(kw)
    boxes = self.dlg.errors()
    self.asked.clear()
    self.out.clear()
    self.errs.clear()
    ok, e = vlib.attempt(fn, secs=30)
    r["err"] = (self.errs + [""])[0] if ok else str(e)
    r["boxes"] = self.dlg.errors() - boxes
    if act == "load" and r["id"] and (
        self.disk.recs[r["id"] - 1]["kind"] != "bad"):
      self.cur = r["id"]
    t = self.load
    r["x"] = [] if t.audio_x is None else self.ints(t.audio_x, self.unit())
    r["rate"] = vlib.xint(t.audio_sr or 0)
    r["a"], r["b"] = (vlib.xint(v or 0) for v in (
        t.audio_trim_start, t.audio_trim_stop))
    d, f = self.asked[-1] if self.asked else (None, "")
    r["offered"], r["name"] = self.disk.token(d), str(f)
    r["heard"], r["hrate"] = [], [0, 0]
    if self.out:
      sr, y, freq = self.out[-1]
      r["heard"] = self.ints(y, 1024 if act == "again" else self.unit())
      r["hrate"] = [vlib.xint(sr), vlib.xint(freq)]
      if len(self.out) > 1:
        r["err"] = "played twice"
    self.steps.append(r)
    return r

  def open(self, i):
    """Choose a file"""
    self.dlg.open_ = self.disk.paths[i - 1] if i else ""
    self.do("load", lambda: headless.click(self.load.load_button), id=i)

  def trim(self, start, k):
    """Another region"""
    self.do("trim", lambda: self.load.set_trim(k, start=start))

  def play(self, which):
    """Play the original"""
    b = self.load.play_button if which == 1 else self.tab.play_button_o
    self.do("play", lambda: headless.click(b), tab=which)

  def again(self):
    """Play the resynthesis"""
    self.do("again", lambda: headless.click(self.tab.play_button_r))

  def analyse(self, gs, rnd):
    """Analyse"""
    n = np.size(self.load.audio_x) if self.load.audio_x is not None else 0
    pred = [rnd.choice([0, 1024, -1024, 2000, rnd.randrange(-1400, 1400)])
            for _ in range(n)]
    seen = {}

    def factory(sinusoidal__tracker__fs=None, **_):
      return Model(seen, pred, sinusoidal__tracker__fs), {}

    with mock.patch.object(gs, "sample_factory", factory):
      r = self.do("analyse", lambda: headless.click(self.tab.analysis_button))
    if seen:
      r.update(fitted=self.ints(seen["x"], self.unit()),
               frate=vlib.xint(seen["fs"]))
      if "t" in seen:
        r["times"] = [vlib.xround(float(v) * r["rate"], tol=1e-6)
                      for v in seen["t"]]
      r["pred"] = pred[:r["b"] - r["a"]]
      self.res = True

  def export(self, rnd):
    """Export the resynthesis"""
    path = rnd.choice(["ok", "ok", "ok", "bad", "cancel"])
    d, stem = rnd.randrange(1, DIRS + 1), f"out{len(self.steps)}"
    p = os.path.join(self.disk.dirs[d], stem + ".wav")
    if path == "bad":
      os.makedirs(p)
    self.dlg.save = "" if path == "cancel" else p
    r = self.do("wav", lambda: headless.click(self.tab.wav_export_button),
                path=path, dir=d, stem=stem)
    r["wrote"] = os.path.isfile(p)
    if r["wrote"]:
      self.disk.add(dict(kind="f", full=1024, rows=[[0]]), d, stem)


def history(gui, disk, gs, rnd, length):
  """A random history"""
  for k in range(length):
    u = rnd.random()
    if u < .25 or k == 0 and u < .7:
      gui.open(0 if rnd.random() < .1 else rnd.randrange(1, len(disk.recs) + 1))
    elif u < .35:
      n = np.size(gui.load.audio_x) if gui.cur else 3
      gui.trim(rnd.random() < .5, rnd.randrange(n + 1))
    elif u < .55:
      gui.play(rnd.choice([1, 2]))
    elif u < .7:
      gui.analyse(gs, rnd)
    elif u < .82:
      gui.again()
    else:
      gui.export(rnd)
      if gui.steps[-1]["wrote"] and rnd.random() < .6:
        gui.open(len(disk.recs))


@contextlib.contextmanager
def speakers(out):
  """Sounds played are recorded"""
  import pygame
  from pygame import mixer
  cur = {}

  def init(frequency=44100, **_):
    cur["freq"] = frequency

  def play(*_, **__):
    from scipy.io import wavfile
    sr, y = wavfile.read(io.BytesIO(cur["buf"].getvalue()))
    out.append((sr, y, cur.get("freq")))

  music = mock.MagicMock(load=lambda b, *_: cur.update(buf=b), play=play)
  with mock.patch.object(mixer, "init", init), \
      mock.patch.object(mixer, "quit", lambda: None), \
      mock.patch.object(mixer, "music", music), \
      mock.patch.object(pygame, "init", lambda: None), \
      mock.patch.object(pygame, "quit", lambda: None):
    yield


def run(c):
  """Entry point"""
  c.design("MC_Audio.tla",
           "MC_AudioDeep.cfg" if vlib.THOROUGH else "MC_Audio.cfg",
           timeout=3000)
  c.design_violates("MC_Audio.tla", "MC_Audio_first.cfg", ["Faithful"])
  c.design_violates("MC_Audio.tla", "MC_Audio_zero.cfg",
                    ["Faithful", "Silence", "Bounded"])
  c.design_violates("MC_Audio.tla", "MC_Audio_early.cfg", ["Faithful"])
  c.design_violates("MC_Audio.tla", "MC_Audio_loud.cfg", ["Loud"])
  c.design_violates("MC_Audio.tla", "MC_Audio_whole.cfg", ["Heard"])
  c.design_violates("MC_Audio.tla", "MC_Audio_rate.cfg", ["Heard"])
  rnd = random.Random(f"p41-{vlib.SEED}")
  top = tempfile.mkdtemp(prefix="p41-")
  traces = []
  try:
    dlg = headless.install(top)
    from tkinter import filedialog
    from sample.widgets import analysis, audioload, main, userfiles
    from sample.widgets import sample as gs
    mods = dict(main=main, userfiles=userfiles, audioload=audioload,
                analysis=analysis)
    out, now = [], []

    def ask(answer):
      def asked(*_, initialdir=None, initialfile="", **__):
        now[-1].asked.append((initialdir, initialfile))
        return answer()
      return asked

    with speakers(out), \
        mock.patch.object(filedialog, "askopenfilename",
                          ask(lambda: dlg.open_)), \
        mock.patch.object(filedialog, "asksaveasfilename",
                          ask(lambda: dlg.save)):
      for j in range(2500 if vlib.THOROUGH else 300):
        home = os.path.join(top, f"h{j}")
        os.makedirs(home)
        os.environ["HOME"] = home
        disk = Disk(home, rnd)
        for _ in range(rnd.randrange(1, 5)):
          disk.make()
        files = [dict(r) for r in disk.recs]
        good = [i + 1 for i, r in enumerate(files) if r["kind"] != "bad"]
        cached = rnd.choice(good) if good and rnd.random() < .2 else 0
        g = Gui(mods, dlg, disk, out, cached)
        now[:] = [g]
        history(g, disk, gs, rnd, rnd.randrange(3, 16))
        g.gui.destroy()
        headless.rmtree(home)
        traces.append(dict(files=files, cached=cached, steps=g.steps))
  finally:
    headless.rmtree(top)
  c.validate("AudioTrace.tla", traces)
  c.extra["gui_events"] = sum(len(t["steps"]) for t in traces)
  c.assumptions += [
      "the toolkit is replaced as in P16; sounds are recorded where they reach "
      "the mixer, and analyses are stand-ins which note what they are given",
      "files are written by scipy, and by the wave module (24 bits)"]
