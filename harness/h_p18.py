"""P18: the trim region is always a non-empty part of the audio."""
import math
import os
import random
import tempfile
from unittest import mock

import numpy as np
import vlib

import headless
from sample.utils import dsp

BIGT = 2**29


def sounds(home, rnd):
  """Audio files: name -> (path, length or -1 if it cannot be loaded, rate)"""
  from scipy.io import wavfile
  g = np.random.default_rng(rnd.randrange(2**31))
  out = {}

  def put(name, x, sr=8000, ok=True):
    p = os.path.join(home, name + ".wav")
    wavfile.write(p, sr, x)
    out[name] = (p, len(x) if ok else -1, sr)

  def hits(n, at):
    x = np.zeros(n)
    for i in at:
      m = min(n - i, 600)
      x[i:i + m] += np.exp(-np.arange(m) / 90.) * g.uniform(-1, 1, m)
    return np.clip(x, -1, 1)

  def i16(x):
    return (np.clip(x, -1, 1) * 32767).astype(np.int16)

  for n in (1, 2, 3, 7, 100, 512, 1023, 3000):
    put(f"noise{n}", i16(g.uniform(-.5, .5, n)), rnd.choice([8000, 44100]))
    put(f"silent{n}", np.zeros(n, np.int16))
  put("hits1", i16(hits(9000, [1500])), 44100)
  put("hits2", i16(hits(9000, [1000, 3000])), 11025)
  put("hits3", i16(hits(12000, [500, 5000, 9000])), 22050)
  put("late", i16(hits(6000, [5500])), 48000)
  put("stereo", np.stack([i16(hits(9000, [1500, 4000]))] * 2, 1), 44100)
  put("six", np.stack([i16(g.uniform(-1, 1, 200))] * 6, 1), 8000)
  put("one_two", np.zeros((1, 2), np.int16), 8000)
  put("f32", hits(7000, [2000, 3000]).astype(np.float32), 44100)
  put("f64", hits(7000, [2000]), 96000)
  put("u8", ((hits(5000, [700]) * 127) + 128).astype(np.uint8), 8000)
  put("u8silent", np.full(300, 128, np.uint8), 8000)
  put("i32", (hits(5000, [700]) * (2**31 - 1)).astype(np.int32), 3)
  put("nan", np.full(3000, np.nan), 8000)
  put("rate1", i16(hits(5000, [700])), 1)
  put("full", np.full(2000, -32768, np.int16), 8000)
  put("empty", np.zeros(0, np.int16), 8000, ok=False)
  for name, b in (("junk", b"not audio"), ("void", b""),
                  ("cut", open(out["hits1"][0], "rb").read()[:30])):
    p = os.path.join(home, name + ".wav")
    with open(p, "wb") as f:
      f.write(b)
    out[name] = (p, -1, 0)
  out["missing"] = (os.path.join(home, "missing.wav"), -1, 0)
  out["cancel"] = ("", 0, 0)
  return out


def event(tab, what, xdata):
  """Mouse event at a time on the plot, or out of it"""
  from matplotlib import backend_bases
  e = backend_bases.MouseEvent(f"button_{what}_event", tab.plt.canvas, 10, 10,
                               button=1)
  e.xdata, e.ydata = xdata, None if xdata is None else 0.
  if xdata is None:
    e.inaxes = None
  return e


class Tab:
  """One audio tab"""

  def __init__(self, mods, dlg, home, drawn=False):
    self.dlg = dlg
    self.errs = []
    self.gui = mods["main"].SAMPLEGUI(
        persistent_dir=mods["userfiles"].UserDir(os.path.join(home, "u")),
        tabs=(("Load Audio", mods["audioload"].AudioLoadTab, None),))
    self.gui.report_callback_exception = \
        lambda t, *a: self.errs.append(t.__name__)
    self.tab = self.gui.tabs[0]
    if not drawn:
      self.tab.ax = mock.MagicMock()
      self.tab.ax.get_xlim.return_value = (0, 1)
      self.tab.ax.get_ylim.return_value = (-1, 1)
    self.steps = []

  def close(self):
    """Destroy"""
    self.gui.destroy()

  def region(self):
    """Length and region"""
    t = self.tab
    if t.audio_x is None:
      return 0, 0, 0
    v = [vlib.xint(u) if u is not None else vlib.BAD
         for u in (t.audio_trim_start, t.audio_trim_stop)]
    return (int(np.size(t.audio_x)), *v)

  def shown(self, var):
    """Time shown, in samples"""
    try:
      return vlib.xround(float(var.get()) * self.tab.audio_sr, tol=1e-6)
    except Exception:  # pylint: disable=W0703
      return vlib.BAD

  def do(self, act, fn, **kw):
    """Run and record"""
    self.errs.clear()
    boxes = self.dlg.errors()
    ok, e = vlib.attempt(fn)
    r = dict(act=act, ok=True, size=0, fa=0, fb=0, num=True, lo=0, hi=0,
             out=False, on=[], err="" if ok else e)
    if self.errs:
      r["err"] = self.errs[0]
    r.update(kw)
    r["boxes"] = self.dlg.errors() - boxes
    r["n"], r["a"], r["b"] = self.region()
    r["sa"] = self.shown(self.tab.trim_start_input_var)
    r["sb"] = self.shown(self.tab.trim_stop_input_var)
    self.steps.append(r)
    return r["err"] == ""

  def load(self, f, fresh=(0, 0)):
    """Choose a file"""
    path, size, _ = f
    self.dlg.open_ = path
    ok = self.do("load", lambda: headless.click(self.tab.load_button),
                 ok=size > 0, size=size, fa=fresh[0], fb=fresh[1])
    if ok and size > 0:
      self.steps[-1]["on"] = [int(v) for v in np.flatnonzero(
          dsp.onset_detection(self.tab.audio_x))]
    return ok

  def at(self, t):
    """A time in samples, rounded both ways"""
    x = t * self.tab.audio_sr if self.tab.audio_sr else 0.
    if not -BIGT < x < BIGT:
      v = BIGT if x > 0 else -BIGT
      return dict(lo=v, hi=v)
    if abs(x - round(x)) < .01:
      return dict(lo=round(x), hi=round(x))
    return dict(lo=math.floor(x), hi=math.ceil(x))

  def type_(self, start, text):
    """Type a time"""
    var = self.tab.trim_start_input_var if start else \
        self.tab.trim_stop_input_var
    try:
      t = float(text)
      kw = dict(num=False) if math.isnan(t) else self.at(t)
    except ValueError:
      kw = dict(num=False)
    return self.do("typea" if start else "typeb", lambda: var.set(text), **kw)

  def mouse(self, what, t):
    """Press or release at a time"""
    kw = dict(out=True) if t is None else self.at(t)
    return self.do(what, lambda: self.tab.plt.canvas.callbacks.process(
        f"button_{what}_event", event(self.tab, what, t)), **kw)

  def tool(self, k):
    """Toggle a tool"""
    b = self.tab.plt.toolbar._buttons[k]
    v = str(b.tk.call(str(b), "cget", "-variable"))

    def toggle():
      b.tk.setvar(v, 0 if b.tk.getboolean(b.tk.getvar(v)) else 1)

    return self.do("tool", toggle, lo=["Pan", "Zoom"].index(k))


GARBAGE = ["", "abc", "nan", "-", "1,2", "1.2.3", "None", " ", "0x1"]


def somewhere(rnd, tab):
  """A time"""
  n, a, b = tab.region()
  sr = tab.tab.audio_sr or 8000
  u = rnd.random()
  if u < .35:
    return rnd.randrange(-2, max(n, 1) + 3) / sr
  if u < .6:
    return (rnd.choice([a, b, (a + b) // 2, 0, n]) + rnd.randrange(-2, 3)) / sr
  if u < .7:
    return rnd.uniform(-.1, 1.1) * max(n, 1) / sr
  if u < .75:
    return rnd.choice([1e6, -1e6, 0., -0., 1e-9])
  return rnd.randrange(0, max(n, 1) + 1) / sr


def history(tab, rnd, files, fresh, length):
  """A random history"""
  names = list(files)
  good = [f for f in names if files[f][1] > 0]
  first = True
  for _ in range(length):
    u = rnd.random()
    if first and u < .8 or u < .12:
      f = rnd.choice(names if rnd.random() < .3 else good)
      ok = tab.load(files[f], fresh.get(f, (0, 0)))
      first = False
    elif u < .37:
      t = somewhere(rnd, tab)
      text = rnd.choice([str(t), str(t), repr(t), f"{t:.3f}", str(t) + " ",
                         rnd.choice(GARBAGE),
                         rnd.choice(["inf", "-inf", "1e308", "-1e308"])])
      ok = tab.type_(rnd.random() < .5, text)
    elif u < .75:
      # a click, sometimes dragged, unfinished or out of the plot
      t = somewhere(rnd, tab)
      ok = tab.mouse("press", None if rnd.random() < .1 else t)
      if ok and rnd.random() < .1:
        ok = tab.mouse("press", somewhere(rnd, tab))
      if ok and rnd.random() < .05:
        ok = tab.tool(rnd.choice(["Pan", "Zoom"]))
      if ok and rnd.random() < .93:
        v = t if rnd.random() < .6 else somewhere(rnd, tab)
        ok = tab.mouse("release", None if rnd.random() < .12 else v)
    elif u < .83:
      ok = tab.tool(rnd.choice(["Pan", "Zoom"]))
      if ok and rnd.random() < .7:
        ok = tab.mouse("press", somewhere(rnd, tab)) and \
            tab.mouse("release", somewhere(rnd, tab)) and \
            tab.tool(["Pan", "Zoom"][tab.steps[-3]["lo"]])
    else:
      ok = tab.mouse(rnd.choice(["press", "release"]), somewhere(rnd, tab))
    if not ok:
      return


def run(c):
  """Entry point"""
  c.design("Trim.tla", "Trim.cfg")
  c.design_violates("Trim.tla", "TrimDrift.cfg", ["OneSide", "Nearer", "Inert"])
  c.design_violates("Trim.tla", "TrimStale.cfg", ["Nearer"])
  c.design_violates("Trim.tla", "TrimOld.cfg", ["Region"])
  home = tempfile.mkdtemp(prefix="p18-")
  try:
    dlg = headless.install(home)
    from sample.widgets import audioload, main, userfiles
    mods = dict(main=main, userfiles=userfiles, audioload=audioload)
    rnd = random.Random(vlib.SEED)
    files = sounds(home, rnd)
    fresh, traces = {}, []
    for name, f in files.items():
      t = Tab(mods, dlg, home, drawn=True)
      t.load(f)
      fresh[name] = t.region()[1:]
      s = t.steps[0]
      s["fa"], s["fb"] = fresh[name]
      traces.append(dict(steps=t.steps))
      t.close()
    # a long sound: every sample as a typed time and as a click
    for rate in ("hits2", "hits3", "late", "i32", "f64"):
      t = Tab(mods, dlg, home)
      t.load(files[rate], fresh[rate])
      n, sr = files[rate][1:]
      t.type_(True, "0")
      t.type_(False, "1e9")
      step = 1 if vlib.THOROUGH else 97
      for k in range(rnd.randrange(step), n, step):
        if not (t.mouse("press", k / sr) and t.mouse("release", k / sr)):
          break
        if k % 5 == 0 and not (t.type_(k % 2 == 0, str(k / sr))):
          break
      traces.append(dict(steps=t.steps))
      t.close()
    for i in range(3000 if vlib.THOROUGH else 450):
      t = Tab(mods, dlg, home, drawn=i % 40 == 0)
      history(t, rnd, files, fresh, rnd.randrange(3, 25))
      traces.append(dict(steps=t.steps))
      t.close()
  finally:
    headless.rmtree(home)
  c.validate("TrimTrace.tla", [t for t in traces if t["steps"]])
  c.extra["gui_events"] = sum(len(t["steps"]) for t in traces)
  c.assumptions += [
      "the toolkit is replaced as in P16; mouse events are delivered to the "
      "plot's callbacks directly",
      "the region a file gets is that of the same code in a new tab; that it "
      "is valid is checked there"]
