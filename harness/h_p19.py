"""P19: a session survives a theme reload and nothing else does."""
import json
import os
import random
import signal
import sys
import tempfile
import time
import tkinter

import numpy as np
import vlib

import headless

_kill = os.kill


def sounds(home, rnd):
  """Audio files: (path, samples, rate)"""
  from scipy.io import wavfile
  g = np.random.default_rng(rnd.randrange(2**31))
  out = []
  for i, (n, sr) in enumerate([(400, 8000), (3000, 44100), (2500, 11025),
                               (1, 8000), (1700, 22050)]):
    x = g.integers(-20000, 20000, n).astype(np.int16)
    p = os.path.join(home, f"s{i}.wav")
    wavfile.write(p, sr, x)
    out.append((p, x / 32768., sr))
  return out


class Life:
  """What happens in one process of the interface; runs instead of the event
  loop"""

  def __init__(self, log, plans, files, dlg):
    self.log_path, self.plans, self.files, self.dlg = log, plans, files, dlg
    self.roots = []
    self.quit = False
    self.errs = []

  def log(self, **kw):
    """Append an event"""
    kw.setdefault("theme", "")
    fd = os.open(self.log_path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.write(fd, (json.dumps(kw) + "\n").encode())
    os.close(fd)

  def events(self):
    """Events so far"""
    try:
      with open(self.log_path, encoding="utf-8") as f:
        return [json.loads(l) for l in f]
    except FileNotFoundError:
      return []

  def kill(self, pid, sig):
    """Only this very process may be killed"""
    if pid == os.getpid():
      _kill(pid, sig)
    self.log(ev="stuck")

  def session(self, tab):
    """The session a tab sees"""
    x = tab.audio_x
    if x is None:
      return dict(x=0, sr=0, a=0, b=0)
    k = [i for i, (_, y, _) in enumerate(self.files, 1)
         if np.shape(y) == np.shape(x) and np.array_equal(x, y)]
    v = [vlib.BAD if u is None else vlib.xint(u)
         for u in (tab.audio_sr, tab.audio_trim_start, tab.audio_trim_stop)]
    return dict(x=k[0] if k else -1, sr=v[0], a=v[1], b=v[2])

  def mainloop(self, root, *args):
    """Stands in for the event loop of the process"""
    del args
    from sample.widgets import main
    k = sum(e["ev"] == "splash" for e in self.events())
    self.log(ev="splash")
    if k >= len(self.plans):
      self.log(ev="stuck")
      _kill(os.getppid(), signal.SIGKILL)
      os._exit(1)
    plan = self.plans[k]
    if plan["end"] == "splash":
      self.log(ev="end", how="crash")
      os._exit(1)
    if plan["end"] == "closesplash":
      self.log(ev="end", how="close")
      headless.close_window(root)
      return
    if plan["end"] == "boot":
      def fail(*a, **kw):
        raise RuntimeError("cannot start")
      main.SAMPLEGUI.__init__ = fail
      self.log(ev="end", how="crash")
    t0 = time.time()
    while time.time() - t0 < 10 and not any(
        isinstance(r, main.SAMPLEGUI) and hasattr(r, "up")
        for r in self.roots):
      root.tk.dooneevent(2)
      time.sleep(1e-3)
      if plan["end"] == "boot" and time.time() - t0 > .05:
        return
    self.live(next(r for r in self.roots if isinstance(r, main.SAMPLEGUI)),
              plan)

  def live(self, gui, plan):
    """The interface is up"""
    from sample.widgets import audioload, settings
    gui.report_callback_exception = \
        lambda t, *a: self.errs.append(t.__name__)
    load = [t for t in gui.tabs if isinstance(t, audioload.AudioLoadTab)][0]
    sett = [t for t in gui.tabs if isinstance(t, settings.SettingsTab)][0]
    see = lambda: [self.session(t) for t in gui.tabs]
    d = os.path.dirname(self.log_path)
    self.log(ev="up", tabs=see(), theme=str(gui.current_theme),
             cache=os.path.exists(os.path.join(d, "u", "audio.cache")))
    for what, *a in plan["do"]:
      self.errs.clear()
      kw = {}
      if what == "load":
        self.dlg.open_ = self.files[a[0]][0]
        headless.click(load.load_button)
        kw["x"] = a[0] + 1
      elif what == "type":
        v = load.trim_start_input_var if a[0] else load.trim_stop_input_var
        v.set(str(a[1]))
      elif what == "apply":
        headless.click(sett.button)
      elif what == "decline":
        kw["theme"] = a[0]
        self.dlg.yes = False
        sett._settings["gui_theme"].var.set(a[0])
        headless.click(sett.button)
      elif what == "edit":
        sett._settings["wsize"].var.set(a[0])
      self.log(ev="do", what=what, tabs=see(),
               err=self.errs[0] if self.errs else "", **kw)
    if plan["end"] == "crash":
      self.log(ev="end", how="crash")
      os._exit(1)
    if plan["end"] == "close":
      self.log(ev="end", how="close")
      headless.close_window(gui)
    else:
      self.log(ev="end", how="reload", theme=plan["theme"])
      self.dlg.yes = True
      sett._settings["gui_theme"].var.set(plan["theme"])
      self.quit = False
      headless.click(sett.button)
    if not self.quit:
      self.log(ev="stuck")


def history(home, plans, dlg, files):
  """Run the launcher as often as it takes to use up the plans"""
  from sample import gui
  from sample.widgets import main
  d = tempfile.mkdtemp(prefix="h-", dir=home)
  life = Life(os.path.join(d, "log"), plans, files, dlg)
  tkinter.Misc.mainloop = lambda self, *a: life.mainloop(self, *a)

  def quit_(self):
    life.quit = True

  tkinter.Misc.quit = quit_
  os.kill = life.kill
  init = tkinter.Tk.__init__

  def record(self, *a, **kw):
    init(self, *a, **kw)
    life.roots.append(self)

  tkinter.Tk.__init__ = record
  ginit = main.SAMPLEGUI.__init__

  def up(self, *a, **kw):
    ginit(self, *a, **kw)
    self.up = True

  main.SAMPLEGUI.__init__ = up
  while sum(e["ev"] == "splash" for e in life.events()) < len(plans):
    life.log(ev="run")
    before = len(life.events())
    try:
      gui.run("--dir", os.path.join(d, "u"), "--splash-time", "0",
              "--log-level", "CRITICAL")
      life.log(ev="over")
    except BaseException as e:  # pylint: disable=W0703
      life.log(ev="stuck", why=repr(e))
      break
    if len(life.events()) == before + 1:
      life.log(ev="stuck")         # the process never showed up
      break
  return d


def random_plans(rnd, themes, k):
  """Lifetimes"""
  plans = []
  theme, pending, audio = "radiance", False, False
  for _ in range(k):
    if not pending:
      audio = False
    do = []
    before = theme
    for _ in range(rnd.randrange(0, 6)):
      u = rnd.random()
      if u < .35:
        do.append(("load", rnd.randrange(5)))
        audio = True
      elif u < .65 and audio:
        do.append(("type", rnd.random() < .5,
                   round(rnd.choice([rnd.uniform(-.01, .3),
                                     rnd.randrange(300) / 8000]), 6)))
      elif u < .75:
        do.append(("apply",))
      elif u < .85:
        do.append(("edit", str(rnd.randrange(1, 9000))))
      else:
        theme = rnd.choice([t for t in themes if t != theme])
        do.append(("decline", theme))
    end = rnd.choice(["reload"] * 5 + ["close"] * 3 + ["crash"] +
                     ([] if pending else ["splash", "closesplash", "boot"]))
    if end in ("splash", "closesplash", "boot"):
      do = []
      theme = before
    p = dict(do=do, end=end)
    if end == "reload":
      theme = p["theme"] = rnd.choice([t for t in themes if t != theme])
    pending = end == "reload"
    plans.append(p)
  if plans[-1]["end"] == "reload":
    plans.append(dict(do=[], end="close"))
  return plans


def run(c):
  """Entry point"""
  c.design("Session.tla", "Session.cfg")
  c.design_violates("Session.tla", "SessionAnyEnd.cfg", ["OnlyIfWanted"])
  c.design_violates("Session.tla", "SessionKeep.cfg", ["Consumed", "Restores"])
  c.design_violates("Session.tla", "SessionEarly.cfg", ["Restores"])
  home = tempfile.mkdtemp(prefix="p19-")
  traces = []
  try:
    dlg = headless.install(home)
    from sample import gui  # pylint: disable=W0611
    from sample.widgets import analysis, main, userfiles  # pylint: disable=W0611
    import sample.sample  # pylint: disable=W0611
    import ttkthemes
    rnd = random.Random(vlib.SEED)
    files = sounds(home, rnd)
    themes = [t for t in ttkthemes.THEMES]
    default = userfiles.UserTtkTheme.default()
    jobs = [random_plans(rnd, themes, rnd.randrange(1, 6))
            for _ in range(900 if vlib.THOROUGH else 120)]
    # the cases of the defects found
    load = ("load", 1)
    trim = ("type", True, .01)
    jobs[:0] = [
        [dict(do=[load, trim], end="reload", theme="arc"),
         dict(do=[], end="close"), dict(do=[], end="close")],
        [dict(do=[load, trim, ("decline", "arc")], end="close"),
         dict(do=[], end="close")],
        [dict(do=[], end="crash")], [dict(do=[], end="boot")],
        [dict(do=[], end="closesplash")], [dict(do=[], end="splash")],
        [dict(do=[load], end="reload", theme="arc"),
         dict(do=[trim], end="reload", theme="plastik"),
         dict(do=[("type", False, .03)], end="crash"),
         dict(do=[], end="close")],
        [dict(do=[load], end="reload", theme="arc"), dict(do=[], end="crash"),
         dict(do=[], end="close")],
        [dict(do=[], end="reload", theme="arc"),
         dict(do=[load], end="reload", theme="black"),
         dict(do=[("load", 2)], end="reload", theme="arc"),
         dict(do=[], end="close")],
    ]
    sys.stdout.flush()
    pids = {}
    todo = list(enumerate(jobs))
    logs = {}
    while todo or pids:
      while todo and len(pids) < 7:
        i, plans = todo.pop(0)
        path = os.path.join(home, f"job{i}")
        pid = os.fork()
        if pid == 0:
          try:
            os.setsid()
            signal.alarm(60)
            os.environ["TMPDIR"] = tempfile.tempdir = home
            n = os.open(os.devnull, os.O_WRONLY)
            os.dup2(n, 1)
            os.dup2(n, 2)
            os.mkdir(path)
            history(path, plans, dlg, files)
          finally:
            os._exit(0)
        pids[pid] = (i, path)
      pid, _ = os.wait()
      if pid not in pids:
        continue
      i, path = pids.pop(pid)
      try:
        os.killpg(pid, signal.SIGKILL)        # whatever is left of it
      except ProcessLookupError:
        pass
      ev = []
      for r, _, fs in os.walk(path):
        if "log" in fs:
          with open(os.path.join(r, "log"), encoding="utf-8") as f:
            ev = [json.loads(l) for l in f]
      logs[i] = ev
    for i, plans in enumerate(jobs):
      ev = logs[i]
      if not ev:
        raise vlib.Machinery("no events recorded")
      traces.append(dict(events=ev, theme=default, plans=len(plans)))
  finally:
    headless.rmtree(home)
  c.validate("SessionTrace.tla", traces)
  c.extra["processes"] = sum(e["ev"] == "splash" for t in traces
                             for e in t["events"])
  c.assumptions += [
      "the toolkit is replaced as in P16; the event loop of each process is a "
      "script of user actions; launcher, processes, queue and files are real",
      "a process that dies before it has shown the interface is not followed "
      "when a session is waiting to be restored"]
