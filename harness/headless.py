"""The real GUI widgets on a toolkit without a display.

A Tcl interpreter without Tk whose unknown commands do nothing stands in for
the windowing toolkit: widgets, variables and their write traces are the real
ones of tkinter, nothing is drawn. The matplotlib canvas is replaced by one
that is never rendered; dialogs, playing and killing are recorded."""
import contextlib
import logging
import os
import re
import shutil
import sys
import tempfile
import warnings

warnings.filterwarnings("ignore")
os.environ.setdefault("PYGAME_HIDE_SUPPORT_PROMPT", "1")
os.environ.setdefault("SDL_AUDIODRIVER", "dummy")
os.environ.setdefault("SDL_VIDEODRIVER", "dummy")
os.environ.setdefault("DISPLAY", ":77")      # never contacted

import _tkinter
import tkinter

from matplotlib import backend_bases, figure
from matplotlib.backends import _backend_tk, backend_tkagg

_PROCS = r"""
array set opt {}
proc setopts {w l} {
  foreach {k v} $l { set ::opt($w,$k) $v }
}
proc unknown {args} {
  set c [lindex $args 0]
  set a [lindex $args 1]
  if {[string index $c 0] eq "."} {
    switch -- $a {
      create { return 1 }
      configure { if {[llength $args] > 3} { setopts $c [lrange $args 2 end] } }
      cget {
        set k $c,[lindex $args 2]
        if {[info exists ::opt($k)]} { return $::opt($k) }
      }
    }
  } elseif {[string index $a 0] eq "."} {
    if {[llength $args] % 2 == 0} { setopts $a [lrange $args 2 end] }
  }
  return ""
}
proc winfo {args} {
  set a [lindex $args 1]
  switch -- [lindex $args 0] {
    parent {
      set i [string last . $a]
      if {$i <= 0} { return . }
      return [string range $a 0 [expr {$i - 1}]]
    }
    exists { return 1 }
    children { return {} }
    default { return 1 }
  }
}
array set protocols {}
proc wm {args} {
  if {[lindex $args 0] eq "protocol" && [llength $args] > 3} {
    set ::protocols([lindex $args 2]) [lindex $args 3]
  }
  return ""
}
proc protocol_of {k} {
  if {[info exists ::protocols($k)]} { return $::protocols($k) }
  return ""
}
array set bindings {}
proc bind {w {seq ""} {script ""}} {
  if {$script ne ""} {
    if {[string index $script 0] eq "+"} {
      lappend ::bindings($w,$seq) [string range $script 1 end]
    } else { set ::bindings($w,$seq) [list $script] }
  }
  return ""
}
proc bound {w seq} {
  if {[info exists ::bindings($w,$seq)]} { return $::bindings($w,$seq) }
  return ""
}
proc focus {args} { return "" }
proc font {args} { return "" }
proc grid {args} { return "" }
proc pack {args} { return "" }
proc image {args} { if {[lindex $args 0] eq "create"} {return img}; return "" }
proc tk {args} { return "" }
proc destroy {args} { return "" }
proc event {args} { return "" }
namespace eval ttk {}
proc ttk::style {args} { if {[lindex $args 0] eq "theme"} {return default}
                         return "" }
proc option {args} { return "" }
"""
_create = _tkinter.create


def create(screen, base, cls, interactive=False, wantobjects=False,
           use_tk=True, sync=False, use=None):
  """An interpreter without Tk that accepts every command"""
  del use_tk, sync, use
  app = _create(None, base, cls, interactive, wantobjects, False, False, None)
  app.eval(_PROCS)
  app.setvar("tk_version", str(_tkinter.TK_VERSION))
  app.setvar("tcl_version", str(_tkinter.TCL_VERSION))
  app.setvar("tk_library", "/nonexistent")
  return app


class Canvas(backend_bases.FigureCanvasBase):
  """Canvas that is never rendered"""

  def __init__(self, fig=None, master=None, **kwargs):
    del kwargs
    super().__init__(fig)
    self.master = master
    self.drawn = 0

  def draw(self, *args, **kwargs):
    """Count"""
    self.drawn += 1

  draw_idle = draw

  def get_tk_widget(self):
    """Any widget"""
    return tkinter.Frame(self.master)


class Toolbar(tkinter.Frame):
  """Navigation toolbar"""

  def __init__(self, canvas, window, pack_toolbar=True):
    del canvas, pack_toolbar
    super().__init__(window)
    self._buttons = {k: tkinter.Checkbutton(self)
                     for k in ("Home", "Back", "Forward", "Pan", "Zoom",
                               "Save")}

  def update(self):
    """Nothing"""


class Dialogs:
  """Recorded message boxes and scripted answers"""

  def __init__(self):
    self.shown = []
    self.yes = False
    self.open_ = ""
    self.save = ""
    self.played = []
    self.killed = 0

  def errors(self):
    """Number of error boxes so far"""
    return sum(k == "showerror" for k, _ in self.shown)


class _Image:
  """Image that is never shown"""

  def __init__(self, *args, **kwargs):
    pass

  def __str__(self):
    return "img"


class _Tip:

  @staticmethod
  def createToolTip(*args, **kwargs):  # pylint: disable=C0103
    """Nothing"""


def install(home):
  """Replace the toolkit; call before anything of sample.widgets is used.

  The home directory of the process becomes a scratch one"""
  os.environ["HOME"] = home
  _tkinter.create = create
  tkinter._tkinter.create = create
  backend_tkagg.FigureCanvasTkAgg = Canvas
  backend_tkagg.NavigationToolbar2Tk = Toolbar
  _backend_tk.ToolTip = _Tip
  from PIL import ImageTk
  ImageTk.PhotoImage = _Image
  from ttkthemes import _widget
  _widget.ThemedWidget._load_themes = lambda self: None
  _widget.ThemedWidget.set_theme = \
      lambda self, name, *a: setattr(self, "headless_theme", name)
  _widget.ThemedWidget.get_themes = \
      lambda self: list(__import__("ttkthemes").THEMES)
  _widget.ThemedWidget.current_theme = property(
      lambda self: self.__dict__.get("headless_theme", "default"))
  logging.disable(logging.CRITICAL)
  sys.unraisablehook = lambda *_: None
  d = Dialogs()
  from tkinter import filedialog, messagebox
  for k in ("showerror", "showinfo", "showwarning"):
    setattr(messagebox, k,
            lambda *a, _k=k, **kw: d.shown.append((_k, a)) or "ok")
  for k in ("askyesno", "askokcancel", "askyesnocancel", "askretrycancel"):
    setattr(messagebox, k,
            lambda *a, _k=k, **kw: d.shown.append((_k, a)) or d.yes)
  messagebox.askquestion = \
      lambda *a, **kw: d.shown.append(("askyesno", a)) or \
      ("yes" if d.yes else "no")
  filedialog.askopenfilename = lambda *a, **kw: d.open_
  filedialog.asksaveasfilename = lambda *a, **kw: d.save
  from sample.widgets import images
  images.LogoIcon = images.LogoImage = _Image       # slow to draw
  return d


def root():
  """A root window (headless) with a notebook-like child that holds the
  shared attributes, as in the application"""
  return tkinter.Tk(useTk=True)


def click(widget, x=1, y=1):
  """Press the first button of the mouse over a widget: run what is bound"""
  b = widget.tk.call("bound", str(widget), "<Button-1>")
  for script in (b if isinstance(b, tuple) else widget.tk.splitlist(b)):
    s = re.sub(r"%(.)", lambda m: {"W": str(widget), "x": str(x), "y": str(y),
                                   "%": "%", "T": "4", "b": "1",
                                   "t": "0"}.get(m.group(1), "0"), script)
    widget.tk.eval(s)
  c = widget.tk.call(str(widget), "cget", "-command")
  if c:
    widget.tk.eval(c)


def rmtree(path):
  """Remove a scratch directory made by tempfile"""
  assert os.path.abspath(path).startswith(tempfile.gettempdir() + os.sep)
  shutil.rmtree(path, ignore_errors=True)


def close_window(root):
  """The user closes a window: run its protocol"""
  s = str(root.tk.call("protocol_of", "WM_DELETE_WINDOW"))
  if s:
    root.tk.eval(s)
  return bool(s)
