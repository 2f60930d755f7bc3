"""P16: applied settings are valid, agree everywhere and survive a restart."""
import json
import math
import os
import random
import tempfile

import headless
import vlib

SC = 10000
PINF, NINF, HUGE, NONE, NAN = (2000000000, -2000000000, 1900000000,
                               -1900000001, -1900000002)
KEYS = {
    "max_n_modes": dict(kind="posint", none=True),
    "sinusoidal__tracker__max_n_sines": dict(kind="posint", none=False),
    "sinusoidal__n": dict(kind="pow2"),
    "sinusoidal__tracker__h": dict(kind="posint", none=False),
    "wsize": dict(kind="pair"),
    "sinusoidal__tracker__freq_dev_offset": dict(kind="float"),
    "sinusoidal__tracker__freq_dev_slope": dict(kind="float"),
    "smfb_0": dict(kind="pair"),
    "smfb_1": dict(kind="pair"),
    "sinusoidal__tracker__peak_threshold": dict(kind="float"),
    "sinusoidal__t": dict(kind="float"),
    "sinusoidal__tracker__min_sine_dur": dict(kind="clip", lo=0, hi=PINF),
    "sinusoidal__tracker__strip_t": dict(kind="strip"),
    "sinusoidal__tracker__reverse": dict(kind="bool"),
    "sinusoidal__padded": dict(kind="bool"),
    "beatsdrop": dict(kind="bool"),
    "parallel": dict(kind="bool"),
    "n_jobs": dict(kind="posint", none=False),
    "beat_decisor__th": dict(kind="clip", lo=0, hi=PINF),
    "beatsdrop__lpf": dict(kind="clip", lo=2 * SC, hi=50 * SC),
}
BOOLS = [k for k, d in KEYS.items() if d["kind"] == "bool"]
DEFAULT = dict(zip(KEYS, [
    "", "64", "4096", "1024", "4096", "20", "0.0025", "20", "16000", "-66",
    "-90", "0.1", "0.5", True, False, False, False, "4", "4", "12"]))
NUMBERS = ["0", "1", "-1", "2", "3", "0.5", "0.9999", "1.5", "63.9", "64", "65",
           "100", "1000", "1023.5", "1024", "1025", "4096", "4097", "5000",
           "16000", "20", "-66", "-90.5", "12", "50", "51", "1.9", "1e2",
           "1e-4", " 7 ", "+8", "1_000", "-0", "0.0025", "-1000.25", "20000"]
ODD = ["inf", "-inf", "Infinity", "nan", "-nan", "NaN", "1e400", "-1e400",
       "1e300", "", " ", "abc", "None", "1,5", "0x10", "1e", "--1", "True",
       "1 2", "12abc", "\u0661\u0662", "{", "[1]", "$x", "\\", "1e308"]
RAW = [None, True, False, 0, -5, 3, 7.5, 1e9, "5", "abc", "nan", [], [3], {},
       {"a": 1}, "f", "False", float("inf"), float("nan"), -0.25, "64", 2.5,
       1500, "triang", "1e400", [[1], 2], "true"]


def number(text):
  """Number in a text"""
  try:
    return int(str(text))
  except ValueError:
    return float(str(text))


def num(text):
  """A text (or a value of the file) as the specification sees it"""
  if isinstance(text, str) and text.strip().lower() in ("false", "f"):
    return dict(c="false", v=0)
  if isinstance(text, bool):
    return dict(c="num" if text else "false", v=SC if text else 0)
  try:
    x = number(text)
  except ValueError:
    return dict(c="false" if text == "" else "bad", v=0)
  if x != x:
    return dict(c="bad", v=0)
  return dict(c="num", v=scaled(x))


def scaled(x):
  """Number in units of the specification"""
  if x in (math.inf, -math.inf):
    return PINF if x > 0 else NINF
  if abs(x) > 180000:
    return HUGE if x > 0 else NINF
  v = round(x * SC)
  return v if abs(x * SC - v) < 1e-6 else vlib.BAD


def value(x):
  """A value of the file or of the parameters"""
  if x is None:
    return NONE
  if isinstance(x, bool):
    return SC if x else 0
  if not isinstance(x, (int, float)):
    return vlib.BAD
  if isinstance(x, float) and math.isnan(x):
    return NAN
  try:
    return scaled(float(x))
  except OverflowError:
    return HUGE


def shown(k, text):
  """A text shown in an entry, as a value"""
  if KEYS[k]["kind"] == "bool":
    return SC if text else 0
  if text in ("None", ""):
    return NONE
  try:
    return value(number(text))
  except ValueError:
    return vlib.BAD


class Session:
  """One history on one directory"""

  def __init__(self, mods, dlg, whole):
    self.mods, self.dlg, self.whole = mods, dlg, whole
    self.home = tempfile.mkdtemp(prefix="p16-")
    self.gui = self.tab = None
    self.steps = []
    self.fresh = False
    self.errs = []

  @property
  def path(self):
    """Settings file"""
    return os.path.join(self.home, "u", "settings.json")

  def texts(self):
    """Texts of the entries"""
    return {k: self.tab._settings[k].var.get()
            for k in (*KEYS, "wtype", "gui_theme")}

  def saved(self):
    """Content of the file, None if absent"""
    try:
      with open(self.path, encoding="utf-8") as f:
        return json.load(f)
    except FileNotFoundError:
      return None

  def close(self):
    """Destroy the interface"""
    if self.gui is not None:
      try:
        self.gui.destroy()
      except Exception:  # pylint: disable=W0703
        pass
    self.gui = self.tab = None

  def start(self):
    """A new start of the interface"""
    m = self.mods
    kw = {} if self.whole else dict(
        tabs=(("Settings", m["settings"].SettingsTab, None),))
    self.gui = m["main"].SAMPLEGUI(
        persistent_dir=m["userfiles"].UserDir(os.path.join(self.home, "u")),
        **kw)
    self.gui.report_callback_exception = \
        lambda t, *a: self.errs.append(t.__name__)
    self.tab = [t for t in self.gui.tabs
                if isinstance(t, m["settings"].SettingsTab)][0]

  def settle(self, how):
    """Apply or restart; record"""
    s = self.saved()
    prev = (s or {}).get("gui_theme")
    themes = self.mods["themes"]
    if prev not in themes:
      prev = self.mods["userfiles"].UserTtkTheme.default()
    if how == "apply":
      before = self.texts()
    else:
      before = dict(DEFAULT, wtype="blackman", gui_theme="")
      before.update({k: v for k, v in (s or {}).items() if k in before})
    asked = sum(k == "askyesno" for k, _ in self.dlg.shown)
    self.errs.clear()
    if how == "apply":
      ok, e = vlib.attempt(headless.click, self.tab.button, secs=20)
    else:
      self.close()
      ok, e = vlib.attempt(self.start, secs=20)
    err = "" if ok else e
    if self.errs:
      err = self.errs[0]
    theme, wtype = before["gui_theme"], before["wtype"]
    r = dict(how=how, fresh=self.fresh, err=err, prev=prev,
             num={k: num(before[k]) for k in KEYS},
             wtype=wtype if isinstance(wtype, str) else "?",
             theme=theme if isinstance(theme, str) else "?")
    self.fresh = True
    self.steps.append(r)
    if err:
      return False
    t, f = self.texts(), self.saved() or {}
    p = dict(self.tab.sample_object_kwargs)
    w = p.get("sinusoidal__w")
    b = p.get("sinusoidal__tracker__frequency_bounds")
    r.update(
        shown={k: shown(k, t[k]) for k in KEYS},
        file={k: value(f.get(k, "?")) for k in KEYS},
        params={k: value(p.get(k, "?")) for k in KEYS
                if k not in ("wsize", "smfb_0", "smfb_1", "parallel",
                             "n_jobs")},
        wt=[str(t["wtype"]), str(f.get("wtype"))],
        th=[str(t["gui_theme"]), str(f.get("gui_theme"))],
        bounds=[value(x) for x in b] if isinstance(b, (tuple, list)) else [],
        jobs=value(p.get("n_jobs", "?")),
        ask=sum(k == "askyesno" for k, _ in self.dlg.shown) > asked
        and f.get("gui_theme") == prev,
        window=self.window_ok(w, f))
    return True

  def window_ok(self, w, f):
    """The window in use is that of the saved type and size"""
    try:
      u = self.mods["get_window"](f["wtype"], f["wsize"])
      return u.shape == w.shape and bool((u == w).all())
    except Exception:  # pylint: disable=W0703
      return False

  def edit(self, k, text):
    """Type"""
    self.tab._settings[k].var.set(text)
    self.fresh = False

  def hand(self, upd, drop=()):
    """Edit the file"""
    f = self.saved() or {}
    f.update(upd)
    for k in drop:
      f.pop(k, None)
    os.makedirs(os.path.dirname(self.path), exist_ok=True)
    with open(self.path, "w", encoding="utf-8") as h:
      json.dump(f, h)
    self.fresh = False


def one(mods, dlg, rnd, script=None, whole=False):
  """One history: a script of (what, args), or a random one"""
  s = Session(mods, dlg, whole)
  themes, wtypes = mods["themes"], mods["wtypes"]
  try:
    if script and script[0][0] == "hand":
      s.hand(*script.pop(0)[1:])
    elif not script and rnd.random() < .3:
      s.hand(raw(rnd, themes, wtypes))
    if not s.settle("restart"):
      return dict(steps=s.steps)
    if script is None:
      script = []
      for _ in range(rnd.randrange(2, 6)):
        for _ in range(rnd.randrange(0, 5)):
          k = rnd.choice([*KEYS, *KEYS, "wtype", "gui_theme", "wsize",
                          "sinusoidal__n", "smfb_0", "smfb_1"])
          if k == "wtype":
            v = rnd.choice(wtypes)
          elif k == "gui_theme":
            v = rnd.choice(themes)
          elif k in BOOLS:
            v = rnd.random() < .5
          else:
            v = rnd.choice(NUMBERS if rnd.random() < .6 else ODD)
          script.append(("edit", k, v))
        if rnd.random() < .15:
          script.append(("hand", raw(rnd, themes, wtypes),
                         rnd.sample(list(KEYS), rnd.randrange(3))))
          script.append(("restart",))
        script.append((rnd.choice(["apply", "apply", "restart"]),))
    for a in script:
      if a[0] in ("apply", "restart"):
        if not s.settle(a[0]):
          break
        if a[0] == "apply" and len(a) == 1 and rnd.random() < .5:
          s.fresh = True
          if not s.settle("apply"):
            break
      elif a[0] == "edit":
        s.edit(*a[1:])
      else:
        s.hand(*a[1:])
        if not s.settle("restart"):
          break
    return dict(steps=s.steps)
  finally:
    s.close()
    headless.rmtree(s.home)


def raw(rnd, themes, wtypes):
  """Hand edit"""
  d = {}
  for _ in range(rnd.randrange(1, 6)):
    k = rnd.choice(list(KEYS))
    v = rnd.choice(RAW)
    d[k] = v
  if rnd.random() < .3:
    d["wtype"] = rnd.choice([*wtypes, "5", "kaiser", None, ["hann"], "", 3])
  if rnd.random() < .3:
    d["gui_theme"] = rnd.choice([*themes, "", "none", None, 3, ["arc"]])
  if rnd.random() < .2:
    d["unknown"] = rnd.choice(RAW)
  return d


def scripts(wtypes, themes):
  """Systematic histories: every key with every text, and the pairs"""
  out = []
  for k in KEYS:
    for v in (True, False) if k in BOOLS else (*NUMBERS, *ODD):
      out.append([("edit", k, v), ("apply",), ("restart",)])
    out += [[("hand", {k: v}), ("apply",)] for v in RAW]
  for n in ("1", "3", "64", "1000", "inf", "1e300", "x"):
    for w in ("-1", "1", "2", "64", "65", "1e5", "inf", "1e300", "1e30", "y"):
      out.append([("edit", "sinusoidal__n", n), ("edit", "wsize", w),
                  ("edit", "wtype", "triang"), ("apply",), ("restart",)])
  for a in ("20", "-5", "16000", "inf", "-inf", "nan", "z", "0"):
    for b in ("20", "-5", "16000", "inf", "-inf", "nan", "z", "0"):
      out.append([("edit", "smfb_0", a), ("edit", "smfb_1", b), ("apply",),
                  ("apply",), ("restart",)])
  for p in (True, False):
    for j in ("0", "3", "-2", "2.7", "none", "inf"):
      out.append([("edit", "parallel", p), ("edit", "n_jobs", j), ("apply",),
                  ("restart",)])
  for w in wtypes:
    out.append([("edit", "wtype", w), ("edit", "wsize", "77"), ("apply",),
                ("restart",)])
  for w in ("5", "kaiser", None, ["hann"], "", 3, "nan", "inf", {}):
    out.append([("hand", {"wtype": w}), ("restart",)])
  for t in themes[:4]:
    out.append([("edit", "gui_theme", t), ("apply",), ("restart",)])
  for t in ("", "none", None, 3, ["arc"], {}, themes[2]):
    out.append([("hand", {"gui_theme": t}), ("restart",)])
  return out


def run(c):
  """Entry point"""
  c.design("MC_Settings.tla",
           "MC_SettingsDeep.cfg" if vlib.THOROUGH else "MC_Settings.cfg",
           workers=8)
  c.design_violates("MC_Settings.tla", "MC_SettingsRaw.cfg",
                    ["Domain", "Agree"])
  c.design_violates("MC_Settings.tla", "MC_SettingsNoOrder.cfg", ["Domain"])
  home = tempfile.mkdtemp(prefix="p16-home-")
  try:
    dlg = headless.install(home)
    from sample.widgets import main, settings, userfiles
    from scipy import signal
    import ttkthemes
    wtypes = ["boxcar", "triang", "blackman", "hamming", "hann", "bartlett",
              "flattop", "parzen", "bohman", "blackmanharris", "nuttall",
              "barthann", "cosine", "exponential", "tukey", "taylor"]
    mods = dict(main=main, settings=settings, userfiles=userfiles,
                themes=list(ttkthemes.THEMES), wtypes=wtypes,
                get_window=lambda w, n: signal.get_window(window=w, Nx=n))
    rnd = random.Random(vlib.SEED)
    sc = scripts(wtypes, mods["themes"])
    if not vlib.THOROUGH:
      rnd.shuffle(sc)
      sc = sc[:600]
    traces = [one(mods, dlg, rnd, script=s) for s in sc]
    for i in range(4000 if vlib.THOROUGH else 200):
      traces.append(one(mods, dlg, rnd, whole=i % 10 == 0))
  finally:
    headless.rmtree(home)
  c.validate("SettingsTrace.tla", traces,
             const=dict(keys=KEYS, wtypes=wtypes, themes=mods["themes"]))
  c.extra["settlements"] = sum(len(t["steps"]) for t in traces)
  c.assumptions += [
      "the windowing toolkit is a Tcl interpreter without Tk: variables, "
      "traces and the widget classes are real, nothing is drawn",
      "hand-edited files are JSON objects",
      "window sizes between 1e6 and 1e15 samples are not typed (memory)"]
