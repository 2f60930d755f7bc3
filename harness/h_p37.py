"""P37: warnings are silenced only during the calls that ask for it."""
import random
import sys
import warnings

import h_p34
import numpy as np
import vlib
from sample import optimize, plots, sample as smp, utils
from sample.beatsdrop import regression
from sample.sms import mm, sm
from skopt import space

CATS = dict(W=Warning, R=RuntimeWarning, U=UserWarning)


class Boom(Exception):
  """Failure of a call"""


class History:
  """Events of nested calls"""

  def __init__(self, rnd):
    self.rnd = rnd
    self.events, self.raised, self.calls = [], {}, 1
    self.lists, self.owners = [], []
    self.warned = 0

  def enter(self, on, act="ignore", cat="W", rec=False):
    """A call begins"""
    self.calls += 1
    self.events.append(dict(e="enter", on=on, act=act, cat=cat,
                            rec=self.calls if rec else 0))
    return self.calls, on, list(warnings.filters), warnings.showwarning

  def leave(self, state):
    """A call is over"""
    _, on, f, s = state
    self.events.append(dict(e="exit", on=on, same=warnings.filters == f
                            and warnings.showwarning is s))

  def warn(self, c=None):
    """Raise a warning"""
    c = c or self.rnd.choice("RU")
    self.warned += 1
    i = self.warned
    self.events.append(dict(e="warn", c=c, id=i))
    try:
      warnings.warn(f"vp:{i}", CATS[c])
    except Warning:
      self.raised[i] = -1

  def found(self, root):
    """Where each warning went"""
    at = {i: [v] for i, v in self.raised.items()}
    recs = [(1, root)]
    for got, owner in zip(self.lists, self.owners):
      for j, g in enumerate(got):
        recs.append((owner[j] if j < len(owner) else 999, g or []))
    for k, r in recs:
      for w in r:
        m = str(w.message)
        if m.startswith("vp:"):
          at.setdefault(int(m[3:]), []).append(k)
    return [dict(e, got=sorted(at.get(e["id"], []))) if e["e"] == "warn" else e
            for e in self.events]


def functions(h):
  """Functions with filters of warnings"""
  rnd, out = h.rnd, []
  for _ in range(rnd.randrange(1, 5)):
    act, cat = rnd.choice(["ignore", "ignore", "always", "error"]), \
        rnd.choice("WWRU")
    kw = dict(action=act)
    if cat != "W" or rnd.random() < .5:
      kw["category"] = CATS[cat]
    rec = rnd.random() < .4
    got, owner = [], []
    if rec:
      kw["catch_kws"] = dict(record=True)
    elif rnd.random() < .2:
      kw["catch_kws"] = dict(record=False)
    if rec or rnd.random() < .2:
      kw["traces"] = got
    toggle = rnd.choice([None, True, False])
    name = rnd.choice(["ignore_warnings", "quiet"])
    if toggle is not None:
      kw["toggle"] = (name, toggle)
    if rnd.random() < .3:  # in steps
      k = rnd.choice(list(kw))
      deco = utils.warnings_simplefilter(**{k: kw[k]})
      deco = deco(**{j: v for j, v in kw.items() if j != k}) \
          if len(kw) > 1 else deco
    else:
      deco = utils.warnings_simplefilter(**kw)
    h.lists.append(got)
    h.owners.append(owner if "traces" in kw else [])
    for _ in range(rnd.choice([1, 1, 2])):  # a decorator may be used again
      spec = dict(act=act, cat=cat, rec=rec, toggle=toggle, name=name,
                  owner=owner)

      def body(*a, _spec=spec, **k):
        h.events.append(dict(e="args", ok=(a, k) == _spec["args"]))
        return run_body(h, out, a[0])

      out.append((deco(body) if rnd.random() < .7 or len(kw) < 1 else
                  utils.warnings_simplefilter(body, **kw), spec))
  return out


def run_body(h, fns, depth):
  """Random deeds"""
  rnd = h.rnd
  for _ in range(rnd.randrange(1, 4)):
    if depth and rnd.random() < .55:
      try:
        call(h, fns, depth - 1)
      except Boom:
        if rnd.random() < .4:
          raise
    elif rnd.random() < .12:
      raise Boom()
    else:
      h.warn()
  return depth, "back"


def call(h, fns, depth):
  """Call one of the functions"""
  rnd = h.rnd
  fn, s = rnd.choice(fns)
  on, kw = s["toggle"] is not False, {}
  if rnd.random() < .3:
    kw["other"] = rnd.randrange(9)
  a = (depth,) + ((rnd.randrange(9),) if rnd.random() < .3 else ())
  s["args"] = a, dict(kw)
  if s["toggle"] is not None and rnd.random() < .6:
    on = rnd.random() < .5
    kw[s["name"]] = rnd.choice([True, True, 1, np.True_] if on else
                               [False, False, 0, None, np.False_])
  st = h.enter(on, s["act"], s["cat"], s["rec"])
  if on:
    s["owner"].append(st[0])
  try:
    r = fn(*a, **kw)
    h.events.append(dict(e="args", ok=r == (depth, "back")))
  finally:
    h.leave(st)


class Loud(mm.ModalTracker):
  """Tracker with something to say"""
  plan = ()

  def __call__(self, *args):
    if NOW and self.n_frames_left():
      h = NOW[0]
      for c in NOW[1]:
        if c == "!":
          raise Boom()
        h.warn(c)
    return super().__call__(*args)

  @staticmethod
  def n_frames_left():
    """Speak once per fit"""
    NOW[2] -= 1
    return NOW[2] == 0


NOW = []


def ears(h, fns, deed):
  """Do it within nothing or other calls which filter"""
  if fns and h.rnd.random() < .4:
    fn, s = h.rnd.choice(fns)
    if s["act"] == "error":
      return deed()
    st = h.enter(True, s["act"], s["cat"], s["rec"])
    s["owner"].append(st[0])
    try:
      k = {} if s["toggle"] is None else {s["name"]: True}
      HOLD.append(deed)
      return fn(0, **k)
    finally:
      h.leave(st)
  return deed()


HOLD = []


def outer(h):
  """Plain functions around the real calls"""
  out = []
  for act, cat in (("ignore", "U"), ("always", "W"), ("ignore", "R")):
    owner = []

    def body(_):
      return HOLD.pop()()

    out.append((utils.warnings_simplefilter(
        body, action=act, category=CATS[cat]),
                dict(act=act, cat=cat, rec=False, toggle=None, owner=owner)))
  return out


def script(h, fails=.2):
  """What is said during a fit"""
  s = [h.rnd.choice("RU") for _ in range(h.rnd.randrange(1, 4))]
  if h.rnd.random() < fails:
    s.insert(h.rnd.randrange(len(s) + 1), "!")
  return s


def model(cls=smp.SAMPLE):
  """Model with such a tracker"""
  return cls(sinusoidal=sm.SinusoidalModel(
      w=np.hanning(16), n=16, tracker=Loud(fs=64, h=8)))


def sound(h):
  """Short noise"""
  return np.array([h.rnd.uniform(-1, 1) for _ in range(64)])


def fit(h):
  """Fit a model"""
  fns = outer(h)
  m = model()
  for _ in range(h.rnd.randrange(1, 4)):
    on, kw = True, {}
    if h.rnd.random() < .6:
      kw["ignore_warnings"] = on = h.rnd.random() < .4
    NOW[:] = [h, script(h), 2]

    def deed():
      st = h.enter(on, "ignore", "R")
      try:
        m.fit(sound(h), **kw)
      except Boom:
        pass
      finally:
        h.leave(st)

    ears(h, fns, deed)
    NOW.clear()


class Told(smp.SAMPLE):
  """Model whose fits are noted"""

  def fit(self, x, y=None, **kw):
    FITS[0] += 1
    h, n, gp = FITS[1:]
    if FITS[0] == n + 1:
      h.leave(gp[0])
      gp.clear()
    NOW[:] = [h, script(h, 0), 2]
    st = h.enter(kw.get("ignore_warnings", True), "ignore", "R")
    try:
      return super().fit(x, y, **kw)
    finally:
      h.leave(st)


FITS = []


def search(h):
  """Optimise"""
  fns = outer(h)
  n = h.rnd.randrange(1, 4)
  o = optimize.SAMPLEOptimizer(
      model(Told), loss_fn=lambda *_: h.rnd.random(),
      sinusoidal__tracker__peak_threshold=space.Real(-90., -60.))
  on, kw = True, {}
  if h.rnd.random() < .7:
    kw["ignore_warnings"] = on = h.rnd.random() < .4
  if h.rnd.random() < .5:
    kw["fit_kws"] = dict(ignore_warnings=h.rnd.random() < .5)
  x = sound(h)

  def deed():
    gp = [h.enter(on, "ignore", "W")]
    FITS[:] = [0, h, n, gp]
    o.gp_minimize(x, 64, n_calls=n, n_initial_points=n, base_estimator="dummy",
                  random_state=1, **kw)
    if gp:
      h.leave(gp.pop())

  try:
    ears(h, fns, deed)
  finally:
    NOW.clear()


class Grumble(regression.BeatRegression):
  """Beat regression which warns, then gives in"""

  def fit(self, *args, **kwargs):
    h = FITS[0]
    for c in script(h, 0):
      h.warn(c)
    raise Boom()


def compare(h):
  """Compare beat regressions"""
  fns = outer(h)
  t = h_p34.Tracks(fs=64, h=8)
  t.tracks = (dict(start_frame=0, freq=np.ones(5), mag=-np.ones(5),
                   phase=np.ones(5)),)
  m = smp.SAMPLE(sinusoidal=sm.SinusoidalModel(w=np.hanning(16), tracker=t))
  on, kw = True, {}
  if h.rnd.random() < .6:
    kw["warnings_ignore"] = on = h.rnd.random() < .5
  FITS[:] = [h]

  def deed():
    st = h.enter(on, "ignore", "W")
    try:
      plots.beatsdrop_comparison(m, dict(a=Grumble()), sound(h), **kw)
    except Boom:
      pass
    finally:
      h.leave(st)

  ears(h, fns, deed)
  h_p34.plt.close("all")


def generic(h):
  """Random functions"""
  fns = functions(h)
  for _ in range(h.rnd.randrange(1, 4)):
    try:
      call(h, fns, h.rnd.randrange(0, 4))
    except Boom:
      pass
  h.warn()


def one(rnd, what):
  """One history"""
  h = History(rnd)
  err = ""
  old = warnings.filters[:]
  with warnings.catch_warnings(record=True) as root:
    warnings.resetwarnings()
    warnings.simplefilter("always")
    ok, r = vlib.attempt(what, h, secs=60)
    if not ok:
      err = f"raised {r}"
  warnings.filters[:] = old
  return dict(events=h.found(root), err=err)


def run(c):
  """Entry point"""
  c.design("MC_Warn.tla", "MC_WarnDeep.cfg" if vlib.THOROUGH
           else "MC_Warn.cfg", timeout=3000)
  for v in ("deaf", "behind", "return"):
    c.design_violates("MC_Warn.tla", f"MC_Warn_{v}.cfg", ["AsAsked"])
  rnd = random.Random(vlib.SEED)
  k = 10 if vlib.THOROUGH else 1
  traces = [one(rnd, f) for f, n in ((generic, 500), (fit, 60), (search, 15),
                                     (compare, 30)) for _ in range(n * k)]
  sys.stderr.flush()
  c.validate("WarnTrace.tla", traces)
  c.assumptions += [
      "one thread: the filters of warnings belong to the whole process",
      "warnings are raised by functions, trackers and regressions of the check"]
