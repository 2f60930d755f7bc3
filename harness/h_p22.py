"""P22: hyperparameter optimisation evaluates and returns what it reports."""
import random
import warnings

import numpy as np
import vlib
from sample.sms import mm

WT = ["", "hamming", "blackman", "hann", "boxcar"]
STFT = ("logn", "wtype", "wsize", "overlap", "n", "w", "h")
NAMES = dict(logn="sinusoidal__log_n", wtype="sinusoidal__wtype",
             wsize="sinusoidal__wsize", overlap="sinusoidal__overlap",
             n="sinusoidal__n", w="sinusoidal__w", h="sinusoidal__tracker__h")
PLAIN = ("max_n_modes", "sinusoidal__tracker__max_n_sines",
         "sinusoidal__tracker__peak_threshold", "sinusoidal__t",
         "sinusoidal__tracker__min_sine_dur", "beat_decisor__th")


def kinds(w, own):
  """Which windows an array is"""
  from scipy import signal
  w = np.asarray(w, dtype=float)
  out = [0] if np.shape(own) == w.shape and np.array_equal(own, w) else []
  for i, k in enumerate(WT[1:], 1):
    if w.ndim == 1 and np.array_equal(w, signal.get_window(k, w.size)):
      out.append(i)
  return out


def coded(k, v):
  """Value of an STFT parameter as an integer"""
  if k == "wtype":
    return WT.index(v)
  if k in ("wsize", "overlap"):
    return vlib.xint(v, 16)
  return int(np.size(v)) if k == "w" else vlib.xint(v)


def remap_trace(optimize, rnd):
  """One call of the default remapping"""
  own = np.hanning(rnd.randrange(3, 40)) + .01
  g, kw = {}, {}
  vals = dict(logn=lambda: rnd.randrange(4, 12),
              wtype=lambda: rnd.choice(WT[1:]),
              wsize=lambda: rnd.randrange(1, 17) / 16,
              overlap=lambda: rnd.randrange(0, 18) / 16,
              n=lambda: rnd.choice([16, 64, 100, 513]), w=lambda: own,
              h=lambda: rnd.randrange(1, 700))
  for k in STFT:
    if rnd.random() < (.2 if k in ("n", "w", "h") else .55):
      v = vals[k]()
      if k in ("logn", "n", "h") and rnd.random() < .3:
        v = np.int64(v)
      g[k] = coded(k, v)
      kw[NAMES[k]] = v
    else:
      g[k] = -1
  other = {k: rnd.randrange(1, 9) for k in PLAIN if rnd.random() < .3}
  own_n = 2048
  if rnd.random() < .2:
    own_n = rnd.choice([64, 100])
    other["sinusoidal"] = mm.ModalModel(n=own_n)
  kw.update(other)
  names = list(kw)
  rnd.shuffle(names)
  before = dict(kw)
  ok, r = vlib.attempt(optimize.sample_kwargs_remapper,
                       **{k: kw[k] for k in names})
  t = dict(given=g, model=dict(n=own_n), err="" if ok else r)
  if ok:
    w = r.get("sinusoidal__w", [])
    t["got"] = dict(n=vlib.xint(r.get("sinusoidal__n", -1)), w=int(np.size(w)),
                    h=vlib.xint(r.get("sinusoidal__tracker__h", vlib.BAD)))
    t["kind"] = kinds(w, own)
    t["others"] = all(r.get(k) == v for k, v in other.items()) and \
        set(r) <= set(other) | {"sinusoidal__n", "sinusoidal__w",
                                "sinusoidal__tracker__h"} and \
        kw.keys() == before.keys()
  return t


class Lab:
  """Recording models"""

  def __init__(self, classes):
    self.events, self.models, self.real = [], [], False
    self.x = None
    self.classes = [self.recorder(c) for c in classes]

  def recorder(self, cls):
    """Subclass which records"""
    lab = self

    class Recorder(cls):
      """Model which records its use"""

      def fit(self, x, *args, **kwargs):
        """Record"""
        lab.on_fit(self, x, kwargs)
        return super().fit(x, *args, **kwargs) if lab.real else self

      def predict(self, x, *args, **kwargs):
        """A sound of its own"""
        if lab.real:
          y = super().predict(x, *args, **kwargs)
        else:
          t = np.arange(np.size(x))
          y = 3. * np.sin((1 + lab.number(self)) * t)
        lab.heard.append((lab.number(self), np.array(x), np.array(y)))
        return y

    Recorder.__name__ = cls.__name__
    return Recorder

  def number(self, m):
    """Number of a model"""
    for i, u in enumerate(self.models):
      if u is m:
        return i
    self.models.append(m)
    return len(self.models) - 1


class Run:
  """One optimiser and its history"""

  def __init__(self, lab, mods, rnd, real=False):
    self.lab, self.mods, self.rnd = lab, mods, rnd
    sp = mods["space"]
    lab.models.clear()
    lab.real, lab.on_fit, lab.heard = real, self.on_fit, []
    bd = rnd.random() < .4 and not real
    self.own_w = np.hanning(rnd.randrange(20, 60)) + .01
    fixed = {
        "sinusoidal__n": rnd.choice([64, 128]), "sinusoidal__w": self.own_w,
        "sinusoidal__tracker__h": rnd.randrange(5, 20),
        "sinusoidal__tracker__reverse": rnd.random() < .5}
    for k in PLAIN:
      if (k != "beat_decisor__th" or bd) and rnd.random() < .7:
        fixed[k] = -rnd.randrange(40, 90) if k in (
            "sinusoidal__t", "sinusoidal__tracker__peak_threshold") \
            else rnd.randrange(1, 9)
    if real:
      fixed.pop("sinusoidal__tracker__min_sine_dur", None)
    self.given = lab.classes[bd](**fixed)
    lab.number(self.given)
    self.before = self.params(self.given)
    self.remap = rnd.random() < .75
    dims = dict(
        logn=sp.Integer(6, 8), wtype=sp.Categorical(WT[1:]),
        wsize=sp.Categorical([.25, .3125, .5, .9375]),
        overlap=sp.Categorical([0., .25, .4375, .75, 1.]),
        n=sp.Categorical([64, 128, 100]), h=sp.Integer(3, 40))
    out = {}
    for k, d in dims.items():
      if rnd.random() < .35 and (self.remap or k in ("n", "h")):
        out[NAMES[k]] = d
    for k in PLAIN:
      if (k != "beat_decisor__th" or bd) and rnd.random() < .3:
        out[k] = sp.Integer(-90, -30) if k in (
            "sinusoidal__t", "sinusoidal__tracker__peak_threshold") \
            else sp.Integer(1, 9)
    if not out or len(out) == 1 and rnd.random() < .5:
      out["max_n_modes"] = sp.Integer(1, 9)
    names = list(out)
    rnd.shuffle(names)
    self.dims = {k: out[k] for k in names}
    self.clip = rnd.random() < .7
    self.fs = rnd.choice([8000, 44100])
    self.x = np.random.default_rng(rnd.randrange(2**31)).uniform(
        -.5, .5, 400)
    self.x0 = self.x.copy()
    self.losses = {}
    self.steps = []
    self.points = {}
    kw = {} if self.remap else dict(remap=None)
    self.opt = mods["optimize"].SAMPLEOptimizer(
        model=self.given, loss_fn=self.loss_fn, loss_kw=dict(mark=7),
        clip=self.clip, **kw, **self.dims)
    self.seen = {0}

  @staticmethod
  def params(m):
    """Parameters of a model, comparable"""
    return {k: v.tobytes() if isinstance(v, np.ndarray) else v
            for k, v in m.get_params().items()
            if k in PLAIN or k.startswith("sinusoidal__") and
            not hasattr(v, "get_params")}

  def add(self, act, **kw):
    """Record an event"""
    self.steps.append(dict(
        act=act, clean=self.params(self.given) == self.before, **kw))

  def point(self, args):
    """Number of a point"""
    return self.points.setdefault(tuple(str(a) for a in args),
                                  len(self.points) + 1)

  def on_fit(self, m, x, kws):
    """A model is fitted"""
    i = self.lab.number(m)
    p = m.get_params()
    self.add("fit", fresh=i not in self.seen, model=i,
             data=np.array_equal(x, self.x0), kws=kws, params={
                 k: p.get(k) for k in (*PLAIN, "sinusoidal__tracker__fs",
                                       "sinusoidal__tracker__reverse")},
             got=dict(n=vlib.xint(p["sinusoidal__n"]),
                      w=int(np.size(p["sinusoidal__w"])),
                      h=vlib.xint(p["sinusoidal__tracker__h"])),
             kind=kinds(p["sinusoidal__w"], self.own_w))
    self.seen.add(i)

  def loss_fn(self, x, y, mark=None):
    """Recorded loss"""
    last = [s for s in self.steps if s["act"] == "fit"][-1:]
    same = bool(last) and len(self.lab.heard) > 0
    if same:
      i, t, u = self.lab.heard[-1]
      if self.clip:
        u = np.clip(u, -np.max(np.abs(self.x0)), np.max(np.abs(self.x0)))
      same = i == last[0]["model"] and np.array_equal(u, y) and \
          np.array_equal(x, self.x0) and mark == 7 and \
          np.allclose(t * self.fs, np.arange(self.x0.size), atol=1e-6)
    v = self.rnd.randrange(0, 6)
    self.add("loss", same=bool(same), v=v)
    return float(v)

  def settle(self, first, iters):
    """Fill in the points, known only when the optimisation has ended"""
    k = 0
    for s in self.steps[first:]:
      if s["act"] == "fit":
        a = iters[k] if k < len(iters) else self.best
        self.describe(s, a)
        s["p"] = self.point(a)
      elif s["act"] == "loss":
        s["p"] = self.point(iters[k]) if k < len(iters) else 0
        k += 1

  def describe(self, s, args):
    """What a fit was asked"""
    asked = dict(zip(self.dims, args))
    s["given"] = {k: coded(k, asked[NAMES[k]]) if NAMES[k] in asked else -1
                  for k in STFT}
    p, b = s.pop("params"), self.given.get_params()
    s["direct"] = [[vlib.xint(asked[k]), vlib.xint(p[k])]
                   for k in PLAIN if k in asked]
    s["kept"] = [[self.num(b.get(k)), self.num(p[k])]
                 for k in (*PLAIN, "sinusoidal__tracker__reverse")
                 if k not in asked]
    s["kept"].append([self.fs, vlib.xint(p["sinusoidal__tracker__fs"])])

  @staticmethod
  def num(v):
    """A fixed parameter as an integer"""
    return 0 if v is None else vlib.xint(v, 1000)

  def bar(self, total=None, **_):
    """A progress display"""
    run = self

    class Bar:
      """Recorded"""
      n, stage = 0, ""

      def update(self, k=1):
        """Count"""
        self.n += k

      def set_postfix_str(self, s="", *_, **__):
        """Stage shown"""
        self.stage = "randomize" if "randomize" in s else \
            "minimize" if "minimize" in s else "?"

      def close(self):
        """Nothing"""

    self.shown = Bar()
    self.total = total
    del run
    return self.shown

  def minimise(self, state, n, init, seed):
    """Optimise"""
    first = len(self.steps)
    self.shown = None
    self.add("start", n=n, init=init, cont=state is not None)
    cb = self.mods["optimize"].TqdmCallback(
        self.opt, n_calls=n, n_initial_points=init, tqdm_fn=self.bar,
        minimum=self.rnd.random() < .7)

    def after(res):
      cb(res)
      self.add("shown", count=self.shown.n if self.shown else -1,
               total=self.total if self.shown else -1,
               stage=self.shown.stage if self.shown else "?")

    kw, fk = {}, self.rnd.choice([None, {}, dict(n_jobs=0),
                                  dict(ignore_warnings=True, n_jobs=0)])
    if fk is not None:
      kw["fit_kws"] = dict(fk)
    ok, r = vlib.attempt(
        self.opt.gp_minimize, self.x, self.fs, state=state, n_calls=n,
        n_initial_points=init, random_state=seed, acq_optimizer="sampling",
        n_points=20, acq_func="EI", callback=after, secs=60, **kw)
    if not ok:
      del self.steps[first + 1:]
      self.add("end", err=r)
      return None
    m, res = r
    known = len(state.x_iters) if state is not None else 0
    self.best = list(res.x)
    self.settle(first, [list(a) for a in res.x_iters[known:]])
    i = self.lab.number(m)
    fits = [s for s in self.steps if s["act"] == "fit" and s["model"] == i]
    told = bool(fits) and (fk or {}).items() <= fits[-1]["kws"].items()
    for s in self.steps:
      s.pop("kws", None)
    good = not self.lab.real
    if self.lab.real:
      with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ref = self.mods["clone"](m)
        self.lab.real, keep = None, self.lab.on_fit
        self.lab.on_fit = lambda *_: None
        self.lab.real = True
        ref.fit(self.x0)
        self.lab.on_fit = keep
      good = np.shape(ref.param_matrix_) == np.shape(m.param_matrix_) and \
          bool(np.allclose(ref.param_matrix_, m.param_matrix_, rtol=1e-4))
    self.add("end", err="", p=self.point(res.x), v=vlib.xint(res.fun),
             iters=[self.point(a) for a in res.x_iters],
             vals=[vlib.xint(v) for v in res.func_vals], fresh=i != 0,
             last=bool(fits) and good, set=fits[-1]["p"] if fits else 0,
             fitted=bool(fits), told=told)
    return res

  def calls(self, n):
    """Evaluate the loss directly"""
    first = len(self.steps)
    self.add("start", n=n, init=0, cont=False)
    loss = self.opt.loss(self.x, self.fs)
    iters, vals = [], []
    for _ in range(n):
      a = [d.rvs(n_samples=2, random_state=self.rnd.randrange(2**31))[0]
           for d in self.dims.values()]
      ok, v = vlib.attempt(loss, a if self.rnd.random() < .5 else tuple(a))
      if not ok:
        del self.steps[first + 1:]
        self.add("end", err=v)
        return
      iters.append(a)
      vals.append(v)
    self.settle(first, iters)
    k = int(np.argmin(vals))
    # nothing is returned: the best point is evaluated again
    a = iters[k]
    mark = len(self.steps)
    ok, v = vlib.attempt(loss, a)
    for s in self.steps[mark:]:
      if s["act"] == "fit":
        self.describe(s, a)
        s["p"] = self.point(a)
    self.steps[mark:] = [s for s in self.steps[mark:] if s["act"] != "loss"]
    self.add("end", err="" if ok else v, p=self.point(a), v=vlib.xint(vals[k]),
             iters=[self.point(b) for b in iters],
             vals=[vlib.xint(v) for v in vals], fresh=True, last=True,
             set=self.point(a), fitted=True, told=True)

  def trace(self):
    """Trace"""
    b = self.given.get_params()
    for s in self.steps:
      s.pop("params", None)
      s.pop("kws", None)
    return dict(remap=self.remap,
                own=dict(n=vlib.xint(b["sinusoidal__n"]),
                         w=int(self.own_w.size),
                         h=vlib.xint(b["sinusoidal__tracker__h"])),
                steps=self.steps)


def run(c):
  """Entry point"""
  c.design("Optim.tla", "Optim.cfg")
  c.design_violates("Optim.tla", "OptimOnGiven.cfg", ["Untouched"])
  c.design_violates("Optim.tla", "OptimLast.cfg", ["BestReturned"])
  for k in ("Again", "Count", "Stage"):
    c.design_violates("Optim.tla", f"Optim{k}.cfg", ["Continues"])
  c.design("MC_Remap.tla", "MC_Remap.cfg")
  c.design_violates("MC_Remap.tla", "MC_RemapFFT.cfg", ["HopInWindow"])
  warnings.simplefilter("ignore")
  from sample import SAMPLE, optimize
  from sample.beatsdrop.sample import SAMPLEBeatsDROP
  from sklearn import base
  from skopt import space
  rnd = random.Random(vlib.SEED)
  mods = dict(optimize=optimize, space=space, clone=base.clone)
  lab = Lab([SAMPLE, SAMPLEBeatsDROP])
  c.validate("RemapTrace.tla", [
      remap_trace(optimize, rnd)
      for _ in range(6000 if vlib.THOROUGH else 600)])
  traces = []
  for _ in range(1000 if vlib.THOROUGH else 120):
    r = Run(lab, mods, rnd)
    for _ in range(rnd.randrange(1, 3)):
      r.calls(rnd.randrange(1, 5))
    traces.append(r.trace())
  for i in range(300 if vlib.THOROUGH else 20):
    r = Run(lab, mods, rnd, real=i % 10 == 0)
    res = None
    for _ in range(rnd.randrange(1, 4)):
      init = rnd.randrange(1, 4)
      res = r.minimise(res if rnd.random() < .8 else None,
                       init + rnd.randrange(0, 3), init, rnd.randrange(1000))
      if res is None:
        break
    traces.append(r.trace())
  c.validate("OptimTrace.tla", traces)
  c.assumptions += [
      "models record how they are fitted and answer at once (some are real); "
      "losses are chosen by the harness",
      "the optimiser of skopt is trusted to report the points it asks for",
      "FFT size, window and hop of the model are kept when nothing that "
      "determines them is optimised; otherwise the documented defaults of the "
      "remapping apply"]
