"""P09: model objects never share mutable parts by accident."""
import random

import numpy as np
import vlib
from sample import hinge
from sample import sample as sample_mod
from sample.beatsdrop import decision, regression
from sample.beatsdrop import sample as bds
from sample.sms import mm, sm
from sample.utils import learn
from sklearn import base, linear_model

SLOTS = dict(
    SAMPLE=("sinusoidal", "regressor"),
    Beats=("sinusoidal", "regressor", "beatsdrop", "beat_decisor"),
    Modal=("tracker", "intermediate", "w"),
    Sines=("tracker", "intermediate", "w"),
    Hinge=("linear_regressor",),
    Decisor=("intermediate",))
CLS = dict(SAMPLE=sample_mod.SAMPLE, Beats=bds.SAMPLEBeatsDROP,
           Modal=mm.ModalModel, Sines=sm.SinusoidalModel,
           MTracker=mm.ModalTracker, STracker=sm.SineTracker,
           Storage=learn.OptionalStorage, Hinge=hinge.HingeRegression,
           Linear=linear_model.LinearRegression,
           BeatReg=regression.DualBeatRegression,
           Decisor=decision.AlmostNotABeatDecisor, Window=np.ndarray)
DEFAULTS = {("SAMPLE", "sinusoidal"): "Modal", ("Beats", "sinusoidal"): "Modal",
            ("SAMPLE", "regressor"): "Hinge", ("Beats", "regressor"): "Hinge",
            ("Beats", "beatsdrop"): "BeatReg",
            ("Beats", "beat_decisor"): "Decisor",
            ("Modal", "tracker"): "MTracker", ("Sines", "tracker"): "STracker",
            ("Modal", "intermediate"): "Storage",
            ("Sines", "intermediate"): "Storage",
            ("Modal", "w"): "Window", ("Sines", "w"): "Window",
            ("Hinge", "linear_regressor"): "Linear",
            ("Decisor", "intermediate"): "Storage"}
KIND = dict(Modal="sinusoidal", Sines="sinusoidal", MTracker="tracker",
            STracker="tracker")
# parameter standing for all parameters of a class, and its values
LEAF = dict(SAMPLE=("max_n_modes", [0, 5, 9]), Beats=("max_n_modes", [0, 5, 9]),
            Modal=("t", [-90, -80, -70]), Sines=("t", [-90, -80, -70]),
            MTracker=("max_n_sines", [100, 60, 50]),
            STracker=("max_n_sines", [100, 60, 50]),
            Storage=("save", [0, 1, 1]), Hinge=("method", [0, 1]),
            Linear=("fit_intercept", [0, 1]), BeatReg=("lpf", [50, 40]),
            Decisor=("th", [-1, 2, 3]), Window=(None, [0, 1]))
METHODS = ["dogbox", "trf"]


def kind(c):
  """Classes that may stand in for each other"""
  return KIND.get(c, c)


def cls_of(o):
  """Abstract class"""
  for k, v in CLS.items():
    if type(o) is v:  # pylint: disable=C0123
      return k
  return type(o).__name__


def leaf_of(o, c):
  """Representative parameter as an integer"""
  if c == "Window":
    return int(round(float(o[0])))
  if c not in LEAF:
    return vlib.BAD
  v = o.get_params(deep=False)[LEAF[c][0]]
  if c == "Hinge":
    return METHODS.index(v)
  if c in ("SAMPLE", "Beats"):
    return 0 if v is None else v
  if c == "Decisor":
    return -1 if v == 1 else int(v)
  if c == "BeatReg" and o.fs != 100:
    return vlib.BAD
  return int(v)


def concrete(c, v):
  """Value for a parameter"""
  if c == "Hinge":
    return METHODS[v]
  if c in ("SAMPLE", "Beats"):
    return None if v == 0 else v
  if c == "Decisor":
    return 1 if v == -1 else v
  if c == "Storage":
    return bool(v)
  if c == "Linear":
    return bool(v)
  return v


def size(k):
  """Number of samples of the k-th sound, for the default analysis"""
  return 2001 + 500 * (7 + 3 * k)


def sound(k):
  """Sound recognisable by its length"""
  t = np.arange(size(k)) / 44100
  return np.exp(-3 * t) * np.cos(2 * np.pi * (1000 + 200 * k) * t)


RESULTS = []  # modes found by each fit of the current program


def learned(o, c):
  """Which sound a part has learned from (0: none, -1: not observed)"""
  if c in ("SAMPLE", "Beats"):
    if not hasattr(o, "param_matrix_"):
      return 0
    for m, k in reversed(RESULTS):
      if np.array_equal(m, o.param_matrix_):
        return k
    return vlib.BAD
  if c in ("MTracker", "STracker"):
    try:
      ts = list(o.all_tracks_)
    except AttributeError:
      return 0
    return 0 if not ts else \
        (max(int(t["start_frame"]) + t["freq"].size for t in ts) - 8) // 3
  if c == "Storage":
    s = o.get_state()
    if "stft" in s:
      if len(s["stft"]) != len(s.get("peaks", [])):
        return vlib.BAD
      return (len(s["stft"]) - 8) // 3
    return -1 if s else 0
  return -1


def walk(o):
  """Parts of a model in the order of the specification"""
  c = cls_of(o)
  yield o, c
  for s in SLOTS.get(c, ()):
    yield from walk(getattr(o, s))


def at(o, path):
  """Part at a path"""
  for s in path:
    o = getattr(o, s)
  return o


def paths(o, pre=()):
  """All paths to parts, with their class"""
  c = cls_of(o)
  yield pre, c
  for s in SLOTS.get(c, ()):
    yield from paths(getattr(o, s), pre + (s,))


def observe(roots, ids, keep):
  """State of all models"""
  obs = []
  for r in roots:
    row = []
    for o, c in walk(r):
      keep.append(o)  # never reuse an identity
      row.append(dict(id=ids.setdefault(id(o), len(ids) + 1), cls=c,
                      leaf=leaf_of(o, c), learned=learned(o, c)))
    obs.append(row)
  return obs


def program(rng):
  """Run one random program"""
  roots, ids, keep, events = [], {}, [], []
  del RESULTS[:]
  heavy = rng.random() < .15
  for step in range(rng.randint(3, 9)):
    ev = dict(op="new", cls="SAMPLE", r=0, path=[], slot="", v=0, r2=0,
              path2=[], gslot="", out="ok", obs=[], how="")
    ops = ["new"] if not roots else ["new", "given", "clone", "leaf", "leaf",
                                     "none", "assign", "fit", "fit"]
    if len(roots) >= 4:
      ops = [o for o in ops if o not in ("new", "given", "clone")]
    op = rng.choice(ops)
    fn = None
    if op in ("new", "given"):
      c = rng.choice(["SAMPLE", "SAMPLE", "Modal", "Sines", "Hinge"] +
                     ["Beats"])
      kw = {}
      if op == "given":
        s = rng.choice(SLOTS[c])
        want = kind(DEFAULTS[c, s])
        cand = [(i, p) for i, r in enumerate(roots) for p, k in paths(r)
                if kind(k) == want]
        if cand:
          i, p = rng.choice(cand)
          kw[s] = at(roots[i], p)
          ev.update(gslot=s, r2=i + 1, path2=list(p))
      ev.update(op="new", cls=c)

      def fn(c=c, kw=kw):
        roots.append(CLS[c](**kw))
    elif op == "clone":
      i = rng.randrange(len(roots))
      ev.update(op="clone", r=i + 1)

      def fn(i=i):
        roots.append(base.clone(roots[i]))
    else:
      i = rng.randrange(len(roots))
      allp = list(paths(roots[i]))
      if op == "leaf":
        p, c = rng.choice(allp)
        v = rng.choice(LEAF[c][1])
        how = rng.choice(["nested", "direct"])
        ev.update(op="leaf", r=i + 1, path=list(p), v=v, how=how)

        def fn(i=i, p=p, c=c, v=v, how=how):
          if c == "Window":
            at(roots[i], p)[0] = v or .08
          elif how == "nested":
            roots[i].set_params(**{"__".join(p + (LEAF[c][0],)):
                                   concrete(c, v)})
          else:
            setattr(at(roots[i], p), LEAF[c][0], concrete(c, v))
      elif op in ("none", "assign"):
        cand = [(p, s, kind(DEFAULTS[c, s])) for p, c in allp
                for s in SLOTS.get(c, ())]
        if not cand:
          continue
        p, s, want = rng.choice(cand)
        how = rng.choice(["nested", "direct"])
        target, t2 = None, (0, ())
        if op == "assign":
          c2 = [(j, q) for j, r in enumerate(roots) for q, k in paths(r)
                if kind(k) == want]
          if c2:
            t2 = rng.choice(c2)
            target = at(roots[t2[0]], t2[1])
          ev.update(r2=t2[0] + 1, path2=list(t2[1]))
        ev.update(op=op if target is not None else "none", r=i + 1,
                  path=list(p), slot=s, how=how)

        def fn(i=i, p=p, s=s, target=target, how=how):
          if how == "nested":
            roots[i].set_params(**{"__".join(p + (s,)): target})
          else:
            setattr(at(roots[i], p), s, target)
      else:
        ok = [j for j, r in enumerate(roots)
              if cls_of(r) in ("Modal", "Sines", "SAMPLE") or
              (cls_of(r) == "Beats" and heavy)]
        if not ok:
          continue
        i = rng.choice(ok)
        ev.update(op="fit", r=i + 1, v=step + 1)

        def fn(i=i, k=step + 1):
          roots[i].fit(sound(k))
          if hasattr(roots[i], "param_matrix_"):
            RESULTS.append((roots[i].param_matrix_.copy(), k))
    ok, r = vlib.attempt(fn, secs=60)
    if not ok:
      ev["out"] = r
    else:
      ok, r = vlib.attempt(observe, roots, ids, keep)
      if ok:
        ev["obs"] = r
      else:
        ev["out"] = "while observing: " + r
    events.append(ev)
    if ev["out"] != "ok":
      break
  return dict(events=events)


def run(c):
  """Drive and validate"""
  c.design("MC_Sharing.tla",
           "MC_Sharing.cfg" if vlib.THOROUGH else "MC_Sharing_quick.cfg")
  rng = random.Random(f"p09-{vlib.SEED}")
  tr = [program(rng) for _ in range(2500 if vlib.THOROUGH else 260)]
  c.validate("SharingTrace.tla", tr, label="sharing", batch=1000)
  c.extra["fits"] = sum(e["op"] == "fit" for t in tr for e in t["events"])
