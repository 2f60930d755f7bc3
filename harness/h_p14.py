"""P14: deprecated arguments keep working like their replacements."""
import random
import re
import warnings

import numpy as np
import vlib
from sklearn import base
from sample import optimize, psycho
from sample import sample as smp
from sample import utils
from sample.beatsdrop import sample as bds
from sample.evaluation import metrics
from sample.sms import mm, sm

# current parameters of the sub-models: path -> (code -> value)
PATHS = {
    ("tracker", "max_n_sines"): int, ("tracker", "min_sine_dur"): int,
    ("tracker", "freq_dev_offset"): int,
    ("tracker", "freq_dev_slope"): lambda c: c / 1024,
    ("tracker", "fs"): lambda c: 1000 * c, ("tracker", "h"): lambda c: 64 * c,
    ("tracker", "reverse"): lambda c: c % 2 == 0,
    ("tracker", "frequency_bounds"): lambda c: (c, 100 * c),
    ("tracker", "peak_threshold"): lambda c: -float(c),
    ("tracker", "merge_strategy"): lambda c: ("average", "single")[c % 2],
    ("tracker", "strip_t"): lambda c: c / 8,
    ("intermediate", "save"): lambda c: c % 2 == 0,
    ("n",): lambda c: 2048 * (1 + c % 2), ("t",): lambda c: -float(c),
    ("padded",): lambda c: c % 2 == 0,
}
MODAL = {"reverse", "frequency_bounds", "peak_threshold", "merge_strategy",
         "strip_t"}
OLD = {p[-1]: p for p in PATHS if p[0] == "tracker"}
OLD["save_intermediate"] = ("intermediate", "save")
OWN = {("max_n_modes",): int, ("regressor_k",): lambda c: f"k{c}",
       ("regressor_q",): lambda c: f"q{c}"}


def value(path, code):
  """Value of a parameter for a code"""
  f = PATHS.get(path, OWN.get(path))
  return f(code)


def code(v):
  """Canonical text of a parameter's value"""
  return repr(float(v)) if isinstance(v, (int, float, np.number)) \
      and not isinstance(v, bool) else repr(v)


CLASSES = {"SineTracker": sm.SineTracker, "ModalTracker": mm.ModalTracker}


def observe(model, layer):
  """Effective parameters"""
  out = []
  for k, v in sorted(model.get_params(deep=True).items()):
    p = tuple(k.split("__"))
    q = p[1:] if layer == "sample" and p[0] == "sinusoidal" else p
    if q in PATHS or (layer == "sample" and p in OWN):
      out.append(dict(name=list(p), v=code(v)))
    elif q == ("tracker",):
      out.append(dict(name=list(p), v=type(v).__name__))
  return out


def warned(rec):
  """The deprecation warnings: names they quote"""
  out = []
  for w in rec:
    if issubclass(w.category, utils.SAMPLEDeprecationWarning):
      q = re.findall(r"'([^']*)'", str(w.message))
      q = (q + ["", ""])[:2]
      out.append(dict(old=q[0].split("__"), new=q[1].split("__")))
  return out


def recorded(fn, *a, **k):
  """(warnings, result)"""
  with warnings.catch_warnings(record=True) as rec:
    warnings.simplefilter("always")
    r = fn(*a, **k)
  return warned(rec), r


X = np.zeros(4200)


def one_model(rng):
  """Construct, set parameters of or fit a model"""
  cls = rng.choice([sm.SinusoidalModel, mm.ModalModel, mm.ModalModel,
                    smp.SAMPLE, smp.SAMPLE, smp.SAMPLE, bds.SAMPLEBeatsDROP])
  layer = {sm.SinusoidalModel: "sinusoidal", mm.ModalModel: "modal"}.get(
      cls, "sample")
  how = rng.choice(["ctor", "ctor", "set", "set", "fit", "clone"])
  modal = layer != "sinusoidal"
  paths = [p for p in PATHS if modal or p[-1] not in MODAL]
  given, kw, refkw, used = [], {}, {}, set()
  newcls = None

  def name(path, sub):
    if layer != "sample" or not sub:
      return path
    return (rng.choice(["sinusoidal", "sinusoidal_model"]),) + path

  if modal and how != "fit" and rng.random() < .15 or \
      not modal and rng.random() < .2:
    newcls = rng.choice(["SineTracker", "ModalTracker"])
    if newcls == "SineTracker":
      paths = [p for p in paths if p[-1] not in MODAL]
    elif not modal:
      paths += [("tracker", m) for m in MODAL]
  for path in rng.sample(paths, rng.randint(0, min(6, len(paths)))):
    c = rng.randint(1, 9)
    if how == "fit":
      c = {"fs": 8, "h": 9}.get(path[-1], c)
    v = value(path, c)
    old = [o for o, p in OLD.items() if p == path]
    if layer == "sinusoidal" and old and old[0] in MODAL:
      old = []  # only a name of the modal model
    n = path if not old or rng.random() < .4 else (rng.choice(old),)
    n = name(n, True)
    used.add(path)
    given.append(dict(name=list(n), v=code(v), d=c))
    kw["__".join(n)] = v
  if rng.random() < .25:
    v = rng.choice([None, 1, 4, 20])
    n = name(("safe_sine_len",), True)
    given.append(dict(name=list(n), v=code(v),
                      d=-1 if v is None else v))
    kw["__".join(n)] = v
  if layer == "sample":
    for path in rng.sample(list(OWN), rng.randint(0, 2)):
      if how == "fit" and path[0] != "max_n_modes":
        continue
      c = rng.randint(1, 9)
      given.append(dict(name=list(path), v=code(value(path, c))))
      kw[path[0]] = value(path, c)
  if newcls:
    old = rng.random() < .7
    n = name(("sine_tracker_cls",) if old else ("tracker",), True)
    given.append(dict(name=list(n), v=newcls))
    kw["__".join(n)] = CLASSES[newcls] if old else CLASSES[newcls]()
    refkw["sinusoidal__tracker" if layer == "sample" else "tracker"] = \
        CLASSES[newcls]()
  items = list(kw.items())
  rng.shuffle(items)
  kw = dict(items)
  pos = rng.random() < .3
  out = dict(layer=layer, given=given, ref=[], got=[], warns=[], err="",
             how=how)

  def drive():
    ref = cls(**refkw)
    out["ref"] = observe(ref, layer)
    if how == "ctor":
      a = ()
      if pos and layer != "sample" and not any(k in kw for k in ("n", "t")):
        a = (None, ref.n)  # window and FFT size by position
      out["warns"], m = recorded(cls, *a, **kw)
    elif how == "clone":
      with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = cls(**kw)
      w, m = recorded(base.clone, m)
      out["warns"] = w
    elif how == "set":
      m = cls()
      out["warns"], r = recorded(m.set_params, **kw)
      if r is not m:
        out["err"] = "another object"
    else:
      m = cls(**refkw) if newcls and layer == "sample" else cls()
      if layer == "sample" and rng.random() < .5:
        kw["n_jobs"] = 0
      out["warns"], r = recorded(m.fit, X, **kw)
      if r is not m:
        out["err"] = "another object"
    out["got"] = observe(m, layer)

  ok, r = vlib.attempt(drive)
  if not ok:
    out["err"] = r
  if how == "clone" and ok:
    # only the final state and silence count
    out["layer"] = "clone"
  out["of"] = layer
  return out


def same(a, b):
  """Equality of results"""
  if isinstance(a, (tuple, list)):
    return len(a) == len(b) and all(map(same, a, b))
  a, b = np.asarray(a), np.asarray(b)
  return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)


def functions(rng):
  """Functions with a deprecated argument: (call, choices of values)"""
  t = np.arange(64) / 800
  f = psycho.GammatoneFilter(f=60. + rng.randint(0, 60))
  fb = psycho.GammatoneFilterbank(freqs=[100., 130.])
  x = np.array([rng.gauss(0, 1) for _ in range(40)])
  bank = fb.precompute

  def loss(**k):
    o = metrics.CochleagramLoss(fs=800, freqs=[100., 130.], **k)
    return (o(x, x[::-1].copy()), o.cochleagram(x))

  def wave(**k):
    return f.wavefun(t, **k)

  bools, strs = [False, True], [None, "ir", "output", "input"]
  return [
      ("additive_synth", lambda **k: smp.additive_synth(
          t, [3., 5.], [1., 2.], [1., .5], **k), bools),
      ("wavefun", wave, bools),
      ("ir", lambda **k: f.ir(fs=800, **k), bools),
      ("ir-t", lambda **k: f.ir(t=t, **k), bools),
      ("precompute", lambda **k: bank(fs=800, **k).irs, bools),
      ("bank", lambda **k: psycho.GammatoneFilterbank.PrecomputedIRBank(
          fb, 800, **k).irs, bools),
      ("convolve", lambda **k: fb.convolve(x, 800, **k), strs),
      ("cochleagram", lambda **k: psycho.cochleagram(
          x, 800, freqs=[100., 130.], **k), strs),
      ("loss", loss, strs),
  ]


def one_function(rng, n, i):
  """Call a function with the old or the new name"""
  name, f, vals = functions(rng)[n]
  v = vals[i % len(vals)]
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    refs = [f(analytic=u) for u in vals]
    default = f()
  use = rng.choice(["analytical", "analytical", "analytic", None])
  out = dict(layer="function", given=[], how=name, warns=[], err="",
             ref=[dict(name=["analytic"], v="default")], got=[])
  kw = {} if use is None else {use: v}
  if use:
    out["given"] = [dict(name=[use], v=repr(v))]
  ok, r = vlib.attempt(recorded, f, **kw)
  if not ok:
    out["err"] = r
    return out
  out["warns"], r = r
  if use is None:
    got = "default" if same(r, default) else "other"
  else:
    hits = [repr(u) for u, q in zip(vals, refs) if same(r, q)]
    got = repr(v) if repr(v) in hits else (hits + ["other"])[0]
  out["got"] = [dict(name=["analytic"], v=got)]
  return out


def one_remap(rng):
  """The remapper: result compared with that of the current names"""
  vals = dict(log_n=rng.randint(5, 9), wtype=rng.choice(["hann", "blackman"]),
              wsize=rng.choice([.5, 1.]), overlap=rng.choice([.25, .75]))
  keys = rng.sample(list(vals), rng.randint(0, 4))
  extra = dict(regressor_k="kk") if rng.random() < .5 else {}
  out = dict(layer="remapper", given=[], ref=[], got=[], warns=[], err="",
             how="remapper")
  kw, cur = dict(extra), dict(extra)
  for k in keys:
    n = ("sinusoidal_model" if rng.random() < .6 else "sinusoidal", k)
    kw["__".join(n)] = vals[k]
    cur[f"sinusoidal__{k}"] = vals[k]
    out["given"].append(dict(name=list(n), v=code(vals[k])))

  def drive():
    want = optimize.sample_kwargs_remapper(**cur)
    out["warns"], r = recorded(optimize.sample_kwargs_remapper, **kw)
    eq = set(r) == set(want) and all(
        np.array_equal(np.asarray(r[k]), np.asarray(want[k])) for k in r)
    out["got"] = [dict(name=["sinusoidal", k],
                       v=code(vals[k]) if eq else "other") for k in keys]
    out["ref"] = [] if eq or keys else [dict(name=["result"], v="same")]

  ok, r = vlib.attempt(drive)
  if not ok:
    out["err"] = r
  return out


def one_optimizer(rng):
  """sample_fn and sample_kw stand for the model they make"""
  use = rng.choice(["fn", "kw", "both", "none"])
  skw = {}
  if rng.random() < .7:
    skw["sinusoidal__tracker__max_n_sines"] = rng.randint(1, 9)
  if rng.random() < .5:
    skw["max_n_modes"] = rng.randint(1, 9)
  if rng.random() < .5:
    skw["sinusoidal__log_n"] = rng.randint(6, 9)
  remap = rng.random() < .7
  if not remap:
    skw.pop("sinusoidal__log_n", None)
  cls = rng.choice([smp.SAMPLE, bds.SAMPLEBeatsDROP])
  kw = dict(sinusoidal__t=(-90, -60), clip=rng.random() < .5)
  if not remap:
    kw["remap"] = None
  cur = dict(kw)
  out = dict(layer="optimizer", given=[], ref=[], got=[], warns=[], err="",
             how="optimizer " + use)

  def drive():
    eff = optimize.sample_kwargs_remapper(**skw) if remap else skw
    if use == "none":
      cur["model"] = kw["model"] = cls(**eff)
    if use in ("fn", "both"):
      kw["sample_fn"] = cls
      cur["model"] = cls(**(eff if use == "both" else
                            optimize.sample_kwargs_remapper() if remap else {}))
      out["given"].append(dict(name=["sample_fn"], v="made"))
    if use in ("kw", "both"):
      kw["sample_kw"] = dict(skw)
      if use == "kw":
        cur["model"] = smp.SAMPLE(**eff)
      out["given"].append(dict(name=["sample_kw"], v="made"))
    want = optimize.SAMPLEOptimizer(**cur)
    out["warns"], o = recorded(optimize.SAMPLEOptimizer, **kw)
    eq = type(o.model) is type(want.model) and o.clip == want.clip and \
        list(o.dimensions.items()) == list(want.dimensions.items()) and \
        o.remap is want.remap
    a, b = o.model.get_params(), want.model.get_params()
    eq = eq and set(a) == set(b) and all(
        code(a[k]) == code(b[k]) for k in a
        if isinstance(a[k], (int, float, str, bool, type(None)))) and \
        np.array_equal(a["sinusoidal__w"], b["sinusoidal__w"])
    out["got"] = [dict(name=["model"], v="made" if eq else "other")]
    if not out["given"]:
      out["ref"] = [dict(name=["model"], v="made")]

  ok, r = vlib.attempt(drive)
  if not ok:
    out["err"] = r
  return out


def run(c):
  """Drive and validate"""
  c.design("MC_Deprecation.tla", "MC_Deprecation.cfg")
  c.design_violates("MC_Deprecation.tla", "MC_DeprecationInner.cfg",
                    ["Renamed", "Warned"])
  c.design_violates("MC_Deprecation.tla", "MC_DeprecationKeep.cfg", ["Renamed"])
  rng = random.Random(f"p14-{vlib.SEED}")
  k = 10 if vlib.THOROUGH else 1
  tr = [one_model(rng) for _ in range(900 * k)]
  tr += [one_function(rng, n, i) for n in range(9) for i in range(16 * k)]
  tr += [one_remap(rng) for _ in range(60 * k)]
  tr += [one_optimizer(rng) for _ in range(60 * k)]
  c.extra["deprecated_names_used"] = sorted(
      {g["name"][-1] for t in tr for g in t["given"]})
  c.validate("DeprecationTrace.tla", tr, label="deprecated arguments")
