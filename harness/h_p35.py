"""P35: notebook displays show exactly what they are given."""
import html.parser
import io
import json
import os
import random
import re
import subprocess
import time
import wave

import numpy as np
import vlib
from IPython import display as ipd
from IPython.core import display_functions
from sklearn import linear_model

SHOWN = []


def _record(*objs, **kw):
  SHOWN.append((objs, kw))


# stand-in for the front end, before the code under test is imported
ipd.display = display_functions.display = _record
# pylint: disable=C0413
from sample import hinge, ipython
from sample import sample as smp
from sample.beatsdrop import sample as bds
from sample.sms import mm, sm


class Page(html.parser.HTMLParser):
  """Tree of foldable and plain items in a page"""

  def __init__(self, text):
    super().__init__()
    self.root = dict(kids=[])
    self.stack, self.text, self.scripts, self.tag = [self.root], None, [], None
    self.button, self.onclick, self.into = None, None, None
    self.feed(text)
    self.close()

  def handle_starttag(self, tag, attrs):
    attrs = dict(attrs)
    cls = (attrs.get("class") or "").split()
    self.tag = tag
    if tag == "script":
      self.scripts.append("")
    elif tag == "button":
      n = dict(text="", folds=True, kids=[])
      self.stack[-1]["kids"].append(n)
      self.into, self.last = n, n
      self.onclick = attrs.get("onclick")
    elif tag == "div" and "content" in cls:
      self.stack.append(self.last)
    elif tag == "div":
      n = dict(text="", folds=False, kids=[])
      self.stack[-1]["kids"].append(n)
      self.stack.append(n)
      self.into = n

  def handle_endtag(self, tag):
    self.tag = None
    if tag == "button":
      self.into = None
    elif tag == "div":
      self.stack.pop()
      self.into = None

  def handle_data(self, data):
    if self.tag == "script":
      self.scripts[-1] += data
    elif self.into is not None:
      self.into["text"] += data


def tree(nodes):
  """Nodes with words"""
  return [dict(words=n["text"].split(), folds=n["folds"],
               kids=tree(n["kids"])) for n in nodes]


NAMES = ["n", "n_jobs", "alpha", "x", "xy", "fs", "t", "mode", "k1", "T", "x_"]
WORDS = ["size", "of", "the", "(int)", "n", "frames.", "Default", "is", "(x,",
         "fs)", "it's", "and", "0.5", "dB;", "[a]"]


def docs(rnd, names):
  """Documentation: its lines, and the source text"""
  lines, src = [], []
  base = rnd.choice([2, 4])
  names = [k for k in names if rnd.random() < .8]
  rnd.shuffle(names)
  def line(ind, name):
    toks, text = [], []
    for k in range(rnd.randrange(0 if name else 1, 5)):
      if rnd.random() < .4:
        w = [rnd.choice(WORDS) for _ in range(rnd.choice([1, 1, 2]))]
        suf = rnd.choice(["", ".", ",", ":"])
        toks.append(dict(words=w, suf=suf))
        text.append(f":{rnd.choice(['class', 'data', 'func'])}:"
                    f"`{' '.join(w)}`{suf}")
      else:
        w = [rnd.choice(WORDS)]
        toks.append(dict(words=w, suf=""))
        text.append(w[0])
    if name:
      form = rnd.choice([":", " (int):", "(str):", " (float, float):"])
      words = (name + form).split()
      toks = [dict(words=words, suf="")] + toks
      text = words + text
    lines.append(dict(ind=ind, toks=toks, name=name))
    src.append(" " * ind + " ".join(text))
  for k in names:
    line(base, k)
    for _ in range(rnd.choice([0, 0, 1, 2])):
      line(base + rnd.choice([2, 2, 4]), "")
      if rnd.random() < .2:
        src.append("")
  if rnd.random() < .2:
    # another section
    lines.append(dict(ind=base - 2, toks=[dict(words=["Returns:"], suf="")],
                      name=""))
    src += ["", " " * (base - 2) + "Returns:"]
    line(base, "")
  head = rnd.choice(["", "What it does", "See :class:`A` and :class:`B`.\n"])
  return lines, (head + "\n\n" + " " * (base - 2) + "Args:\n" +
                 "\n".join(src) + rnd.choice(["", "\n", "\n  "]))


class Model:
  """Anything with parameters"""

  def __init__(self, ps):
    self.ps = ps

  def get_params(self, deep=True):
    """Parameters, also of parameters"""
    out = {}
    for k, v in self.ps.items():
      out[k] = v
      if deep and hasattr(v, "get_params"):
        out.update((f"{k}__{u}", w) for u, w in v.get_params().items())
    return out


def build(rnd, depth):
  """Model and its description"""
  names = rnd.sample(NAMES, rnd.randrange(0 if depth < 2 else 1, 5))
  lines, text = docs(rnd, names) if rnd.random() < .85 else ([], None)
  if text is None and rnd.random() < .5:
    text = "No parameters here, see :class:`B`"
  cls = rnd.choice(["A", "Bc", "Modal_2"])
  t = type(cls, (Model,), {"__doc__": text})
  ps, rec = {}, []
  for k in names:
    if depth and rnd.random() < .4:
      v, m = build(rnd, depth - 1)
      rec.append(dict(name=k, model=True, of=[m]))
    else:
      v = rnd.choice([None, 3, "s", np.ones(2)])
      rec.append(dict(name=k, model=False, of=[]))
    ps[k] = v
  return t(ps), dict(cls=cls, lines=lines, params=rec)


def show(o, kind, m):
  """Display"""
  ok, r = vlib.attempt(ipython.CollapsibleModelParams, o)
  if not ok:
    return dict(kind=kind, m=m, err=str(r))
  return dict(kind=kind, m=m, err="", got=tree(Page(r.data).root["kids"]))


def names_of(o):
  """Names of the parameters of a real model"""
  return dict(cls=type(o).__name__, lines=[], params=[
      dict(name=k, model=hasattr(v, "get_params"),
           of=[names_of(v)] if hasattr(v, "get_params") else [])
      for k, v in o.get_params(deep=False).items()])


def bare(nodes):
  """Keep names only"""
  for n in nodes:
    n["words"] = re.findall(r"^\w+", " ".join(n["words"]))
    bare(n["kids"])


def real():
  """Models of the library"""
  out = []
  for o in (smp.SAMPLE(), bds.SAMPLEBeatsDROP(), sm.SinusoidalModel(),
            mm.ModalModel(), mm.ModalTracker(), hinge.HingeRegression(),
            linear_model.LinearRegression(),
            smp.SAMPLE(sinusoidal=mm.ModalModel(t=-30), max_n_modes=3)):
    t = show(o, "names", names_of(o))
    bare(t.get("got", []))
    out.append(t)
  return out


def panels(rnd, scripts):
  """Displays one after another, and clicks"""
  ops, code, n = [], [], 0
  for _ in range(rnd.randrange(2, 14)):
    if not n or rnd.random() < .3:
      k = rnd.randrange(1, 4)
      ops.append(["show", k])
      code.append(dict(script=scripts[k], panels=k))
      n += k
    else:
      i = rnd.randrange(n)
      ops.append(["click", i + 1])
      code.append(dict(click=i))
  return dict(kind="panels", err="", ops=ops), code


def web(rnd):
  """Web audio"""
  n, ch = rnd.randrange(1, 6), rnd.choice([0, 1, 2, 3])
  x = [[rnd.randrange(-8, 9) for _ in range(n)] for _ in range(max(1, ch))]
  y = np.array(x if ch else x[0]) * (1 if rnd.random() < .3 else .125)
  scale = 1 if y.dtype.kind == "i" else 8
  rate = rnd.choice([8000, 44100, 22050])
  label = rnd.choice(["Play", "Go on", "x {1}"])
  kw = {} if label == "Play" and rnd.random() < .5 else {"label": label}
  arg = y.tolist() if rnd.random() < .3 else y
  times = rnd.randrange(1, 4)
  out = dict(kind="web", err="", x=x, rate=rate, label=label, times=times)
  ok, r = vlib.attempt(ipython.WebAudio, arg, rate, **kw)
  if not ok:
    return dict(out, err=str(r)), None, 1
  p = Page(r.data)
  button = p.root["kids"][0]["text"].strip() if p.root["kids"] else ""
  return dict(out, button=button), dict(
      script="\n".join(p.scripts), onclick=p.onclick or "", times=times), scale


def label(rnd):
  """Label and play"""
  norm = rnd.choice([None, None, False, True])
  rate = rnd.choice([8000, 44100])
  ch, n = rnd.choice([1, 1, 2]), rnd.randrange(1, 6)
  big = 10 if rnd.random() < .5 else 4
  y = [[rnd.randrange(-big, big + 1) for _ in range(n)] for _ in range(ch)]
  if not any(map(any, y)):
    y[0][0] = 3
  a = np.array(y if ch > 1 else y[0]) / 4
  hask, hasy, i = rnd.random() < .7, rnd.random() < .7, rnd.randrange(-1, 12)
  k = rnd.choice(["", "Original", "a b"]) if hask else ""
  ak = dict(rate=rate)
  if norm is not None:
    ak["normalize"] = norm
  hk = rnd.choice([None, {}, dict(metadata=dict(q=1))])
  dk = rnd.choice([None, {}, dict(clear=True)])
  before = dict(ak), dict(hk or {}), dict(dk or {}), a.copy()
  SHOWN.clear()
  out = dict(kind="label", err="", i=i, k=k, hask=hask, y=y, hasy=hasy,
             norm=bool(norm), rate=rate)
  def go():
    f = ipython.LabelAndPlayForeach(audio_kws=ak, html_kws=hk, display_kws=dk)
    for _ in range(2):
      SHOWN.clear()
      kw = {}
      if i >= 0:
        kw["i"] = i
      if hask:
        kw["k"] = k
      if hasy:
        kw["y"] = a
      if len(kw) == 3:
        f(i, k, a)
      else:
        f(**kw)
  ok, r = vlib.attempt(go)
  if not ok:
    return dict(out, err=str(r))
  heads, sounds = [], []
  for objs, kws in SHOWN:
    if kws != (dk or {}):
      return dict(out, err="display options")
    for o in objs:
      if isinstance(o, ipd.Audio):
        with wave.open(io.BytesIO(o.data)) as w:
          v = np.frombuffer(w.readframes(w.getnframes()), dtype="<i2")
          sounds.append(dict(rate=w.getframerate(), x=v.reshape(
              -1, w.getnchannels()).T.tolist()))
      else:
        heads.append(re.fullmatch(r"<h1>(.*)</h1>", o.data).group(1))
        if (o.metadata or {}) != (hk or {}).get("metadata", {}):
          return dict(out, err="label options")
  order = [isinstance(o, ipd.Audio) for s in SHOWN for o in s[0]]
  if order != sorted(order):
    return dict(out, err="sound before label")
  return dict(out, got=dict(heads=heads, sounds=sounds), intact=(
      before[:3] == (ak, hk or {}, dk or {}) and np.array_equal(before[3], a)))


def timing(rnd):
  """Timing of code"""
  kw = {}
  unit, scale, digits, title = "ms", 1000, 0, ""
  msg = "Execution time: {}"
  if rnd.random() < .5:
    unit, scale = rnd.choice([("s", 1), ("us", 10**6)])
    kw.update(unit=unit, scale=scale)
  if rnd.random() < .5:
    digits = kw["ndigits"] = rnd.randrange(1, 4)
  if rnd.random() < .5:
    title = kw["title"] = "Sum: "
  if rnd.random() < .5:
    msg = kw["msg"] = "{} elapsed"
  out = dict(kind="time", err="", digits=digits)
  SHOWN.clear()
  span = []
  def go():
    t0 = time.time()
    with ipython.time_this(**kw):
      t1 = time.time()
      time.sleep(rnd.choice([0, .002, .005]))
      t2 = time.time()
    span.extend([t2 - t1, time.time() - t0])
  ok, r = vlib.attempt(go)
  if not ok:
    return dict(out, err=str(r))
  (o,), dkw = SHOWN[0]
  pre, post = msg.split("{}")
  m = re.fullmatch(re.escape(title + pre) + r"(\d+(?:\.(\d+))?) (\w+)" +
                   re.escape(post), o.data)
  if len(SHOWN) != 1 or dkw or not m:
    return dict(out, err="other message")
  step = scale * 10 ** digits
  return dict(out, lo=int((span[0] - 1e-5) * step) - 1,
              hi=int((span[1] + 1e-5) * step) + 1,
              text=unit, got=dict(
                  value=round(float(m.group(1)) * 10 ** digits),
                  digits=len(m.group(2) or ""), text=m.group(3)))


def run(c):
  """Entry point"""
  c.design("MC_Doc.tla", "MC_DocDeep.cfg" if vlib.THOROUGH else "MC_Doc.cfg",
           timeout=3000)
  c.design_violates("MC_Doc.tla", "MC_Doc_deeper.cfg", ["Faithful"])
  c.design_violates("MC_Doc.tla", "MC_Doc_last.cfg", ["Faithful"])
  c.design("MC_Panels.tla", "MC_PanelsDeep.cfg" if vlib.THOROUGH
           else "MC_Panels.cfg", timeout=3000)
  c.design_violates("MC_Panels.tla", "MC_Panels_again.cfg", ["Toggles"])
  rnd = random.Random(vlib.SEED)
  k = 8 if vlib.THOROUGH else 1
  traces = real()
  for _ in range(150 * k):
    o, m = build(rnd, 2)
    traces.append(show(o, "params", m))
  # scripts, run by node
  scripts = {}
  for n in (1, 2, 3):
    o = Model({})
    for _ in range(n - 1):
      o = Model({"x": o})
    ok, r = vlib.attempt(ipython.CollapsibleModelParams, o)
    scripts[n] = "\n".join(Page(r.data).scripts) if ok else "throw 'no display'"
  pages = [panels(rnd, scripts) for _ in range(80 * k)]
  sounds = [web(rnd) for _ in range(80 * k)]
  runs = [s for s in sounds if s[1]]
  sizes = []
  while sum(sizes) < len(runs):
    sizes.append(min(rnd.randrange(1, 4), len(runs) - sum(sizes)))
  cuts = np.cumsum([0] + sizes)
  p = subprocess.run(
      ["node", os.path.join(os.path.dirname(os.path.abspath(__file__)),
                            "page.js")], capture_output=True, check=True,
      timeout=300, input=json.dumps(dict(
          panels=[q[1] for q in pages],
          web=[[s[1] for s in runs[a:b]] for a, b in zip(cuts, cuts[1:])]
      )).encode()).stdout
  r = json.loads(p)
  for (t, _), seen in zip(pages, r["panels"]):
    traces.append(dict(t, err=seen) if isinstance(seen, str)
                  else dict(t, seen=seen))
  flat = []
  for got, n in zip(r["web"], sizes):
    flat += [got] * n if isinstance(got, str) else got
  traces += [s[0] for s in sounds if not s[1]]
  for (t, _, scale), got in zip(runs, flat):
    if isinstance(got, str):
      traces.append(dict(t, err=got))
      continue
    traces.append(dict(t, got=[dict(rate=g["rate"], x=[
        [vlib.xround(v, scale) for v in ch] for ch in g["x"]]) for g in got]))
  traces += [label(rnd) for _ in range(100 * k)]
  traces += [timing(rnd) for _ in range(30 * k)]
  c.validate("ShowTrace.tla", traces)
  c.assumptions += [
      "scripts of displays run on a stand-in for the page (elements with "
      "listeners, classes and styles; audio contexts with buffers)",
      "descriptions do not contain markup"]
