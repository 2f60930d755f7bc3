"""P11: intermediate storage keeps each value at its place."""
import copy
import itertools
import os
import random
import sys
import threading
import time

import fits
import inproc
import numpy as np
import vlib
from sample import _training
from sample.utils import learn

VALUES = {1: [], 2: 0, 3: "", 4: (4, "x"), 5: {"k": [5]}, 6: False}
KEYS = {"a": "peaks", "b": "", "c": "tracks"}
NAMES = {v: k for k, v in KEYS.items()}


def enc(v):
  """Real value for a small integer"""
  if v == 7:
    return np.arange(7.)
  return copy.deepcopy(VALUES[v]) if v in VALUES else v


def dec(x):
  """Small integer for a real value, 0 for None, -9 for nothing known"""
  if x is None:
    return 0
  if isinstance(x, np.ndarray):
    return 7 if x.shape == (7,) and (x == np.arange(7)).all() else -9
  for k, v in VALUES.items():
    if type(v) is type(x) and v == x:
      return k
  return int(x) if type(x) is int and x > 7 else -9


def shown(state):
  """Observed state"""
  return [dict(k=NAMES.get(k, repr(k)), vals=[dec(x) for x in v])
          for k, v in state.items()]


def op(kind, k="a", v=0, i=-1):
  """Abstract operation"""
  return dict(op=kind, k=k, v=v, i=i, ret=0, obs=[], look=False, found=False,
              vals=[], err="")


def do(st, o, look=False, call=False, kw=False):
  """Perform the operation and note what is observed"""
  o = dict(o)
  try:
    if o["op"] == "append":
      f = st if call else st.append
      if o["i"] == -1:
        r = f(KEYS[o["k"]], enc(o["v"]))
      elif kw:
        r = f(key=KEYS[o["k"]], value=enc(o["v"]), index=o["i"])
      else:
        r = f(KEYS[o["k"]], enc(o["v"]), o["i"])
      o["ret"] = dec(r)
    elif o["op"] == "get":
      try:
        o["vals"] = [dec(x) for x in st[KEYS[o["k"]]]]
        o["found"] = True
      except KeyError:
        pass
    elif o["op"] == "reset":
      st.reset()
    else:
      st.set_params(save=o["v"] == 1)
    if look:
      s = st.get_state()
      o["obs"], o["look"] = shown(s), True
      # what was handed out is a copy
      for x in s.values():
        for v in x:
          if isinstance(v, np.ndarray):
            v[...] = -1
          elif isinstance(v, (list, dict)):
            v.clear()
        x.append("leak")
      s["leak"] = ["leak"]
  except Exception as e:  # pylint: disable=W0703
    o["err"] = type(e).__name__
  return o


def rand_op(rng):
  """Random operation"""
  k = rng.choice("abc")
  r = rng.random()
  if r < .72:
    return op("append", k, rng.randint(1, 7),
              -1 if rng.random() < .4 else rng.randint(0, 5))
  if r < .86:
    return op("get", k)
  if r < .93:
    return op("reset")
  return op("save", v=rng.choice([0, 1, 1]))


def sequential(rng, make, n, call):
  """One random history of one storage"""
  save = rng.random() < .85
  st = make(save)
  ev = []
  for j in range(n):
    o = rand_op(rng)
    ev.append(do(st, o, look=True, call=call and rng.random() < .3,
                 kw=rng.random() < .3))
    if call and rng.random() < .1:
      st = copy.deepcopy(st)
  return dict(save=save, clients=[ev], final=shown(st.get_state()))


class Sched:
  """Turn-taking of threads at the lines of the code under test"""
  FILES = (os.path.realpath(learn.__file__),
           os.path.realpath(_training.__file__))

  def __init__(self):
    self.cond = threading.Condition()
    self.who = {}          # thread -> client
    self.registering = None
    self.plan = []         # [client, lines left]
    self.beats = 0

  def trace(self, frame, event, arg):
    """Global trace function"""
    if os.path.realpath(frame.f_code.co_filename) in self.FILES:
      return self.local
    return None

  def local(self, frame, event, arg):
    """Local trace function: wait for one's turn at each line"""
    if event != "line":
      return self.local
    me = threading.get_ident()
    with self.cond:
      if self.registering is not None:
        self.who[me] = self.registering
        return self.local
      c = self.who.get(me)
      while self.plan and self.plan[0][0] != c:
        self.cond.wait(1)
      if self.plan:
        self.plan[0][1] -= 1
        if self.plan[0][1] <= 0:
          self.plan.pop(0)
        self.beats += 1
        self.cond.notify_all()
    return self.local

  def skip(self, c=None):
    """The client at turn cannot go on"""
    with self.cond:
      if self.plan and (c is None or self.plan[0][0] == c):
        while self.plan and c is not None and self.plan[0][0] == c:
          self.plan.pop(0)
        if c is None:
          self.plan.pop(0)
        self.cond.notify_all()

  def finished(self, c):
    """Drop all turns of a client"""
    with self.cond:
      self.plan = [p for p in self.plan if p[0] != c]
      self.cond.notify_all()


def concurrent(manager_of, progs, plan):
  """Run the clients' programs with the given turns"""
  s = Sched()
  threading.settrace(s.trace)
  try:
    st = manager_of()
    out = [[] for _ in progs]
    start = threading.Event()
    ready = [threading.Event() for _ in progs]

    def client(c):
      st.get_state()
      ready[c].set()
      start.wait(10)
      for o in progs[c]:
        out[c].append(do(st, o))
      s.finished(c)

    ts = []
    for c in range(len(progs)):
      s.registering = c
      t = threading.Thread(target=client, args=(c,), daemon=True)
      t.start()
      ts.append(t)
      ready[c].wait(10)
  finally:
    threading.settrace(None)
  s.plan = [list(p) for p in plan]
  s.registering = None
  start.set()
  last, t0 = s.beats, time.time()
  end = t0 + 20
  while any(t.is_alive() for t in ts):
    with s.cond:
      s.cond.wait(.02)
      now = s.beats
    if now != last:
      last, t0 = now, time.time()
    elif time.time() - t0 > .04:
      s.skip()
      t0 = time.time()
    if time.time() > end:
      break
  if any(t.is_alive() for t in ts):
    for c, p in enumerate(progs):
      if len(out[c]) < len(p):
        out[c].append(dict(op("get"), err="Hang"))
  return dict(save=True, clients=out, final=shown(st.get_state()))


def server_storage():
  """A storage shared as during a parallel fit (the proxy)"""
  m = fits.build("plain", dict(t=0, cap=0, save=1, rev=0))
  ctx = _training.sample_training_context(m, n_jobs=1, pool=object())
  ctx.__enter__()  # pylint: disable=C2801
  return ctx, m.sinusoidal.intermediate


def stress(rng, rounds):
  """Threads using the storage of a real manager process"""
  old = sys.getswitchinterval()
  sys.setswitchinterval(1e-5)
  traces = []
  try:
    for _ in range(rounds):
      ctx, st = server_storage()
      try:
        ops = []
        for c in range(5):
          mine = [op("append", rng.choice("ab"), rng.randint(8, 10**6),
                     c + 5 * j) for j in range(30)]
          rng.shuffle(mine)
          ops.append(mine)
        seen = {}
        for c, mine in enumerate(ops):
          for o in mine:
            seen[o["k"]] = max(seen.get(o["k"], 0), o["i"])
        out = [[] for _ in ops]
        ts = [threading.Thread(target=lambda c=c: [
            out[c].append(do(st, o)) for o in ops[c]], daemon=True)
              for c in range(len(ops))]
        for t in ts:
          t.start()
        for t in ts:
          t.join(60)
        # operations at different places commute: any one order will do
        traces.append(dict(save=True, clients=[sum(out, [])],
                           final=shown(st.get_state())))
      finally:
        ctx.__exit__(None, None, None)
  finally:
    sys.setswitchinterval(old)
  return traces


def run(c):
  """Drive and validate"""
  c.design("MC_Storage.tla", "MC_Storage.cfg")
  c.design("MC_StorageSteps.tla", "MC_StorageSteps.cfg")
  c.design_violates("MC_StorageSteps.tla", "MC_StorageUnlocked.cfg",
                    ["Atomic", "NothingLost", "NoError"])
  rng = random.Random(f"p11-{vlib.SEED}")
  k = 10 if vlib.THOROUGH else 1
  # first, while there is one thread: it forks
  tr = stress(rng, 20 if vlib.THOROUGH else 3)
  c.validate("StorageTrace.tla", tr, label="real manager")
  tr = [sequential(rng, lambda s: learn.OptionalStorage(save=s), 14, True)
        for _ in range(400 * k)]
  c.validate("StorageTrace.tla", tr, label="plain storage")
  # shared storage: one client, then several at chosen interleavings
  with inproc.inproc_managers():
    ctx, st = server_storage()
    try:
      def make(save):
        st.set_params(save=save)
        st.reset()
        return st
      tr = [sequential(rng, make, 12, False) for _ in range(40 * k)]
      c.validate("StorageTrace.tla", tr, label="shared storage")

      def fresh():
        st.set_params(save=True)
        st.reset()
        return st
      runs = []
      progs = [
          [[op("append", "a", 1, 3)], [op("append", "a", 2, 1)]],
          [[op("append", "a", 1, 0)], [op("append", "b", 2, -1)]],
          [[op("append", "a", 1, -1)], [op("append", "a", 2, -1)]],
          [[op("append", "a", 1, 2)], [op("append", "a", 2, 2)]],
      ]
      jobs = []
      for p in progs:
        for n in range(1, 13):
          jobs.append((p, [(0, n), (1, 99), (0, 99)]))
      rand = []
      for _ in range(60 * k):
        p = [[o for o in (rand_op(rng) for _ in range(rng.randint(1, 3)))
              if o["op"] in ("append", "get")] + [
                  op("append", "a", 8 + q, rng.randint(0, 4))]
             for q in range(rng.choice([2, 2, 3]))]
        plan = [(rng.randrange(len(p)), rng.randint(1, 14))
                for _ in range(rng.randint(1, 4))]
        rand.append((p, plan))
      for p, plan in itertools.chain(jobs, rand):
        runs.append(concurrent(fresh, p, plan))
      c.validate("StorageTrace.tla", runs, label="concurrent clients")
      c.extra["interleavings_driven"] = len(runs)
    finally:
      ctx.__exit__(None, None, None)
