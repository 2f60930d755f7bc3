"""P17: saving a user file is all or nothing."""
import os
import random
import resource
import signal
import sys
import tempfile

import numpy as np
import vlib

import headless

BIG = [[i, f"{i:x}" * 3, {"k": i / 7}] for i in range(700)]
CYCLE = [1, 2]
CYCLE.append(CYCLE)


class Broken:
  """Cannot be pickled after a while"""

  def __reduce__(self):
    raise ValueError("no")


def values(kind):
  """Numbered values; from 0 on those that cannot be serialised"""
  if kind == "json":
    return {1: {"a": 1}, 2: dict(a=2, b=[1.5, None, True, "\u00e8"]),
            3: dict(x=BIG), 4: dict(x=BIG[::-1], y="z" * 9000), 5: {},
            6: [1, 2, 3]}, [
                {"a": 1, "b": object()}, dict(x=BIG, y={1, 2}),
                dict(x=CYCLE), dict(x=BIG, y=b"bytes"), {(1, 2): 3}]
  return {1: {"a": 1}, 2: dict(a=2, audio_x=np.arange(5.)),
          3: dict(audio_x=np.linspace(-1, 1, 9000), audio_sr=44100),
          4: dict(x=BIG, s="z" * 70000), 5: None,
          6: [np.arange(40000, dtype=np.int16)] * 2}, [
              lambda: 0, dict(x=BIG, y=Broken()), dict(a=1, y=lambda: 0),
              dict(audio_x=np.linspace(-1, 1, 9000), y=Broken())]


def same(a, b):
  """Equality of values"""
  try:
    np.testing.assert_equal(a, b)
    return True
  except Exception:  # pylint: disable=W0703
    return False


def loaded(f, kind, vals):
  """Number of the value in the file"""
  if not f.exists():
    return 0
  ok, v = vlib.attempt(f.load_json if kind == "json" else f.load_pickled)
  if not ok:
    return -1
  return next((k for k, u in vals.items() if same(u, v)), -2)


def tracer(n):
  """Die at the nth line executed"""
  left = [n]

  def local(frame, event, arg):
    del frame, arg
    if event == "line":
      left[0] -= 1
      if left[0] < 0:
        os._exit(9)
    return local

  return local


def save(f, kind, value, fault):
  """Save in a child process under the fault; ok, error or killed"""
  pid = os.fork()
  if pid == 0:
    code = 3
    try:
      devnull = os.open(os.devnull, os.O_WRONLY)
      os.dup2(devnull, 1)
      os.dup2(devnull, 2)
      sys.setrecursionlimit(3000)
      what, n = fault
      if what in ("full", "die"):
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN if what == "full" else
                      signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
      elif what == "norename":
        def deny(*a, **k):
          raise OSError(13, "denied")
        os.replace = os.rename = deny
      elif what == "nosync":
        def deny(*a, **k):
          raise OSError(5, "io")
        os.fsync = deny
      elif what == "line":
        sys.settrace(tracer(n))
      try:
        (f.save_json if kind == "json" else f.save_pickled)(value)
        sys.settrace(None)
        code = 0
      except BaseException:  # pylint: disable=W0703
        sys.settrace(None)
        code = 1
    finally:
      os._exit(code)
  _, st = os.waitpid(pid, 0)
  if os.WIFSIGNALED(st):
    return "killed"
  return {0: "ok", 1: "error"}.get(os.WEXITSTATUS(st), "killed")


class Dir:
  """A user directory with two files"""

  def __init__(self, userfiles, kind, names=("settings", "other")):
    self.kind = kind
    self.home = tempfile.mkdtemp(prefix="p17-")
    d = userfiles.UserDir(os.path.join(self.home, "new", "u"))
    self.files = [d.user_file(n) for n in names]
    self.vals, self.bad = values(kind)
    self.steps = []

  def do(self, i, v, fault=("none", 0)):
    """One save of the value v (negative: one that cannot be serialised)"""
    told = save(self.files[i], self.kind,
                self.vals[v] if v > 0 else self.bad[-v - 1], fault)
    self.steps.append(dict(
        file=i + 1, value=max(v, 0), told=told, how=f"{self.kind} {fault}",
        after=[loaded(f, self.kind, self.vals) for f in self.files]))
    return told

  def size(self, i):
    """Size of the file"""
    return os.path.getsize(self.files[i].path)

  def lines(self, v):
    """Lines executed by a save"""
    n = [0]

    def local(frame, event, arg):
      del frame, arg
      n[0] += event == "line"
      return local

    sys.settrace(local)
    try:
      f = self.files[0]
      (f.save_json if self.kind == "json" else f.save_pickled)(self.vals[v])
    finally:
      sys.settrace(None)
    os.remove(self.files[0].path)
    return n[0]

  def close(self):
    """Remove"""
    headless.rmtree(self.home)
    return dict(steps=self.steps)


def points(n, k, rnd):
  """All of 0..n if there are at most k, else the ends and a sample"""
  if n + 1 <= k:
    return list(range(n + 1))
  near = [b + d for b in range(0, n + 1, 8192) for d in (-1, 0, 1)]
  return sorted({x for x in (*range(k // 4), *range(n - k // 4, n + 1), *near,
                             *rnd.sample(range(n + 1), k // 2))
                 if 0 <= x <= n})


def run(c):
  """Entry point"""
  c.design("UserFile.tla", "UserFile.cfg")
  c.design_violates("UserFile.tla", "UserFileInPlace.cfg",
                    ["AllOrNothing", "Whole"])
  c.design_violates("UserFile.tla", "UserFileForget.cfg", ["Reported"])
  home = tempfile.mkdtemp(prefix="p17-home-")
  try:
    os.environ["HOME"] = home
    from sample.widgets import userfiles
    rnd = random.Random(vlib.SEED)
    many = 400 if vlib.THOROUGH else 28
    traces = []
    for kind in ("json", "pickle"):
      sizes, lines = {}, {}
      for v in values(kind)[0]:
        d = Dir(userfiles, kind)
        d.do(0, v)
        try:
          sizes[v] = d.size(0)
          lines[v] = d.lines(v)
        except OSError:
          sizes[v], lines[v] = 100, 100
        traces.append(d.close())
      # every offset (sampled for long values), with and without a previous
      # content, followed by a save that succeeds
      for v in values(kind)[0]:
        for what in ("full", "die"):
          for prev in (0, rnd.choice([x for x in sizes if x != v])):
            d = Dir(userfiles, kind)
            for n in points(sizes[v] + 1, many, rnd):
              if prev and d.steps and d.steps[-1]["after"][0] != prev:
                traces.append(d.close())
                d = Dir(userfiles, kind)
              if prev and not d.steps:
                d.do(0, prev)
              if not prev and d.steps and d.steps[-1]["after"][0] != 0:
                traces.append(d.close())
                d = Dir(userfiles, kind)
              d.do(0, v, (what, n))
            d.do(0, v)
            traces.append(d.close())
        d = Dir(userfiles, kind)
        d.do(0, 1 if v != 1 else 2)
        for n in points(lines[v], many * 2, rnd):
          d.do(0, v, ("line", n))
          if d.steps[-1]["after"][0] == v:
            d.do(0, 1 if v != 1 else 2)
        d.do(0, v)
        traces.append(d.close())
      # histories over both files
      nb = len(values(kind)[1])
      for _ in range(300 if vlib.THOROUGH else 40):
        d = Dir(userfiles, kind, rnd.choice([
            ("settings", "other"), (os.path.join("a", "s"), "s"),
            (os.path.join("a", "s"), os.path.join("b", "s")),
            ("a.b", "a"), ("x y", os.path.join("x", "y", "x y"))]))
        for _ in range(rnd.randrange(3, 9)):
          i = rnd.randrange(2)
          v = rnd.choice([*sizes, *(-b - 1 for b in range(nb))])
          n = sizes.get(v, 500)
          f = rnd.choice([("none", 0), ("none", 0),
                          ("full", rnd.randrange(n + 1)),
                          ("die", rnd.randrange(n + 1)), ("norename", 0),
                          ("nosync", 0),
                          ("line", rnd.randrange(lines.get(v, 500) + 1))])
          d.do(i, v, f)
        traces.append(d.close())
  finally:
    headless.rmtree(home)
  c.validate("UserFileTrace.tla", traces)
  c.extra["saves"] = sum(len(t["steps"]) for t in traces)
  c.extra["faults"] = {k: sum(s["told"] == k for t in traces
                              for s in t["steps"])
                       for k in ("ok", "error", "killed")}
  c.assumptions += ["crashes are those of the process; the file system keeps "
                    "what was written and renames atomically"]
