"""Shared machinery: running TLC, collecting verdicts, evidence and findings."""
import contextlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = ":".join(("/opt/veriftools/tla/tla2tools.jar",
                 "/opt/veriftools/tla/CommunityModules-deps.jar"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"

# Sentinel for observed numbers that are not integers of the expected scale
BAD = -999999999


class Machinery(Exception):
  """Failure of the verification machinery itself (exit 2)"""


class Hang(Exception):
  """The code under test did not return in time"""


@contextlib.contextmanager
def deadline(seconds):
  """Raise Hang when the body takes longer than the given seconds"""

  def handler(signum, frame):
    raise Hang(f"no return after {seconds} s")

  old = signal.signal(signal.SIGALRM, handler)
  signal.setitimer(signal.ITIMER_REAL, seconds)
  try:
    yield
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, old)


def attempt(fn, *args, secs=20, **kwargs):
  """Call the code under test; total: (True, value) or (False, error name)"""
  try:
    with deadline(secs):
      return True, fn(*args, **kwargs)
  except Hang:
    return False, "Hang"
  except Exception as e:  # pylint: disable=W0703
    return False, type(e).__name__


def xint(x, scale=1):
  """Exact integer projection of a number times scale, BAD if there is none"""
  try:
    v = float(x) * scale
    if v != v or v in (float("inf"), float("-inf")) or v != int(v) \
        or abs(v) >= 2**30:
      return BAD
    return int(v)
  except Exception:  # pylint: disable=W0703
    return BAD


def xround(x, scale=1, tol=1e-6):
  """Integer nearest to x*scale, BAD if farther than tol"""
  try:
    v = float(x) * scale
    if v != v or abs(v) >= 2**30:
      return BAD
    r = round(v)
    return int(r) if abs(r - v) <= tol * max(1.0, abs(v)) else BAD
  except Exception:  # pylint: disable=W0703
    return BAD


_JSON_LINE = re.compile(r'^"(\{.*\})"$')


def run_tlc(module, cfg, env=None, workers=None, timeout=600, simulate=None,
            depth=None, seed=None, extra=(), mem="4g"):
  """Run TLC; returns dict(ok, out, states, distinct, printed, violated)"""
  meta = tempfile.mkdtemp(prefix="tlc-")
  e = dict(os.environ)
  e.update({k: str(v) for k, v in (env or {}).items()})
  e.pop("JAVA_TOOL_OPTIONS", None)
  if workers is None:
    workers = 4
  cmd = ["java", f"-Djava.io.tmpdir={meta}", f"-Xmx{mem}", "-Xss64m", "-XX:+UseParallelGC",
         "-XX:ParallelGCThreads=4", "-XX:TieredStopAtLevel=4",
         f"-DTLA-Library={SPEC}", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
         "-metadir", meta, "-workers", str(workers), "-deadlock"]
  if simulate is not None:
    cmd += ["-simulate", simulate]
    if depth:
      cmd += ["-depth", str(depth)]
  if seed is not None:
    cmd += ["-seed", str(seed)]
  cmd += list(extra)
  cmd += ["-config", os.path.join(SPEC, cfg), os.path.join(SPEC, module)]
  t0 = time.time()
  try:
    p = subprocess.run(cmd, env=e, cwd=meta, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout, check=False)
  except subprocess.TimeoutExpired as ex:
    raise Machinery(f"TLC timeout after {timeout}s: {module} {cfg}") from ex
  finally:
    shutil.rmtree(meta, ignore_errors=True)
  out = p.stdout.decode("utf-8", "replace")
  printed = []
  for line in out.splitlines():
    m = _JSON_LINE.match(line)
    if m:
      try:
        printed.append(json.loads(json.loads(line)))
      except ValueError:
        pass
  st = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
  if not st:
    st = re.findall(r"(\d+) states checked", out)
    st = [(s, s) for s in st]
  states, distinct = (int(st[-1][0]), int(st[-1][1])) if st else (0, 0)
  viol = re.findall(r"(?:Invariant|Action property|Temporal propert\w+) "
                    r"(\S+) is violated", out)
  if "Temporal properties were violated" in out:
    viol.append("temporal")
  return dict(ok=p.returncode == 0, rc=p.returncode, out=out, states=states,
              distinct=distinct, printed=printed, violated=viol,
              wall=time.time() - t0)


class Check:
  """One run of one property's check"""

  def __init__(self, prop, level="model_checking"):
    self.prop = prop
    self.level = level
    self.t0 = time.time()
    self.states = 0
    self.transitions = 0
    self.traces = 0
    self.events = 0
    self.samples = []
    self.extra = {}
    self.assumptions = []
    self.violations = []
    self.known_hits = []
    self.models = []
    self.known = []
    path = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(path):
      with open(path, encoding="utf-8") as f:
        self.known = [
            k for k in json.load(f)["findings"] if k["property"] == prop
        ]

  # --- design level ---------------------------------------------------------
  def design(self, module, cfg, **kw):
    """Model check the specification itself; must hold"""
    r = run_tlc(module, cfg, **kw)
    if not r["ok"]:
      raise Machinery(f"specification {module}/{cfg} does not hold:\n" +
                      r["out"][-4000:])
    self.states += r["distinct"]
    self.transitions += r["states"]
    self.models.append(dict(module=module, cfg=cfg, distinct=r["distinct"],
                            generated=r["states"], wall_s=round(r["wall"], 1)))
    return r

  def design_violates(self, module, cfg, invariants, **kw):
    """Model check a deliberately defective variant; must be caught"""
    # one worker: which invariant fails first must not depend on the schedule
    kw.setdefault("workers", 1)
    r = run_tlc(module, cfg, **kw)
    if not set(r["violated"]) & set(invariants):
      raise Machinery(f"defective variant {module}/{cfg} not caught:\n" +
                      r["out"][-4000:])
    self.models.append(dict(module=module, cfg=cfg, distinct=r["distinct"],
                            generated=r["states"], wall_s=round(r["wall"], 1),
                            expected_violation=r["violated"]))
    return r

  # --- conformance ----------------------------------------------------------
  def validate(self, module, traces, const=None, cfg=None, batch=4000,
               workers=4, timeout=700, label=None, seen=None):
    """Validate recorded traces against a trace specification.

    Each trace is a JSON object; the specification prints one JSON object
    {"tid", "ok", "at", "why"} per trace it decides."""
    cfg = cfg or module.replace(".tla", ".cfg")
    fails = 0
    for b in range(0, len(traces), batch):
      chunk = traces[b:b + batch]
      fd, path = tempfile.mkstemp(prefix="trace-", suffix=".json")
      try:
        with os.fdopen(fd, "w", encoding="utf-8") as f:
          json.dump(dict(const=const or {"unused": 0}, traces=chunk), f)
        r = run_tlc(module, cfg, env={"TRACE_FILE": path}, workers=workers,
                    timeout=timeout)
      finally:
        os.unlink(path)
      if not r["ok"]:
        raise Machinery(f"trace validation by {module} failed to run:\n" +
                        r["out"][-6000:])
      self.states += r["distinct"]
      self.transitions += r["states"]
      okd, bad = set(), {}
      for v in r["printed"]:
        if "tid" not in v:
          continue
        if v["ok"]:
          okd.add(v["tid"])
        else:
          o = bad.get(v["tid"])
          if o is None or v["at"] > o["at"]:
            bad[v["tid"]] = v
      for i, t in enumerate(chunk, 1):
        self.traces += 1
        if i in okd:
          continue
        if i not in bad:
          raise Machinery(f"{module}: no verdict for trace {i}\n" +
                          r["out"][-3000:])
        fails += 1
        self.violation(f"{label or module}: step {bad[i]['at']}: "
                       f"{bad[i]['why']}", dict(module=module, verdict=bad[i],
                                                const=const, trace=t))
    if traces and len(self.samples) < 3:
      s = json.dumps(traces[0])
      self.samples.append(s if len(s) < 1500 else s[:1500] + "...")
    return fails

  def expect(self, cond, what, replay=None):
    """Direct comparison of an observation with the specification's value"""
    self.events += 1
    if not cond:
      self.violation(what, replay)
    return cond

  def violation(self, what, replay=None):
    """Record one violation (or a known finding)"""
    for k in self.known:
      if re.search(k["match"], what):
        if k["id"] not in self.known_hits:
          self.known_hits.append(k["id"])
          print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        return
    self.violations.append(what)
    if len(self.violations) > 5:
      return
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{self.prop}-{len(self.violations)}.json")
    with open(path, "w", encoding="utf-8") as f:
      json.dump(dict(property=self.prop, what=what, seed=SEED, tier=TIER,
                     replay=replay), f, indent=1, default=str)
    print(f"VIOLATION property={self.prop} replay={path}")
    print(f"  {what}")
    sys.stdout.flush()

  def finish(self):
    """Write evidence and return the exit status"""
    ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level,
              coverage=dict(states=self.states, transitions=self.transitions,
                            traces_validated_against_impl=self.traces,
                            direct_observations=self.events,
                            models=self.models,
                            samples=self.samples or ["(see models)"],
                            **self.extra),
              assumptions=self.assumptions,
              wall_s=round(time.time() - self.t0, 2),
              violations=len(self.violations),
              known_findings=self.known_hits)
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{self.prop}.json"), "w",
              encoding="utf-8") as f:
      json.dump(ev, f, indent=1)
    print(f"{self.prop}: {len(self.violations)} violation(s); "
          f"{self.states} states, {self.traces} traces, "
          f"{self.events} direct observations, {ev['wall_s']} s")
    return 1 if self.violations else 0
