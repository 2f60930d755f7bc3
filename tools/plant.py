"""Confirm and keep planted bugs. A batch file defines BUGS: list of dicts with
id, property, needs, breaks, edits [(file, old, new)], demo (Python source)."""
import json
import os
import runpy
import shutil
import subprocess
import sys

V = "/verif"
SH = '''#!/bin/bash
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONPATH="$PWD" MPLBACKEND=Agg SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy
export PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd, **env):
  e = dict(os.environ, **env)
  return subprocess.run(cmd, shell=True, cwd=cwd, env=e, text=True,
                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def tests(wt):
  out = "/tmp/plant-out.json"
  src = open("/opt/vp/env.sh").read().replace("/repo", wt)
  t = open("/opt/vp/test.sh").read().replace(". /opt/vp/env.sh", src)
  open("/tmp/plant-test.sh", "w").write(t)
  sh(f"bash /tmp/plant-test.sh {out}", wt)
  o = json.load(open(out))
  b = json.load(open("/opt/vp/BASELINE.json"))
  return sorted(set(b["stable"]) - set(o["passed"]))


def main():
  bugs = runpy.run_path(sys.argv[1])["BUGS"]
  only = sys.argv[2:]
  for b in bugs:
    if only and b["id"] not in only:
      continue
    wt = "/tmp/plant-wt"
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree("/repo", wt)
    d = os.path.join(V, "seeded", b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
    ok = True
    r = sh(f"{d}/demo.sh", wt)
    if r.returncode:
      print(b["id"], "DEMO FAILS ON CLEAN", r.stdout[-1500:])
      ok = False
    for f, old, new in b["edits"]:
      p = os.path.join(wt, f)
      s = open(p).read()
      assert s.count(old) == 1, (b["id"], f, s.count(old), old)
      open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", wt).stdout
    open(d + "/patch.diff", "w").write(diff)
    r = sh(f"{d}/demo.sh", wt)
    if not r.returncode:
      print(b["id"], "DEMO PASSES WITH PATCH")
      ok = False
    else:
      print(b["id"], "demo:", (r.stdout.strip().splitlines() or ["?"])[-1][:150])
    miss = tests(wt)
    if miss:
      print(b["id"], "TESTS FAIL:", miss[:5])
      ok = False
    json.dump({"property": b["property"], "needs": b["needs"],
               "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"),
              indent=1)
    if not ok:
      shutil.rmtree(d)
      continue
    r = sh(f"/verif/check.sh {b['property']}", V, VERIF_REPO=wt)
    v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
    t = [l for l in r.stdout.splitlines() if l.startswith("  ")]
    print(b["id"], b["property"], "CAUGHT" if r.returncode == 1 and v else
          f"MISSED rc={r.returncode}", (t or [""])[0][:200], flush=True)
  shutil.rmtree("/tmp/plant-wt", ignore_errors=True)


main()
