"""Add a property: addprop.py FILE, with a p(...) entry, a note and a design line."""
import json
import runpy
import subprocess
import sys
d = runpy.run_path(sys.argv[1])
V = "/verif/"
s = open(V + "tools/mkprops.py").read()
i = s.index("with open('/verif/properties.jsonl'")
pid = d["args"][0]
assert f'p("{pid}"' not in s
ent = "p(" + ",\n ".join(json.dumps(a, ensure_ascii=False) for a in d["args"]) + ")\n"
open(V + "tools/mkprops.py", "w").write(s[:i] + ent + s[i:])
subprocess.run([sys.executable, V + "tools/mkprops.py"], check=True)
subprocess.run([sys.executable, V + "tools/addnote.py", f"{pid}={d['note']}"], check=True)
s = open(V + "DESIGN.md").read()
prev = f"* **P{int(pid[1:]) - 1:02d}**"
i = s.index(prev)
j = min(x for x in (s.find("\n* **", i + 5), s.find("\n\n", i)) if x > 0)
open(V + "DESIGN.md", "w").write(s[:j] + "\n" + d["design"].strip() + s[j:])
