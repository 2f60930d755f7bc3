"""Write MANIFEST.json from the table of checks below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = ("explicit TLA+ specification model checked with TLC; traces recorded "
         "from the real code (driven by TLC-generated and seeded inputs) "
         "validated against it with TLC")
GEN = ("explicit TLA+ specification model checked with TLC; every behaviour/"
       "input it enumerates replayed in the real code and compared")
CHECKS = json.load(open(os.path.join(HERE, "tools", "checks.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
  i = p["id"]
  if i in CHECKS:
    checks.append(dict(property=i, quick_cmd=f"bash /verif/check.sh {i} quick",
                       thorough_cmd=f"bash /verif/check.sh {i} thorough",
                       technique=TRACE if CHECKS[i].get("t", "trace") == "trace" else GEN,
                       level="model_checking", level_note=CHECKS[i]["note"]))
  else:
    na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash /verif/setup.sh",
         hooks=dict(guard="", enable="", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Language: TLA+ with TLC. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
