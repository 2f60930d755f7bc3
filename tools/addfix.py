"""addfix.py PROP COMMIT TEXT: record a repaired defect"""
import json
import sys
p = "/verif/known_findings.json"
d = json.load(open(p, encoding="utf-8"))
d["fixed"].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
json.dump(d, open(p, "w", encoding="utf-8"), indent=1)
