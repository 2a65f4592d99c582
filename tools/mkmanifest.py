#!/usr/bin/env python3
"""Regenerates MANIFEST.json from contracts/index.py and contracts/notes.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
src = open(os.path.join(ROOT, "contracts", "index.py")).read()
ns = {}
exec(src, ns)
n = {}
exec(open(os.path.join(ROOT, "contracts", "notes.py")).read(), n)
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in ids:
  nt = n["NOTES"].get(p, {})
  if p in ns["MODULES"] and ns["MODULES"][p]:
    checks.append(dict(
        property=p, quick_cmd=f"python3 check.py {p} --tier quick", thorough_cmd=f"python3 check.py {p} --tier thorough",
        technique="contracts on the real functions, obligations generated from the current source, discharged by z3/cvc5; failed obligations replayed as inputs on the real code",
        level="proof",
        level_note=("Proved: " + nt.get("proved", "") + " Bounded (not counted as proved): " + nt.get("bounded", "")).strip()
                   + " Assumes: " + "; ".join(n["COMMON_TRUSTED"] + nt.get("trusted", []) + nt.get("assumptions", []))))
  else:
    na.append(dict(property=p, reason=nt.get("na", n["NA_DEFAULT"])))
m = dict(version=1, setup_cmd="python3 check.py --self", checks=checks, not_applicable=na,
         notes="See DESIGN.md. VERIF_REPO overrides the tree that is read (default /repo). No hooks in /repo.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not claimed")
