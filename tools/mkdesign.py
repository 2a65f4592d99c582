#!/usr/bin/env python3
"""Regenerates the per-property section of DESIGN.md (between the markers)
from properties.jsonl, contracts/index.py and contracts/notes.py, so that the
document, the manifest and the evidence files say the same."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns, n = {}, {}
exec(open(os.path.join(ROOT, "contracts", "index.py")).read(), ns)
exec(open(os.path.join(ROOT, "contracts", "notes.py")).read(), n)
out = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
  p = json.loads(l)
  i = p["id"]
  nt = n["NOTES"].get(i, {})
  out.append(f"### {i} {p['title']}")
  if ns["MODULES"].get(i):
    out.append(f"*Claimed, level proof; specification in " + ", ".join(f"`contracts/{m}.py`" for m in ns["MODULES"][i]) + f", executable form in `harness/{i.lower()}.py`.*")
    out.append("- Proved, without bound: " + nt["proved"])
    out.append("- Bounded (never counted as proved): " + nt["bounded"])
    if nt.get("trusted") or nt.get("assumptions"):
      out.append("- Assumed: " + "; ".join(nt.get("trusted", []) + nt.get("assumptions", [])) + ".")
  else:
    out.append("*Not claimed.* " + nt.get("na", n["NA_DEFAULT"]) + ".")
  out.append("")
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
a, rest = s.split("<!-- properties -->\n", 1)
_, b = rest.split("<!-- /properties -->", 1)
open(p, "w").write(a + "<!-- properties -->\n" + "\n".join(out) + "<!-- /properties -->" + b)
