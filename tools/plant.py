#!/usr/bin/env python3
"""plant.py SEEDFILE...: each seed file is a python file defining ID, PROP, FILE, OLD, NEW (or EDITS=[(file,old,new)]), NEEDS, BREAKS, DEMO.
Builds /verif/seeded/<ID>/ after confirming it in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys
for f in sys.argv[1:]:
  ns = {}
  exec(open(f).read(), ns)
  wt = "/tmp/plant_" + ns["ID"]
  shutil.rmtree(wt, ignore_errors=True)
  subprocess.run(["cp", "-a", "/repo", wt], check=True)
  try:
    edits = ns.get("EDITS") or [(ns["FILE"], ns["OLD"], ns["NEW"])]
    for fn, old, new in edits:
      p = os.path.join(wt, fn)
      s = open(p).read()
      assert s.count(old) == 1, (fn, s.count(old), old)
      open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=wt, capture_output=True, text=True).stdout
    d = f"/verif/seeded/{ns['ID']}"
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(ns["DEMO"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport JAX_PLATFORMS=cpu PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run(["bash", d + "/demo.sh"], cwd=wt, capture_output=True, text=True)
    env = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=wt)
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=wt, env=env, capture_output=True, text=True)
    tl = t.stdout.strip().splitlines()[-1:] 
    ok = a.returncode == 0 and b.returncode != 0 and t.returncode == 0
    print(ns["ID"], "OK" if ok else "REJECTED", "unchanged:", a.returncode, "patched:", b.returncode, tl)
    if not ok:
      print(a.stdout[-600:], a.stderr[-1200:], b.stderr[-300:] if b.returncode else "demo passes with the patch", "\n".join(t.stdout.splitlines()[-15:]) if t.returncode else "")
      if "--keep" not in sys.argv:
        shutil.rmtree(d)
  finally:
    shutil.rmtree(wt, ignore_errors=True)
