#!/usr/bin/env python3
"""matrix.py [seed...]: applies each planted bug to a scratch copy and runs its check; prints what caught it."""
import json, os, re, shutil, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(R + "/seeded"))
for i in ids:
  d = f"{R}/seeded/{i}"
  m = json.load(open(d + "/meta.json"))
  wt = f"/tmp/matrix_{os.getpid()}"
  shutil.rmtree(wt, ignore_errors=True)
  subprocess.run(["cp", "-a", "/repo", wt], check=True)
  subprocess.run(["git", "apply", d + "/patch.diff"], cwd=wt, check=True)
  p = subprocess.run([sys.executable, R + "/check.py", m["property"]], env=dict(os.environ, VERIF_REPO=wt, VERIF_SEED="1"), capture_output=True, text=True)
  ob = re.findall(r"FAILED OBLIGATION (.*?) at ", p.stdout)
  fi = re.findall(r"FAILING INPUT (.*?):", p.stdout)
  print(f"{i} [{m['property']}] rc={p.returncode} obligations={len(ob)} {ob[:2]} inputs={fi[:2]}", flush=True)
  shutil.rmtree(wt, ignore_errors=True)
