"""Runs the executable form of one property against the real nnx.

run.py ID --seed S --tier T [--out FILE] [--only CHECK --case K]
Each check is a function of a seeded random generator; an exception is a
failing input (its check name, case number and seed reproduce it).
"""
import argparse
import importlib
import json
import os
import random
import sys
import time
import traceback
import zlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("prop")
  ap.add_argument("--seed", type=int, default=1)
  ap.add_argument("--tier", default="quick")
  ap.add_argument("--out")
  ap.add_argument("--only")
  ap.add_argument("--case", type=int)
  a = ap.parse_args()
  t0 = time.time()
  fails, counts = [], {}
  try:
    m = importlib.import_module(a.prop.lower())
  except Exception as e:
    fails.append(dict(key="import", desc="".join(traceback.format_exception(e))[-2500:], input=None))
    m = None
  total = 0
  budget = 240 if a.tier == "quick" else 2400
  for name, fn, nq in (m.CHECKS if m else ()):
    if a.only and name != a.only:
      continue
    n = nq if a.tier == "quick" else nq * 8
    bad = 0
    done = 0
    for k in range(n):
      if a.case is not None and k != a.case:
        continue
      if time.time() - t0 > budget:
        break
      rng = random.Random(zlib.crc32(f"{a.seed}/{a.prop}/{name}/{k}".encode()))
      try:
        fn(rng)
        done += 1
      except Exception as e:
        bad += 1
        tb = "".join(traceback.format_exception(e))
        fails.append(dict(key=getattr(e, "key", name), desc=f"{name} case {k}: {type(e).__name__}: {str(e)[:1200]}",
                          input=dict(check=name, case=k, seed=a.seed), trace=tb[-3000:]))
        if bad >= 2:
          break
    counts[name] = done
    total += done
  out = dict(cases=total, failures=fails, checks=counts, wall_s=round(time.time() - t0, 2))
  if a.out:
    with open(a.out, "w") as f:
      json.dump(out, f, indent=1, default=str)
  print(json.dumps(dict(cases=total, failures=len(fails), checks=counts, wall_s=out["wall_s"])))
  for f in fails[:6]:
    print(f["key"], f["desc"], f.get("trace", "")[-1500:])
  sys.exit(1 if fails else 0)


if __name__ == "__main__":
  main()
