#!/usr/bin/env python3
"""Decides one property on /repo's current source.

  check.py ID [--tier quick|thorough] [--no-harness] [--no-proof]

1. generates every proof obligation of the property's contracts (and of the
   contracts of every function they call) from the current source and
   discharges them;
2. runs the executable form of the property against the real code on seeded
   inputs (counterexample search and the labelled bounded part).
exit 0: everything discharged, no failing input.  exit 1: VIOLATION.
"""
import argparse
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
if __name__ == "__main__" and os.path.exists(VT) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv"):
  os.environ["PYTHONHASHSEED"] = "0"
  os.execv(VT, [VT, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, ROOT)


def spec_job(world, spec, reg, ax, tier, jobs, q):
  from pyded import solve
  from pyded.spec import generate
  t0 = time.time()
  try:
    ex, info = generate(world, spec, reg.values(), ax)
    res = solve.solve(ex.obligations, ex.axioms(), tier, jobs=jobs)
    for r in res:
      r["loc"] = list(r["loc"]) if r["loc"] else None
    q.put((spec.label, info, res, time.time() - t0, None))
  except BaseException as e:  # engine failure: undischarged
    import traceback
    q.put((spec.label, {}, [], time.time() - t0, "".join(traceback.format_exception(e))[-3000:]))


def prove_all(prop, tier, budget):
  """-> (results by label, problems)"""
  from contracts import index
  from pyded.world import World
  try:
    world = World(REPO)
  except Exception as e:
    return {}, [dict(name="the source can be read", detail=repr(e))], {}
  specs, reg, ax = index.load(prop)
  labels = {s.label: s for s in specs}
  todo = list(specs)
  done, running, started, again = {}, {}, {}, set()
  q = mp.get_context("fork").Queue()
  t0 = time.time()
  maxp = 5
  problems = []
  while todo or running:
    while todo and len(running) < maxp:
      s = todo.pop(0)
      p = mp.get_context("fork").Process(target=spec_job, args=(world, s, reg, ax, tier, 3, q))
      p.start()
      running[s.label] = p
      started[s.label] = (time.time(), s)
    try:
      label, info, res, dt, err = q.get(timeout=1)
    except Exception:
      dead = [l for l, p in running.items() if not p.is_alive() and p.exitcode not in (0, None)]
      for l in dead:
        problems.append(dict(name=f"{l}/verifier run", detail=f"worker died with {running[l].exitcode}"))
        running.pop(l)
        done[l] = ({}, [], 0)
      for l in list(running):   # a stuck worker is started again once
        if time.time() - started[l][0] > budget * 0.4 and l not in again:
          again.add(l)
          p = running.pop(l)
          subprocess.run(["pkill", "-KILL", "-P", str(p.pid)])
          p.kill()
          p.join()
          todo.insert(0, started[l][1])
      if time.time() - t0 > budget:
        for l, p in running.items():
          import signal
          subprocess.run(["pkill", "-KILL", "-P", str(p.pid)])
          p.kill()
          problems.append(dict(name=f"{l}/verifier run", detail="time budget exhausted"))
          done[l] = ({}, [], 0)
        for s in todo:
          problems.append(dict(name=f"{s.label}/verifier run", detail="time budget exhausted"))
        break
      continue
    running.pop(label).join()
    done[label] = (info, res, dt)
    if err:
      problems.append(dict(name=f"{label}/verifier run", detail=err))
    for u in info.get("contracts_used", ()):
      if u not in labels:
        c = reg[u]
        labels[u] = c
        if c.trusted is None and c.verify:
          todo.append(c)
  trusted = {l: c.trusted for l, c in labels.items() if getattr(c, "trusted", None)}
  return done, problems, trusted


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("prop", nargs="?")
  ap.add_argument("--self", action="store_true", help="only check that the machinery loads and reads the source")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  ap.add_argument("--no-harness", action="store_true")
  ap.add_argument("--no-proof", action="store_true")
  ap.add_argument("-v", action="store_true")
  a = ap.parse_args()
  if a.self:
    from contracts import index
    from pyded.world import World
    for p in index.MODULES:
      index.load(p)
    print("pyded loads;", len(World(REPO).funcs), "functions read")
    return 0
  tier = a.tier if a.tier in ("quick", "thorough") else "quick"
  seed = int(os.environ.get("VERIF_SEED", "1") or 1)
  t0 = time.time()
  prop = a.prop
  outdir = os.path.join(ROOT, "out")
  os.makedirs(outdir, exist_ok=True)
  os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
  replay = os.path.join(outdir, f"{prop}.replay.json")
  if os.path.exists(replay):
    os.unlink(replay)

  # the executable specification runs beside the proofs
  hp = None
  hout = os.path.join(outdir, f"{prop}.harness.json")
  if os.path.exists(hout):
    os.unlink(hout)
  if not a.no_harness and os.path.exists(os.path.join(ROOT, "harness", prop.lower() + ".py")):
    env = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED=str(seed))
    env.pop("PYTHONHOME", None)
    hp = subprocess.Popen([PY, os.path.join(ROOT, "harness", "run.py"), prop, "--seed", str(seed), "--tier", tier,
                           "--out", hout], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
  budget = 600 if tier == "quick" else 3000
  done, problems, trusted = {}, [], {}
  if not a.no_proof:
    done, problems, trusted = prove_all(prop, tier, budget)
  harness = dict(cases=0, failures=[], known=[], checks={})
  htext = ""
  if hp is not None:
    try:
      htext, _ = hp.communicate(timeout=max(30, (840 if tier == "quick" else 3400) - (time.time() - t0)))
      harness = json.load(open(hout))
    except subprocess.TimeoutExpired:
      hp.kill()
      harness["failures"] = [dict(key="timeout", desc="the executable specification did not finish", input=None)]
    except (OSError, ValueError):
      harness["failures"] = [dict(key="crash", desc="the executable specification could not run: " + htext[-2500:], input=None)]

  nob = nok = 0
  failed = list(problems)
  backends, solver_s, under, externals, assumptions, inlined = {}, 0.0, {}, set(), set(), set()
  for label, (info, res, dt) in sorted(done.items()):
    n = ok = 0
    for r in res:
      n += 1
      ok += r["ok"]
      solver_s += r["s"]
      if r["ok"]:
        backends[r["backend"]] = backends.get(r["backend"], 0) + 1
      else:
        failed.append(r)
      if a.v:
        print("  ", "ok " if r["ok"] else "BAD", r["name"], r["backend"], f'{r["s"]:.2f}', r["loc"])
    nob += n
    nok += ok
    under[label] = dict(obligations=n, discharged=ok, paths=info.get("paths"), wall_s=round(dt, 2))
    externals |= set(info.get("externals", ()))
    assumptions |= set(info.get("assumptions", ()))
    inlined |= set(info.get("inlined", ()))
    solver_s += info.get("feas_s", 0)
    if n == 0:
      failed.append(dict(name=f"{label}/generates obligations", detail="no obligation was generated"))
  if not a.no_proof and nob == 0:
    failed.append(dict(name=f"{prop}/generates obligations", detail="no obligation at all"))

  known = known_findings()
  hf, kf = [], []
  for f in harness.get("failures", ()):
    (kf if (prop, f.get("key")) in known else hf).append(f)
  for f in kf:
    print(f"KNOWN-FINDING: property={prop} {known[(prop, f['key'])]}")
  from contracts import notes
  nt = notes.NOTES.get(prop, {})
  ev = dict(property=prop, tier=tier, seed=seed, level="proof", wall_s=round(time.time() - t0, 2),
            coverage=dict(
                obligations=nob, discharged=nok,
                checker_cmd=f"python3 /verif/check.py {prop} --tier {tier}",
                trusted_base=nt.get("trusted", []) + notes.COMMON_TRUSTED + [f"{k}: {v}" for k, v in trusted.items()],
                functions_under_contract=under, inlined_functions=sorted(inlined),
                backends=backends, solver_s=round(solver_s, 2),
                external_functions_modelled=sorted(externals),
                proved=nt.get("proved", ""), bounded=nt.get("bounded", ""),
                bounded_cases=harness.get("cases", 0), bounded_checks=harness.get("checks", {}),
            ),
            assumptions=sorted(assumptions) + nt.get("assumptions", []),
            violations=[f.get("name") or f.get("desc") for f in failed + hf][:50])
  json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
  print(f"{prop}: {nok}/{nob} obligations discharged over {len(done)} contracts and lemmas, "
        f"{harness.get('cases', 0)} bounded cases, {time.time() - t0:.1f} s")
  if not failed and not hf:
    return 0
  for r in failed:
    print(f"FAILED OBLIGATION {r['name']} at {r.get('loc')}: {str(r.get('detail', ''))[:600]}")
  for f in hf[:10]:
    print(f"FAILING INPUT {f.get('key')}: {str(f.get('desc'))[:1500]}")
  json.dump(dict(property=prop, failed_obligations=failed, failing_inputs=hf,
                 how=f"PYTHONPATH={REPO} {PY} {ROOT}/harness/run.py {prop} --seed {seed} --tier {tier}"),
            open(replay, "w"), indent=1, default=lambda o: sorted(o) if isinstance(o, set) else str(o))
  print(f"VIOLATION property={prop} replay={replay}" + ("" if hf else " no-failing-input-found"))
  return 1


def known_findings():
  out = {}
  p = os.path.join(ROOT, "known_findings.txt")
  if os.path.exists(p):
    for line in open(p):
      if line.startswith("KNOWN-FINDING:"):
        d = line[len("KNOWN-FINDING:"):].strip()
        kv = dict(x.split("=", 1) for x in d.split()[:2])
        out[(kv["property"], kv["key"])] = d.split(None, 2)[2]
  return out


if __name__ == "__main__":
  sys.exit(main())
