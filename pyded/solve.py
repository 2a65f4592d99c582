"""Discharge of obligations: z3 by instantiation, z3 default, cvc5."""
import multiprocessing as mp
import os
import shutil
import time
import z3
from .logic import *

Z3OLD = "/usr/bin/z3"
Z3NEW = shutil.which("z3-new")
TIERS = {
    "quick": [("z3old-r0", 5), ("z3-inst", 4), ("z3old-a2", 8), ("z3", 8), ("cvc5", 15)],
    "thorough": [("z3old-r0", 20), ("z3-inst", 20), ("z3old-a2", 40), ("z3", 40), ("cvc5", 90)],
}
OLD_OPTS = {"z3old-r0": ["smt.mbqi=false", "smt.relevancy=0"], "z3old-a2": ["smt.mbqi=false", "smt.arith.solver=2"]}


def symbols(e, out, seen):
  """function symbols and class codes of a formula."""
  st = [e]
  while st:
    t = st.pop()
    if t.get_id() in seen:
      continue
    seen.add(t.get_id())
    if z3.is_quantifier(t):
      st.append(t.body())
      for i in range(t.num_patterns()):
        st.append(t.pattern(i))
      continue
    if z3.is_app(t):
      if z3.is_int_value(t):
        n = t.as_long()
        if 1000 <= n < 100000:
          out.add(n)
      elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        out.add(t.decl().name())
      elif t.decl().kind() in (z3.Z3_OP_DT_CONSTRUCTOR, z3.Z3_OP_DT_ACCESSOR):
        out.add("dt")
      st.extend(t.children())


class Relevance:
  """axioms whose triggers can match something in an obligation (dropping
  axioms only makes an obligation harder to discharge)."""

  def __init__(self, axioms):
    self.items = []
    for a in axioms:
      allsyms = set()
      symbols(a, allsyms, set())
      trig = []
      if z3.is_quantifier(a):
        for i in range(a.num_patterns()):
          ps = set()
          symbols(a.pattern(i), ps, set())
          trig.append(frozenset(ps))
      else:
        trig.append(frozenset(allsyms))
      if not trig:
        trig = [frozenset()]
      self.items.append((a, trig, allsyms))

  def select(self, pc, goal):
    have, seen = {"dt", "clsof"}, set()
    for f in pc:
      symbols(f, have, seen)
    symbols(goal, have, seen)
    rest, out = list(range(len(self.items))), []
    changed = True
    while changed:
      changed = False
      nxt = []
      for i in rest:
        a, trig, syms = self.items[i]
        if any(t <= have for t in trig):
          out.append(i)
          n = len(have)
          have |= syms if z3.is_quantifier(a) else set()
          changed = changed or len(have) != n
        else:
          nxt.append(i)
      rest = nxt
    return [self.items[i][0] for i in sorted(out)]


def z3old_check(axioms, pc, goal, timeout, opts, exe=Z3OLD):
  import subprocess
  s = z3.Solver()
  for a in axioms:
    s.add(a)
  for a in pc:
    s.add(a)
  s.add(z3.Not(goal))
  txt = s.to_smt2()
  try:
    r = subprocess.run([exe, "-in", f"-T:{int(timeout)}"] + opts, input=txt, capture_output=True, text=True,
                       timeout=timeout + 10)
  except (subprocess.TimeoutExpired, FileNotFoundError):
    return "unknown"
  out = [x for x in r.stdout.strip().splitlines() if not x.startswith("WARNING")]
  if any(x.startswith("(error") for x in out):
    return "error"
  return out[-1] if out else "unknown"


def split(goal):
  """conjuncts of a goal (through implications and universal quantifiers)."""
  if z3.is_and(goal):
    out = []
    for c in goal.children():
      out.extend(split(c))
    return out
  if z3.is_not(goal) and z3.is_or(goal.arg(0)):
    return split(z3.And(*[z3.Not(c) for c in goal.arg(0).children()]))
  if z3.is_not(goal) and z3.is_not(goal.arg(0)):
    return split(goal.arg(0).arg(0))
  if z3.is_not(goal) and z3.is_implies(goal.arg(0)):
    return split(z3.And(goal.arg(0).arg(0), z3.Not(goal.arg(0).arg(1))))
  if z3.is_implies(goal):
    r = split(goal.arg(1))
    if len(r) > 1:
      return [z3.Implies(goal.arg(0), x) for x in r]
  return [goal]


def z3_check(axioms, pc, goal, timeout, inst):
  s = z3.Solver()
  s.set("timeout", int(timeout * 1000))
  if inst:
    s.set("mbqi", False)
  for a in axioms:
    s.add(a)
  for a in pc:
    s.add(a)
  s.add(z3.Not(goal))
  r = s.check()
  return r, s


def cvc5_check(axioms, pc, goal, timeout):
  import subprocess
  import tempfile
  s = z3.Solver()
  for a in axioms:
    s.add(a)
  for a in pc:
    s.add(a)
  s.add(z3.Not(goal))
  txt = "(set-logic ALL)\n" + s.to_smt2()
  with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
    f.write(txt)
  try:
    r = subprocess.run(["cvc5", "--tlimit", str(int(timeout * 1000)), f.name], capture_output=True, text=True,
                       timeout=timeout + 10)
    out = r.stdout.strip().splitlines()
    return out[-1] if out else ("timeout" if "timeout" in r.stderr + r.stdout else "error")
  except subprocess.TimeoutExpired:
    return "unknown"
  finally:
    os.unlink(f.name)


def discharge(axioms, pc, goal, tiers):
  """-> (ok, backend, seconds, detail)"""
  t0 = time.time()
  g = z3.simplify(goal)
  if z3.is_true(g):
    return True, "simplifier", time.time() - t0, ""
  detail = ""
  axioms = axioms.select(pc, g) if isinstance(axioms, Relevance) else axioms
  for be, to in tiers:
    if be in OLD_OPTS:
      r = z3old_check(axioms, pc, goal, to, OLD_OPTS[be])
      if r == "unsat":
        return True, "z3-4.8.12", time.time() - t0, ""
      detail += f" {be}:{r}"
      continue
    if be == "cvc5":
      r = cvc5_check(axioms, pc, goal, to)
      if r == "unsat":
        return True, "cvc5", time.time() - t0, ""
      detail += f" cvc5:{r}"
      continue
    if Z3NEW:
      r = z3old_check(axioms, pc, goal, to, ["smt.mbqi=false"] if be == "z3-inst" else [], Z3NEW)
      if r == "unsat":
        return True, be, time.time() - t0, ""
      detail += f" {be}:{r}"
      if r == "sat" and be == "z3":
        return False, be, time.time() - t0, detail
      continue
    r, s = z3_check(axioms, pc, goal, to, be == "z3-inst")
    if r == z3.unsat:
      return True, be, time.time() - t0, ""
    detail += f" {be}:{r}"
    if r == z3.sat:
      try:
        detail += " model:" + str(s.model())[:2000]
      except z3.Z3Exception:
        pass
      return False, be, time.time() - t0, detail
  return False, "none", time.time() - t0, detail


def _work(args):
  i, goal_i = args
  ob, goal = _TASKS[i]
  if ob.kind.startswith("cover"):
    t0 = time.time()
    ax = _AX.select(ob.pc, z3.BoolVal(False))
    if Z3NEW:
      r = z3old_check(ax, ob.pc, z3.BoolVal(False), 4, ["smt.mbqi=false"], Z3NEW)
    else:
      r = str(z3_check(ax, ob.pc, z3.BoolVal(False), 4, True)[0])
    return i, r != "unsat", "z3-inst", time.time() - t0, r
  ok, be, t, d = discharge(_AX, ob.pc, goal, _TIERS if ob.kind != "subset" else [])
  return i, ok, be, t, d


def run_tasks(n, jobs, limit):
  """each task in batches in forked processes with a hard deadline (a solver that
  ignores its own limit, or a child stuck in a fork, is killed and run again once)."""
  import pickle
  import select
  import signal
  batch = max(1, min(6, n // (2 * jobs)))
  todo = [list(range(i, min(n, i + batch))) for i in range(0, n, batch)]
  todo.reverse()
  tried = {}
  running = {}   # fd -> [pid, remaining ids, deadline, buffer]
  while todo or running:
    while todo and len(running) < jobs:
      ids = todo.pop()
      rd, wr = os.pipe()
      pid = os.fork()
      if pid == 0:
        try:
          os.close(rd)
          os.setpgid(0, 0)
          for i in ids:
            b = pickle.dumps(_work((i, None)))
            os.write(wr, len(b).to_bytes(4, "big") + b)
        finally:
          os._exit(0)
      os.close(wr)
      running[rd] = [pid, ids, time.time() + limit, b""]
    ready, _, _ = select.select(list(running), [], [], 1.0)
    for fd in list(running):
      pid, ids, dl, buf = running[fd]
      dead = False
      if fd in ready:
        data = os.read(fd, 1 << 16)
        buf += data
        while len(buf) >= 4 and len(buf) >= 4 + int.from_bytes(buf[:4], "big"):
          m = int.from_bytes(buf[:4], "big")
          out = pickle.loads(buf[4:4 + m])
          buf = buf[4 + m:]
          ids = [j for j in ids if j != out[0]]
          dl = time.time() + limit
          yield out
        running[fd] = [pid, ids, dl, buf]
        dead = not data
      if not dead and time.time() <= dl:
        continue
      try:
        os.killpg(pid, signal.SIGKILL)
      except OSError:
        pass
      os.waitpid(pid, 0)
      os.close(fd)
      del running[fd]
      if ids:
        first = ids[0]
        tried[first] = tried.get(first, 0) + 1
        if tried[first] >= 2:
          # (a path condition that was not refuted counts as reachable)
          yield first, _TASKS[first][0].kind.startswith("cover"), "none", float(limit), " the solver did not answer within its deadline"
          ids = ids[1:]
        if ids:
          todo.append(ids)


_TASKS = _AX = _TIERS = None


def solve(obls, axioms, tier="quick", jobs=None, tiers=None):
  """-> list of dict(name, ok, backend, s, detail, loc, kind) in order of obls."""
  global _TASKS, _AX, _TIERS
  _AX, _TIERS = Relevance(axioms), tiers or TIERS[tier]
  _TASKS = []
  back = []
  for k, ob in enumerate(obls):
    parts = split(ob.goal) if not ob.kind.startswith("cover") else [ob.goal]
    for g in parts:
      _TASKS.append((ob, g))
      back.append(k)
  res = [dict(name=ob.name, ok=True, backend=set(), s=0.0, detail="", loc=ob.loc, kind=ob.kind) for ob in obls]
  jobs = jobs or min(8, os.cpu_count() or 4)
  outs = {}
  for o in run_tasks(len(_TASKS), jobs, sum(x for _, x in _TIERS) + 20):
    outs[o[0]] = o
  # a busy machine: a few unanswered ones are tried again with more time
  again = [i for i, o in outs.items() if not o[1] and not _TASKS[i][0].kind.startswith("cover") and _TASKS[i][0].kind != "subset"
           and not o[4].rstrip().endswith(":sat")]
  if 0 < len(again) <= 4 and tiers is None:
    _TASKS_ALL, _TASKS_OLD = _TASKS, _TIERS
    _TIERS = [(b, 3 * t) for b, t in _TIERS]
    _TASKS = [_TASKS_ALL[i] for i in again]
    for o in run_tasks(len(_TASKS), jobs, sum(x for _, x in _TIERS) + 20):
      k = again[o[0]]
      if o[1]:
        outs[k] = (k,) + tuple(o[1:])
    _TASKS, _TIERS = _TASKS_ALL, _TASKS_OLD
  for i, ok, be, t, d in outs.values():
    r = res[back[i]]
    r["ok"] = r["ok"] and ok
    r["backend"].add(be)
    r["s"] += t
    if not ok:
      r["detail"] += d + " goal: " + str(_TASKS[i][1])[:1500]
  # a contract needs at least one normal return that is not contradictory
  groups = {}
  for r in res:
    if r["kind"] == "cover-any":
      groups.setdefault(r["name"], []).append(r)
  for rs in groups.values():
    if any(r["ok"] for r in rs):
      for r in rs:
        r["ok"] = True
  for r in res:
    r["backend"] = "+".join(sorted(r["backend"])) or "none"
  return res
