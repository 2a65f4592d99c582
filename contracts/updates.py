"""C05: updates of modules and pure modules change exactly the updated paths; the last update wins.

SETS         ghost: the assignments made so far, path -> value
final(m, p)  the object that holds the last part of path p below m; okpath(m, p): the path exists
"""
from pyded.spec import *
from pyded.loops import LoopSpec, kpos, kseq, kmark
from .containers import cd, isc, plain, wf_container, eqv, VAL
from .tracers import tracer_config, wf_module, valid, module_trace_state, MODULE, MST, trace_context, SetAttr
from .states import state_config, sym_state, wf_state, wf_state_q, contents, STATE, StateMerge
from .graph import ismod
from .calls13 import bound, PURE, MDEF
from . import tracers as _t, states as _s

USES = ("tracers", "states", "graph")
SETS = -777000011
UM, SP, GS = "nnx.module._update_module", "nnx.module._set_value_at_path", "nnx.module._get_module_state"
final = F("final", V, V, V)
okpath = F("okpath", V, V, Bool)
SLASH = S("/")


def split_axioms():
  """'/'.join(s.split('/')) is s"""
  s = z3.Const("s!sj", V)
  return [forall([s], Implies(V.is_SV(s), sjoin(SLASH, ssplit(s, SLASH)) == s), ssplit(s, SLASH))]


def mod_or_state(ex):
  state_config(ex)
  q = list(ex.query_classes)
  tracer_config(ex)
  ex.query_classes = q


class SetAtPath(Contract):
  """only the attribute named by the path is assigned, as an attribute assignment does."""
  props = ("C05",)
  target = SP
  params = ("module", "path_parts", "value")
  config = lambda self, ex: tracer_config(ex)

  def parts(self, ex, a, h=None):
    p = a.path_parts
    if isinstance(p, tuple):
      return ex.lift(p)
    p = ex.lift(p)
    if hasattr(a, "_parts"):
      return a._parts
    a._parts = ex.lift(ex.to_tuple(a.path_parts))
    return a._parts

  def setup(self, ex, a):
    a.module = ex.sym("module", MODULE)
    trace_context(ex)
    if ex.choose(2):
      a.path_parts = ex.sym("path_parts", "tuple")
    else:
      a.path_parts = ex.sym("path_parts", "list")
    a.value = ex.sym("value")

  def unfold(self, ex, a):
    m, p = ex.lift(a.module), self.parts(ex, a)
    h = ex.heap
    nxt = cd(h, m)[tget(p, 0)]
    rest = tslice(p, 1, tlen(p))
    ex.assume(final(m, p) == If(tlen(p) == 1, m, final(nxt, rest)))
    ex.assume(okpath(m, p) == If(tlen(p) == 1, wf_module(ex, h, m), And(tlen(p) > 1, ismod(ex, m), nxt != Abs, ismod(ex, nxt), V.rval(nxt) < 0, age(nxt) <= 0, okpath(nxt, rest))))

  def proxy(self, ex, a):
    """the assignment the path stands for."""
    if not hasattr(a, "_as"):
      p = self.parts(ex, a)
      from pyded.spec import Args
      b = Args()
      b.self = ex.named(final(ex.lift(a.module), p))
      b.name = ex.named(tget(p, tlen(p) - 1))
      b.value = a.value
      ex.hint(b.self, "nnx:" + MODULE)
      ex.hint(b.name, "str")
      a._as = b
    return a._as

  def requires(self, ex, a):
    h = ex.heap
    m, p = ex.lift(a.module), self.parts(ex, a)
    self.unfold(ex, a)
    v = ex.lift(a.value)
    i = z3.Int("i!sp")
    b = self.proxy(ex, a)
    old = cd(h, b.self)[b.name]
    return [("nothing was assigned before", z3.BoolVal(ex.heap is ex.h0 or not [w for w in ex.writes])),
            ("a module", And(ismod(ex, m), V.rval(m) < 0)), ("the path exists", And(tlen(p) >= 1, okpath(m, p))),
            ("of names", forall([i], Implies(And(0 <= i, i < tlen(p)), V.is_SV(tget(p, i))), tget(p, i))),
            ("a module holds the last name", wf_module(ex, h, b.self)),
            ("the old attribute is well formed", Implies(isc(ex, old, "nnx.containers.Container"), wf_container(ex, old))),
            ("the value is plain or a container", And(v != Abs, Or(plain(ex, v), wf_container(ex, v))))]

  def raises(self, ex, a):
    return SetAttr.raises(self, ex, self.proxy(ex, a))

  def old(self, ex, a, h):
    return SetAttr.old(self, ex, a, h)

  def modifies(self, ex, a, h0, i):
    return i == V.rval(self.proxy(ex, a).self)

  def result(self, ex, a, h0):
    return None

  def ensures(self, ex, a, h0, r):
    return SetAttr.ensures(self, ex, self.proxy(ex, a), h0, r)

  def on_raise(self, ex, a, h0, exc):
    return SetAttr.on_raise(self, ex, self.proxy(ex, a), h0, exc)


class UpdateModule(Contract):
  """each path of the current state and the updates is assigned once, with the value of the last one that has it."""
  props = ("C05",)
  target = UM
  params = ("module", "current_state", "updates")
  callable = False

  def config(self, ex):
    mod_or_state(ex)
    ex.call_hooks[SP] = self.assigned

  def assigned(self, ex, pf, args, kw):
    m, p, v = list(args) + [kw[n] for n in ("module", "path_parts", "value")[len(args):]]
    p = ex.lift(ex.to_tuple(p))
    v = ex.lift(v)
    path = ex.named(sjoin(SLASH, p))
    ex.prove("assigned on the module given", ex.lift(m) == ex.lift(ex.spec_args.module))
    ex.prove("no part of the path holds a slash", And(V.is_SV(path), p == ssplit(path, SLASH)))
    ex.prove("each path is assigned once", ex.heap.D(z3.IntVal(SETS))[path] == Abs)
    ex.write("D", z3.IntVal(SETS), z3.Store(ex.heap.D(z3.IntVal(SETS)), path, v))
    return None

  def setup(self, ex, a):
    a.module = ex.sym("module", MODULE)
    a.current_state = sym_state(ex, "current")
    ex.single = ex.choose(2)
    ex.loop_specs = ex.the_loops[1:] if ex.single else ex.the_loops     # a loop over two given states is executed
    if ex.single:
      a.updates = sym_state(ex, "update")
      a._ups = mk(a.updates)
    else:
      a.updates = ex.sym("updates", "tuple")
      a._ups = a.updates
    k = z3.Const("k!um", V)
    i = z3.Int("i!um")
    ex.assume(forall([k], ex.heap.D(z3.IntVal(SETS))[k] == Abs, ex.heap.D(z3.IntVal(SETS))[k]))
    q = ex.lift(a._ups)
    ex.assume(forall([i], Implies(And(0 <= i, i < tlen(q)), And(wf_state_q(ex, ex.heap, tget(q, i)), mp(ex.heap, tget(q, i)) != SETS)), tget(q, i)))
    ex.assume(And(mp(ex.heap, a.current_state) != SETS))
    a._all = ex.named(ex.lift(ex.t_cat((a.current_state,), ex.lower(q))))
    ex.hint(a._all, "tuple")
    ex.assume(And(V.is_TV(a._all), tlen(a._all) == tlen(q) + 1))

  def op(self, ex, a, j):
    return contents(ex.h0, tget(a._all, j))

  def lastop(self, ex, a):
    if not hasattr(a, "_lo"):
      a._lo = ex.fresh_fn("lastop", V, Int, Int)
    return a._lo

  def loops(self, ex):
    def inv1(L):
      a = ex.spec_args
      i = z3.simplify(L.i)
      lo = self.lastop(ex, a)
      k = z3.Const("k!lo", V)
      j = z3.Int("j!mi")
      ex.assume(forall([k], lo(k, 0) == -1, lo(k, 0)))
      ex.assume(forall([k], lo(k, i + 1) == If(self.op(ex, a, i)[k] != Abs, i, lo(k, i)), lo(k, i + 1)))
      d = L.fresh_objs("dict")
      if len(d) != 1:
        raise Unsupported("one new dictionary expected")
      N = ex.content(d[0])
      return [("paths are strings", forall([k], Implies(N[k] != Abs, V.is_SV(k)), N[k])),
              ("entries come from the last operand that has them",
               forall([k], N[k] == If(lo(k, i) < 0, Abs, self.op(ex, a, lo(k, i))[k]), N[k], lo(k, i))),
              ("last operand", forall([k], And(-1 <= lo(k, i), lo(k, i) < i,
                                               Implies(lo(k, i) >= 0, self.op(ex, a, lo(k, i))[k] != Abs)), lo(k, i))),
              ("later operands have no entry", forall([k, j], Implies(And(0 <= j, lo(k, i) < j, j < i), self.op(ex, a, j)[k] == Abs),
                                                      [lo(k, i), tget(a._all, j)]))]

    def inv2(L):
      a = ex.spec_args
      i = z3.simplify(L.i)
      d = L.fresh_objs("dict")
      if len(d) != 1:
        raise Unsupported("one new dictionary expected")
      did = V.rval(d[0])
      M, O = ex.named(L.h0.D(did)), ex.named(L.h0.O(did))
      T = ex.named(ex.heap.D(z3.IntVal(SETS)))
      k = z3.Const("k!i2", V)
      return [("the paths so far are assigned, with their values",
               forall([k], T[k] == If(And(M[k] != Abs, kpos(M, O, k) < i), M[k], Abs), T[k], M[k]))]
    second = LoopSpec(inv2, modifies=lambda L, i: i == SETS, comps=("D",))
    ex.the_loops = [LoopSpec(inv1), second]
    return ex.the_loops

  def modifies(self, ex, a, h0, i):
    return i == SETS

  def ensures(self, ex, a, h0, r):
    T = ex.named(ex.heap.D(z3.IntVal(SETS)))
    if ex.single:
      A, B = ex.named(self.op(ex, a, z3.IntVal(0))), ex.named(self.op(ex, a, z3.IntVal(1)))
      k = z3.Const("k!ue", V)
      return [("every path with the value of the last state that has it", forall([k], T[k] == If(B[k] != Abs, B[k], A[k]), T[k], A[k], B[k]))]
    lo = self.lastop(ex, a)
    n = tlen(a._all)
    k = z3.Const("k!ue", V)
    j = z3.Int("j!ue")
    q = lo(k, n)
    return [("every path with the value of the last state that has it", forall([k], And(
        -1 <= q, q < n, Implies(q >= 0, And(self.op(ex, a, q)[k] != Abs, T[k] == self.op(ex, a, q)[k])), Implies(q < 0, T[k] == Abs)), T[k])),
            ("the last one", forall([k, j], Implies(And(0 <= j, q < j, j < n), self.op(ex, a, j)[k] == Abs), [T[k], tget(a._all, j)]))]


def mp(h, s):
  return V.rval(cd(h, s)[S("_mapping")])


def cfg(ex):
  mod_or_state(ex)


def sources(ex, which):
  """an update and the states it stands for (a tuple term), or None if it is refused."""
  if which == 0:
    u = ex.sym("update", STATE)
    return u, mk(u)
  if which == 1:
    u = ex.sym("updates", "tuple")
    ex.assume(clsof(u) == C("tuple"))
    return u, u
  new = ex.getattr_(ClassV(ex.cls(PURE)), "new")
  d = ex.sym("other_def", MDEF)
  if which == 2:
    u = ex.sym("update", STATE)
    return ex.call(new, [u, d], {}), mk(u)
  u = ex.sym("updates", "tuple")
  ex.assume(clsof(u) == C("tuple"))
  return ex.call(new, [u, d], {}), u


def same_seq(ex, what, got, want):
  i = z3.Int("i!ss")
  got, want = ex.named(got), ex.named(want)
  ex.prove(f"{what}: as many states", tlen(got) == tlen(want))
  ex.prove(f"{what}: in order", forall([i], Implies(And(0 <= i, i < tlen(want)), tget(got, i) == tget(want, i)), tget(got, i)))


def module_update(ex):
  cfg(ex)
  trace_context(ex)
  m = ex.sym("self", MODULE)
  other = ex.sym("other", MODULE)
  st = {}
  log = []

  def state_of(ex, pf, args, kw):
    ex.prove("the state is read before any assignment", z3.BoolVal(not log))
    s = ex.lift(args[0])
    if ex.branch(s == m):
      who = "self"
    else:
      ex.prove("the state of the module or of the update is read", s == other)
      who = "other"
    if who not in st:
      st[who] = ex.sym("state_of_" + who, STATE)
    return st[who]
  ex.call_hooks[GS] = state_of

  def upd(ex, pf, args, kw):
    log.append(list(args) + [kw[n] for n in ("module", "current_state", "updates")[len(args):]])
    return None
  ex.call_hooks[UM] = upd
  which = ex.choose(5)
  if which == 4:
    u, want = other, None
  else:
    u, want = sources(ex, which)
  ex.prove("cover: arguments exist", z3.BoolVal(False), kind="cover")
  n0 = len(ex.writes)
  refused = False
  try:
    r = ex.call_method(m, "update_state", [u])
  except Raised as e:
    ex.prove("only a module of another class is refused", And(z3.BoolVal(which == 4 and ex.exc_name(e.exc) in ("AssertionError", "ValueError", "TypeError")), clsof(other) != clsof(m)))
    ex.prove("before anything is assigned", z3.BoolVal(not log))
    refused = True
  if not refused:
    ex.prove("updated once", z3.BoolVal(len(log) == 1))
    mod, cur, up = log[0]
    ex.prove("the module itself is updated", ex.lift(mod) == m)
    ex.prove("over its own state", ex.lift(cur) == st["self"] if "self" in st else z3.BoolVal(False))
    if which == 4:
      ex.prove("with the state of the other module, of the same class", And(clsof(other) == clsof(m), z3.BoolVal("other" in st or True)))
      want = mk(st["other"]) if "other" in st else mk(st["self"])
      if "other" not in st:
        ex.prove("which is the module itself", other == m)
    up = ex.lift(up)
    if ex.branch(V.is_TV(up)):
      same_seq(ex, "the updates", up, want)
    else:
      ex.prove("the updates: the one state", mk(up) == want)
    ex.prove("returns nothing", ex.lift(r) == NoneV)
  for w in ex.writes[n0:]:
    ex.prove("nothing is written directly", w[1] >= ex.h0.alloc if w[0] != "havoc" and ex.h0 is not None else z3.BoolVal(False), kind="frame")


def pure_update(ex):
  cfg(ex)
  trace_context(ex)
  d = ex.sym("moduledef", MDEF)
  new = ex.getattr_(ClassV(ex.cls(PURE)), "new")
  if ex.choose(2):
    own = ex.sym("state", STATE)
    mine = mk(own)
  else:
    own = mine = ex.sym("states", "tuple")
    ex.assume(And(tlen(own) >= 1, clsof(own) == C("tuple")))
  p = ex.call(new, [own, d], {})
  other = ex.sym("other", MODULE)
  log, st = [], []

  def state_of(ex, pf, args, kw):
    ex.prove("the state of the update is read", bound(ex, pf, list(args)) == other)
    st.append(ex.sym("state_of_other", STATE))
    return st[-1]
  ex.call_hooks[MODULE + ".get_state"] = state_of
  out = ex.sym("merged", STATE)

  def merged(ex, pf, args, kw):
    seq = ex.lift(ex.t_cat(tuple(args[:-1]), args[-1].seq)) if args and isinstance(args[-1], Star) else mk(*[ex.lift(x) for x in args])
    log.append(seq)
    return out
  ex.call_hooks[STATE + ".merge"] = merged
  which = ex.choose(6)
  want = None
  if which == 4:
    u = other
  elif which == 5:
    u = ex.sym("anything")
    x = ex.lift(u)
    ex.assume(And(Not(ex.isinst_term(x, ex.cls(MODULE))), Not(ex.isinst_term(x, ex.cls(PURE))), Not(ex.isinst_term(x, ex.cls(STATE))), Not(V.is_TV(x))))
  else:
    u, want = sources(ex, which)
  ex.prove("cover: arguments exist", z3.BoolVal(False), kind="cover")
  n0 = len(ex.writes)
  al = ex.heap.alloc
  try:
    r = ex.call_method(p, "update_state", [u])
  except Raised as e:
    ex.prove("exactly other kinds of updates are refused", z3.BoolVal(which == 5 and ex.exc_name(e.exc) == "TypeError"))
    ex.prove("without merging anything", z3.BoolVal(not log))
    return
  ex.prove("other kinds of updates are refused", z3.BoolVal(which != 5))
  if which == 5:
    return
  if which == 4:
    ex.prove("the other module's state is taken", z3.BoolVal(len(st) == 1))
    want = mk(st[0])
  ex.prove("merged once", z3.BoolVal(len(log) == 1))
  if len(log) == 1:
    same_seq(ex, "own states, then the updates", log[0], ex.lift(ex.t_cat(ex.lower(mine), ex.lower(want))))
  r = ex.lift(r)
  ex.prove("a new pure module: the merged state and the definition as it was",
           And(V.is_TV(r), clsof(r) == ex.ccode(ex.cls(PURE)), tlen(r) == 2, tget(r, 0) == out, tget(r, 1) == d))
  for w in ex.writes[n0:]:
    ex.prove("nothing that existed is written", w[1] >= al if w[0] != "havoc" else z3.BoolVal(False), kind="frame")


class Merge5(StateMerge):
  props = ("C05",)
  callable = False


SPECS = [SetAtPath(), UpdateModule(), Lemma("nnx.module.Module.update_state", module_update, config=cfg, props=("C05",)),
         Lemma("nnx.module.Pure.update_state", pure_update, config=cfg, props=("C05",)), Merge5()]
REGISTRY = list(_t.REGISTRY) + list(_s.SPECS) + SPECS
AXIOMS = split_axioms
