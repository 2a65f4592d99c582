"""C06 / C09: trace levels, and attribute access of modules.

cur_jax      the innermost JAX trace (what JAX reports for no values)
cur_nnx(h)   the last element of the thread's nnx trace stack under h
valid(h, t)  the trace state t names exactly these two
"""
from pyded.spec import *
from pyded.interp import meq
from .containers import CONT, VAL, cd, isc, plain, wf_container, eqv, container_config
from . import containers as _c

USES = ("containers",)
JT = z3.Const("cur_jax_trace", V)
TC = z3.Const("TRACE_CONTEXT", V)
TCLS = "nnx.tracers.TraceContext"
TST = "nnx.tracers.TraceState"
MODULE = "nnx.module.Module"
MSTATE = "nnx.module.ModuleState"
STACK, MST = "nnx_trace_stack", "_module__state"


def trace_context(ex):
  ex.hint(TC, "nnx:" + TCLS)
  ex.assume(And(V.is_RV(TC), age(TC) <= 0, V.rval(TC) < 0, subc(clsof(TC), ex.ccode(ex.cls(TCLS)))))
  return TC


def top_trace(ex, args, kwargs):
  """jax.core.find_top_trace of no values is the innermost trace."""
  r = z3.Const("jax_top_trace", V)
  ex.assume(And(V.is_XV(r), args[0] == z3.Const("no_leaves", V)) if isV(args[0]) else z3.BoolVal(True))
  ex.assume(F("attr.main", V, V)(r) == JT)
  return r


def tree_leaves_of_nothing(ex, args, kwargs):
  if args and isinstance(args[0], tuple) and len(args[0]) == 0:
    return z3.Const("no_leaves", V)
  return ex.opaque_call_named("jax.tree_util.tree_leaves", args, kwargs)


def find_top(ex, args, kwargs):
  if args and isV(args[0]) and args[0].eq(z3.Const("no_leaves", V)):
    return top_trace(ex, args, kwargs)
  return ex.opaque_call_named("jax.core.find_top_trace", args, kwargs)


def tracer_config(ex):
  container_config(ex)
  ex.query_classes = list(ex.query_classes) + [MODULE, MSTATE, TST]
  ex.global_over["nnx.tracers.TRACE_CONTEXT"] = trace_context
  ex.ext_handlers["jax.core.find_top_trace"] = find_top
  ex.ext_handlers["jax.tree_util.tree_leaves"] = tree_leaves_of_nothing

  def is_stack(ex, obj, val):
    ex.assume(And(val != Abs, V.is_RV(val), clsof(val) == C("list"), tlen(ex.heap.L(V.rval(val))) >= 1))
    ex.hint(val, "list")
  ex.field_inv[(TCLS, STACK)] = is_stack

  def present(ex, obj, val):
    ex.assume(val != Abs)
  for f in ("_jax_trace", "_nnx_trace"):
    ex.field_inv[(TST, f)] = present
  for f in ("is_initializing", "_id"):
    ex.field_inv[(MSTATE, f)] = present

  def is_ts(ex, obj, val):
    ex.assume(And(val != Abs, V.is_RV(val), subc(clsof(val), ex.ccode(ex.cls(TST)))))
    ex.hint(val, "nnx:" + TST)
  ex.field_inv[(MSTATE, "_trace_state")] = is_ts

  def is_ms(ex, obj, val):
    ex.assume(And(val != Abs, V.is_RV(val), subc(clsof(val), ex.ccode(ex.cls(MSTATE)))))
    ex.hint(val, "nnx:" + MSTATE)
  ex.field_inv[(MODULE, MST)] = is_ms


def stack_id(h):
  return V.rval(h.D(V.rval(TC))[S(STACK)])


def stack(h):
  return h.L(stack_id(h))


def cur_nnx(h):
  s = stack(h)
  return tget(s, tlen(s) - 1)


def valid(h, t):
  D = h.D(V.rval(t))
  return And(D[S("_jax_trace")] == JT, D[S("_nnx_trace")] == cur_nnx(h))


def wf_stack(ex, h):
  st = h.D(V.rval(TC))[S(STACK)]
  trace_context(ex)
  return And(V.is_RV(st), clsof(st) == C("list"), tlen(stack(h)) >= 1, V.rval(st) < h.alloc)


def module_trace_state(h, m):
  ms = h.D(V.rval(m))[S(MST)]
  return h.D(V.rval(ms))[S("_trace_state")]


def wf_module(ex, h, m):
  ms = h.D(V.rval(m))[S(MST)]
  ts = h.D(V.rval(ms))[S("_trace_state")]
  D = h.D(V.rval(ts))
  return And(V.is_RV(m), subc(clsof(m), ex.ccode(ex.cls(MODULE))), V.is_RV(ms), subc(clsof(ms), ex.ccode(ex.cls(MSTATE))),
             V.is_RV(ts), subc(clsof(ts), ex.ccode(ex.cls(TST))), D[S("_jax_trace")] != Abs, D[S("_nnx_trace")] != Abs,
             wf_stack(ex, h))


class CurrentJax(Contract):
  props = ("C06",)
  target = "nnx.tracers.current_jax_trace"
  params = ()
  pure = True
  config = lambda self, ex: tracer_config(ex)

  def setup(self, ex, a):
    pass

  def ensures(self, ex, a, h0, r):
    return [("the innermost JAX trace", ex.lift(r) == JT)]


class CurrentNnx(Contract):
  props = ("C06",)
  target = "nnx.tracers.current_nnx_trace"
  params = ()
  pure = True
  config = lambda self, ex: tracer_config(ex)

  def setup(self, ex, a):
    trace_context(ex)

  def requires(self, ex, a):
    return [("the trace stack is not empty", wf_stack(ex, ex.heap))]

  def ensures(self, ex, a, h0, r):
    return [("the innermost nnx trace", ex.lift(r) == cur_nnx(h0))]


class TraceStateInit(Contract):
  props = ("C06",)
  target = "nnx.tracers.TraceState.__init__"
  params = ("self",)
  config = lambda self, ex: tracer_config(ex)

  def setup(self, ex, a):
    a.self = ex.sym("self", TST)
    trace_context(ex)

  def requires(self, ex, a):
    return [("the trace stack is not empty", wf_stack(ex, ex.heap)), ("a trace state", isc(ex, ex.lift(a.self), TST))]

  def modifies(self, ex, a, h0, i):
    return i == V.rval(ex.lift(a.self))

  def result(self, ex, a, h0):
    return None

  def ensures(self, ex, a, h0, r):
    D, D0 = cd(ex.heap, ex.lift(a.self)), cd(h0, ex.lift(a.self))
    k = z3.Const("k!ti", V)
    return [("records both current traces", And(D[S("_jax_trace")] == JT, D[S("_nnx_trace")] == cur_nnx(h0))),
            ("and nothing else", forall([k], Implies(And(k != S("_jax_trace"), k != S("_nnx_trace")), D[k] == D0[k]), D[k])),
            ("the trace stack is unchanged", And(stack_id(ex.heap) == stack_id(h0), stack(ex.heap) == stack(h0)))]


class IsValid(Contract):
  props = ("C06", "C09")
  target = "nnx.tracers.TraceState.is_valid"
  params = ("self",)
  pure = True
  config = lambda self, ex: tracer_config(ex)

  def setup(self, ex, a):
    a.self = ex.sym("self", TST)
    trace_context(ex)

  def requires(self, ex, a):
    D = cd(ex.heap, ex.lift(a.self))
    return [("the trace stack is not empty", wf_stack(ex, ex.heap)), ("a trace state", isc(ex, ex.lift(a.self), TST)),
            ("with both traces recorded", And(D[S("_jax_trace")] != Abs, D[S("_nnx_trace")] != Abs))]

  def result(self, ex, a, h0):
    return ex.fresh("valid", Bool)

  def ensures(self, ex, a, h0, r):
    r = r if isinstance(r, bool) or has_sort(r, Bool) else ex.truth(r)
    return [("exactly when both recorded traces are current", ex.as_bool(r) == valid(h0, ex.lift(a.self)))]


def nnx_trace_lemma(ex):
  """whatever the block does, normally or by an exception, the trace stack is as on entry."""
  trace_context(ex)
  ex.assume(wf_stack(ex, ex.heap))
  t = ex.sym("trace")
  h0 = ex.heap
  s0, id0 = stack(h0), stack_id(h0)
  exc = ex.choose(2) == 1
  fi, _ = ex.func("nnx.tracers.nnx_trace")
  ex.writes = []
  cm = ex.call_func(PyFunc(fi), [t], {})
  entered = []

  def body(val):
    h1 = ex.heap
    entered.append(1)
    ex.prove("inside the scope the given trace is the innermost", cur_nnx(h1) == t)
    ex.prove("the enclosing traces stay below it", And(tlen(stack(h1)) == tlen(s0) + 1, stack_id(h1) == id0))
    # an arbitrary block that leaves the stack as it found it (nested scopes do: this lemma)
    w, ex.writes = ex.writes, None
    ex.havoc_heap("block", lambda i: And(i != id0, i != V.rval(TC)))
    ex.writes = w
    if exc:
      ex.raise_exc("ValueError")
  try:
    ex.run_generator_cm(cm, body)
    ex.prove("a normal exit stays normal", z3.BoolVal(not exc))
  except Raised as e:
    ex.prove("the exception of the block comes out", z3.BoolVal(exc and ex.exc_matches(e.exc, "ValueError")))
  ex.prove("the block runs exactly once", z3.BoolVal(len(entered) == 1))
  h2 = ex.heap
  i = z3.Int("i!nt")
  ex.prove("the same stack object is in force", stack_id(h2) == id0)
  ex.prove("the stack has its length back", tlen(stack(h2)) == tlen(s0))
  ex.prove("and every element", forall([i], Implies(And(0 <= i, i < tlen(s0)), tget(stack(h2), i) == tget(s0, i)), tget(stack(h2), i)))
  ex.prove("so the innermost trace is the one on entry", cur_nnx(h2) == cur_nnx(h0))
  for w in ex.writes:
    ex.prove("only the trace stack is written", And(w[1] == id0, z3.BoolVal(w[0] == "L")), kind="frame")


class NnxTrace(Lemma):
  props = ("C06",)

  def __init__(self):
    super().__init__("nnx.tracers.nnx_trace", nnx_trace_lemma, config=tracer_config)


def module_arg(ex, a):
  a.self = ex.sym("self", MODULE)
  ex.assume(wf_module(ex, ex.heap, a.self))
  trace_context(ex)


class SetAttr(Contract):
  props = ("C06", "C09")
  target = "nnx.module.Module._setattr"
  params = ("self", "name", "value")
  config = lambda self, ex: tracer_config(ex)

  def setup(self, ex, a):
    module_arg(ex, a)
    a.name = ex.sym("name", "str")
    a.value = ex.sym("value")
    ex.branch(valid(ex.heap, module_trace_state(ex.heap, a.self)))
    old = cd(ex.heap, a.self)[a.name]
    if ex.branch(And(old != Abs, isc(ex, old, CONT))):
      ex.branch(isc(ex, a.value, CONT))

  def old(self, ex, a, h):
    return cd(h, ex.lift(a.self))[ex.lift(a.name)]

  def requires(self, ex, a):
    h = ex.heap
    old, v = self.old(ex, a, h), ex.lift(a.value)
    return [("a module", wf_module(ex, h, ex.lift(a.self))), ("the name is a string", V.is_SV(ex.lift(a.name))),
            ("the old attribute is well formed", Implies(isc(ex, old, CONT), wf_container(ex, old))),
            ("the value is plain or a container", And(v != Abs, Or(plain(ex, v), wf_container(ex, v))))]

  def raises(self, ex, a):
    h = ex.heap
    old, v = self.old(ex, a, h), ex.lift(a.value)
    oc, vc = And(old != Abs, isc(ex, old, CONT)), isc(ex, v, CONT)
    return [("TraceContextError", Not(valid(h, module_trace_state(h, ex.lift(a.self))))),
            ("ValueError", ex.ite(oc, ex.ite(vc, Not(eqv(h, old, v)), z3.BoolVal(False)), z3.BoolVal(False)))]

  def modifies(self, ex, a, h0, i):
    return i == V.rval(ex.lift(a.self))

  def result(self, ex, a, h0):
    return None

  def ensures(self, ex, a, h0, r):
    m, n, v = ex.lift(a.self), ex.lift(a.name), ex.lift(a.value)
    old = self.old(ex, a, h0)
    oc, vc = And(old != Abs, isc(ex, old, CONT)), isc(ex, v, CONT)
    D, D0 = cd(ex.heap, m), cd(h0, m)
    k = z3.Const("k!sa", V)
    new = D[n]
    N = ex.named(cd(ex.heap, new))
    fresh = And(V.is_RV(new), V.rval(new) >= h0.alloc)
    A, B = ex.named(cd(h0, old)), ex.named(cd(h0, v))
    inner = ex.ite(vc, B[S(VAL)], v)
    return [("only this attribute", forall([k], Implies(k != n, D[k] == D0[k]), D[k])),
            ("which exists", age(new) <= ex.heap.alloc),
            ("a container attribute keeps class and metadata, in a new container",
             Implies(oc, And(fresh, clsof(new) == clsof(old), forall([k], Implies(k != S(VAL), N[k] == A[k]), N[k])))),
            ("and holds the new value", Implies(oc, N[S(VAL)] == inner)),
            ("a container given to another attribute is copied",
             Implies(And(Not(oc), vc), And(fresh, clsof(new) == clsof(v), forall([k], N[k] == B[k], N[k])))),
            ("a plain value is stored as given", Implies(And(Not(oc), Not(vc)), new == v))]

  def on_raise(self, ex, a, h0, exc):
    m = ex.lift(a.self)
    k = z3.Const("k!sr", V)
    return [("a refused assignment changes no attribute", forall([k], cd(ex.heap, m)[k] == cd(h0, m)[k], cd(ex.heap, m)[k]))]


class DelAttr(Contract):
  props = ("C06",)
  target = "nnx.module.Module._delattr"
  params = ("self", "name")
  config = lambda self, ex: tracer_config(ex)

  def setup(self, ex, a):
    module_arg(ex, a)
    a.name = ex.sym("name", "str")

  def requires(self, ex, a):
    return [("a module", wf_module(ex, ex.heap, ex.lift(a.self))), ("the name is a string", V.is_SV(ex.lift(a.name)))]

  def raises(self, ex, a):
    h = ex.heap
    return [("TraceContextError", Not(valid(h, module_trace_state(h, ex.lift(a.self))))),
            ("AttributeError", cd(h, ex.lift(a.self))[ex.lift(a.name)] == Abs)]

  def modifies(self, ex, a, h0, i):
    return i == V.rval(ex.lift(a.self))

  def result(self, ex, a, h0):
    return None

  def ensures(self, ex, a, h0, r):
    m, n = ex.lift(a.self), ex.lift(a.name)
    D, D0 = cd(ex.heap, m), cd(h0, m)
    k = z3.Const("k!da", V)
    return [("exactly this attribute is gone", forall([k], D[k] == If(k == n, Abs, D0[k]), D[k]))]

  def on_raise(self, ex, a, h0, exc):
    m = ex.lift(a.self)
    k = z3.Const("k!dr", V)
    return [("a refused deletion changes no attribute", forall([k], cd(ex.heap, m)[k] == cd(h0, m)[k], cd(ex.heap, m)[k]))]


class SetAttrOp(SetAttr):
  target = "nnx.module.Module.__setattr__"
  callable = False


class DelAttrOp(DelAttr):
  target = "nnx.module.Module.__delattr__"
  callable = False


class GetAttribute(Contract):
  """reading an attribute of the instance dictionary."""
  props = ("C09",)
  target = "nnx.module.Module.__getattribute__"
  params = ("self", "name")
  pure = True
  callable = False
  config = lambda self, ex: tracer_config(ex)

  def setup(self, ex, a):
    module_arg(ex, a)
    a.name = ex.sym("name", "str")
    ex.assume(cd(ex.heap, a.self)[a.name] != Abs)

  def requires(self, ex, a):
    old = cd(ex.heap, ex.lift(a.self))[ex.lift(a.name)]
    ub = cd(ex.heap, old)[S("unbox_fn")]
    return [("an attribute of the instance", old != Abs),
            ("a container attribute is well formed", Implies(isc(ex, old, CONT), wf_container(ex, old))),
            ("an unboxing function is callable", Implies(And(isc(ex, old, CONT), ub != Abs), And(V.is_XV(ub), callable_(ub))))]

  def ensures(self, ex, a, h0, r):
    old = cd(h0, ex.lift(a.self))[ex.lift(a.name)]
    A = cd(h0, old)
    ub = A[S("unbox_fn")]
    un = F("apply1", V, V, V)(ub, old)
    return [("the contained value, unboxed if the container says how",
             ex.lift(r) == If(isc(ex, old, CONT), If(ub != Abs, un, A[S(VAL)]), old))]


class ModuleStateInit(Contract):
  props = ("C06",)
  target = "nnx.module.ModuleState.__init__"
  params = ("self", "is_initializing")

  def config(self, ex):
    tracer_config(ex)
    ex.call_hooks["nnx.ids.UUIDManager.__call__"] = lambda ex, pf, a, k: ex.lower(ex.fresh("uuid"))
    ex.global_over["nnx.ids.uuid"] = lambda ex: Prim("uuid", lambda ex, a, k: new_uuid(ex))

  def setup(self, ex, a):
    a.self = ex.sym("self", MSTATE)
    a.is_initializing = ex.sym("is_init", "bool")
    trace_context(ex)

  def requires(self, ex, a):
    return [("the trace stack is not empty", wf_stack(ex, ex.heap)), ("a module state", isc(ex, ex.lift(a.self), MSTATE))]

  def modifies(self, ex, a, h0, i):
    return i == V.rval(ex.lift(a.self))

  def result(self, ex, a, h0):
    return None

  def ensures(self, ex, a, h0, r):
    D = cd(ex.heap, ex.lift(a.self))
    ts = D[S("_trace_state")]
    T = cd(ex.heap, ts)
    return [("a new trace state", And(V.is_RV(ts), V.rval(ts) >= h0.alloc, clsof(ts) == ex.ccode(ex.cls(TST)))),
            ("of the traces at creation", And(T[S("_jax_trace")] == JT, T[S("_nnx_trace")] == cur_nnx(h0))),
            ("the flag as given", D[S("is_initializing")] == ex.lift(a.is_initializing)),
            ("an id", D[S("_id")] != Abs)]


def new_uuid(ex):
  r = ex.fresh("uuid")
  ex.assume(And(V.is_RV(r), subc(clsof(r), ex.ccode(ex.cls("nnx.ids.UUID")))))
  return r


SPECS = [CurrentJax(), CurrentNnx(), TraceStateInit(), IsValid(), NnxTrace(), SetAttr(), DelAttr(), SetAttrOp(), DelAttrOp(),
         GetAttribute(), ModuleStateInit()]
REGISTRY = _c.SPECS + SPECS
AXIOMS = list
