"""C14: sow appends to a tuple variable."""
from pyded.spec import *
from .containers import cd, isc, plain, wf_container, VAL, CONT, SHARD
from .tracers import tracer_config, wf_module, valid, module_trace_state, MODULE, MST, trace_context, module_arg
from . import tracers as _t

USES = ("tracers",)
VAR = "nnx.containers.Variable"
clsattr = F("clsattr", Int, V, Bool)


class Sow(Contract):
  props = ("C14",)
  target = MODULE + ".sow"
  params = ("self", "variable_type", "name", "value")
  callable = False

  def config(self, ex):
    tracer_config(ex)
    ex.KLASS_CANDIDATES = ["str", "tuple", "dict", "int"]

  def setup(self, ex, a):
    module_arg(ex, a)
    a.name = ex.sym("name", "str")
    a.value = ex.sym("value")
    a.variable_type = z3.Const("variable_type", V)
    ex.assume(And(V.is_CV(a.variable_type), subc(V.cval(a.variable_type), ex.ccode(ex.cls(VAR))), subc(V.cval(a.variable_type), C("type")) == z3.BoolVal(False)))
    ex.hint(a.variable_type, "type")

  def requires(self, ex, a):
    h = ex.heap
    s, n = ex.lift(a.self), ex.lift(a.name)
    old = cd(h, s)[n]
    ca = F("classattr", V, V, V)(s, n)
    ub = cd(h, old)[S("unbox_fn")]
    vt = V.cval(ex.lift(a.variable_type))
    return [("a variable class is not a static class", Not(subc(vt, ex.ccode(ex.cls("nnx.containers.Static"))))),
            ("an unboxing function is callable", Implies(And(old != Abs, isc(ex, old, CONT), ub != Abs), And(V.is_XV(ub), callable_(ub)))),
            ("a module", wf_module(ex, h, s)), ("its attribute is well formed", Implies(And(old != Abs, isc(ex, old, CONT)), wf_container(ex, old))),
            ("plain value", plain(ex, ex.lift(a.value))),
            ("class attributes are no containers", And(ca != Abs, plain(ex, ca)))]

  def old(self, ex, a, h):
    return cd(h, ex.lift(a.self))[ex.lift(a.name)]

  def good(self, ex, a, h):
    old = self.old(ex, a, h)
    v = cd(h, old)[S(VAL)]
    return And(isc(ex, old, VAR), clsof(old) == V.cval(ex.lift(a.variable_type)), V.is_TV(v), subc(clsof(v), C("tuple")))

  def raises(self, ex, a):
    h = ex.heap
    old = self.old(ex, a, h)
    s, n = ex.lift(a.self), ex.lift(a.name)
    return [("ValueError", And(old != Abs, Not(self.good(ex, a, h)))),
            ("ValueError", And(old == Abs, clsattr(clsof(s), n))),
            ("TraceContextError", Not(valid(h, module_trace_state(h, s))))]

  def modifies(self, ex, a, h0, i):
    return i == V.rval(ex.lift(a.self))

  def ensures(self, ex, a, h0, r):
    s, n, v = ex.lift(a.self), ex.lift(a.name), ex.lift(a.value)
    old = self.old(ex, a, h0)
    D, D0 = cd(ex.heap, s), cd(h0, s)
    new = D[n]
    Nw = ex.named(cd(ex.heap, new))
    w = cd(h0, old)[S(VAL)]
    k = z3.Const("k!so", V)
    i = z3.Int("i!so")
    T = ex.named(Nw[S(VAL)])
    old_n = If(old == Abs, 0, tlen(w))
    return [("nothing else changes", forall([k], Implies(k != n, D[k] == D0[k]), D[k])),
            ("a variable of the requested class", And(V.is_RV(new), V.rval(new) >= h0.alloc, clsof(new) == V.cval(ex.lift(a.variable_type)))),
            ("holding a tuple one longer", And(V.is_TV(T), tlen(T) == old_n + 1)),
            ("with the value at the end", tget(T, old_n) == v),
            ("after the old ones in order", forall([i], Implies(And(0 <= i, i < old_n), tget(T, i) == tget(w, i)), tget(T, i))),
            ("metadata is kept", Implies(old != Abs, forall([k], Implies(k != S(VAL), Nw[k] == cd(h0, old)[k]), Nw[k]))),
            ("a new variable has no metadata", Implies(old == Abs, forall([k], Implies(And(k != S(VAL), k != S(SHARD)), Nw[k] == Abs), Nw[k])))]

  def on_raise(self, ex, a, h0, exc):
    m = ex.lift(a.self)
    k = z3.Const("k!sx", V)
    return [("a refused sow changes no attribute", forall([k], cd(ex.heap, m)[k] == cd(h0, m)[k], cd(ex.heap, m)[k]))]


SPECS = [Sow()]
REGISTRY = _t.REGISTRY + SPECS
AXIOMS = list
