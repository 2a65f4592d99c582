"""C13 (visiting): for_each and _on_all reach every module below the root exactly once.

uid(h, m)   the id number of module m
key(h, m)   its key in sets and dictionaries of ids
"""
from pyded.spec import *
from pyded.core import ukey
from pyded.loops import kpos, kseq, kmark, LoopSpec
from .containers import cd, isc, plain, wf_container, VAL, CONT
from .tracers import tracer_config, wf_module, valid, module_trace_state, MODULE, MST, MSTATE, trace_context
from . import tracers as _t

USES = ("tracers",)
UUID = "nnx.ids.UUID"
reach = F("reach", V, Bool)      # an arbitrary set of modules closed under sub-modules
modof = F("modof", V, V)         # the module of an id: ids are unique
CALLED = -777000001              # ghost: modules the function was called on


def ismod(ex, v):
  return And(V.is_RV(v), subc(clsof(v), ex.ccode(ex.cls(MODULE))))


def uid(h, m):
  st = cd(h, m)[S(MST)]
  return V.ival(cd(h, cd(h, st)[S("_id")])[S("id")])


def key(h, m):
  return ukey(uid(h, m))


def graph_config(ex):
  tracer_config(ex)
  ex.query_classes = [MODULE, CONT]

  def is_id(ex, obj, val):
    ex.assume(And(val != Abs, V.is_RV(val), clsof(val) == ex.ccode(ex.cls(UUID))))
    ex.hint(val, "nnx:" + UUID)
  ex.field_inv[(MSTATE, "_id")] = is_id

  def is_int(ex, obj, val):
    ex.assume(V.is_IV(val))
    ex.hint(val, "int")
  ex.field_inv[(UUID, "id")] = is_int


def attrs_of(h):
  """attribute dictionaries as a function of the module (usable in triggers)."""
  return lambda m: h.D(V.rval(m))


def closed(ex, h):
  """reach is a set of modules existing on entry, closed under sub-modules."""
  m, n = z3.Consts("m!cl n!cl", V)
  set_bound(m, 0)
  c = cd(h, m)[n]
  return And(forall([m], Implies(reach(m), And(ismod(ex, m), V.rval(m) < 0, age(m) <= 0)), reach(m)),
             forall([m, n], Implies(And(reach(m), c != Abs, ismod(ex, c)), reach(c)), [reach(m), c]))


def unique(ex, h, m):
  return modof(key(h, m)) == m


def ids_unique(ex, h):
  m = z3.Const("m!iu", V)
  set_bound(m, 0)
  return forall([m], Implies(reach(m), modof(key(h, m)) == m), reach(m))


class OnAll(Contract):
  props = ("C13",)
  target = MODULE + "._on_all"
  params = ("self", "module_type", "fn", "visited")
  comps = ("S",)

  def config(self, ex):
    graph_config(ex)
    ex.opaque_call = self.called

  def called(self, ex, f, args, kwargs):
    """the function marks the module; it leaves the module structure alone."""
    m = ex.lift(args[0])
    k = key(ex.heap, m)
    ex.prove("the function is called at most once per module", Not(ex.heap.S(CALLED)[k]))
    ex.write("S", z3.IntVal(CALLED), z3.Store(ex.heap.S(CALLED), k, z3.BoolVal(True)))
    return None

  def setup(self, ex, a):
    a.self = ex.sym("self", MODULE)
    a.module_type = z3.Const("module_type", V)
    ex.assume(And(V.is_CV(a.module_type)))
    ex.hint(a.module_type, "type")
    a.fn = ex.sym("fn")
    ex.assume(And(V.is_XV(a.fn), callable_(a.fn)))
    a.visited = ex.sym("visited", "set")

  def vis(self, ex, a, h):
    return h.S(V.rval(ex.lift(a.visited)))

  def requires(self, ex, a):
    h = ex.heap
    m = z3.Const("m!oa", V)
    s = ex.lift(a.self)
    v = ex.lift(a.visited)
    vis, call = ex.named(self.vis(ex, a, h)), ex.named(h.S(CALLED))
    return [("a module", And(ismod(ex, s), reach(s))), ("a class", V.is_CV(ex.lift(a.module_type))),
            ("a set", And(V.is_RV(v), clsof(v) == C("set"), V.rval(v) != CALLED)),
            ("closed", closed(ex, h)), ("ids are unique", ids_unique(ex, h)),
            ("called on visited modules only", forall([m], Implies(call[m], vis[m]), call[m]))]

  def modifies(self, ex, a, h0, i):
    return Or(i == V.rval(ex.lift(a.visited)), i == CALLED)

  def result(self, ex, a, h0):
    return None

  def post(self, ex, a, h, v0, c0, v1, c1, me=None):
    """facts about the modules visited between (v0, c0) and (v1, c1)."""
    m, n, k = z3.Consts("m!po n!po k!po", V)
    set_bound(m, 0)          # only said of modules in reach
    set_bound(modof(k), 0)
    t = V.cval(ex.lift(a.module_type))
    c = cd(h, m)[n]
    km = key(h, m)
    other = z3.BoolVal(True) if me is None else m != me
    return [("visited modules stay visited", forall([k], Implies(v0[k], v1[k]), v0[k], v1[k])),
            ("only modules below are visited", forall([k], Implies(And(v1[k], Not(v0[k])), And(reach(modof(k)), key(h, modof(k)) == k)), v1[k])),
            ("with all their sub-modules", forall([m, n], Implies(And(other, reach(m), v1[km], Not(v0[km]), c != Abs, ismod(ex, c)), v1[key(h, c)]),
                                                  [c, reach(m)])),
            ("the function is called on the newly visited instances", forall([k], Implies(And(v1[k], Not(v0[k])), c1[k] == subc(clsof(modof(k)), t)), c1[k], v1[k])),
            ("and on nothing else", forall([k], Implies(Not(And(v1[k], Not(v0[k]))), c1[k] == c0[k]), c1[k]))]

  def loops(self, ex):
    def inv(L):
      a = ex.spec_args
      h0, h = ex.h0, ex.heap
      s = ex.lift(a.self)
      D = ex.named(cd(h0, s))
      O = ex.named(h0.O(V.rval(s)))
      n = z3.Const("n!oi", V)
      v1 = ex.named(self.vis(ex, a, h))
      return [("the module itself is visited", v1[key(h0, s)]),
              ("its sub-modules so far", forall([n], Implies(And(D[n] != Abs, kpos(D, O, n) < L.i, ismod(ex, D[n])), v1[key(h0, D[n])]), D[n]))] + \
        self.post(ex, a, h0, ex.named(self.vis(ex, a, h0)), ex.named(h0.S(CALLED)), v1, ex.named(h.S(CALLED)), me=s)
    return [LoopSpec(inv, modifies=lambda L, x: Or(x == V.rval(ex.lift(ex.spec_args.visited)), x == CALLED), comps=("S",))]

  def ensures(self, ex, a, h0, r):
    h = ex.heap
    s = ex.lift(a.self)
    v1 = ex.named(self.vis(ex, a, h))
    return [("the module is visited", v1[key(h0, s)])] + \
      self.post(ex, a, h0, ex.named(self.vis(ex, a, h0)), ex.named(h0.S(CALLED)), v1, ex.named(h.S(CALLED)))


SPECS = [OnAll()]
REGISTRY = _t.REGISTRY + SPECS
AXIOMS = list
