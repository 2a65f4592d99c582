"""C13: functional calls act on a copy; the initialization flag is scoped."""
from pyded.spec import *
from pyded.core import ukey
from pyded.vals import Prim
from .containers import cd, isc
from .tracers import MODULE, MST, MSTATE, trace_context
from .graph import graph_config, ismod, key, closed, ids_unique, reach, modof, CALLED, OnAll, UUID
from . import graph as _g

USES = ("graph",)
DA, CP = "nnx.module.DelayedAccessor", "nnx.module.CallableProxy"


class ForEach(Contract):
  """the function is called exactly once on each module reachable from self that is an instance of the class.
  `below` (ghost): the modules visited; closed under sub-modules, containing self, inside every closed set."""
  props = ("C13",)
  target = MODULE + ".for_each"
  params = ("self", "module_type", "fn")
  comps = ("S",)

  def config(self, ex):
    graph_config(ex)

  def setup(self, ex, a):
    OnAll.setup(OnAll(), ex, a)

  def requires(self, ex, a):
    h = ex.heap
    m = z3.Const("m!fe", V)
    s = ex.lift(a.self)
    call = ex.named(h.S(CALLED))
    return [("a module", And(ismod(ex, s), reach(s))), ("a class", V.is_CV(ex.lift(a.module_type))),
            ("closed", closed(ex, h)), ("ids are unique", ids_unique(ex, h)),
            ("not called yet", forall([m], Not(call[m]), call[m]))]

  def modifies(self, ex, a, h0, i):
    return i == CALLED

  def result(self, ex, a, h0):
    return None

  def ensures(self, ex, a, h0, r):
    h = ex.heap
    s = ex.lift(a.self)
    B = h.S(V.rval(ex.lift(ex.last_call[MODULE + "._on_all"].visited)))
    B = ex.named(B)
    C1 = ex.named(h.S(CALLED))
    t = V.cval(ex.lift(a.module_type))
    m, n, k = z3.Consts("m!fo n!fo k!fo", V)
    set_bound(m, 0)
    set_bound(modof(k), 0)
    c = cd(h0, m)[n]
    return [("the module itself is among the visited", B[key(h0, s)]),
            ("every sub-module of a visited module is visited", forall([m, n], Implies(And(reach(m), B[key(h0, m)], c != Abs, ismod(ex, c)), B[key(h0, c)]), [c, reach(m)])),
            ("only modules below are visited", forall([k], Implies(B[k], And(reach(modof(k)), key(h0, modof(k)) == k)), B[k])),
            ("the function is called exactly on the visited instances", forall([k], C1[k] == And(B[k], subc(clsof(modof(k)), t)), C1[k], B[k]))]


def cfg(ex):
  graph_config(ex)
  ex.query_classes = [MODULE, DA, CP]


def capture(ex, target):
  """opaque callables are recorded; they may do anything, and may fail."""
  ex.calls = []

  def hook(ex, f, args, kw):
    r = ex.fresh("out")
    ex.assume(And(r != Abs, age(r) <= ex.heap.alloc))
    ex.calls.append((f, list(args), dict(kw)))
    if ex.choose(2):
      ex.raise_exc("ValueError")
    return r
  ex.opaque_call = hook


def proxy_parts(ex, p):
  D = cd(ex.heap, ex.lift(p))
  return ex.lower(D[S("_proxy_context")]), ex.lower(D[S("_proxy_callable")])


def same_call(ex, what, call, fn, args, kw):
  """the recorded call is fn(*args, **kw)."""
  f, ga, gk = call
  ex.prove(f"{what}: the selected callable is called", ex.lift(f) == ex.lift(fn))
  seq = ex.lift(ex.t_cat(tuple(ga[:-1]), ga[-1].seq)) if ga and isinstance(ga[-1], Star) else mk(*[ex.lift(x) for x in ga])
  ex.prove(f"{what}: with the arguments given", seq == args)
  k = z3.Const("k!sc", V)
  got = ex.kw_content(gk)
  ex.prove(f"{what}: and the keywords given", forall([k], got[k] == kw[k], got[k], kw[k]))


def arguments(ex):
  args = ex.sym("args", "tuple")
  kw = ex.sym_map("kwargs")
  ex.assume(And(kw[S("self")] == Abs, kw[S("accessesor")] == Abs, kw[S("accessor")] == Abs), "keyword arguments do not take the names of the proxy's own parameters")
  return args, kw


def functional(label, prepare, finish):
  """calling through the proxy: copy, select, call, result."""
  def go(ex):
    cfg(ex)
    trace_context(ex)
    copy = ex.sym("copy", MODULE)
    ex.copied = []

    def selector(ex, f, args, kw):
      return NotImplemented
    get = prepare(ex, copy)
    args, kw = arguments(ex)
    ex.prove("cover: arguments exist", z3.BoolVal(False), kind="cover")
    h0 = ex.heap
    ex.writes = []
    proxy = get()
    ctx, acc = proxy_parts(ex, proxy)
    ex.prove("the proxy starts at the module itself", ex.lift(ex.call(acc, [copy], {})) == copy)
    fn = ex.sym("selected")
    ex.assume(And(V.is_XV(fn), callable_(fn)))
    acc2 = ex.sym("path")
    ex.assume(And(V.is_XV(acc2), callable_(acc2), acc2 != fn))
    ex.calls = []
    out = ex.sym("output")

    def hook(ex, f, a, k):
      if ex.lift(f).eq(acc2):
        ex.prove("the path selects from the copy", And(z3.BoolVal(len(a) == 1 and not k), ex.lift(a[0]) == copy))
        return fn
      ex.calls.append((f, list(a), dict(k)))
      ex.prove("the copy is made before the call", z3.BoolVal(len(ex.copied) == 1))
      if ex.choose(2):
        ex.raise_exc("ValueError")
      return out
    ex.opaque_call = hook
    c2 = ex.lift(ex.type_call(ClassV(ex.cls(CP)), [ctx, acc2], {}))
    try:
      r = ex.call(c2, [Star(args)], {"**": SymKw(kw)})
    except Raised as e:
      ex.prove("only the call's own exception comes out", z3.BoolVal(len(ex.calls) == 1 and ex.exc_name(e.exc) == "ValueError"))
      r = None
    ex.prove("one copy, one call", z3.BoolVal(len(ex.calls) == 1 and len(ex.copied) == 1))
    if ex.calls:
      same_call(ex, "through the proxy", ex.calls[0], fn, args, kw)
    if r is not None:
      finish(ex, r, out, copy)
    for w in ex.writes:
      if w[0] != "havoc":
        ex.prove("the original is not written", w[1] >= h0.alloc, kind="frame")
      else:
        ex.prove("no other effect", z3.BoolVal(False), kind="frame")
  l = Lemma(label, go, config=cfg, props=("C13",))
  return l


def bound(ex, pf, args, drop=False):
  """the object a method is called on."""
  b = getattr(pf, "bound", None)
  if isinstance(b, tuple):
    b = b[0] if b else None
  if b is None:
    b = args.pop(0) if drop else args[0]
  return ex.lift(b)


def record_copy(ex, target, copy, check=None):
  def hook(ex, pf, args, kw):
    ex.copied.append((pf, args, kw))
    if check:
      check(ex, pf, args, kw)
    return copy
  ex.call_hooks[target] = hook


def module_apply(ex, copy):
  m = ex.sym("self", MODULE)

  def check(ex, pf, args, kw):
    ex.prove("the module itself is copied", bound(ex, pf, args) == m)
  record_copy(ex, MODULE + ".clone", copy, check)
  ex.assume(copy != m)
  return lambda: ex.getattr_(m, "apply")


def out_and_copy(ex, r, out, copy):
  r = ex.lift(r)
  ex.prove("returns the output and the copy", And(V.is_TV(r), tlen(r) == 2, tget(r, 0) == out, tget(r, 1) == copy))


MDEF, PURE, STATE = "nnx.module.ModuleDef", "nnx.module.Pure", "nnx.state.State"


def moddef_apply(ex, copy):
  d = ex.sym("moduledef", MDEF)
  st = ex.sym("state", STATE)
  sts = ex.sym("states", "tuple")

  def check(ex, pf, args, kw):
    ex.prove("built from this definition", bound(ex, pf, args, True) == d)
    seq = ex.lift(ex.t_cat(tuple(args[:-1]), args[-1].seq)) if args and isinstance(args[-1], Star) else mk(*[ex.lift(x) for x in args])
    ex.prove("and from exactly the given states", seq == ex.lift(ex.t_cat((st,), sts)))
  record_copy(ex, MDEF + ".merge", copy, check)
  ex.pure_out = ex.sym("partitioned")

  def part(ex, pf, args, kw):
    ex.prove("the copy is partitioned after the call", And(z3.BoolVal(len(ex.calls) == 1), bound(ex, pf, args) == copy))
    return ex.pure_out
  ex.call_hooks[MODULE + ".partition"] = part
  return lambda: ex.call_method(d, "apply", [st, Star(sts)])


def out_and_pure(ex, r, out, copy):
  r = ex.lift(r)
  ex.prove("returns the output and the copy's state", And(V.is_TV(r), tlen(r) == 2, tget(r, 0) == out, tget(r, 1) == ex.pure_out))


def a_pure(ex):
  """(pure module, definition, states as a tuple)."""
  d = ex.sym("moduledef", MDEF)
  if ex.choose(2):
    st = ex.sym("states", STATE)
    sts = mk(st)
  else:
    st = sts = ex.sym("states", "tuple")
    ex.assume(tlen(st) >= 1)
  fi, owner = ex.func(PURE + ".new")
  p = ex.call(ex.getattr_(ClassV(ex.cls(PURE)), "new"), [st, d], {})
  return p, d, sts


def given(args):
  from pyded.logic import tcat
  return args


def merged_from(ex, d, sts, copy):
  def check(ex, pf, args, kw):
    ex.prove("built from this definition", bound(ex, pf, args, True) == d)
    seq = ex.lift(ex.t_cat(tuple(args[:-1]), args[-1].seq)) if args and isinstance(args[-1], Star) else mk(*[ex.lift(x) for x in args])
    i = z3.Int("i!mf")
    ex.prove("and from as many states as given", tlen(seq) == tlen(sts))
    ex.prove("the given ones in order", forall([i], Implies(And(0 <= i, i < tlen(sts)), tget(seq, i) == tget(sts, i)), tget(seq, i)))
  record_copy(ex, MDEF + ".merge", copy, check)


def pure_call(ex, copy):
  p, d, sts = a_pure(ex)
  merged_from(ex, d, sts, copy)
  return lambda: ex.getattr_(p, "call")


def just_out(ex, r, out, copy):
  ex.prove("returns only the output", ex.lift(r) == out)


def pure_apply(ex, copy):
  p, d, sts = a_pure(ex)
  merged_from(ex, d, sts, copy)
  ex.pure_out = ex.sym("partitioned")

  def part(ex, pf, args, kw):
    ex.prove("the copy is partitioned after the call", And(z3.BoolVal(len(ex.calls) == 1), bound(ex, pf, args) == copy))
    return ex.pure_out
  ex.call_hooks[MODULE + ".partition"] = part
  return lambda: ex.getattr_(p, "apply")


def init_scope(ex):
  """init: first every reachable module is initializing, then the call, and on every way out none."""
  cfg(ex)
  trace_context(ex)
  m = ex.sym("self", MODULE)
  args, kw = arguments(ex)
  ex.prove("cover: arguments exist", z3.BoolVal(False), kind="cover")
  events = []
  mod = ClassV(ex.cls(MODULE))

  def each(ex, pf, a, k):
    a = list(a)
    who = bound(ex, pf, a, True)
    ex.prove("the flag is set below this module", who == m)
    ex.prove("on modules of every class", ex.lift(a[0]) == ex.lift(mod))
    # what the function given does to an arbitrary module
    x = z3.Const("visited!%d" % len(events), V)
    ex.assume(And(ismod(ex, x), age(x) <= 0, V.rval(x) < 0))
    ex.hint(x, "nnx:" + MODULE)
    set_bound(x, 0)
    st = cd(ex.heap, x)[S(MST)]
    ex.assume(And(V.is_RV(st), clsof(st) == ex.ccode(ex.cls(MSTATE))))
    before = ex.heap
    w, ex.writes = ex.writes, []
    ex.call(a[1], [x], {})
    n = z3.Const("n!is", V)
    D, D0 = cd(ex.heap, st), cd(before, st)
    ex.prove("the flag of a module visited is the one to set", D[S("is_initializing")] == BV(len(events) == 0))
    ex.prove("nothing else of it changes", forall([n], Implies(n != S("is_initializing"), D[n] == D0[n]), D[n]))
    for q in ex.writes:
      ex.prove("no other object is written", q[1] == V.rval(st), kind="frame")
    ex.writes = w
    ex.heap = before
    events.append("set")
    return None
  ex.call_hooks[MODULE + ".for_each"] = each
  ex.calls = []
  fn, acc2, out = ex.sym("selected"), ex.sym("path"), ex.sym("output")
  ex.assume(And(V.is_XV(fn), callable_(fn), V.is_XV(acc2), callable_(acc2), acc2 != fn))

  def hook(ex, f, a, k):
    if ex.lift(f).eq(acc2):
      ex.prove("the path selects from the module itself", And(z3.BoolVal(len(a) == 1 and not k), ex.lift(a[0]) == m))
      if ex.choose(2):
        ex.raise_exc("ValueError")      # no such attribute, say
      return fn
    ex.prove("the flags are set before the call and not yet cleared", z3.BoolVal(events == ["set"]))
    events.append("call")
    ex.calls.append((f, list(a), dict(k)))
    if ex.choose(2):
      ex.raise_exc("ValueError")
    return out
  proxy = ex.getattr_(m, "init")
  ctx, acc = proxy_parts(ex, proxy)
  ex.prove("the proxy starts at the module itself", ex.lift(ex.call(acc, [m], {})) == m)
  ex.opaque_call = hook
  c2 = ex.lift(ex.type_call(ClassV(ex.cls(CP)), [ctx, acc2], {}))
  try:
    r = ex.call(c2, [Star(args)], {"**": SymKw(kw)})
    ex.prove("returns the output", ex.lift(r) == out)
  except Raised as e:
    ex.prove("only the call's own exception comes out", z3.BoolVal(ex.exc_name(e.exc) == "ValueError"))
  ex.prove("set, call, clear, on every way out", z3.BoolVal(events == ["set"] + ["call"] * len(ex.calls) + ["set"]))
  if ex.calls:
    same_call(ex, "through the proxy", ex.calls[0], fn, args, kw)


def accessor_paths(ex):
  """one more step of a path, for any path so far."""
  cfg(ex)
  g = ex.sym("g")
  ex.assume(And(V.is_XV(g), callable_(g)))
  x = ex.sym("x")
  n = ex.sym("name", "str")
  ex.assume(And(*[n != S(q) for q in ("accessor",)]))
  D0 = ex.type_call(ClassV(ex.cls(DA)), [], {})
  ex.prove("cover: values exist", z3.BoolVal(False), kind="cover")
  ex.prove("the empty path selects the object itself", ex.lift(ex.call(D0, [x], {})) == x)
  D = ex.type_call(ClassV(ex.cls(DA)), [g], {})
  sel = F("getattr*", V, V, V)
  itm = F("getitem*", V, V, V)
  ex.asked = []
  gx = ex.lift(ex.call(D, [x], {}))
  ex.prove("a path applies its function", gx == F("apply1", V, V, V)(g, x))
  which = ex.choose(2)
  if which == 0:
    D1 = ex.call_method(D, "__getattr__", [n])
    r = ex.call(D1, [x], {})
    want = ex.call_method(D, "__call__", [x])
    want = ex.bi_getattr([want, n], {}) if hasattr(ex, "bi_getattr") else None
    ex.prove("an attribute step selects that attribute of what the path selects", ex.lift(r) == ex.lift(want))
  else:
    key = ex.sym("key")
    D1 = ex.call_method(D, "__getitem__", [key])
    r = ex.call(D1, [x], {})
    want = ex.getitem(ex.lower(gx), key)
    ex.prove("an item step selects that item of what the path selects", ex.lift(r) == ex.lift(want))


def proxy_steps(ex):
  """the proxy extends its path and finally calls its context with it."""
  cfg(ex)
  c, f = ex.sym("context"), ex.sym("callable")
  ex.assume(And(V.is_XV(c), callable_(c), V.is_XV(f), callable_(f), c != f))
  P = ex.type_call(ClassV(ex.cls(CP)), [c, f], {})
  ex.prove("cover: values exist", z3.BoolVal(False), kind="cover")
  which = ex.choose(3)
  if which == 0:
    n = ex.sym("name", "str")
    p2 = ex.call_method(P, "__getattr__", [n])
    c2, f2 = proxy_parts(ex, p2)
    ex.prove("an attribute keeps the context", ex.lift(c2) == c)
    ex.prove("and extends the path by that attribute", ex.lift(f2) == ex.lift(ex.bi_getattr([f, n], {})))
  elif which == 1:
    k = ex.sym("key")
    p2 = ex.call_method(P, "__getitem__", [k])
    c2, f2 = proxy_parts(ex, p2)
    ex.prove("an item keeps the context", ex.lift(c2) == c)
    ex.prove("and extends the path by that item", ex.lift(f2) == ex.lift(ex.getitem(f, k)))
  else:
    args, kw = arguments(ex)
    ex.calls = []
    out = ex.sym("output")

    def hook(ex, g, a, k):
      ex.calls.append((g, list(a), dict(k)))
      return out
    ex.opaque_call = hook
    r = ex.call(P, [Star(args)], {"**": SymKw(kw)})
    ex.prove("one call of the context", z3.BoolVal(len(ex.calls) == 1))
    same_call(ex, "the context", ex.calls[0], c, ex.lift(ex.t_cat((f,), args)), kw)
    ex.prove("whose result is returned", ex.lift(r) == out)


SPECS = [ForEach(), functional("nnx.module.Module.apply", module_apply, out_and_copy),
         functional("nnx.module.ModuleDef.apply", moddef_apply, out_and_pure),
         functional("nnx.module.Pure.call", pure_call, just_out),
         functional("nnx.module.Pure.apply", pure_apply, out_and_pure),
         Lemma("nnx.module.Module.init", init_scope, config=cfg, props=("C13",)),
         Lemma("nnx.module.DelayedAccessor", accessor_paths, config=cfg, props=("C13",)),
         Lemma("nnx.module.CallableProxy", proxy_steps, config=cfg, props=("C13",))]
REGISTRY = _g.REGISTRY + SPECS[:1]
AXIOMS = list
