"""C24: dataclass fields; construction of module and pytree objects (C11, C24)."""
from pyded.spec import *
from pyded.loops import LoopSpec
from pyded.vals import Prim
from pyded.heap import set_bound
from . import containers as _c
from .containers import cd, isc, container_config, VAL
from .pytrees import pyt_config, wf_obj, PT, MUT, INI, SORTED, CLSMUT, M
from . import pytrees as _p
from . import containers as _c

USES = ("pytrees",)
FN = "nnx_container_fn"
MOD = "nnx.module.Module"
CONTF = _c.CONT
isdc = F("is_dataclass", Int, Bool)
dcf = F("dataclasses.fields", Int, V)
fname, fmeta = F("fld.Field.name", V, V), F("fld.Field.metadata", V, V)
finit = F("Field.init", V, Bool)


def dc_model(ex):
  """dataclasses.fields of an instance: the fields of its class, with distinct
  string names; the metadata of a field is a mapping."""
  def fields(ex, a, k):
    x = ex.lift(a[0])
    c = V.cval(x) if ex.klass(x) == "type" else clsof(x)
    t = dcf(c)
    i, j = z3.Ints("i!dc j!dc")
    ex.assume(And(V.is_TV(t), clsof(t) == C("tuple"), age(t) <= 0, tlen(t) >= 0))
    ex.assume(forall([i], Implies(And(0 <= i, i < tlen(t)), And(V.is_XV(tget(t, i)), V.is_SV(fname(tget(t, i))), V.is_RV(fmeta(tget(t, i))), clsof(fmeta(tget(t, i))) == C("mappingproxy"), V.rval(fmeta(tget(t, i))) < 0)), tget(t, i)))
    m = ex.h0.D(V.rval(fmeta(tget(t, i))))
    ex.assume(forall([i], Implies(And(0 <= i, i < tlen(t), m[S(FN)] != Abs), And(V.is_XV(m[S(FN)]), callable_(m[S(FN)]))), tget(t, i)))
    ex.assume(forall([i, j], Implies(And(0 <= i, i < j, j < tlen(t)), fname(tget(t, i)) != fname(tget(t, j))), [tget(t, i), tget(t, j)]), "dataclass fields have distinct names")
    ex.hint(t, "tuple")
    set_bound(t, 0)
    return t
  ex.ext_handlers["dataclasses.is_dataclass"] = lambda ex, a, k: isdc(V.cval(ex.lift(a[0])) if ex.klass(a[0]) == "type" else clsof(ex.lift(a[0])))
  ex.ext_handlers["dataclasses.fields"] = fields

  def attr(f, kind):
    def h(ex, t):
      r = f(t)
      ex.hint(r, kind)
      return r
    return h
  ex.opaque_attrs = dict(ex.opaque_attrs, name=attr(fname, "str"), metadata=attr(fmeta, "mappingproxy"), init=lambda ex, t: finit(t))


def call_config(ex):
  pyt_config(ex)
  dc_model(ex)


class Construct(Contract):
  """construction, `__init__` (modelled as doing anything to the fields) included."""
  flags = ()
  cls_full = None
  params = ("cls", "*args", "**kwargs")

  def config(self, ex):
    call_config(ex)
    ex.global_over[self.cls_full + ".__init__"] = lambda ex, obj: Prim("user __init__", lambda ex, a, k: self.user_init(ex, obj))

  def user_init(self, ex, obj):
    x = ex.lift(obj)
    i = V.rval(x) if x.decl().name() != "RV" else x.arg(0)
    D = ex.heap.D(i)
    N = ex.fresh("built", Map)
    k = z3.Const("k!ui", V)
    ex.assume(forall([k], And(age(N[k]) <= ex.heap.alloc, Implies(N[k] != Abs, And(V.is_SV(k), k != S("self")))), N[k]), "user __init__ leaves the framework's own attributes alone")
    for f in self.flags + ("_module__state", SORTED, CLSMUT):
      ex.assume(N[S(f)] == D[S(f)])
    # every declared field has a value after __init__ (a dataclass __init__ stores each)
    ex.heap = ex.heap.wr("D", i, N)
    ex.heap = ex.heap.wr("O", i, ex.fresh("ord", Int))
    ex.h_init, ex.new_obj = ex.heap, x
    ex.prove("the object is under construction", And(*[D[S(f)] != Abs for f in self.flags]) if self.flags else z3.BoolVal(True))
    t = ex.ext_handlers["dataclasses.fields"](ex, [x], {})
    j = z3.Int("j!ui")
    ex.assume(forall([j], Implies(And(isdc(clsof(x)), 0 <= j, j < tlen(t)), N[fname(tget(t, j))] != Abs), tget(t, j)), "every dataclass field has a value after __init__")
    fw = self.flags + ("_module__state", SORTED, CLSMUT)
    ex.assume(forall([j], Implies(And(0 <= j, j < tlen(t)), And(*[fname(tget(t, j)) != S(f) for f in fw])), tget(t, j)), "no field has a framework attribute's name")
    return None

  def setup(self, ex, a):
    a.cls = ex.sym("cls", "type")
    c = V.cval(a.cls)
    ex.assume(And(V.is_CV(a.cls), subc(c, ex.ccode(ex.cls(self.cls_full)))))
    ex.assume(Not(subc(c, ex.ccode(ex.cls("nnx.containers.Container")))))
    a.args, a.kwargs = ex.sym("args", "tuple"), ex.sym_map("kwargs")
    ex.new_obj = None

  def declared(self, ex, f):
    m = ex.h0.D(V.rval(fmeta(f)))
    return m[S(FN)] != Abs

  def wrapped(self, ex, f, v):
    """the value the declared container function gives for v."""
    m = ex.h0.D(V.rval(fmeta(f)))
    return F("apply1", V, V, V)(m[S(FN)], v)

  def loops(self, ex):
    def inv(L):
      x = ex.new_obj
      D, N = cd(ex.heap, x), cd(ex.h_init, x)
      t = dcf(clsof(x))
      j = z3.Int("j!dl")
      k = z3.Const("k!dl", V)
      f = lambda j: tget(t, j)
      base = self.before_loop(ex, L, x)
      done = ex.fresh_fn("reached", V, Int)
      at = lambda k: And(0 <= done(k), done(k) < L.i, fname(f(done(k))) == k, self.declared(ex, f(done(k))))
      return [("fields reached hold what their declared kind makes of the value",
               forall([j], Implies(And(0 <= j, j < L.i), D[fname(f(j))] == If(self.declared(ex, f(j)), self.wrapped(ex, f(j), N[fname(f(j))]), N[fname(f(j))])), f(j))),
              ("fields not reached are as __init__ left them",
               forall([j], Implies(And(L.i <= j, j < tlen(t)), D[fname(f(j))] == base[fname(f(j))]), f(j))),
              ("everything else is as __init__ left it",
               forall([k], Or(D[k] == base[k], self.is_field(ex, t, k)), D[k])),
              ("no attribute appears or vanishes", forall([k], (D[k] != Abs) == (base[k] != Abs), D[k]))]
    return [LoopSpec(inv, modifies=lambda L, x: x >= ex.h0.alloc)]

  def before_loop(self, ex, L, x):
    return cd(L.h0, x)

  def is_field(self, ex, t, k):
    """k names a declared field."""
    w = F("field called", V, V, Int)
    j = z3.Int("j!if")
    ex.assume(forall([j], Implies(And(0 <= j, j < tlen(t)), w(t, fname(tget(t, j))) == j), tget(t, j)))
    i = w(t, k)
    return And(0 <= i, i < tlen(t), fname(tget(t, i)) == k, self.declared(ex, tget(t, i)))

  def ensures(self, ex, a, h0, r):
    r = ex.lift(r)
    D, N = ex.named(cd(ex.heap, r)), ex.named(cd(ex.h_init, r))
    t = ex.ext_handlers["dataclasses.fields"](ex, [r], {})
    j = z3.Int("j!ce")
    k = z3.Const("k!ce", V)
    f = lambda j: tget(t, j)
    dc = isdc(clsof(r))
    own = Or(*[k == S(n) for n in self.flags + (SORTED,)])
    return [("the new object, of the class", And(r == ex.new_obj, clsof(r) == V.cval(ex.lift(a.cls)), V.is_RV(r), V.rval(r) >= h0.alloc)),
            ("declared fields are wrapped as declared",
             forall([j], Implies(And(dc, 0 <= j, j < tlen(t), self.declared(ex, f(j))), D[fname(f(j))] == self.wrapped(ex, f(j), N[fname(f(j))])), f(j))),
            ("other fields hold what __init__ stored",
             forall([k], Implies(Not(And(dc, self.is_field(ex, t, k))), Or(D[k] == N[k], own)), D[k]))]


class PytreeCall(Construct):
  props = ("C11", "C24")
  target = M + "PytreeMeta.call"
  flags = (MUT, INI)
  cls_full = PT

  def ensures(self, ex, a, h0, r):
    out = super().ensures(ex, a, h0, r)
    r = ex.lift(r)
    D = ex.named(cd(ex.heap, r))
    T = ex.named(ex.heap.L(V.rval(D[S(SORTED)])))
    i, j = z3.Ints("i!pc j!pc")
    k = z3.Const("k!pc", V)
    return out + [("construction flags are gone", And(D[S(MUT)] == Abs, D[S(INI)] == Abs)),
                  ("a list of field names", And(V.is_RV(D[S(SORTED)]), clsof(D[S(SORTED)]) == C("list"), V.is_TV(T))),
                  ("only fields", forall([i], Implies(And(0 <= i, i < tlen(T)), And(V.is_SV(tget(T, i)), D[tget(T, i)] != Abs)), tget(T, i))),
                  ("all fields", forall([k], Implies(D[k] != Abs, exists([i], And(0 <= i, i < tlen(T), tget(T, i) == k), tget(T, i))), D[k])),
                  ("in increasing order", forall([i, j], Implies(And(0 <= i, i < j, j < tlen(T)), And(Not(slt(tget(T, j), tget(T, i))), tget(T, i) != tget(T, j))), [tget(T, i), tget(T, j)]))]


class ModuleCall(Construct):
  props = ("C24",)
  target = "nnx.module.ModuleMeta._meta_call"
  cls_full = MOD

  def config(self, ex):
    super().config(ex)
    ex.query_classes = ex.query_classes + [MOD]
    # (what a new module state is: see C06)
    ex.call_hooks["nnx.module.ModuleState.__init__"] = lambda ex, pf, a, k: None


OPTIONS = ("default", "default_factory", "init", "repr", "hash", "compare")
KINDS = {"node_field": "nnx.containers.Node", "static_field": "nnx.containers.Static", "var_field": None, "param_field": "nnx.containers.Param"}


def field_lemma(fn):
  """the field carries every option it was given, its metadata, and a function
  making a container of exactly the declared class (and sharding)."""
  def run(ex):
    calls = []
    ex.ext_handlers["dataclasses.field"] = lambda ex, a, k: calls.append((list(a), dict(k)))
    fi, _ = ex.func("nnx.dataclasses." + fn)
    kw = {o: ex.sym("opt_" + o) for o in OPTIONS}
    md = ex.sym("metadata")
    given = None
    if ex.branch(V.is_NoneV(md)):
      md = None
    else:
      md = ex.sym("metadata", "dict")
      given = ex.heap.D(idof(md))
    args = []
    cls = KINDS[fn]
    sharding = None
    if fn == "var_field":
      c = z3.Int("variable_type")
      ex.assume(subc(c, ex.ccode(ex.cls("nnx.containers.Variable"))))
      ex.assume(Not(subc(c, ex.ccode(ex.cls("nnx.containers.Static")))), "no class is both a Variable and a Static")
      args = [CV(c)]
      code = c
      sharding = ex.sym("sharding")
      kw["sharding"] = sharding
    else:
      code = ex.ccode(ex.cls(cls))
    h0 = ex.heap
    had = z3.BoolVal(False) if md is None else given[S(FN)] != Abs
    ex.prove("cover: called", z3.BoolVal(False), kind="cover")
    try:
      ex.call_func(PyFunc(fi), args, dict(kw, metadata=md))
    except Raised as e:
      ex.prove("refused only when the metadata already declares a kind", And(z3.BoolVal(ex.exc_matches(e.exc, "ValueError")), had))
      return
    ex.prove("accepted otherwise", Not(had))
    ex.prove("one field is made", z3.BoolVal(len(calls) == 1 and not calls[0][0]))
    if len(calls) != 1:
      return
    k = calls[0][1]
    ex.prove("every option reaches dataclasses.field", And(*[ex.lift(k[o]) == ex.lift(kw[o]) if o in k else z3.BoolVal(False) for o in OPTIONS]))
    m = ex.lift(k["metadata"])
    D = ex.heap.D(idof(m))
    q = z3.Const("q!fl", V)
    old = (lambda q: Abs) if md is None else (lambda q: given[q])
    ex.prove("the metadata is what was given, and the kind", And(Not(V.is_NoneV(m)), D[S(FN)] != Abs, forall([q], Implies(q != S(FN), D[q] == old(q)), D[q])))
    v = ex.sym("field value")
    ex.assume(_c.plain(ex, v))
    h1 = ex.heap
    r = ex.lift(ex.call(ex.lower(z3.simplify(D[S(FN)])), [v], {}))
    R = cd(ex.heap, r)
    kwm = EMPTY if fn in ("node_field", "static_field") else z3.Store(EMPTY, S("sharding"), NoneV if sharding is None else sharding)
    ex.prove("a container of exactly the declared class", And(V.is_RV(r), clsof(r) == code))
    ex.prove("holding the value, with the declared sharding and no other metadata",
             forall([q], R[q] == z3.Store(kwm, S(VAL), v)[q], R[q]))
  return run


def plain_field(ex):
  """nnx.field declares no kind."""
  calls = []
  ex.ext_handlers["dataclasses.field"] = lambda ex, a, k: calls.append((list(a), dict(k)))
  kw = {o: ex.sym("opt_" + o) for o in OPTIONS + ("metadata",)}
  fi, _ = ex.func("nnx.dataclasses.field")
  ex.call_func(PyFunc(fi), [], kw)
  ex.prove("one field is made", z3.BoolVal(len(calls) == 1 and not calls[0][0]))
  k = calls[0][1]
  ex.prove("every option reaches dataclasses.field", And(*[ex.lift(k[o]) == ex.lift(kw[o]) if o in k else z3.BoolVal(False) for o in kw]))


def decorator(ex):
  """nnx.dataclass is dataclasses.dataclass with the given options."""
  opts = ("init", "repr", "eq", "order", "unsafe_hash", "frozen")
  calls = []

  def dc(ex, a, k):
    calls.append((list(a), dict(k)))
    return Prim("decorator", lambda ex, a2, k2: ("decorated", a2[0]))
  ex.ext_handlers["dataclasses.dataclass"] = dc
  kw = {o: ex.sym("opt_" + o) for o in opts}
  fi, _ = ex.func("nnx.dataclasses.dataclass")
  cls = CV(z3.Int("a class"))
  if ex.choose(2) == 0:
    r = ex.call_func(PyFunc(fi), [cls], kw)
  else:
    r = ex.call(ex.call_func(PyFunc(fi), [], kw), [cls], {})
  ex.prove("the class is decorated", z3.BoolVal(isinstance(r, tuple) and len(r) == 2 and r[0] == "decorated") if not isinstance(r, tuple) else ex.lift(r[1]) == cls)
  ex.prove("with the options given", And(z3.BoolVal(len(calls) == 1), *[ex.lift(calls[0][1][o]) == ex.lift(kw[o]) if o in calls[0][1] else z3.BoolVal(False) for o in opts]))


class ReplaceDataclass(Contract):
  """replace of a dataclass object: dataclasses.replace with the given values,
  those of fields without a declared kind put into the container the field holds."""
  props = ("C11", "C24")
  target = PT + ".replace"
  label = PT + ".replace#dataclass"
  params = ("self", "**kwargs")
  callable = False

  def config(self, ex):
    call_config(ex)
    ex.KLASS_CANDIDATES = ["str", "dict"]
    ex.query_classes = [CONTF, PT]
    ex.ext_handlers["dataclasses.is_dataclass"] = lambda ex, a, k: True

    def rep(ex, a, k):
      ex.replaced = (ex.lift(a[0]), ex.named(ex.kw_content(k)), len(a))
      r = ex.fresh("replaced")
      ex.assume(And(r != Abs, age(r) <= ex.heap.alloc))
      ex.res_of = r
      return r
    ex.ext_handlers["dataclasses.replace"] = rep

  def setup(self, ex, a):
    a.self = ex.sym("self", PT)
    a.kwargs = ex.sym_map("kwargs")
    ex.replaced = None

  def t(self, ex, a):
    return dcf(clsof(ex.lift(a.self)))

  def requires(self, ex, a):
    h = ex.heap
    ex.h0 = h
    ex.ext_handlers["dataclasses.fields"](ex, [a.self], {})
    k = z3.Const("k!dr", V)
    K = a.kwargs
    return [("a constructed object", _p.wf_done(ex, h, ex.lift(a.self))), ("its fields are well formed", _p.wf_fields(ex, h, ex.lift(a.self))),
            ("keywords are field names", forall([k], Implies(K[k] != Abs, And(V.is_SV(k), k != S("self"))), K[k])),
            ("values are plain or containers", forall([k], Implies(K[k] != Abs, Or(_c.plain(ex, K[k]), _c.wf_container(ex, K[k]))), K[k]))]

  def keeps(self, ex, a, h, f):
    """the field has no declared kind, and holds a container."""
    m = h.D(V.rval(fmeta(f)))
    old = cd(h, ex.lift(a.self))[fname(f)]
    return And(finit(f), m[S(FN)] == Abs, old != Abs, isc(ex, old, CONTF))

  def bad(self, ex, a, h, f):
    old, v = cd(h, ex.lift(a.self))[fname(f)], a.kwargs[fname(f)]
    return And(self.keeps(ex, a, h, f), v != Abs, isc(ex, v, CONTF), Not(_c.eqv(h, old, v)))

  def raises(self, ex, a):
    j = z3.Int("j!dr")
    t = self.t(ex, a)
    return [("ValueError", exists([j], And(0 <= j, j < tlen(t), self.bad(ex, a, ex.heap, tget(t, j))), tget(t, j)))]

  def facts(self, ex, a, h0, U, n):
    """what the keywords U are after the first n fields."""
    t = self.t(ex, a)
    f = lambda j: tget(t, j)
    A, K = cd(h0, ex.lift(a.self)), a.kwargs
    j = z3.Int("j!df")
    k, q = z3.Consts("k!df q!df", V)
    N = _p.contents_of(ex, U)
    w = F("field called", V, V, Int)
    ex.assume(forall([j], Implies(And(0 <= j, j < tlen(t)), w(t, fname(f(j))) == j), f(j)))
    hit = lambda k: And(0 <= w(t, k), w(t, k) < n, fname(f(w(t, k))) == k, self.keeps(ex, a, h0, f(w(t, k))))
    fresh = And(V.is_RV(U[k]), V.rval(U[k]) >= h0.alloc)
    gv = If(K[k] == Abs, cd(h0, A[k])[S(VAL)], If(isc(ex, K[k], CONTF), cd(h0, K[k])[S(VAL)], K[k]))
    return [("other keywords are as given", forall([k], Implies(Not(hit(k)), U[k] == K[k]), U[k])),
            ("a field of no declared kind stays in a container of its class", forall([k], Implies(hit(k), And(fresh, clsof(U[k]) == clsof(A[k]))), U[k], A[k])),
            ("with its metadata", forall([k, q], Implies(And(hit(k), q != S(VAL)), N(k)[q] == cd(h0, A[k])[q]), N(k)[q], z3.simplify(cd(h0, A[k])[q]))),
            ("and the given value, else its own", forall([k], Implies(hit(k), N(k)[S(VAL)] == gv), N(k), A[k]))]

  def loops(self, ex):
    def inv(L):
      a, h0 = ex.spec_args, ex.h0
      dicts = [v for n, v in L.env0.items() if isV(v) and v.decl().name() == "RV" and ex.klass(v) == "dict"]
      if len(dicts) != 1:
        raise Unsupported("the keywords expected")
      U = ex.named(ex.heap.D(dicts[0].arg(0)))
      k = z3.Const("k!di", V)
      j = z3.Int("j!di")
      t = self.t(ex, a)
      return [("keywords refer to existing objects", forall([k], age(U[k]) <= ex.heap.alloc, U[k])),
              ("no container is the keyword dictionary", forall([k], Implies(And(U[k] != Abs, isc(ex, U[k], CONTF)), V.rval(U[k]) != dicts[0].arg(0)), U[k])),
              ("fields reached were acceptable", forall([j], Implies(And(0 <= j, j < L.i), Not(self.bad(ex, a, h0, tget(t, j)))), tget(t, j)))] + self.facts(ex, a, h0, U, L.i)
    return [LoopSpec(inv, modifies=lambda L, x: x >= ex.h0.alloc)]

  def ensures(self, ex, a, h0, r):
    if ex.replaced is None:
      return [("dataclasses.replace makes the result", z3.BoolVal(False))]
    x, U, n = ex.replaced
    return [("dataclasses.replace of the object makes the result", And(ex.lift(r) == ex.res_of, x == ex.lift(a.self), z3.BoolVal(n == 1)))] + \
        self.facts(ex, a, h0, U, tlen(self.t(ex, a)))


SPECS = [PytreeCall(), ModuleCall(), ReplaceDataclass()] + \
    [Lemma("nnx.dataclasses." + fn, field_lemma(fn), container_config, props=("C24",)) for fn in KINDS] + \
    [Lemma("nnx.dataclasses.field", plain_field, container_config, props=("C24",)),
     Lemma("nnx.dataclasses.dataclass", decorator, container_config, props=("C24",))]
REGISTRY = _p.REGISTRY + SPECS
AXIOMS = list
