"""C09 / C10: containers.

newc(code, val, kw, h, k)   what a container of class `code` built from value
                            `val` and keyword metadata `kw` holds under k
eqv(h, x, y)                same class and equal metadata
"""
from pyded.spec import *
from pyded.interp import meq

CONT = "nnx.containers.Container"
VAL, SHARD = "value", "sharding"


def isc(ex, v, full):
  return ex.isinst_term(v, ex.cls(full))


def cd(h, v):
  return h.D(V.rval(v))


def inner(ex, h, val):
  """(value, metadata contents or None-condition) a ContainerMetadata stands for."""
  m = isc(ex, val, "nnx.containers.ContainerMetadata")
  c = cd(h, val)
  return m, c[S(VAL)], h.D(idof(c[S("metadata")]))


def newc(ex, code, val, kw, h):
  m, v, md = inner(ex, h, val)
  isvar = subc(code, ex.ccode(ex.cls("nnx.containers.Variable")))
  base = ex.ite(isvar, z3.Store(kw, S(SHARD), If(kw[S(SHARD)] == Abs, NoneV, kw[S(SHARD)])), kw)
  return z3.Store(ex.ite(m, over(base, md), base), S(VAL), ex.ite(m, v, val))


def eqv(h, x, y):
  return And(clsof(x) == clsof(y), meq(cd(h, x), cd(h, y), S(VAL)))


def container_config(ex):
  ex.query_classes = ["nnx.containers.Container", "nnx.containers.NodeBase", "nnx.containers.Node",
                      "nnx.containers.Variable", "nnx.containers.Static"]

  def has_value(ex, obj, val):
    ex.assume(val != Abs)
  ex.field_inv[(CONT, VAL)] = has_value

  def md_value(ex, obj, val):
    ex.assume(val != Abs)

  def md_meta(ex, obj, val):
    ex.assume(And(val != Abs, V.is_RV(val), subc(clsof(val), C("dict"))))
    ex.hint(val, "dict")
  ex.field_inv[("nnx.containers.ContainerMetadata", "value")] = md_value
  ex.field_inv[("nnx.containers.ContainerMetadata", "metadata")] = md_meta


def plain(ex, v):
  """neither a container nor a value with metadata attached."""
  return And(v != Abs, Not(isc(ex, v, CONT)), Not(isc(ex, v, "nnx.containers.ContainerMetadata")))


def wf_container(ex, v, h=None):
  """representation of a container object: what every constructor call leaves."""
  h = h or ex.heap
  D = cd(h, v)
  k = z3.Const("k!wf", V)
  st = isc(ex, v, "nnx.containers.Static")
  va = isc(ex, v, "nnx.containers.Variable")
  return And(isc(ex, v, CONT), plain(ex, D[S(VAL)]), D[S("self")] == Abs, Not(And(st, va)),
             Implies(st, forall([k], Implies(k != S(VAL), D[k] == Abs), D[k])), Implies(va, D[S(SHARD)] != Abs))


class MetaCall(Contract):
  props = ("C09", "C10")
  target = "nnx.containers.ContainerMetaclass.__call__"
  params = ("cls", "value", "**metadata")

  def config(self, ex):
    container_config(ex)

  def setup(self, ex, a):
    c = z3.Int("cls")
    a.cls = CV(c)
    ex.assume(subc(c, ex.ccode(ex.cls(CONT))))
    if not ex.branch(subc(c, ex.ccode(ex.cls("nnx.containers.Variable")))):
      ex.branch(subc(c, ex.ccode(ex.cls("nnx.containers.Static"))))
    else:
      ex.assume(Not(subc(c, ex.ccode(ex.cls("nnx.containers.Static")))), "no class is both a Variable and a Static")
    a.value = ex.sym("value")
    ex.branch(isc(ex, a.value, CONT))
    a.metadata = ex.sym_map("metadata")

  def requires(self, ex, a):
    v = ex.lift(a.value)
    m, _, _ = inner(ex, ex.heap, v)
    h = ex.heap
    return [("metadata has no key 'value' or 'self'", And(a.metadata[S(VAL)] == Abs, a.metadata[S("self")] == Abs)),
            ("the value is a well-formed container if it is one", Implies(isc(ex, v, CONT), cd(h, v)[S(VAL)] != Abs))]

  def val(self, ex, a, h):
    v = ex.lift(a.value)
    return ex.ite(isc(ex, v, CONT), cd(h, v)[S(VAL)], v)

  def code(self, ex, a):
    return z3.simplify(V.cval(ex.lift(a.cls)))

  def raises(self, ex, a):
    h = ex.heap
    v = ex.lift(a.value)
    code = self.code(ex, a)
    st = subc(code, ex.ccode(ex.cls("nnx.containers.Static")))
    A = cd(h, v)
    val = self.val(ex, a, h)
    bad = Not(And(clsof(v) == code, meq(A, newc(ex, code, val, a.metadata, h), S(VAL))))
    return [("TypeError", And(st, a.metadata != EMPTY)), ("ValueError", And(isc(ex, v, CONT), bad))]

  def ensures(self, ex, a, h0, r):
    r = ex.lift(r)
    code = self.code(ex, a)
    k = z3.Const("k!nc", V)
    val = self.val(ex, a, h0)
    D = ex.content(r)
    return [("a new object of exactly that class", And(V.is_RV(r), V.rval(r) >= h0.alloc, clsof(r) == code)),
            ("value and metadata are as given", forall([k], D[k] == newc(ex, code, val, a.metadata, h0)[k], D[k]))]


class IsEquivalent(Contract):
  props = ("C09",)
  target = "nnx.containers.Container.is_equivalent"
  pure = True
  params = ("self", "other")
  config = lambda self, ex: container_config(ex)

  def setup(self, ex, a):
    a.self = ex.sym("self", CONT)
    a.other = ex.sym("other")
    ex.branch(isc(ex, a.other, CONT))

  def result(self, ex, a, h0):
    return ex.fresh("equiv", Bool)

  def ensures(self, ex, a, h0, r):
    r = r if isinstance(r, bool) or has_sort(r, Bool) else ex.truth(r)
    return [("same class and equal metadata", ex.as_bool(r) == eqv(h0, ex.lift(a.self), ex.lift(a.other)))]


class Replace(Contract):
  props = ("C09",)
  target = "nnx.containers.Container.replace"
  params = ("self", "**kwargs")
  config = lambda self, ex: container_config(ex)

  def setup(self, ex, a):
    a.self = ex.sym("self", CONT)
    for c in ("nnx.containers.Variable", "nnx.containers.Static"):
      if ex.branch(isc(ex, a.self, c)):
        break
    a.kwargs = ex.sym_map("kwargs")
    nv = a.kwargs[S(VAL)]
    if ex.branch(nv != Abs):
      ex.branch(isc(ex, nv, CONT))

  def requires(self, ex, a):
    k = z3.Const("k!rq", V)
    nv = a.kwargs[S(VAL)]
    return [("keyword names are strings other than self",
             And(a.kwargs[S("self")] == Abs, forall([k], Implies(a.kwargs[k] != Abs, V.is_SV(k)), a.kwargs[k]))),
            ("self is a container", wf_container(ex, ex.lift(a.self))),
            ("the new value is plain or a container", Implies(nv != Abs, Or(plain(ex, nv), wf_container(ex, nv))))]

  def raises(self, ex, a):
    h = ex.heap
    s = ex.lift(a.self)
    nv = a.kwargs[S(VAL)]
    A = cd(h, s)
    k = z3.Const("k!rp", V)
    bad = ex.ite(And(nv != Abs, isc(ex, nv, CONT)), Not(eqv(h, s, nv)), z3.BoolVal(False))
    unk = exists([k], And(a.kwargs[k] != Abs, A[k] == Abs))
    return [("ValueError", Or(bad, unk))]

  def ensures(self, ex, a, h0, r):
    s = ex.lift(a.self)
    r = ex.lift(r)
    A, D = cd(h0, s), ex.content(r)
    nv = a.kwargs[S(VAL)]
    k = z3.Const("k!rn", V)
    new = If(a.kwargs[k] == Abs, A[k],
             ex.ite(And(nv != Abs, isc(ex, nv, CONT)), If(k == S(VAL), cd(h0, nv)[S(VAL)], a.kwargs[k]), a.kwargs[k]))
    return [("a new object of the same class", And(V.is_RV(r), V.rval(r) >= h0.alloc, clsof(r) == clsof(s))),
            ("only the given keys change", forall([k], D[k] == new, D[k]))]


class Copy(Contract):
  props = ("C09",)
  target = "nnx.containers.Container.copy"
  params = ("self",)
  config = lambda self, ex: container_config(ex)

  def setup(self, ex, a):
    a.self = ex.sym("self", CONT)
    for c in ("nnx.containers.Variable", "nnx.containers.Static"):
      if ex.branch(isc(ex, a.self, c)):
        break

  def requires(self, ex, a):
    return [("self is a container", wf_container(ex, ex.lift(a.self)))]

  def ensures(self, ex, a, h0, r):
    s, r = ex.lift(a.self), ex.lift(r)
    A, D = cd(h0, s), ex.content(r)
    k = z3.Const("k!cp", V)
    return [("a new object of the same class", And(V.is_RV(r), V.rval(r) >= h0.alloc, clsof(r) == clsof(s))),
            ("with the same value and metadata", forall([k], D[k] == A[k], D[k]))]


class ContainerEq(Contract):
  props = ("C09",)
  target = "nnx.containers.Container.__eq__"
  params = ("self", "other")
  pure = True
  config = lambda self, ex: container_config(ex)

  def setup(self, ex, a):
    a.self = ex.sym("self", CONT)
    a.other = ex.sym("other")
    ex.branch(isc(ex, a.other, CONT))

  def result(self, ex, a, h0):
    return ex.fresh("eq", Bool)

  def ensures(self, ex, a, h0, r):
    r = r if isinstance(r, bool) or has_sort(r, Bool) else ex.truth(r)
    x, y = ex.lift(a.self), ex.lift(a.other)
    return [("same class, equal value and metadata",
             ex.as_bool(r) == And(clsof(x) == clsof(y), meq(cd(h0, y), cd(h0, x), Abs)))]


class StaticFlatten(Contract):
  props = ("C10",)
  target = "nnx.containers._static_flatten"
  params = ("x",)
  pure = True
  config = lambda self, ex: container_config(ex)

  def setup(self, ex, a):
    a.x = ex.sym("x", "nnx.containers.Static")

  def requires(self, ex, a):
    return [("x is a container", wf_container(ex, ex.lift(a.x)))]

  def ensures(self, ex, a, h0, r):
    ch, aux = ex.t_get(r, 0), ex.t_get(r, 1)
    return [("no children", ex.iterm(ex.t_len(ch)) == 0), ("the value is structure", ex.lift(aux) == cd(h0, a.x)[S(VAL)]),
            ("a pair", ex.iterm(ex.t_len(r)) == 2)]


class StaticUnflatten(Contract):
  props = ("C10",)
  target = "nnx.containers._static_unflatten"
  params = ("metadata", "children")
  config = lambda self, ex: container_config(ex)

  def setup(self, ex, a):
    a.metadata, a.children = ex.sym("aux"), ex.sym("children", "tuple")

  def requires(self, ex, a):
    return [("the structure is the plain value of a static", plain(ex, ex.lift(a.metadata)))]

  def ensures(self, ex, a, h0, r):
    r = ex.lift(r)
    k = z3.Const("k!su", V)
    D = ex.content(r)
    return [("a new Static", And(V.is_RV(r), V.rval(r) >= h0.alloc, clsof(r) == ex.ccode(ex.cls("nnx.containers.Static")))),
            ("holding exactly that value", forall([k], D[k] == If(k == S(VAL), ex.lift(a.metadata), Abs), D[k]))]


def node_registration(ex):
  """flatten / unflatten that a node container class registers with JAX."""
  c = z3.Int("cls")
  ex.assume(subc(c, ex.ccode(ex.cls("nnx.containers.NodeBase"))))
  st, va = ex.ccode(ex.cls("nnx.containers.Static")), ex.ccode(ex.cls("nnx.containers.Variable"))
  ex.assume(Not(subc(c, st)), "no class is both a node container and a Static")
  ex.branch(subc(c, va))
  reg = []
  ex.ext_handlers["jax.tree_util.register_pytree_with_keys"] = lambda ex, a, k: reg.append((a, k))
  fi, owner = ex.func("nnx.containers.NodeBase.__init_subclass__")
  pf = PyFunc(fi)
  pf.owner = owner
  ex.call_func(pf, [CV(c)], {})
  ex.prove("registers exactly once", z3.BoolVal(len(reg) == 1))
  if not reg:
    return
  a, kw = reg[0]
  ex.prove("registers the class itself", ex.lift(a[0]) == CV(c))
  fl_keys, unfl = a[1], a[2]
  fl = kw.get("flatten_func", a[3] if len(a) > 3 else None)
  x = ex.sym("x")
  ex.assume(And(V.is_RV(x), clsof(x) == c))
  ex.hint(x, "nnx:nnx.containers.NodeBase")
  ex.assume(wf_container(ex, x))
  h0 = ex.heap
  ex.writes = []
  A = cd(h0, x)
  k = z3.Const("k!nf", V)
  for label, f in (("flatten", fl), ("flatten with keys", fl_keys)):
    r = ex.call(f, [x], {})
    ch, aux = ex.t_get(r, 0), ex.t_get(r, 1)
    ex.prove(f"{label}: a pair with one child", And(ex.iterm(ex.t_len(r)) == 2, ex.iterm(ex.t_len(ch)) == 1))
    child = ex.t_get(ch, 0)
    if label != "flatten":
      child = ex.t_get(child, 1)
    ex.prove(f"{label}: the child is the value", ex.lift(child) == A[S(VAL)])
    M = ex.content(aux)
    ex.prove(f"{label}: the structure is all the metadata", forall([k], M[k] == If(k == S(VAL), Abs, A[k]), M[k]))
    new = ex.fresh("leaf")
    ex.assume(And(new != Abs, age(new) <= ex.heap.alloc))
    ex.assume(plain(ex, new))
    y = ex.lift(ex.call(unfl, [aux, (new,)], {}))
    B = ex.content(y)
    ex.prove(f"unflatten of {label}: same class", And(V.is_RV(y), clsof(y) == c))
    ex.prove(f"unflatten of {label}: same metadata, the new value",
             forall([k], B[k] == If(k == S(VAL), new, A[k]), B[k]))
    y = ex.lift(ex.call(unfl, [aux, (child,)], {}))
    B = ex.content(y)
    ex.prove(f"{label} then unflatten is the identity", And(clsof(y) == c, forall([k], B[k] == A[k], B[k])))
  for w in ex.writes:
    if w[0] != "havoc":
      ex.prove("flattening changes no existing object", w[1] >= h0.alloc)


class NodeRegistration(Lemma):
  props = ("C10",)

  def __init__(self):
    super().__init__("nnx.containers.NodeBase.__init_subclass__", node_registration, config=container_config)


def with_metadata_lemma(ex):
  """an initializer wrapped by with_metadata yields its value with the metadata."""
  fi, _ = ex.func("nnx.containers.with_metadata")
  init = ex.sym("initializer")
  ex.assume(And(V.is_XV(init), callable_(init)))
  md = ex.sym_map("metadata")
  ex.assume(And(md[S("initializer")] == Abs))
  w = ex.call_func(PyFunc(fi), [init], {"**": SymKw(md)})
  args = ex.sym("args", "tuple")
  h0 = ex.heap
  r = ex.lift(ex.call(w, [Star(args)], {}))
  v = ex.lift(ex.call_opaque(init, [Star(args)], {}))
  ex.prove("the result pairs the initial value with the metadata", isc(ex, r, "nnx.containers.ContainerMetadata"))
  D = ex.content(r)
  ex.prove("value is what the initializer returns", D[S(VAL)] == v)
  M = ex.heap.D(idof(D[S("metadata")]))
  k = z3.Const("k!wm", V)
  ex.prove("metadata is what was given", forall([k], M[k] == md[k], M[k]))


class WithMetadata(Lemma):
  props = ("C10",)

  def __init__(self):
    super().__init__("nnx.containers.with_metadata", with_metadata_lemma, config=container_config)


SPECS = [MetaCall(), IsEquivalent(), Replace(), Copy(), ContainerEq(), StaticFlatten(), StaticUnflatten(),
         NodeRegistration(), WithMetadata()]
AXIOMS = list
