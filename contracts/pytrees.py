"""C11: immutability and replace of Pytree objects; C12: flatten, unflatten and state dicts.

A constructed Pytree object has a list of its sorted field names and neither
construction flag.
"""
from pyded.spec import *
from pyded.loops import kseq, kpos, kmark, LoopSpec
from pyded.core import mk
from .containers import cd, isc, container_config, wf_container, plain, eqv, VAL, CONT
from . import containers as _c
from .common import nodes_config, isnode

USES = ("containers",)
M = "nnx.pytreelib."
PT = M + "Pytree"
MUT, INI, SORTED, CLSMUT = "_pytree__is_mutable", "_pytree__initializing", "_pytree__sorted_fields", "_pytree__class_is_mutable"
clsmut = F("class is mutable", Int, Bool)


def pyt_config(ex):
  container_config(ex)
  ex.query_classes = ex.query_classes + [PT]
  ex.global_over[PT + "." + CLSMUT] = lambda ex, obj: clsmut(clsof(obj))
  ex.ext_handlers["copy.copy"] = copy_object
  # a mapping proxy is a view of its dictionary (that it refuses writes is not used)
  ex.ext_handlers["types.MappingProxyType"] = lambda ex, a, k: VD(ex.did(a[0]))


def copy_object(ex, a, k):
  """copy.copy of an object without __copy__: same class, same attribute dictionary contents."""
  x = ex.lift(a[0])
  if not ex.entails(isc(ex, x, PT)):
    raise Unsupported("copy.copy of something else")
  ex.externals.add("copy.copy")
  r = ex.alloc(clsof(x))
  ex.hint(r, "nnx:" + PT)
  ex.heap = ex.heap.wr("D", r.arg(0), cd(ex.heap, x))
  ex.heap = ex.heap.wr("O", r.arg(0), ex.heap.O(V.rval(x)))
  return r


def framework(k):
  return Or(*[k == S(n) for n in (MUT, INI, CLSMUT)])


def wf_obj(ex, h, v):
  """an object of a Pytree class, under construction or not."""
  D = cd(h, v)
  k = z3.Const("k!wp", V)
  return And(isc(ex, v, PT), Not(isc(ex, v, CONT)), D[S(CLSMUT)] == Abs, D[S("self")] == Abs,
             forall([k], Implies(D[k] != Abs, V.is_SV(k)), D[k]))


def wf_done(ex, h, v):
  """a constructed object."""
  D = cd(h, v)
  return And(wf_obj(ex, h, v), D[S(MUT)] == Abs, D[S(INI)] == Abs)


def wf_fields(ex, h, v):
  """every field holds a plain value or a well-formed container."""
  D = cd(h, v)
  k = z3.Const("k!wf2", V)
  return forall([k], Implies(D[k] != Abs, Or(plain(ex, D[k]), wf_container_q(ex, D[k], h))), D[k])


def wf_container_q(ex, v, h):
  """wf_container without naming (usable under a quantifier)."""
  return wf_container(ex, v, h)


class SetAttr(Contract):
  props = ("C11",)
  target = PT + "._setattr"
  params = ("self", "name", "value")
  config = lambda self, ex: pyt_config(ex)

  def setup(self, ex, a):
    a.self = ex.sym("self", PT)
    a.name = ex.sym("name", "str")
    a.value = ex.sym("value")
    old = cd(ex.heap, a.self)[a.name]
    if ex.branch(And(old != Abs, isc(ex, old, CONT))):
      ex.branch(isc(ex, a.value, CONT))

  def old(self, ex, a, h):
    return cd(h, ex.lift(a.self))[ex.lift(a.name)]

  def requires(self, ex, a):
    h = ex.heap
    old, v, n = self.old(ex, a, h), ex.lift(a.value), ex.lift(a.name)
    return [("a pytree object", wf_obj(ex, h, ex.lift(a.self))), ("the name is a field name", And(V.is_SV(n), n != S("self"), Not(framework(n)))),
            ("the old field is well formed", Implies(isc(ex, old, CONT), wf_container(ex, old))),
            ("the value is plain or a container", And(v != Abs, Or(plain(ex, v), wf_container(ex, v))))]

  def refused(self, ex, a, h):
    D = cd(h, ex.lift(a.self))
    return And(D[S(INI)] == Abs, Or(D[ex.lift(a.name)] == Abs, And(D[S(MUT)] == Abs, Not(clsmut(clsof(ex.lift(a.self)))))))

  def raises(self, ex, a):
    h = ex.heap
    old, v = self.old(ex, a, h), ex.lift(a.value)
    oc, vc = And(old != Abs, isc(ex, old, CONT)), isc(ex, v, CONT)
    ref = self.refused(ex, a, h)
    return [("AttributeError", ref),
            ("ValueError", And(Not(ref), ex.ite(oc, ex.ite(vc, Not(eqv(h, old, v)), z3.BoolVal(False)), z3.BoolVal(False))))]

  def modifies(self, ex, a, h0, i):
    return i == V.rval(ex.lift(a.self))

  def result(self, ex, a, h0):
    return None

  def ensures(self, ex, a, h0, r):
    m, n, v = ex.lift(a.self), ex.lift(a.name), ex.lift(a.value)
    old = self.old(ex, a, h0)
    oc, vc = And(old != Abs, isc(ex, old, CONT)), isc(ex, v, CONT)
    D, D0 = cd(ex.heap, m), cd(h0, m)
    k = z3.Const("k!sa", V)
    new = D[n]
    N = ex.named(cd(ex.heap, new))
    fresh = And(V.is_RV(new), V.rval(new) >= h0.alloc)
    A, B = ex.named(cd(h0, old)), ex.named(cd(h0, v))
    inner = ex.ite(vc, B[S(VAL)], v)
    return [("only this field", forall([k], Implies(k != n, D[k] == D0[k]), D[k])),
            ("the field is there", And(new != Abs, age(new) <= ex.heap.alloc)),
            ("a container field keeps class and metadata, in a new container",
             Implies(oc, And(fresh, clsof(new) == clsof(old), forall([k], Implies(k != S(VAL), N[k] == A[k]), N[k])))),
            ("and holds the new value", Implies(oc, N[S(VAL)] == inner)),
            ("a container given to another field is copied",
             Implies(And(Not(oc), vc), And(fresh, clsof(new) == clsof(v), forall([k], N[k] == B[k], N[k])))),
            ("a plain value is stored as given", Implies(And(Not(oc), Not(vc)), new == v))]

  def on_raise(self, ex, a, h0, exc):
    m = ex.lift(a.self)
    k = z3.Const("k!sr", V)
    return [("a refused assignment keeps every field", forall([k], cd(ex.heap, m)[k] == cd(h0, m)[k], cd(ex.heap, m)[k]))]


class SetAttrOp(SetAttr):
  target = PT + ".__setattr__"
  callable = False


class GetAttribute(Contract):
  """reading a field."""
  props = ("C11", "C12")
  target = PT + ".__getattribute__"
  params = ("self", "name")
  pure = True
  callable = False
  config = lambda self, ex: pyt_config(ex)

  def setup(self, ex, a):
    a.self = ex.sym("self", PT)
    a.name = ex.sym("name", "str")

  def requires(self, ex, a):
    old = cd(ex.heap, ex.lift(a.self))[ex.lift(a.name)]
    return [("a field of the object", old != Abs),
            ("a container field is well formed", Implies(isc(ex, old, CONT), wf_container(ex, old)))]

  def ensures(self, ex, a, h0, r):
    old = cd(h0, ex.lift(a.self))[ex.lift(a.name)]
    return [("the value, without its container", ex.lift(r) == If(isc(ex, old, CONT), cd(h0, old)[S(VAL)], old))]


def contents_of(ex, D):
  """c(k): the contents of the object held under k (a name, so that it can be a trigger)."""
  c = ex.fresh_fn("contents", V, Map)
  k = z3.Const("k!co", V)
  ex.assume(forall([k], c(k) == cd(ex.heap, D[k]), c(k)))
  return c


def new_field(ex, h0, N, old, given, now, k):
  """what a field holds after it was assigned `given` (1-tuples: for every key k of its contents N)."""
  oc, vc = And(old != Abs, isc(ex, old, CONT)), isc(ex, given, CONT)
  A, B = cd(h0, old), cd(h0, given)
  fresh = And(V.is_RV(now), V.rval(now) >= h0.alloc)
  return [("a field", now != Abs),
          ("a container stays one", Implies(oc, And(fresh, clsof(now) == clsof(old)))),
          ("its metadata", (Implies(And(oc, k != S(VAL)), N[k] == A[k]),)),
          ("its value", Implies(oc, N[S(VAL)] == If(vc, B[S(VAL)], given))),
          ("a copy", Implies(And(Not(oc), vc), And(fresh, clsof(now) == clsof(given)))),
          ("contents of the copy", (Implies(And(Not(oc), vc), N[k] == B[k]),)),
          ("a plain value", Implies(And(Not(oc), Not(vc)), now == given))]


def new_fields(ex, h0, N, A, K, D, cond, what):
  """the same for every k with cond(k)."""
  k, q = z3.Const("k!nfs", V), z3.Const("q!nfs", V)
  out = []
  for nm, f in new_field(ex, h0, N(k), A[k], K[k], D[k], q):
    if isinstance(f, tuple):
      out.append((f"{what}: {nm}", forall([k, q], Implies(cond(k), f[0]), N(k)[q], *[t for t in (z3.simplify(cd(h0, A[k]))[q], z3.simplify(cd(h0, K[k]))[q]) if pat_ok(t)])))
    else:
      out.append((f"{what}: {nm}", forall([k], Implies(cond(k), f), N(k), D[k], K[k])))
  return out


def enumerated(ex, L):
  """(contents, order) of the dictionary a loop over its items or keys goes through."""
  e = L.elem(z3.Int("q!en"))
  t = ex.lift(ex.t_get(e, 0)) if isinstance(e, tuple) or ex.klass(e) == "tuple" else ex.lift(e)
  t = z3.simplify(t)
  if t.decl().name() != "kseq":
    raise Unsupported("a loop over a dictionary expected")
  return t.arg(0), t.arg(1)


class Replace(Contract):
  """replace of an object that is not a dataclass."""
  props = ("C11",)
  target = PT + ".replace"
  params = ("self", "**kwargs")

  def config(self, ex):
    pyt_config(ex)
    ex.ext_handlers["dataclasses.is_dataclass"] = lambda ex, a, k: False

  def setup(self, ex, a):
    a.self = ex.sym("self", PT)
    a.kwargs = ex.sym_map("kwargs")

  def requires(self, ex, a):
    h = ex.heap
    k = z3.Const("k!rr", V)
    K = a.kwargs
    return [("a constructed object", wf_done(ex, h, ex.lift(a.self))), ("its fields are well formed", wf_fields(ex, h, ex.lift(a.self))),
            ("keywords are field names", forall([k], Implies(K[k] != Abs, And(V.is_SV(k), k != S("self"), Not(framework(k)))), K[k])),
            ("values are plain or containers", forall([k], Implies(K[k] != Abs, Or(plain(ex, K[k]), wf_container(ex, K[k]))), K[k]))]

  def bad(self, ex, a, h, k):
    old, v = cd(h, ex.lift(a.self))[k], a.kwargs[k]
    return And(v != Abs, old != Abs, isc(ex, old, CONT), isc(ex, v, CONT), Not(eqv(h, old, v)))

  def raises(self, ex, a):
    h = ex.heap
    k = z3.Const("k!rx", V)
    D = cd(h, ex.lift(a.self))
    unk = exists([k], And(a.kwargs[k] != Abs, D[k] == Abs), a.kwargs[k])
    m = clsmut(clsof(ex.lift(a.self)))
    return [("ValueError", And(Not(m), unk)), ("~ValueError", exists([k], self.bad(ex, a, h, k), a.kwargs[k])), ("AttributeError", And(m, unk))]

  def loops(self, ex):
    def inv(L):
      a = ex.spec_args
      h0 = ex.h0
      s = ex.lift(a.self)
      new = [v for v in L.env0.values() if isV(v) and ex.klass(v) is ex.cls(PT) and not v.eq(s)]
      if len(new) != 1:
        raise Unsupported("one new object expected")
      y = new[0]
      K, O = enumerated(ex, L)
      D = cd(ex.heap, y)
      k = z3.Const("k!rl", V)
      N = contents_of(ex, D)
      done = lambda k: And(K[k] != Abs, kpos(K, O, k) < L.i)
      return [("fields not reached are as in the original", forall([k], Implies(And(Not(done(k)), k != S(MUT)), D[k] == cd(h0, s)[k]), D[k])),
              ("the object is writable", D[S(MUT)] != Abs),
              ("fields reached were acceptable", forall([k], Implies(done(k), And(cd(h0, s)[k] != Abs, Not(self.bad(ex, a, h0, k)))), K[k])),
              ("no field is the object itself", forall([k], Implies(And(done(k), isc(ex, D[k], CONT)), V.rval(D[k]) != V.rval(y)), D[k])),
              ("fields refer to existing objects", forall([k], age(D[k]) <= ex.heap.alloc, D[k]))] + \
          new_fields(ex, h0, N, cd(h0, s), K, D, done, "fields reached")
    return [LoopSpec(inv, modifies=lambda L, x: x >= ex.h0.alloc)]

  def ensures(self, ex, a, h0, r):
    s, r = ex.lift(a.self), ex.lift(r)
    D, A = ex.named(cd(ex.heap, r)), cd(h0, s)
    k = z3.Const("k!re", V)
    K = a.kwargs
    N = contents_of(ex, D)
    return [("a new object of the same class", And(V.is_RV(r), V.rval(r) >= h0.alloc, clsof(r) == clsof(s))),
            ("constructed, as immutable as the original", And(D[S(MUT)] == Abs, D[S(INI)] == Abs)),
            ("fields not given are unchanged", forall([k], Implies(K[k] == Abs, D[k] == A[k]), D[k]))] + \
        new_fields(ex, h0, N, A, K, D, lambda k: K[k] != Abs, "fields given are exactly those values, in their container")


def fl_config(ex):
  pyt_config(ex)
  ex.field_inv[(PT, SORTED)] = lambda ex, obj, val: ex.hint(val, "list")   # part of `complete`
  nodes_config(ex)


def complete(ex, h, v):
  """the object records its field names, all of them, in increasing order."""
  D = cd(h, v)
  s = D[S(SORTED)]
  T = h.L(V.rval(s))
  i, j = z3.Ints("i!cf j!cf")
  k = z3.Const("k!cf", V)
  w = F("field position", V, V, Int)
  return And(wf_done(ex, h, v), V.is_RV(s), clsof(s) == C("list"), V.is_TV(T), tlen(T) >= 0, s != v,
             forall([i], Implies(And(0 <= i, i < tlen(T)), And(V.is_SV(tget(T, i)), D[tget(T, i)] != Abs, w(T, tget(T, i)) == i)), tget(T, i)),
             forall([i, j], Implies(And(0 <= i, i < j, j < tlen(T)), And(slt(tget(T, i), tget(T, j)), tget(T, i) != tget(T, j))), [tget(T, i), tget(T, j)]),
             forall([k], Implies(D[k] != Abs, And(0 <= w(T, k), w(T, k) < tlen(T), tget(T, w(T, k)) == k)), D[k]))


def fields_of(ex, h, v):
  return h.L(V.rval(cd(h, v)[S(SORTED)]))


attrkey = F("GetAttrKey", V, V)


class Flatten(Contract):
  """children: the node fields in field order; structure: their names and all other fields."""
  props = ("C12",)
  target = PT + "._pytree__flatten"
  params = ("cls", "pytree", "with_key_paths")
  pure = allocates = True

  def config(self, ex):
    fl_config(ex)

    def gk(ex, a, k):
      v = attrkey(ex.lift(a[0]))
      ex.assume(V.is_XV(v))
      return v
    ex.ext_handlers["jax.tree_util.GetAttrKey"] = gk

  def setup(self, ex, a):
    a.cls = ex.sym("cls", "type")
    a.pytree = ex.sym("pytree", PT)
    a.with_key_paths = ex.branch(z3.Const("with_key_paths", Bool))

  def requires(self, ex, a):
    return [("a constructed object", complete(ex, ex.heap, ex.lift(a.pytree)))]

  def result(self, ex, a, h0):
    vals, names = ex.fresh("children"), ex.fresh("names")
    for t in (vals, names):
      ex.hint(t, "tuple")
      ex.assume(And(V.is_TV(t), clsof(t) == C("tuple"), age(t) <= ex.heap.alloc))
    return vals, (names, ex.alloc_dict(ex.fresh("static", Map)))

  def ghosts(self, ex, T, D):
    key = "_fl_ghost"
    if not hasattr(ex, key):
      setattr(ex, key, (ex.fresh_fn("nodes before", Int, Int), ex.fresh_fn("node at", Int, Int)))
    return getattr(ex, key)

  def loops(self, ex):
    def inv(L):
      a = ex.spec_args
      h0 = ex.h0
      p = ex.lift(a.pytree)
      D, T = cd(h0, p), fields_of(ex, h0, p)
      cnt, src = self.ghosts(ex, T, D)
      lists = {n: v for n, v in L.env0.items() if isV(v) and v.decl().name() == "RV" and ex.klass(v) == "list"}
      dicts = [v for n, v in L.env0.items() if isV(v) and v.decl().name() == "RV" and ex.klass(v) == "dict"]
      if len(lists) != 2 or len(dicts) != 1:
        raise Unsupported("two lists and a dictionary expected")
      (n1, l1), (n2, l2) = lists.items()
      if "name" in n1:
        l1, l2 = l2, l1
      vals, names = ex.named(ex.heap.L(l1.arg(0))), ex.named(ex.heap.L(l2.arg(0)))
      st = ex.named(ex.heap.D(dicts[0].arg(0)))
      i, j = z3.Ints("i!fl j!fl")
      k = z3.Const("k!fl", V)
      node = lambda t: isnode(ex, D[t])
      child = (lambda t: mk(attrkey(t), D[t])) if a.with_key_paths else (lambda t: D[t])
      w = F("field position", V, V, Int)
      ex.assume(cnt(0) == 0)
      ex.assume(Implies(And(L.i >= 0, L.i < tlen(T)), cnt(L.i + 1) == cnt(L.i) + If(node(tget(T, L.i)), 1, 0)))
      ex.assume(Implies(And(L.i >= 0, L.i < tlen(T), node(tget(T, L.i))), src(cnt(L.i)) == L.i))
      f = lambda i: tget(T, i)
      return [("sequences", And(V.is_TV(vals), V.is_TV(names), tlen(vals) == cnt(L.i), tlen(names) == cnt(L.i), cnt(L.i) >= 0)),
              ("node fields are children", forall([i], Implies(And(0 <= i, i < L.i, node(f(i))),
                                                               And(0 <= cnt(i), cnt(i) < cnt(L.i), src(cnt(i)) == i,
                                                                   tget(names, cnt(i)) == f(i), tget(vals, cnt(i)) == child(f(i)))), f(i), cnt(i))),
              ("children are node fields", forall([j], Implies(And(0 <= j, j < cnt(L.i)),
                                                               And(0 <= src(j), src(j) < L.i, node(f(src(j))), cnt(src(j)) == j,
                                                                   tget(names, j) == f(src(j)), tget(vals, j) == child(f(src(j))))), tget(names, j), tget(vals, j), src(j))),
              ("order", forall([i, j], Implies(And(0 <= i, i < j, j < cnt(L.i)), src(i) < src(j)), [src(i), src(j)])),
              ("other fields are structure", forall([k], st[k] == If(And(D[k] != Abs, w(T, k) < L.i, Not(node(k))), D[k], Abs), st[k]))]
    return [LoopSpec(inv, modifies=lambda L, x: x >= ex.h0.alloc)]

  def ensures(self, ex, a, h0, r):
    p = ex.lift(a.pytree)
    D, T = cd(h0, p), fields_of(ex, h0, p)
    keys = a.with_key_paths
    vals, aux = ex.t_get(r, 0), ex.t_get(r, 1)
    names, st = ex.t_get(aux, 0), ex.t_get(aux, 1)
    vals, names = ex.named(ex.lift(ex.to_tuple(vals))), ex.named(ex.lift(ex.to_tuple(names)))
    st = ex.named(ex.heap.D(idof(ex.lift(st))))
    i, j = z3.Ints("i!fe j!fe")
    k = z3.Const("k!fe", V)
    node = lambda t: isnode(ex, D[t])
    n = tlen(names)
    pos = ex.fresh_fn("child", V, Int)
    if ex.spec_args is a:
      cnt, src = self.ghosts(ex, T, D)
      w = F("field position", V, V, Int)
      ex.assume(forall([k], pos(k) == cnt(w(T, k)), pos(k)))
    child = (lambda t: mk(attrkey(t), D[t])) if keys else (lambda t: D[t])
    return [("one name for each child", And(tlen(vals) == n, n >= 0, ex.iterm(ex.t_len(r)) == 2, ex.iterm(ex.t_len(aux)) == 2)),
            ("every child is a node field, under its name",
             forall([j], Implies(And(0 <= j, j < n), And(V.is_SV(tget(names, j)), D[tget(names, j)] != Abs, node(tget(names, j)), tget(vals, j) == child(tget(names, j)))),
                    tget(names, j), tget(vals, j))),
            ("in sorted field order", forall([i, j], Implies(And(0 <= i, i < j, j < n), And(slt(tget(names, i), tget(names, j)), tget(names, i) != tget(names, j))),
                                             [tget(names, i), tget(names, j)])),
            ("every node field is a child", forall([k], Implies(And(D[k] != Abs, node(k)), And(0 <= pos(k), pos(k) < n, tget(names, pos(k)) == k)), D[k])),
            ("all other fields are structure", forall([k], st[k] == If(And(D[k] != Abs, Not(node(k))), D[k], Abs), st[k]))]


class Unflatten(Contract):
  props = ("C12",)
  target = PT + "._pytree__unflatten"
  params = ("cls", "metadata", "node_values")
  pure = allocates = True
  config = lambda self, ex: fl_config(ex)

  def setup(self, ex, a):
    a.cls = ex.sym("cls", "type")
    names, static = ex.sym("names", "tuple"), ex.sym("static", "dict")
    a.metadata = (names, static)
    a.node_values = ex.sym("leaves", "tuple")

  def parts(self, ex, a):
    names = ex.lift(ex.t_get(a.metadata, 0))
    st = ex.lift(ex.t_get(a.metadata, 1))
    return names, ex.heap.D(idof(st)), ex.lift(ex.to_tuple(a.node_values))

  def requires(self, ex, a):
    names, st, vals = self.parts(ex, a)
    i, j = z3.Ints("i!ur j!ur")
    k = z3.Const("k!ur", V)
    n = tlen(names)
    return [("a pytree class", And(V.is_CV(ex.lift(a.cls)), subc(V.cval(ex.lift(a.cls)), ex.ccode(ex.cls(PT))))),
            ("one leaf for each name", And(n >= 0, tlen(vals) == n)),
            ("names are different strings, and not structure", forall([i], Implies(And(0 <= i, i < n), And(V.is_SV(tget(names, i)), st[tget(names, i)] == Abs, tget(vals, i) != Abs)), tget(names, i))),
            ("different", forall([i, j], Implies(And(0 <= i, i < j, j < n), tget(names, i) != tget(names, j)), [tget(names, i), tget(names, j)])),
            ("structure keys are strings", forall([k], Implies(st[k] != Abs, V.is_SV(k)), st[k]))]

  def result(self, ex, a, h0):
    r = ex.alloc(V.cval(ex.lift(a.cls)))
    ex.hint(r, "nnx:" + PT)
    ex.heap = ex.heap.wr("D", r.arg(0), ex.fresh("fields", Map))
    return r

  def ensures(self, ex, a, h0, r):
    r = ex.lift(r)
    names = ex.lift(ex.t_get(a.metadata, 0))
    st = h0.D(idof(ex.lift(ex.t_get(a.metadata, 1))))
    vals = ex.lift(ex.to_tuple(a.node_values))
    D = ex.named(cd(ex.heap, r))
    j = z3.Int("j!ue")
    k = z3.Const("k!ue", V)
    pos = ex.fresh_fn("slot", V, Int)
    n = tlen(names)
    out = [("a new object of the class", And(V.is_RV(r), V.rval(r) >= h0.alloc, clsof(r) == V.cval(ex.lift(a.cls)))),
           ("structure is restored", forall([k], Implies(st[k] != Abs, D[k] == st[k]), D[k], st[k])),
           ("every leaf under its name", forall([j], Implies(And(0 <= j, j < n), D[tget(names, j)] == tget(vals, j)), tget(names, j)))]
    hit = lambda k: And(0 <= pos(k), pos(k) < n, tget(names, pos(k)) == k)
    if ex.spec_args is a:
      k2 = z3.Const("k2!ue", V)
      jj = z3.Int("j2!ue")
      out.append(("nothing else", forall([k], Implies(And(D[k] != Abs, st[k] == Abs), exists([jj], And(0 <= jj, jj < n, tget(names, jj) == k), tget(names, jj))), D[k])))
    else:
      out.append(("nothing else", forall([k], Implies(And(D[k] != Abs, st[k] == Abs), hit(k)), D[k])))
    return out


def registration(ex):
  """what a Pytree class registers with JAX and flax when it is created."""
  c = z3.Int("cls")
  ex.assume(subc(c, ex.ccode(ex.cls(PT))))
  reg, ser, attrs = [], [], []
  ex.class_store = lambda obj, name, val: attrs.append((ex.lift(obj), name, val))
  mutable = z3.Const("mutable", Bool)
  ex.ext_handlers["jax.tree_util.register_pytree_with_keys"] = lambda ex, a, k: reg.append(("keys", a, k))
  ex.ext_handlers["jax.tree_util.register_pytree_node"] = lambda ex, a, k: reg.append(("node", a, k))
  ex.ext_handlers["flax.serialization.register_serialization_state"] = lambda ex, a, k: ser.append((a, k))
  fi, owner = ex.func(PT + ".__init_subclass__")
  pf = PyFunc(fi)
  pf.owner = owner
  ex.call_func(pf, [CV(c)], {"mutable": mutable})
  last = [v for o, n, v in attrs if n == CLSMUT and o.eq(CV(c))]
  ex.prove("the class is mutable exactly when declared so", z3.BoolVal(len(last) > 0) if not last else ex.as_bool(ex.truth(last[-1])) == mutable)
  ex.prove("registers exactly once", z3.BoolVal(len(reg) == 1))
  if len(reg) != 1:
    return
  how, a, kw = reg[0]
  ex.prove("registers the class itself", ex.lift(a[0]) == CV(c))
  x = ex.sym("x", PT)
  ex.assume(And(V.is_RV(x), clsof(x) == c))
  ex.assume(complete(ex, ex.heap, x))
  A = cd(ex.heap, x)
  k = z3.Const("k!rg", V)
  j = z3.Int("j!rg")
  unfl = a[2]
  fls = [("flatten with keys", a[1]), ("flatten", kw.get("flatten_func", a[3] if len(a) > 3 else None))] if how == "keys" else [("flatten", a[1])]
  for label, f in fls:
    if f is None:
      continue
    r = ex.call(f, [x], {})
    vals, aux = ex.t_get(r, 0), ex.t_get(r, 1)
    names = ex.lift(ex.to_tuple(ex.t_get(aux, 0)))
    vals = ex.lift(ex.to_tuple(vals))
    n = tlen(names)
    if label == "flatten":
      leaves = vals
      y = ex.lift(ex.call(unfl, [aux, leaves], {}))
      B = cd(ex.heap, y)
      ex.prove("flatten then unflatten is the identity", And(clsof(y) == c, V.is_RV(y), forall([k], B[k] == A[k], B[k])))
    new = ex.sym("new leaves", "tuple")
    ex.assume(tlen(new) == n)
    ex.assume(forall([j], Implies(And(0 <= j, j < n), tget(new, j) != Abs), tget(new, j)))
    y = ex.lift(ex.call(unfl, [aux, new], {}))
    B = cd(ex.heap, y)
    ex.prove(f"unflatten of {label}: same class", And(clsof(y) == c, V.is_RV(y)))
    ex.prove(f"unflatten of {label}: other fields identical", forall([k], Implies(Not(And(A[k] != Abs, isnode(ex, A[k]))), B[k] == A[k]), B[k]))
    ex.prove(f"unflatten of {label}: the new leaves under their names",
             forall([j], Implies(And(0 <= j, j < n), B[tget(names, j)] == tget(new, j)), tget(names, j)))


class Registration(Lemma):
  props = ("C12",)

  def __init__(self):
    super().__init__(PT + ".__init_subclass__", registration, config=Flatten().config)


tsd = F("to_state_dict", V, V)
fsd = F("from_state_dict", V, V, V, V)
SER = "flax.serialization."


def sd_config(ex):
  fl_config(ex)

  def opaque(f, n):
    def h(ex, a, k):
      args = list(a) + [k[x] for x in ("name",) if x in k]
      if len(args) != n:
        raise Unsupported("arguments of the state dict functions")
      ex.externals.add("flax.serialization")
      r = f(*[ex.lift(x) for x in args])
      ex.assume(And(r != Abs, age(r) <= ex.heap.alloc))
      return r
    return h
  ex.ext_handlers[SER + "to_state_dict"] = opaque(tsd, 1)
  ex.ext_handlers[SER + "from_state_dict"] = opaque(fsd, 3)


def attr_value(ex, h, v):
  """what reading a field holding v gives."""
  return If(isc(ex, v, CONT), cd(h, v)[S(VAL)], v)


class ToStateDict(Contract):
  """one entry for each node field: the state dict of its value."""
  props = ("C12",)
  target = PT + "._to_flax_state_dict"
  params = ("cls", "pytree")
  callable = False
  config = lambda self, ex: sd_config(ex)

  def setup(self, ex, a):
    a.cls = ex.sym("cls", "type")
    a.pytree = ex.sym("pytree", PT)

  def requires(self, ex, a):
    p = ex.lift(a.pytree)
    return [("a constructed object", wf_done(ex, ex.heap, p)), ("its fields are well formed", wf_fields(ex, ex.heap, p))]

  def ensures(self, ex, a, h0, r):
    D = cd(h0, ex.lift(a.pytree))
    R = ex.named(ex.heap.D(idof(ex.lift(r))))
    k = z3.Const("k!ts", V)
    return [("exactly the node fields, each the state dict of its value",
             forall([k], R[k] == If(And(D[k] != Abs, isnode(ex, D[k])), tsd(attr_value(ex, h0, D[k])), Abs), R[k]))]


class FromStateDict(Contract):
  """replace every node field by its restored value; missing or unknown names are refused."""
  props = ("C12",)
  target = PT + "._from_flax_state_dict"
  params = ("cls", "pytree", "state")
  callable = False

  def config(self, ex):
    sd_config(ex)
    ex.ext_handlers[SER + "current_path"] = lambda ex, a, k: ex.fresh("path")
    ex.call_hooks[PT + ".replace"] = self.replace

  def setup(self, ex, a):
    a.cls = ex.sym("cls", "type")
    a.pytree = ex.sym("pytree", PT)
    a.state = ex.sym("state", "dict")
    a.given = ex.named(ex.heap.D(idof(a.state)))
    ex.replaced = None

  def replace(self, ex, pf, args, kw):
    """the call of the object's replace (its contract is above)."""
    ex.prove("replaces fields of the object given", z3.BoolVal(ex.replaced is None) if not (args or pf.bound) else ex.lift((list(pf.bound or ()) + list(args))[0]) == ex.lift(ex.spec_args.pytree))
    ex.replaced = ex.named(ex.kw_content(kw))
    r = ex.fresh("replaced")
    ex.assume(r != Abs)
    ex.result_of_replace = r
    return r

  def requires(self, ex, a):
    p = ex.lift(a.pytree)
    St = a.given
    k = z3.Const("k!fs", V)
    return [("a constructed object", wf_done(ex, ex.heap, p)), ("its fields are well formed", wf_fields(ex, ex.heap, p)),
            ("a state dict has string keys", forall([k], Implies(St[k] != Abs, V.is_SV(k)), St[k]))]

  def nodes(self, ex, a, h):
    D = cd(h, ex.lift(a.pytree))
    return lambda k: And(D[k] != Abs, isnode(ex, D[k]))

  def raises(self, ex, a):
    h = ex.heap
    k = z3.Const("k!fr", V)
    D, St = cd(h, ex.lift(a.pytree)), a.given
    node = self.nodes(ex, a, h)
    return [("ValueError", exists([k], And(node(k), St[k] == Abs), D[k])), ("ValueError", exists([k], And(St[k] != Abs, Not(node(k))), St[k]))]

  def loops(self, ex):
    def inv(L):
      a, h0 = ex.spec_args, ex.h0
      p = ex.lift(a.pytree)
      D, S0 = cd(h0, p), a.given
      K, O = enumerated(ex, L)
      dicts = [(n, v) for n, v in L.env0.items() if isV(v) and v.decl().name() == "RV" and ex.klass(v) == "dict"]
      if len(dicts) != 2:
        raise Unsupported("two dictionaries expected")
      # the copy of the state has contents at loop entry, the updates have not
      (n1, d1), (n2, d2) = dicts
      if ex.concrete_keys(L.h0.D(d1.arg(0))) == []:
        d1, d2 = d2, d1
      st, up = ex.named(ex.heap.D(d1.arg(0))), ex.named(ex.heap.D(d2.arg(0)))
      k = z3.Const("k!fl2", V)
      node = self.nodes(ex, a, h0)
      done = lambda k: And(node(k), kpos(K, O, k) < L.i)
      return [("all fields are gone through", forall([k], K[k] == D[k], D[k], K[k])),
              ("reached node fields are in the state", forall([k], Implies(done(k), S0[k] != Abs), D[k])),
              ("state entries not reached are left", forall([k], st[k] == If(done(k), Abs, S0[k]), st[k])),
              ("updates are the restored values of the fields reached",
               forall([k], up[k] == If(done(k), fsd(attr_value(ex, h0, D[k]), S0[k], k), Abs), up[k]))]
    return [LoopSpec(inv, modifies=lambda L, x: x >= ex.h0.alloc)]

  def ensures(self, ex, a, h0, r):
    D, S0 = cd(h0, ex.lift(a.pytree)), a.given
    k = z3.Const("k!fe2", V)
    node = self.nodes(ex, a, h0)
    U = ex.replaced
    if U is None:
      return [("the object's fields are replaced", z3.BoolVal(False))]
    return [("the result is the object with fields replaced", ex.lift(r) == ex.result_of_replace),
            ("exactly the node fields, each restored from its entry", forall([k], U[k] == If(node(k), fsd(attr_value(ex, h0, D[k]), S0[k], k), Abs), U[k]))]


SPECS = [SetAttr(), SetAttrOp(), GetAttribute(), Replace(), Flatten(), Unflatten(), Registration(), ToStateDict(), FromStateDict()]
REGISTRY = _c.SPECS + SPECS
AXIOMS = list
