"""C04 / C02: the State mapping, its algebra, and filtering.

contents(h, s)   the mapping of State s under heap h
"""
from pyded.spec import *
from pyded.loops import kseq, kpos, kmark, LoopSpec
from .containers import cd, container_config
from .filters import acc, vfil, apply2, truthy_of, acc_axioms
from .common import node_functions
from . import filters as _f

USES = ("filters",)
STATE = "nnx.state.State"
MP = S("_mapping")


def is_dict(v):
  return And(V.is_RV(v), clsof(v) == C("dict"))


def state_config(ex):
  container_config(ex)
  ex.query_classes = list(ex.query_classes) + [STATE]

  def dict_field(ex, obj, val):
    ex.assume(And(is_dict(val), V.rval(val) < ex.heap.alloc))
    ex.hint(val, "dict")
  ex.field_inv[(STATE, "_mapping")] = dict_field


def mp_id(h, s):
  return V.rval(cd(h, s)[MP])


def contents(h, s):
  return h.D(mp_id(h, s))


def is_state(ex, v):
  return And(V.is_RV(v), clsof(v) == ex.ccode(ex.cls(STATE)))


def in_order(ex, M, O):
  """no key comes before a smaller one."""
  i, j = z3.Ints("i!io j!io")
  M, O = ex.named(M), ex.named(O)
  return forall([i, j], Implies(And(0 <= i, i < j, j < dlen(M)), Not(slt(kseq(M, O, j), kseq(M, O, i)))),
                [kseq(M, O, i), kseq(M, O, j)])


def wf_state(ex, h, s):
  k = z3.Const("k!ws", V)
  m = cd(h, s)[MP]
  M = ex.named(contents(h, s))
  O = ex.named(h.O(mp_id(h, s)))
  D = ex.named(cd(h, s))
  return And(forall([k], Implies(k != MP, D[k] == Abs), D[k]), is_state(ex, s), is_dict(m), V.rval(m) < h.alloc, age(m) <= h.alloc, V.rval(s) < h.alloc,
             forall([k], Implies(M[k] != Abs, V.is_SV(k)), M[k]), kmark(M, O), in_order(ex, M, O))


def sym_state(ex, name):
  s = ex.sym(name, STATE)
  ex.assume(wf_state(ex, ex.heap, s))
  return s


class StateInit(Contract):
  """State(mapping) and State(pairs)."""
  props = ("C04",)
  target = STATE + ".__init__"
  params = ("self", "input")
  config = lambda self, ex: state_config(ex)

  def setup(self, ex, a):
    a.self = ex.sym("self", STATE)
    ex.assume(is_state(ex, a.self))
    a.input = ex.sym("input")
    f = a.input
    if ex.branch(is_dict(f)):
      ex.hint(f, "dict")
    elif ex.branch(is_state(ex, f)):
      ex.hint(f, "nnx:" + STATE)
      ex.assume(wf_state(ex, ex.heap, f))
      ex.assume(f != a.self)
    else:
      ex.assume(And(V.is_TV(f), clsof(f) == C("tuple")))
      ex.hint(f, "tuple")

  def kind(self, ex, a):
    f = a.input
    k = ex.klass(f)
    if k == "dict":
      return "map", ex.heap.D(ex.did(f))
    if getattr(k, "full", None) == STATE:
      return "map", contents(ex.heap, ex.lift(f))
    return "pairs", ex.to_tuple(f)

  def requires(self, ex, a):
    kind, x = self.kind(ex, a)
    a._kind = (kind, ex.named(x) if kind == "map" else x)
    k = z3.Const("k!si", V)
    if kind == "map":
      x = a._kind[1]
      return [("the keys are strings", forall([k], Implies(x[k] != Abs, V.is_SV(k)), x[k]))]
    if isinstance(x, tuple):
      return [("pairs of a string and a value", And(*[And(V.is_SV(ex.lift(ex.t_get(p, 0))), ex.iterm(ex.t_len(p)) == 2) for p in x]))]
    i = z3.Int("i!si")
    t = ex.lift(x)
    return [("pairs of a string and a value", forall([i], Implies(And(0 <= i, i < tlen(t)), And(
        V.is_TV(tget(t, i)), clsof(tget(t, i)) == C("tuple"), tlen(tget(t, i)) == 2, V.is_SV(tget(tget(t, i), 0)))), tget(t, i)))]

  def modifies(self, ex, a, h0, i):
    return i == V.rval(ex.lift(a.self))

  def result(self, ex, a, h0):
    return None

  def ensures(self, ex, a, h0, r):
    s = ex.lift(a.self)
    h = ex.heap
    kind, x = a._kind
    D, D0 = cd(h, s), cd(h0, s)
    m = D[MP]
    M, O = ex.named(contents(h, s)), ex.named(h.O(mp_id(h, s)))
    k = z3.Const("k!se", V)
    out = [("a new mapping", And(is_dict(m), V.rval(m) >= h0.alloc, V.rval(m) < h.alloc)),
           ("no other attribute", forall([k], Implies(k != MP, D[k] == D0[k]), D[k])),
           ("in sorted order", And(kmark(M, O), in_order(ex, M, O)))]
    if kind == "map":
      out.append(("with exactly the given entries", forall([k], M[k] == x[k], M[k])))
      return out
    if isinstance(x, tuple):
      want = EMPTY
      for p in x:
        want = z3.Store(want, ex.lift(ex.t_get(p, 0)), ex.lift(ex.t_get(p, 1)))
      out.append(("with exactly the given entries", forall([k], M[k] == want[k], M[k])))
      return out
    t = ex.lift(x)
    i, j = z3.Ints("i!se j!se")
    last = a._last = ex.fresh_fn("lastpair", V, Int) if not hasattr(a, "_last") else a._last
    rng = lambda q: And(0 <= q, q < tlen(t))
    nm = lambda q: tget(tget(t, q), 0)
    if ex.h0 is h0:
      wit = lambda q: exists([j], And(rng(j), nm(j) == q, M[q] == tget(tget(t, j), 1),
                                      forall([i], Implies(And(j < i, i < tlen(t)), nm(i) != q), tget(t, i))), tget(t, j))
    else:
      wit = lambda q: And(rng(last(q)), nm(last(q)) == q, M[q] == tget(tget(t, last(q)), 1),
                          forall([i], Implies(And(last(q) < i, i < tlen(t)), nm(i) != q), tget(t, i)))
    out.append(("every given path", forall([i], Implies(rng(i), M[nm(i)] != Abs), tget(t, i))))
    out.append(("each with the last value given for it", forall([k], Implies(M[k] != Abs, wit(k)), M[k])))
    return out



class GetItem(Contract):
  props = ("C04",)
  target = STATE + ".__getitem__"
  params = ("self", "key")
  pure = True
  callable = False
  config = lambda self, ex: state_config(ex)

  def setup(self, ex, a):
    a.self = sym_state(ex, "self")
    a.key = ex.sym("key")
    ex.assume(V.is_SV(a.key))

  def raises(self, ex, a):
    return [("KeyError", contents(ex.heap, ex.lift(a.self))[ex.lift(a.key)] == Abs)]

  def ensures(self, ex, a, h0, r):
    return [("the entry of that path", ex.lift(r) == contents(h0, ex.lift(a.self))[ex.lift(a.key)])]


def view(ex):
  """the mapping interface shows exactly the entries, in order."""
  s = sym_state(ex, "state")
  M, O = ex.named(contents(ex.heap, s)), ex.named(ex.heap.O(mp_id(ex.heap, s)))
  n = ex.call_method(s, "__len__", [])
  ex.prove("length", ex.iterm(n) == dlen(M))
  m, elem = ex.iter_spec(ex.call_method(s, "__iter__", []))
  ex.prove("as many paths", ex.iterm(m) == dlen(M))
  i = ex.fresh("i", Int)
  ex.assume(And(0 <= i, i < dlen(M)))
  ex.prove("the paths in order", ex.lift(elem(i)) == kseq(M, O, i))


def order_lemma(ex):
  """equal entries in sorted order: equal path sequences (strong induction)."""
  state_config(ex)
  M = ex.sym_map("entries")
  O1, O2 = ex.fresh("o1", Int), ex.fresh("o2", Int)
  k = z3.Const("k!ol", V)
  i = ex.fresh("i", Int)
  j = z3.Int("j!ol")
  ex.assume(And(kmark(M, O1), kmark(M, O2), in_order(ex, M, O1), in_order(ex, M, O2)))
  ex.assume(forall([k], Implies(M[k] != Abs, V.is_SV(k)), M[k]))
  ex.assume(And(0 <= i, i < dlen(M)))
  ex.assume(forall([j], Implies(And(0 <= j, j < i), kseq(M, O1, j) == kseq(M, O2, j)), kseq(M, O1, j), kseq(M, O2, j)))
  a, b = kseq(M, O1, i), kseq(M, O2, i)
  ex.assume(And(M[a] != Abs, M[b] != Abs))
  ex.assume(Or(slt(a, b), slt(b, a), a == b), "string order is total")
  ex.assume(And(kpos(M, O2, a) == kpos(M, O2, a), kpos(M, O1, b) == kpos(M, O1, b)))
  ex.prove("the next path is the same", a == b)


class StateMerge(Contract):
  props = ("C04",)
  target = STATE + ".merge"
  params = ("state", "*states")
  config = lambda self, ex: state_config(ex)

  def setup(self, ex, a):
    a.state = sym_state(ex, "state")
    a.states = ex.sym("states", "tuple")

  def all(self, ex, a):
    if not hasattr(a, "_all"):
      a._all = ex.lift(ex.t_cat((a.state,), ex.to_tuple(a.states)))
      a._n = ex.iterm(ex.t_len(ex.lower(a._all)))
    return a._all

  def op(self, ex, a, h, j):
    return contents(h, tget(self.all(ex, a), j))

  def requires(self, ex, a):
    i = z3.Int("i!mg")
    t = self.all(ex, a)
    if isinstance(a.states, tuple):
      return [("states", And(*[wf_state(ex, ex.heap, ex.lift(x)) for x in (a.state,) + a.states]))]
    q = ex.lift(a.states)
    return [("states", And(wf_state(ex, ex.heap, ex.lift(a.state)),
                           forall([i], Implies(And(0 <= i, i < tlen(q)), wf_state_q(ex, ex.heap, tget(q, i))), tget(q, i))))]

  def lastop(self, ex, a):
    if not hasattr(a, "_lo"):
      a._lo = ex.fresh_fn("lastop", V, Int, Int)
    return a._lo

  def unfold(self, ex, a, h, i):
    lo = self.lastop(ex, a)
    k = z3.Const("k!lo", V)
    ex.assume(forall([k], lo(k, 0) == -1, lo(k, 0)))
    ex.assume(forall([k], lo(k, i + 1) == If(self.op(ex, a, h, i)[k] != Abs, i, lo(k, i)), lo(k, i + 1)))

  def loops(self, ex):
    def inv(L):
      a = ex.spec_args
      h, i = ex.h0, L.i
      lo = self.lastop(ex, a)
      self.unfold(ex, a, h, i)
      d = [v for v in L.fresh_objs("dict")]
      if len(d) != 1:
        raise Unsupported("one new dictionary expected")
      N = ex.content(d[0])
      k = z3.Const("k!mi", V)
      j = z3.Int("j!mi")
      i0 = z3.simplify(i)
      return [("entries come from the last operand that has them",
               forall([k], N[k] == If(lo(k, i0) < 0, Abs, self.op(ex, a, h, lo(k, i0))[k]), N[k], lo(k, i0))),
              ("last operand", forall([k], And(-1 <= lo(k, i0), lo(k, i0) < i0,
                                               Implies(lo(k, i0) >= 0, self.op(ex, a, h, lo(k, i0))[k] != Abs)), lo(k, i0))),
              ("later operands have no entry", forall([k, j], Implies(And(0 <= j, lo(k, i0) < j, j < i0),
                                                                      self.op(ex, a, h, j)[k] == Abs),
                                                      [lo(k, i0), tget(self.all(ex, a), j)]))]
    return [LoopSpec(inv)]

  def result(self, ex, a, h0):
    r = ex.fresh("merged")
    ex.hint(r, "nnx:" + STATE)
    return r

  def ensures(self, ex, a, h0, r):
    r = ex.lift(r)
    n = a._n if hasattr(a, "_n") else (self.all(ex, a), a._n)[1]
    R = ex.named(contents(ex.heap, r))
    if ex.spec_args is a:
      self.unfold(ex, a, h0, 0)
      last = lambda k: self.lastop(ex, a)(k, n)
    else:
      last = ex.fresh_fn("lastop", V, Int)
    k = z3.Const("k!mm", V)
    j = z3.Int("j!mm")
    op = lambda i: self.op(ex, a, h0, i)
    q = last(k)
    return [("a state", wf_state(ex, ex.heap, r)),
            ("every path with the value of the last operand that has it", forall([k], And(
                -1 <= q, q < n, Implies(q >= 0, And(op(q)[k] != Abs, R[k] == op(q)[k])), Implies(q < 0, R[k] == Abs)), R[k])),
            ("the last one", forall([k, j], Implies(And(0 <= j, q < j, j < n), op(j)[k] == Abs),
                                    [R[k], tget(self.all(ex, a), j)]))]


def wf_state_q(ex, h, s):
  """wf_state for a bound variable."""
  k = z3.Const("k!wq", V)
  i, j = z3.Ints("i!wq j!wq")
  D = cd(h, s)
  m = D[MP]
  M, O = h.D(V.rval(m)), h.O(V.rval(m))
  return And(forall([k], Implies(k != MP, D[k] == Abs), D[k]), is_state(ex, s), is_dict(m), V.rval(m) < h.alloc,
             age(m) <= h.alloc, V.rval(s) < h.alloc, forall([k], Implies(M[k] != Abs, V.is_SV(k)), M[k]), kmark(M, O))



class StateOr(Contract):
  props = ("C04",)
  target = STATE + ".__or__"
  params = ("self", "other")
  config = lambda self, ex: state_config(ex)

  def setup(self, ex, a):
    a.self = sym_state(ex, "self")
    a.other = sym_state(ex, "other")

  def requires(self, ex, a):
    return [("states", And(wf_state(ex, ex.heap, ex.lift(a.self)), wf_state(ex, ex.heap, ex.lift(a.other))))]

  def result(self, ex, a, h0):
    r = ex.fresh("merged")
    ex.hint(r, "nnx:" + STATE)
    return r

  def value(self, A, B, k):
    return If(B[k] != Abs, B[k], A[k])

  def ensures(self, ex, a, h0, r):
    r = ex.lift(r)
    R = ex.named(contents(ex.heap, r))
    A, B = ex.named(contents(h0, ex.lift(a.self))), ex.named(contents(h0, ex.lift(a.other)))
    k = z3.Const("k!or", V)
    return [("a state", wf_state(ex, ex.heap, r)),
            ("the operator's entries", forall([k], R[k] == self.value(A, B, k), R[k], A[k], B[k]))]


class StateSub(StateOr):
  target = STATE + ".__sub__"

  def value(self, A, B, k):
    return If(B[k] != Abs, Abs, A[k])


class StateNodes(Lemma):
  """State as a tree node: children are the values, in path order; the structure is the paths;
  unflattening with as many leaves gives the same paths holding those leaves."""
  props = ("C04",)

  def __init__(self):
    super().__init__("nnx.state#tree node", self.go, state_config)

  def go(self, ex):
    fl, un, fk = node_functions(ex, "nnx.state", STATE)
    s = sym_state(ex, "state")
    M, O = ex.named(contents(ex.heap, s)), ex.named(ex.heap.O(mp_id(ex.heap, s)))
    ex.entry_alloc = ex.heap.alloc
    ex.prove("cover: a state", z3.BoolVal(False), kind="cover")
    i = z3.Int("i!sn")
    rng = And(0 <= i, i < dlen(M))
    if fl is not None:
      kids, aux = ex.to_tuple(ex.call(fl, [s], {}))
      kids = ex.lift(ex.to_tuple(kids))
      ex.prove("one child per entry", tlen(kids) == dlen(M))
      ex.prove("the children are the values in path order", forall([i], Implies(rng, tget(kids, i) == M[kseq(M, O, i)]), tget(kids, i)))
    if fk is not None:
      kk, aux = ex.to_tuple(ex.call(fk, [s], {}))
      n, elem = ex.iter_spec(kk)
      ex.prove("one child per entry (with keys)", ex.iterm(n) == dlen(M))
      c = ex.fresh("c", Int)
      ex.assume(And(0 <= c, c < dlen(M)))
      e = ex.lower(elem(c))
      ex.prove("keyed children are the values in path order", ex.lift(ex.t_get(e, 1)) == M[kseq(M, O, c)])
    aux = ex.lift(ex.to_tuple(aux))
    ex.prove("the structure is the paths in order", And(tlen(aux) == dlen(M), forall([i], Implies(rng, tget(aux, i) == kseq(M, O, i)), tget(aux, i))))
    leaves = ex.sym("leaves", "tuple")
    ex.assume(tlen(leaves) == dlen(M))
    s2 = ex.lift(ex.call(un, [aux, leaves], {}))
    M2, O2 = ex.named(contents(ex.heap, s2)), ex.named(ex.heap.O(mp_id(ex.heap, s2)))
    k = z3.Const("k!sn", V)
    D2 = ex.named(cd(ex.heap, s2))
    ex.prove("a new state", And(is_state(ex, s2), V.rval(s2) >= 0, is_dict(D2[MP]), forall([k], Implies(k != MP, D2[k] == Abs), D2[k])))
    ex.prove("the same paths", forall([k], (M2[k] != Abs) == (M[k] != Abs), M2[k]))
    ex.prove("holding the leaves in order", forall([i], Implies(rng, M2[kseq(M, O, i)] == tget(leaves, i)), tget(leaves, i), kseq(M, O, i)))
    ex.prove("in the same order", forall([i], Implies(rng, kseq(M2, O2, i) == kseq(M, O, i)), kseq(M2, O2, i)))


fmatch = F("fmatch", V, Map, V, Int)  # (filters, entries, path): first filter accepting the entry of that path


def first_match(ex, fs, M, n=None):
  """definition of fmatch for these filters and entries."""
  k = z3.Const("k!fm", V)
  j = z3.Int("j!fm")
  f = lambda q: fmatch(fs, M, q)
  n = tlen(fs) if n is None else n
  ex.assume(forall([k], And(0 <= f(k), f(k) <= n, Implies(f(k) < n, acc(tget(fs, f(k)), k, M[k]))), f(k)))
  ex.assume(forall([k, j], Implies(And(0 <= j, j < f(k)), Not(acc(tget(fs, j), k, M[k]))), [f(k), tget(fs, j)]))
  ex.assume(forall([k, j], Implies(And(0 <= j, j < f(k)), Not(acc(tget(fs, j), k, M[k]))), [f(k), acc(tget(fs, j), k, M[k])]))
  return f


def misplaced(fs):
  """an ellipsis before the last filter."""
  i = z3.Int("i!mp")
  return exists([i], And(0 <= i, i < tlen(fs) - 1, V.is_EllV(tget(fs, i))), tget(fs, i))


def badfilter(fs):
  i = z3.Int("i!bf")
  return exists([i], And(0 <= i, i < tlen(fs), Not(vfil(tget(fs, i)))), tget(fs, i))


class Split(Contract):
  props = ("C02",)
  target = "nnx.state._split_state"
  params = ("state", "*filters")
  config = lambda self, ex: state_config(ex)

  def setup(self, ex, a):
    a.state = sym_state(ex, "state")
    a.filters = ex.sym("filters", "tuple")

  def fs(self, ex, a):
    if not hasattr(a, "_fs"):
      a._fs = ex.named(ex.lift(a.filters))
    return a._fs

  def requires(self, ex, a):
    self.fs(ex, a)
    return [("a state", wf_state(ex, ex.heap, ex.lift(a.state)))]

  def raises(self, ex, a):
    return [("ValueError", misplaced(self.fs(ex, a))), ("TypeError", badfilter(self.fs(ex, a)))]

  def loops(self, ex):
    def inv(L):
      a = ex.spec_args
      fs = self.fs(ex, a)
      if not hasattr(a, "_M"):
        a._M = ex.named(contents(ex.h0, a.state))
        a._O = ex.named(ex.h0.O(mp_id(ex.h0, a.state)))
        a._f = first_match(ex, fs, a._M)
      parts = [v for v in L.env0.values() if isV(v) and ex.klass(v) == "tuple" and not v.eq(fs) and
               ex.entails(And(tlen(v) == tlen(fs) + 1))]
      if len(parts) != 1:
        raise Unsupported("one new tuple of dictionaries expected")
      p = parts[0]
      M, O, f = a._M, a._O, a._f
      k = z3.Const("k!sp", V)
      q = z3.Int("q!sp")
      D = lambda i: ex.heap.D(V.rval(tget(p, i)))
      return [("each part holds the entries seen so far that it is due",
               forall([q, k], Implies(And(0 <= q, q <= tlen(fs)), D(q)[k] == If(And(M[k] != Abs, kpos(M, O, k) < L.i, f(k) == q), M[k], Abs)),
                      [tget(p, q), f(k)]))]
    return [LoopSpec(inv, modifies=lambda L, x: x >= ex.h0.alloc)]

  def ensures(self, ex, a, h0, r):
    fs = self.fs(ex, a)
    M = ex.named(contents(h0, ex.lift(a.state)))
    f = a._f if hasattr(a, "_f") else first_match(ex, fs, M)
    r = ex.lift(r)
    k = z3.Const("k!sr", V)
    q, p = z3.Ints("q!sr p!sr")
    d = lambda i: tget(r, i)
    rng = lambda i: And(0 <= i, i <= tlen(fs))
    D = ex.fresh_fn("part", Int, Map)
    ex.assume(forall([q], D(q) == ex.heap.D(V.rval(d(q))), D(q), d(q)))
    return [("one part per filter and a rest", And(V.is_TV(r), clsof(r) == C("tuple"), tlen(r) == tlen(fs) + 1)),
            ("new dictionaries", forall([q], Implies(rng(q), And(is_dict(d(q)), V.rval(d(q)) >= h0.alloc, V.rval(d(q)) < ex.heap.alloc)), d(q))),
            ("different ones", forall([q, p], Implies(And(rng(q), rng(p), q != p), V.rval(d(q)) != V.rval(d(p))), [d(q), d(p)])),
            ("each entry in the part of the first filter that accepts it, in the rest when none does",
             forall([q, k], Implies(rng(q), D(q)[k] == If(And(M[k] != Abs, f(k) == q), M[k], Abs)), [d(q), f(k)], [d(q), M[k]], D(q)[k]))]



class StateFilter(Contract):
  """State.filter: one state per filter with exactly the entries whose first accepting filter it is."""
  props = ("C02",)
  target = STATE + ".filter"
  params = ("self", "first", "*filters")
  rest_error = False
  config = lambda self, ex: state_config(ex)

  def setup(self, ex, a):
    a.self = sym_state(ex, "self")
    a.first = ex.sym("first")
    a.filters = ex.sym("filters", "tuple")

  def fs(self, ex, a):
    if not hasattr(a, "_fs"):
      a._fs = ex.lift(ex.t_cat((a.first,), ex.to_tuple(a.filters)))
    return a._fs

  def requires(self, ex, a):
    self.fs(ex, a)
    if ex.spec_args is None:
      # two shapes of the result: the solver is told about one at a time
      ex.branch(tlen(ex.lift(a.filters)) == 0)
    return [("a state", wf_state(ex, ex.heap, ex.lift(a.self)))]

  def raises(self, ex, a):
    fs = self.fs(ex, a)
    out = [("ValueError", misplaced(fs)), ("TypeError", badfilter(fs))]
    if self.rest_error:
      M = ex.named(contents(ex.heap, ex.lift(a.self)))
      k = z3.Const("k!pr", V)
      a._f = first_match(ex, fs, M)
      out.append(("ValueError", exists([k], And(M[k] != Abs, a._f(k) == tlen(fs)), M[k])))
    return out

  def ensures(self, ex, a, h0, r):
    fs = self.fs(ex, a)
    M = ex.named(contents(h0, ex.lift(a.self)))
    f = first_match(ex, fs, M)
    r = ex.lift(r)
    n = tlen(ex.lift(a.filters)) + 1
    k = z3.Const("k!sf", V)
    q = z3.Int("q!sf")
    if ex.entails(n == 1):
      R = ex.named(contents(ex.heap, r))
      return [("one state for one filter", wf_state(ex, ex.heap, r)), ("a new one", V.rval(r) >= h0.alloc),
              ("with exactly the entries it accepts", forall([k], R[k] == If(And(M[k] != Abs, f(k) == 0), M[k], Abs), R[k], M[k]))]
    d = lambda i: tget(r, i)
    rng = And(0 <= q, q < n)
    return [("one state per filter", And(V.is_TV(r), clsof(r) == C("tuple"), tlen(r) == n)),
            ("states", forall([q], Implies(rng, wf_state_q(ex, ex.heap, d(q))), d(q))),
            ("new ones", forall([q], Implies(rng, V.rval(d(q)) >= h0.alloc), d(q))),
            ("each with exactly the entries of which its filter is the first to accept them",
             forall([q, k], Implies(rng, contents(ex.heap, d(q))[k] == If(And(M[k] != Abs, f(k) == q), M[k], Abs)),
                    [d(q), f(k)], [d(q), M[k]]))]


class StatePartition(StateFilter):
  """State.partition: the same parts; ValueError when an entry is accepted by no filter."""
  target = STATE + ".partition"
  rest_error = True


SPECS = [StateInit(), GetItem(), StateMerge(), StateOr(), StateSub(), StateNodes(), Split(), StateFilter(), StatePartition(),
         Lemma("nnx.state.State#mapping interface", view, state_config, props=("C04",)),
         Lemma("nnx.state.State#equal entries, equal order", order_lemma, props=("C04",))]
REGISTRY = _f.SPECS + SPECS
AXIOMS = acc_axioms
