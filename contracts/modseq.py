"""C21: sequences and dictionaries of modules."""
from pyded.spec import *
from pyded.vals import Prim
from pyded.loops import kpos, kseq, kmark, LoopSpec
from .containers import cd, isc, plain, wf_container, VAL, CONT
from .tracers import tracer_config, wf_module, valid, module_trace_state, MODULE, MST, trace_context, wf_stack, TC
from .pytrees import enumerated
from . import tracers as _t

USES = ("tracers",)
H = "nnx.helpers."
SEQ, DICT = H + "Sequence", H + "Dict"
unstr = F("number written", V, Int)
hk = F("accepts keyword", V, V, Bool)
LEN = "_length"


def axioms():
  i = z3.Int("i!ms")
  s = sstr(IV(i))
  t, v = z3.Consts("t!ms v!ms", V)
  # the age of a tuple is that of its youngest element
  return [forall([t, v], age(tsnoc(t, v)) <= If(age(t) >= age(v), age(t), age(v)), age(tsnoc(t, v))),
          forall([i], And(V.is_SV(s), unstr(s) == i, s != S(LEN), s != S(MST), s != S("self")), s)]


def ms_config(ex):
  tracer_config(ex)
  ex.KLASS_CANDIDATES = ["str", "tuple", "dict", "int"]
  ex.query_classes = [MODULE, CONT]
  ex.field_inv[(SEQ, LEN)] = lambda ex, obj, val: ex.hint(val, "int")


def slot(i):
  return sstr(IV(i))


def length(h, s):
  return V.ival(cd(h, s)[S(LEN)])


def wf_seq(ex, h, s):
  D = cd(h, s)
  i = z3.Int("i!wq")
  return And(wf_module(ex, h, s), isc(ex, s, SEQ), V.is_IV(D[S(LEN)]), length(h, s) >= 0,
             forall([i], Implies(And(0 <= i, i < length(h, s)), And(D[slot(i)] != Abs, plain(ex, D[slot(i)]))), D[slot(i)]))


def seq_arg(ex, a):
  a.self = ex.sym("self", SEQ)
  trace_context(ex)


class SeqInit(Contract):
  """items in order under their positions, and the length."""
  props = ("C21",)
  target = SEQ + ".__init__"
  params = ("self", "iterable")
  callable = False
  config = lambda self, ex: ms_config(ex)

  def setup(self, ex, a):
    seq_arg(ex, a)
    a.iterable = ex.sym("items", "tuple")

  def requires(self, ex, a):
    h = ex.heap
    s, T = ex.lift(a.self), ex.lift(a.iterable)
    D = cd(h, s)
    i = z3.Int("i!sr")
    k = z3.Const("k!sr", V)
    return [("a new module, usable here", And(wf_module(ex, h, s), valid(h, module_trace_state(h, s)), forall([k], Implies(k != S(MST), D[k] == Abs), D[k]))),
            ("items are modules or other plain values", And(tlen(T) >= 0, forall([i], Implies(And(0 <= i, i < tlen(T)), plain(ex, tget(T, i))), tget(T, i))))]

  def modifies(self, ex, a, h0, i):
    return i == V.rval(ex.lift(a.self))

  def holds(self, ex, a, n):
    D = ex.named(cd(ex.heap, ex.lift(a.self)))
    D0 = cd(ex.h0, ex.lift(a.self))
    T = ex.lift(a.iterable)
    i = z3.Int("i!sh")
    k = z3.Const("k!sh", V)
    return [("items in order", forall([i], Implies(And(0 <= i, i < n), D[slot(i)] == tget(T, i)), D[slot(i)], tget(T, i))),
            ("nothing else", forall([k], Implies(And(Not(And(0 <= unstr(k), unstr(k) < n, k == slot(unstr(k)))), k != S(LEN)), D[k] == D0[k]), D[k]))]

  def loops(self, ex):
    def inv(L):
      a = ex.spec_args
      s = ex.lift(a.self)
      cnt = [n for n, v in L.env0.items() if isinstance(v, int) and not isinstance(v, bool) and v == 0]
      out = [("still a module usable here", And(wf_module(ex, ex.heap, s), valid(ex.heap, module_trace_state(ex.heap, s)))),
             ("no length yet", cd(ex.heap, s)[S(LEN)] == Abs)]
      for n in cnt:
        out.append((f"the length so far ({n})", ex.iterm(L.env1[n]) == L.i))
      return out + self.holds(ex, a, L.i)
    return [LoopSpec(inv, modifies=lambda L, x: x == V.rval(ex.lift(ex.spec_args.self)))]

  def ensures(self, ex, a, h0, r):
    D = cd(ex.heap, ex.lift(a.self))
    n = tlen(ex.lift(a.iterable))
    return [("the length", D[S(LEN)] == IV(n))] + self.holds(ex, a, n)


class SeqLen(Contract):
  props = ("C21",)
  target = SEQ + ".__len__"
  params = ("self",)
  pure = True
  config = lambda self, ex: ms_config(ex)
  setup = lambda self, ex, a: seq_arg(ex, a)

  def requires(self, ex, a):
    return [("a sequence", wf_seq(ex, ex.heap, ex.lift(a.self)))]

  def result(self, ex, a, h0):
    return length(h0, ex.lift(a.self))

  def ensures(self, ex, a, h0, r):
    return [("the number of items", ex.iterm(r) == length(h0, ex.lift(a.self)))]


class SeqGet(Contract):
  props = ("C21",)
  target = SEQ + ".__getitem__"
  params = ("self", "key")
  pure = True
  callable = False
  config = lambda self, ex: ms_config(ex)

  def setup(self, ex, a):
    seq_arg(ex, a)
    a.key = z3.Int("key")

  def requires(self, ex, a):
    return [("a sequence", wf_seq(ex, ex.heap, ex.lift(a.self))), ("an index", ex.iterm(a.key) >= 0)]

  def raises(self, ex, a):
    return [("IndexError", ex.iterm(a.key) >= length(ex.heap, ex.lift(a.self)))]

  def ensures(self, ex, a, h0, r):
    return [("the item at the index", ex.lift(r) == cd(h0, ex.lift(a.self))[slot(ex.iterm(a.key))])]


class SeqIter(Contract):
  """what the iteration yields (nothing changes the sequence meanwhile)."""
  props = ("C21",)
  target = SEQ + ".__iter__"
  params = ("self",)
  pure = True
  config = lambda self, ex: ms_config(ex)
  setup = lambda self, ex, a: seq_arg(ex, a)

  def requires(self, ex, a):
    return [("a sequence", wf_seq(ex, ex.heap, ex.lift(a.self)))]

  def result(self, ex, a, h0):
    r = ex.fresh("items")
    ex.hint(r, "tuple")
    ex.assume(And(V.is_TV(r), clsof(r) == C("tuple"), age(r) <= ex.heap.alloc))
    return r

  def items(self, ex, a, h, t, n):
    i = z3.Int("i!si")
    D = cd(h, ex.lift(a.self))
    t = ex.named(ex.lift(ex.to_tuple(t)))
    return [("as many items", And(V.is_TV(t), tlen(t) == n)), ("in order", forall([i], Implies(And(0 <= i, i < n), tget(t, i) == D[slot(i)]), tget(t, i)))]

  def loops(self, ex):
    return [LoopSpec(lambda L: self.items(ex, ex.spec_args, ex.h0, L.env1["$yield"], L.i) + [("no new object", age(ex.lift(L.env1["$yield"])) <= ex.h0.alloc)])]

  def ensures(self, ex, a, h0, r):
    return self.items(ex, a, h0, r, length(h0, ex.lift(a.self)))


def signature(ex):
  """inspect.signature(f).parameters: a mapping of names to parameters."""
  par = F("fld.Signature.parameters", V, V)
  pname, pkind = F("Parameter.name", V, V), F("Parameter.kind", V, Int)

  def sig(ex, a, k):
    r = F("inspect.signature", V, V)(ex.lift(a[0]))
    ex.assume(And(V.is_XV(r), age(r) <= 0))
    ex.hint(r, "opaque")
    return r

  def parameters(ex, t):
    m = par(t)
    ex.assume(And(V.is_RV(m), clsof(m) == C("mappingproxy"), V.rval(m) < 0))
    ex.hint(m, "mappingproxy")
    k = z3.Const("k!sg", V)
    P = ex.heap.D(V.rval(m))
    ex.assume(forall([k], Implies(P[k] != Abs, And(V.is_XV(P[k]), V.is_SV(pname(P[k])), V.is_SV(k))), P[k]))
    return m

  def name(ex, t):
    ex.hint(pname(t), "str")
    return pname(t)
  ex.ext_handlers["inspect.signature"] = sig
  ex.opaque_attrs = dict(ex.opaque_attrs, parameters=parameters, name=name, kind=lambda ex, t: pkind(t),
                         POSITIONAL_ONLY=lambda ex, t: 0, POSITIONAL_OR_KEYWORD=lambda ex, t: 1, VAR_POSITIONAL=lambda ex, t: 2,
                         KEYWORD_ONLY=lambda ex, t: 3, VAR_KEYWORD=lambda ex, t: 4)
  return par, pname, pkind


class HasKeyword(Contract):
  """whether a parameter of that name can be given by keyword."""
  props = ("C21",)
  target = H + "has_keyword_arg"
  params = ("func", "name")
  pure = True

  def config(self, ex):
    ms_config(ex)
    ex.sig = signature(ex)

  def setup(self, ex, a):
    a.func = ex.sym("func")
    a.name = ex.sym("name", "str")

  def requires(self, ex, a):
    return [("a callable and a name", And(callable_(ex.lift(a.func)), V.is_SV(ex.lift(a.name))))]

  def result(self, ex, a, h0):
    return hk(ex.lift(a.func), ex.lift(a.name))

  def ensures(self, ex, a, h0, r):
    f, n = ex.lift(a.func), ex.lift(a.name)
    if ex.spec_args is a:
      par, pname, pkind = ex.sig
      k = z3.Const("k!hk", V)
      P = ex.named(h0.D(V.rval(par(F("inspect.signature", V, V)(f)))))
      return [("exactly when the signature has one", ex.as_bool(ex.truth(r)) ==
               exists([k], And(P[k] != Abs, pname(P[k]) == n, Or(pkind(P[k]) == 1, pkind(P[k]) == 3)), P[k]))]
    return []


class SeqCall(Contract):
  """each item is called once, in order, with what the one before returned."""
  props = ("C21",)
  target = SEQ + ".__call__"
  params = ("self", "*args", "ctx", "**kwargs")
  callable = False

  def config(self, ex):
    ms_config(ex)
    ex.opaque_call = self.item_call

  def setup(self, ex, a):
    seq_arg(ex, a)
    a.args = ex.sym("args", "tuple")
    a.ctx = ex.sym("ctx")
    a.kwargs = ex.sym_map("kwargs")
    ex.ghost_res = ex.fresh_fn("output of the first", Int, V)
    ex.cur = None

  def requires(self, ex, a):
    return [("a sequence", wf_seq(ex, ex.heap, ex.lift(a.self))), ("ctx is a parameter of its own", And(a.kwargs[S("ctx")] == Abs, a.kwargs[S("self")] == Abs)),
            ("a context or None", ex.lift(a.ctx) != Abs)]

  def raises(self, ex, a):
    i = z3.Int("i!cr")
    h = ex.heap
    D = cd(h, ex.lift(a.self))
    return [("TypeError", exists([i], And(0 <= i, i < length(h, ex.lift(a.self)), Not(callable_(D[slot(i)]))), D[slot(i)]))]

  def modifies(self, ex, a, h0, i):
    return i != V.rval(ex.lift(a.self))

  def item_call(self, ex, f, args, kw):
    a, h0 = ex.spec_args, ex.h0
    L = ex.cur
    if L is None:
      ex.prove("only items are called", z3.BoolVal(False))
      return NotImplemented
    i, h, used = L
    ex.prove("each item is called once", z3.BoolVal(not used))
    ex.cur = (i, h, True)
    res = ex.ghost_res
    prev = res(i)
    seq = args[-1].seq if args and isinstance(args[-1], Star) else tuple(args)
    if args and isinstance(args[-1], Star) and len(args) > 1:
      seq = ex.t_cat(tuple(args[:-1]), seq)
    given = ex.lift(ex.to_tuple(seq))
    item = cd(h0, ex.lift(a.self))[slot(i)]
    first = i == 0
    isd = ex.isinst_term(prev, "dict")
    pos = If(first, ex.lift(a.args), If(V.is_TV(prev), prev, If(isd, mk(), mk(prev))))
    base = If(first, a.kwargs, If(And(Not(V.is_TV(prev)), isd), h.D(idof(prev)), EMPTY))
    ctx = ex.lift(a.ctx)
    want = If(And(ctx != NoneV, hk(item, S("ctx"))), z3.Store(base, S("ctx"), ctx), base)
    k = z3.Const("k!ic", V)
    got = ex.kw_content(kw)
    ex.prove("the item called is the next one", ex.lift(f) == item)
    ex.prove("it gets the previous output (first: the arguments) as positional arguments", given == pos)
    ex.prove("and as keywords, with the context if it accepts it", forall([k], got[k] == want[k], got[k]))
    r = res(i + 1)
    ex.assume(And(r != Abs, age(r) <= ex.heap.alloc), "an item's result is not the attribute dictionary of the sequence")
    ex.assume(Implies(ex.isinst_term(r, "dict"), idof(r) != V.rval(ex.lift(a.self))))
    return r

  def loops(self, ex):
    def inv(L):
      a, h0 = ex.spec_args, ex.h0
      ex.cur = (L.i, ex.heap, False)
      s = ex.lift(a.self)
      D, D0 = cd(ex.heap, s), cd(h0, s)
      j = z3.Int("j!cl")
      k = z3.Const("k!cl", V)
      env = L.env1
      out = ex.lift(env["output"]) if env["output"] is not None else NoneV
      args, kw = ex.lift(env["args"]), ex.lift(env["kwargs"])
      first = L.i == 0
      return [("the output of the last call", If(first, out == NoneV, out == ex.ghost_res(L.i))),
              ("items so far could be called", forall([j], Implies(And(0 <= j, j < L.i), callable_(D0[slot(j)])), D0[slot(j)])),
              ("an output is an existing value", Implies(Not(first), And(out != Abs, age(out) <= ex.heap.alloc,
                                                                       Implies(ex.isinst_term(out, "dict"), idof(out) != V.rval(s))))),
              ("before the first call the arguments are as given", Implies(first, args == ex.lift(a.args))),
              ("and the keywords", Implies(first, ex.heap.D(idof(kw)) == a.kwargs)),
              ("keywords are not the sequence's attributes", And(idof(kw) != V.rval(s), age(kw) <= ex.heap.alloc)),
              ("keywords are a dictionary", ex.isinst_term(kw, "dict")),
              ("the sequence is as it was", forall([k], D[k] == D0[k], D[k]))]
    return [LoopSpec(inv, modifies=lambda L, x: x != V.rval(ex.lift(ex.spec_args.self)))]

  def ensures(self, ex, a, h0, r):
    n = length(h0, ex.lift(a.self))
    return [("the output of the last item; nothing for an empty sequence", If(n == 0, ex.lift(r) == NoneV, ex.lift(r) == ex.ghost_res(n)))]


def is_item(k):
  """not a bookkeeping attribute."""
  return Not(sprefix(S("_module__"), k))


def dict_arg(ex, a):
  a.self = ex.sym("self", DICT)
  trace_context(ex)


def attr(ex, h, v):
  A = cd(h, v)
  ub = A[S("unbox_fn")]
  return If(isc(ex, v, CONT), If(ub != Abs, F("apply1", V, V, V)(ub, v), A[S(VAL)]), v)


class DictInit(Contract):
  """exactly the given keys, as dict(...) has them."""
  props = ("C21",)
  target = DICT + ".__init__"
  params = ("self", "*args", "**kwargs")
  callable = False
  config = lambda self, ex: ms_config(ex)

  def setup(self, ex, a):
    dict_arg(ex, a)
    a.kwargs = ex.sym_map("kwargs")
    if ex.choose(2) == 0:
      a.args = ()
      a.given = ex.named(a.kwargs)
    else:
      m = ex.sym("mapping", "dict")
      a.args = (m,)
      a.given = ex.named(over(ex.heap.D(idof(m)), a.kwargs))

  def requires(self, ex, a):
    h = ex.heap
    s = ex.lift(a.self)
    D, G = cd(h, s), a.given
    k = z3.Const("k!dr", V)
    out = [("a new module, usable here", And(wf_module(ex, h, s), valid(h, module_trace_state(h, s)), forall([k], Implies(k != S(MST), D[k] == Abs), D[k]))),
           ("keys are strings, none a bookkeeping name; values are plain", forall([k], Implies(G[k] != Abs, And(V.is_SV(k), k != S(MST), is_item(k), plain(ex, G[k]))), G[k]))]
    if a.args:
      out.append(("the mapping is another object", idof(ex.lift(a.args[0])) != V.rval(s)))
    return out

  def modifies(self, ex, a, h0, i):
    return i == V.rval(ex.lift(a.self))

  def loops(self, ex):
    def inv(L):
      a = ex.spec_args
      s = ex.lift(a.self)
      D, D0 = ex.named(cd(ex.heap, s)), cd(ex.h0, s)
      K, O = enumerated(ex, L)
      k = z3.Const("k!di", V)
      done = lambda k: And(K[k] != Abs, kpos(K, O, k) < L.i)
      return [("goes through what was given", forall([k], K[k] == a.given[k], K[k], a.given[k])),
              ("still a module usable here", And(wf_module(ex, ex.heap, s), valid(ex.heap, module_trace_state(ex.heap, s)))),
              ("keys reached", forall([k], Implies(done(k), D[k] == K[k]), D[k], K[k])),
              ("nothing else", forall([k], Implies(Not(done(k)), D[k] == D0[k]), D[k]))]
    return [LoopSpec(inv, modifies=lambda L, x: x == V.rval(ex.lift(ex.spec_args.self)))]

  def ensures(self, ex, a, h0, r):
    s = ex.lift(a.self)
    D, D0 = ex.named(cd(ex.heap, s)), cd(h0, s)
    k = z3.Const("k!de", V)
    G = a.given
    return [("exactly the given keys and values", forall([k], D[k] == If(G[k] != Abs, G[k], D0[k]), D[k]))]


class DictGet(Contract):
  props = ("C21",)
  target = DICT + ".__getitem__"
  params = ("self", "key")
  pure = True
  callable = False
  config = lambda self, ex: ms_config(ex)

  def setup(self, ex, a):
    dict_arg(ex, a)
    a.key = ex.sym("key", "str")

  def requires(self, ex, a):
    h = ex.heap
    old = cd(h, ex.lift(a.self))[ex.lift(a.key)]
    ub = cd(h, old)[S("unbox_fn")]
    return [("a module", wf_module(ex, h, ex.lift(a.self))), ("a string key", V.is_SV(ex.lift(a.key))),
            ("a container is well formed", Implies(isc(ex, old, CONT), wf_container(ex, old))),
            ("an unboxing function is callable", Implies(And(isc(ex, old, CONT), ub != Abs), And(V.is_XV(ub), callable_(ub))))]

  def raises(self, ex, a):
    key = ex.lift(a.key)
    return [("KeyError", Or(cd(ex.heap, ex.lift(a.self))[key] == Abs, Not(is_item(key))))]

  def ensures(self, ex, a, h0, r):
    old = cd(h0, ex.lift(a.self))[ex.lift(a.key)]
    return [("what the attribute of that name is", ex.lift(r) == attr(ex, h0, old))]


class DictSet(_t.SetAttr):
  """item assignment is attribute assignment."""
  props = ("C21",)
  target = DICT + ".__setitem__"
  params = ("self", "key", "value")
  callable = False

  def setup(self, ex, a):
    ms_config(ex)
    dict_arg(ex, a)
    a.key = a.name = ex.sym("key", "str")
    a.value = ex.sym("value")
    ex.branch(valid(ex.heap, module_trace_state(ex.heap, a.self)))
    old = cd(ex.heap, a.self)[a.name]
    if ex.branch(And(old != Abs, isc(ex, old, CONT))):
      ex.branch(isc(ex, a.value, CONT))


class DictSetAttr(DictSet):
  target = DICT + ".__setattr__"


class DictGetAttr(_t.GetAttribute):
  """attribute access is the access of a module."""
  props = ("C21",)
  target = DICT + ".__getattr__"
  params = ("self", "key")
  callable = False

  def setup(self, ex, a):
    ms_config(ex)
    dict_arg(ex, a)
    a.key = a.name = ex.sym("key", "str")
    ex.assume(cd(ex.heap, a.self)[a.name] != Abs)


class DictIter(Contract):
  """the items' names, each once."""
  props = ("C21",)
  target = DICT + ".__iter__"
  params = ("self",)
  pure = True
  config = lambda self, ex: ms_config(ex)
  setup = lambda self, ex, a: dict_arg(ex, a)

  def requires(self, ex, a):
    D = cd(ex.heap, ex.lift(a.self))
    k = z3.Const("k!it", V)
    return [("a module", And(wf_module(ex, ex.heap, ex.lift(a.self)), forall([k], Implies(D[k] != Abs, V.is_SV(k)), D[k])))]

  def result(self, ex, a, h0):
    r = F("names of a Dict", Map, Int, V)(cd(h0, ex.lift(a.self)), h0.O(V.rval(ex.lift(a.self))))
    ex.hint(r, "tuple")
    ex.assume(And(V.is_TV(r), clsof(r) == C("tuple"), age(r) <= ex.heap.alloc))
    return r

  def ensures(self, ex, a, h0, r):
    D = cd(h0, ex.lift(a.self))
    t = ex.named(ex.lift(ex.to_tuple(r)))
    i, j = z3.Ints("i!ie j!ie")
    k = z3.Const("k!ie", V)
    return [("only items", forall([i], Implies(And(0 <= i, i < tlen(t)), And(D[tget(t, i)] != Abs, is_item(tget(t, i)))), tget(t, i))),
            ("all items", forall([k], Implies(And(D[k] != Abs, is_item(k)), exists([i], And(0 <= i, i < tlen(t), tget(t, i) == k), tget(t, i))), D[k])),
            ("each once", forall([i, j], Implies(And(0 <= i, i < j, j < tlen(t)), tget(t, i) != tget(t, j)), [tget(t, i), tget(t, j)]))]


class DictLen(Contract):
  """as many as the iteration gives."""
  props = ("C21",)
  target = DICT + ".__len__"
  params = ("self",)
  pure = True
  callable = False
  config = lambda self, ex: ms_config(ex)
  setup = lambda self, ex, a: dict_arg(ex, a)
  requires = DictIter.requires

  def ensures(self, ex, a, h0, r):
    t = F("names of a Dict", Map, Int, V)(cd(h0, ex.lift(a.self)), h0.O(V.rval(ex.lift(a.self))))
    return [("the number of names the iteration gives", ex.iterm(r) == tlen(t))]


SPECS = [SeqInit(), SeqLen(), SeqGet(), SeqIter(), HasKeyword(), SeqCall(), DictInit(), DictGet(), DictSet(), DictSetAttr(), DictGetAttr(), DictIter(), DictLen()]
REGISTRY = _t.SPECS + SPECS
AXIOMS = axioms
