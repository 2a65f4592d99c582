"""C06 / C07 / C08: contexts and their random streams."""
from pyded.spec import *
from pyded.loops import kseq, kpos, kmark
from .containers import cd, isc
from .tracers import tracer_config, trace_context, wf_stack, valid, cur_nnx, stack, stack_id, JT, TST, TC
from . import tracers as _t
from .common import node_functions

USES = ("tracers",)
CTX, RNG = "nnx.contextlib.Context", "nnx.contextlib.RngStream"
CDEF, PCTX = "nnx.contextlib.ContextDef", "nnx.contextlib.PureContext"
KEY, CNT, PATH = S("key"), S("count"), S("count_path")


def is_dict(v):
  return And(V.is_RV(v), clsof(v) == C("dict"))


def ctx_config(ex):
  tracer_config(ex)
  ex.query_classes = list(ex.query_classes) + [CTX, RNG, CDEF, PCTX]
  ex.opaque_methods = set(ex.opaque_methods) | {"digest", "encode"}

  def dict_field(ex, obj, val):
    ex.assume(And(is_dict(val), V.rval(val) < ex.heap.alloc))
    ex.hint(val, "dict")
  ex.field_inv[(CTX, "_rngs")] = dict_field
  ex.field_inv[(CTX, "_flags")] = dict_field

  def ts(ex, obj, val):
    ex.assume(And(V.is_RV(val), subc(clsof(val), ex.ccode(ex.cls(TST)))))
    ex.hint(val, "nnx:" + TST)
  ex.field_inv[(CTX, "_trace_state")] = ts

  def tup(ex, obj, val):
    ex.assume(And(V.is_TV(val), clsof(val) == C("tuple")))
    ex.hint(val, "tuple")
  ex.field_inv[(CDEF, "_rng_counts")] = tup
  ex.field_inv[(CDEF, "_flags")] = tup
  ex.field_inv[(RNG, "count_path")] = tup

  def count(ex, obj, val):
    ex.assume(And(V.is_IV(val), V.ival(val) >= 0))
    ex.hint(val, "int")
  ex.field_inv[(RNG, "count")] = count

  def key(ex, obj, val):
    ex.assume(val != Abs)
  ex.field_inv[(RNG, "key")] = key


def wf_stream(ex, h, s):
  D = h.D(V.rval(s))
  return And(V.is_RV(s), clsof(s) == ex.ccode(ex.cls(RNG)), D[KEY] != Abs, V.is_IV(D[CNT]), V.ival(D[CNT]) >= 0,
             V.is_TV(D[PATH]), clsof(D[PATH]) == C("tuple"), V.rval(s) < h.alloc, age(D[PATH]) <= h.alloc, age(D[KEY]) <= h.alloc)


def rngs_of(h, c):
  return h.D(V.rval(h.D(V.rval(c))[S("_rngs")]))


def flags_of(h, c):
  return h.D(V.rval(h.D(V.rval(c))[S("_flags")]))


def wf_context(ex, h, c):
  D = h.D(V.rval(c))
  T = h.D(V.rval(D[S("_trace_state")]))
  M = rngs_of(h, c)
  k, l = z3.Consts("k!wc l!wc", V)
  return And(V.is_RV(c), clsof(c) == ex.ccode(ex.cls(CTX)), is_dict(D[S("_rngs")]), is_dict(D[S("_flags")]),
             V.is_RV(D[S("_trace_state")]), subc(clsof(D[S("_trace_state")]), ex.ccode(ex.cls(TST))),
             T[S("_jax_trace")] != Abs, T[S("_nnx_trace")] != Abs,
             forall([k], Implies(M[k] != Abs, And(V.is_SV(k), wf_stream(ex, h, M[k]))), M[k]),
             forall([k, l], Implies(And(M[k] != Abs, M[l] != Abs, k != l), V.rval(M[k]) != V.rval(M[l])), [M[k], M[l]]),
             wf_stack(ex, h))


def ctx_arg(ex, a):
  trace_context(ex)
  a.self = ex.sym("self", CTX)
  ex.assume(wf_context(ex, ex.heap, a.self))


def position(ex, h, s):
  """count_path + (count,)"""
  D = h.D(V.rval(s))
  p, c = ex.named(D[PATH]), ex.named(D[CNT])
  ex.hint(p, "tuple")
  ex.hint(c, "int")
  return ex.lift(ex.t_cat(p, (c,)))


def key_at(base, pos):
  """the key a stream hands out at a position"""
  return F("ext:jax.random.fold_in(2)", V, V, V)(base, F("stable_hash", V, V)(pos))


def stable_hash_lemma(ex):
  """the hash is computed from an injective text of the whole position sequence."""
  data = ex.sym("data", "tuple")
  i = z3.Int("i!sh")
  ex.assume(forall([i], Implies(And(0 <= i, i < tlen(data)), V.is_IV(tget(data, i))), tget(data, i)))
  hashed = []

  def hash_fn(name):
    def h(ex, a, k):
      hashed.append(a[0])
      return ex.opaque_call_named(name, a, k)
    return h
  for n in ("blake2s", "blake2b", "sha1", "sha224", "sha256", "sha384", "sha512", "md5", "sha3_256"):
    ex.ext_handlers["hashlib." + n] = hash_fn("hashlib." + n)
  joins = []

  def join(obj, args, k):
    r = type(ex).str_join(ex, obj, args, k)
    joins.append((obj, args[0] if not hasattr(args[0], "node") else None, r))
    return r
  h0 = ex.heap
  ex.writes = []
  fi, _ = ex.func("nnx.contextlib._stable_hash")
  ex.str_join = join
  try:
    r = ex.lift(ex.run_func(PyFunc(fi), [data], {}))
  finally:
    del ex.str_join
  ex.prove("one hash is computed", z3.BoolVal(len(hashed) == 1 and len(joins) == 1))
  if len(hashed) != 1 or len(joins) != 1:
    return
  sep, _, text = joins[0]
  ex.prove("the separator cannot be part of a number", z3.BoolVal(isinstance(sep, str) and len(sep) > 0 and not (set(sep) & set("0123456789-"))))
  text = ex.lift(text)
  ex.prove("the text that is hashed is the joined one", ex.lift(hashed[0]) == F("str.encode", V, V)(text))
  T = text.arg(1)
  ex.prove("one numeral per position", And(tlen(T) == tlen(data), forall([i], Implies(And(0 <= i, i < tlen(data)),
                                                                                    tget(T, i) == sstr(tget(data, i))), tget(T, i))))
  # the result depends on nothing but that digest
  dep = [n for n in consts_of(r) if n not in (str(data), str(T))]
  ex.prove("the result is a function of the positions alone", z3.BoolVal(not dep))
  for w in ex.writes:
    ex.prove("no effect", w[1] >= h0.alloc if w[0] != "havoc" else z3.BoolVal(False), kind="frame")


def consts_of(t):
  out, st, seen = set(), [t], set()
  while st:
    e = st.pop()
    if e.get_id() in seen:
      continue
    seen.add(e.get_id())
    if z3.is_app(e):
      if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        out.add(e.decl().name())
      st.extend(e.children())
  return out


class StableHashText(Lemma):
  props = ("C07",)

  def __init__(self):
    super().__init__("nnx.contextlib._stable_hash", stable_hash_lemma, config=ctx_config)


class StableHash(Contract):
  """call-side view of _stable_hash: a function of the positions (StableHashText)."""
  props = ()
  target = "nnx.contextlib._stable_hash"
  params = ("data",)
  pure = True
  verify = False
  trusted = None
  derived = True

  def result(self, ex, a, h0):
    return F("stable_hash", V, V)(ex.lift(a.data))


class MakeRng(Contract):
  props = ("C06", "C07")
  target = "nnx.contextlib.Context.make_rng"
  params = ("self", "name")
  config = lambda self, ex: ctx_config(ex)

  def setup(self, ex, a):
    ctx_arg(ex, a)
    a.name = ex.sym("name", "str")

  def requires(self, ex, a):
    return [("a context", wf_context(ex, ex.heap, ex.lift(a.self))), ("the name is a string", V.is_SV(ex.lift(a.name)))]

  def stream(self, ex, a, h):
    return rngs_of(h, ex.lift(a.self))[ex.lift(a.name)]

  def raises(self, ex, a):
    h = ex.heap
    return [("ValueError", self.stream(ex, a, h) == Abs),
            ("TraceContextError", Not(valid(h, cd(h, ex.lift(a.self))[S("_trace_state")])))]

  def modifies(self, ex, a, h0, i):
    return i == V.rval(self.stream(ex, a, h0))

  def ensures(self, ex, a, h0, r):
    s = self.stream(ex, a, h0)
    D0, D = h0.D(V.rval(s)), ex.heap.D(V.rval(s))
    k = z3.Const("k!mr", V)
    return [("the key of the stream at this position", ex.lift(r) == key_at(D0[KEY], position(ex, h0, s))),
            ("the stream advances by exactly one", D[CNT] == IV(V.ival(D0[CNT]) + 1)),
            ("and keeps everything else", forall([k], Implies(k != CNT, D[k] == D0[k]), D[k]))]

  def on_raise(self, ex, a, h0, exc):
    k, l = z3.Consts("k!mx l!mx", V)
    M = rngs_of(h0, ex.lift(a.self))
    s = V.rval(M[k])
    return [("a refused draw advances nothing",
             forall([k, l], Implies(M[k] != Abs, ex.heap.D(s)[l] == h0.D(s)[l]), [M[k], h0.D(s)[l]]))]


class Fork(Contract):
  props = ("C06", "C07", "C08")
  target = "nnx.contextlib.Context.partition"
  params = ("self",)
  config = lambda self, ex: ctx_config(ex)

  def setup(self, ex, a):
    ctx_arg(ex, a)

  def requires(self, ex, a):
    return [("a context", wf_context(ex, ex.heap, ex.lift(a.self)))]

  def raises(self, ex, a):
    h = ex.heap
    return [("TraceContextError", Not(valid(h, cd(h, ex.lift(a.self))[S("_trace_state")])))]

  def result(self, ex, a, h0):
    r = ex.fresh("pure")
    ex.hint(r, "nnx:" + PCTX)
    return r

  def owner(self, ex, a, h):
    """the name of a stream object: a function, because streams are distinct."""
    if not hasattr(a, "_owner"):
      a._owner = ex.fresh_fn("owner", Int, V)
      a._M = ex.named(rngs_of(h, ex.lift(a.self)))
      k = z3.Const("k!ow", V)
      ex.assume(forall([k], Implies(a._M[k] != Abs, a._owner(V.rval(a._M[k])) == k), a._M[k]))
    return a._owner, a._M

  def modifies(self, ex, a, h0, i):
    ow, M = self.owner(ex, a, h0)
    return And(M[ow(i)] != Abs, V.rval(M[ow(i)]) == i)

  def ensures(self, ex, a, h0, r):
    ow, M = self.owner(ex, a, h0)
    r = ex.lift(r)
    keys, cdef = ex.lift(ex.t_get(r, 0)), ex.lift(ex.t_get(r, 1))
    k, l = z3.Consts("k!fk l!fk", V)
    i = z3.Int("i!fk")
    K = ex.content(keys)
    CD = ex.content(cdef)
    rc = ex.named(CD[S("_rng_counts")])
    fl = ex.named(CD[S("_flags")])
    at = ex.fresh_fn("rcpos", V, Int)
    D0 = lambda x: h0.D(V.rval(M[x]))
    D1 = lambda x: ex.heap.D(V.rval(M[x]))
    fi = ex.named(ex.heap.D(V.rval(h0.D(V.rval(ex.lift(a.self)))[S("_flags")])))
    nm = lambda j: tget(tget(rc, j), 0)
    fn = lambda j: tget(tget(fl, j), 0)
    Fl = ex.named(flags_of(h0, ex.lift(a.self)))
    j = z3.Int("j!fk")
    cat = lambda x: tsnoc(D0(x)[PATH], D0(x)[CNT])
    return [("a pure context of new parts", And(V.is_TV(r), clsof(r) == ex.ccode(ex.cls(PCTX)), tlen(r) == 2, is_dict(keys),
                                                V.rval(keys) >= h0.alloc, V.is_RV(cdef), clsof(cdef) == ex.ccode(ex.cls(CDEF)),
                                                V.rval(cdef) >= h0.alloc, V.is_TV(rc), clsof(rc) == C("tuple"),
                                                V.is_TV(fl), clsof(fl) == C("tuple"))),
            ("every stream advances by exactly one",
             forall([k], Implies(M[k] != Abs, D1(k)[CNT] == IV(V.ival(D0(k)[CNT]) + 1)), M[k])),
            ("and keeps key and path", forall([k], Implies(M[k] != Abs, And(D1(k)[KEY] == D0(k)[KEY], D1(k)[PATH] == D0(k)[PATH])), M[k])),
            ("the base keys under the same names", forall([k], K[k] == If(M[k] == Abs, Abs, D0(k)[KEY]), K[k])),
            ("one path per stream", tlen(rc) == dlen(M)),
            ("each a pair with the name of a stream",
             forall([i], Implies(And(0 <= i, i < tlen(rc)), And(V.is_TV(tget(rc, i)), clsof(tget(rc, i)) == C("tuple"), tlen(tget(rc, i)) == 2, M[nm(i)] != Abs)),
                    tget(rc, i))),
            ("and the position of the fork",
             forall([i], Implies(And(0 <= i, i < tlen(rc)), tget(tget(rc, i), 1) == cat(nm(i))), tget(rc, i))),
            ("no name twice", forall([i, j], Implies(And(0 <= i, i < j, j < tlen(rc)), nm(i) != nm(j)), [tget(rc, i), tget(rc, j)])),
            ("every name", forall([k], Implies(M[k] != Abs, exists([i], And(0 <= i, i < tlen(rc), nm(i) == k), tget(rc, i))), M[k])),
            ("the flags", And(tlen(fl) == dlen(Fl), forall([i], Implies(And(0 <= i, i < tlen(fl)), And(
                V.is_TV(tget(fl, i)), clsof(tget(fl, i)) == C("tuple"), tlen(tget(fl, i)) == 2, Fl[fn(i)] != Abs, tget(tget(fl, i), 1) == Fl[fn(i)])), tget(fl, i)))),
            ("each flag once", And(forall([i, j], Implies(And(0 <= i, i < j, j < tlen(fl)), fn(i) != fn(j)), [tget(fl, i), tget(fl, j)]),
                                   forall([k], Implies(Fl[k] != Abs, exists([i], And(0 <= i, i < tlen(fl), fn(i) == k), tget(fl, i))), Fl[k]))),
            ]

  def on_raise(self, ex, a, h0, exc):
    return MakeRng.on_raise(self, ex, a, h0, exc)



def same_map(A, B, tag):
  k = z3.Const("k!sm" + tag, V)
  return forall([k], A[k] == B[k], A[k], B[k])


def new_context(ex, r, h0):
  """a Context object made by the call, recorded under the current traces."""
  r = ex.lift(r)
  h = ex.heap
  D = ex.content(r)
  ts = D[S("_trace_state")]
  return And(V.is_RV(r), V.rval(r) >= h0.alloc, clsof(r) == ex.ccode(ex.cls(CTX)), V.is_RV(ts), V.rval(ts) >= h0.alloc,
             subc(clsof(ts), ex.ccode(ex.cls(TST))), valid(h, ts))


class Copy(Contract):
  props = ("C08",)
  target = "nnx.contextlib.Context.copy"
  params = ("self",)
  config = lambda self, ex: ctx_config(ex)

  def setup(self, ex, a):
    ctx_arg(ex, a)

  def requires(self, ex, a):
    return [("a context", wf_context(ex, ex.heap, ex.lift(a.self)))]

  def ensures(self, ex, a, h0, r):
    D = ex.content(r)
    s = ex.lift(a.self)
    return [("a new context of the current traces", new_context(ex, r, h0)),
            ("with the same streams", same_map(rngs_of(ex.heap, ex.lift(r)), rngs_of(h0, s), "cr")),
            ("with the same flags", same_map(flags_of(ex.heap, ex.lift(r)), flags_of(h0, s), "cf"))]


class Lookup(Contract):
  props = ("C08",)
  pure = True
  params = ("self", "name")
  config = lambda self, ex: ctx_config(ex)

  def __init__(self, method):
    self.target = CTX + "." + method
    self.method = method

  def setup(self, ex, a):
    ctx_arg(ex, a)
    a.name = ex.sym("name", "str")

  def requires(self, ex, a):
    return [("a context", wf_context(ex, ex.heap, ex.lift(a.self))), ("the name is a string", V.is_SV(ex.lift(a.name)))]

  def result(self, ex, a, h0):
    return ex.fresh("has", Bool) if self.method != "get_flag" else ex.fresh("flag")

  def ensures(self, ex, a, h0, r):
    s, n = ex.lift(a.self), ex.lift(a.name)
    if self.method == "get_flag":
      v = flags_of(h0, s)[n]
      return [("the flag, or None", ex.lift(r) == If(v == Abs, NoneV, v))]
    M = rngs_of(h0, s) if self.method == "has_rng" else flags_of(h0, s)
    return [("present exactly if given", ex.as_bool(ex.truth(r)) == (M[n] != Abs))]


def wf_def(ex, d):
  """what partition leaves: names without repetition, each with its path."""
  D = ex.heap.D(V.rval(d))
  rc, fl = ex.named(D[S("_rng_counts")]), ex.named(D[S("_flags")])
  i, j = z3.Ints("i!wd j!wd")
  ok = lambda t: [V.is_TV(t), clsof(t) == C("tuple"),
                  forall([i], Implies(And(0 <= i, i < tlen(t)), And(V.is_TV(tget(t, i)), clsof(tget(t, i)) == C("tuple"),
                                                                    tlen(tget(t, i)) == 2, V.is_SV(tget(tget(t, i), 0)))), tget(t, i)),
                  forall([i, j], Implies(And(0 <= i, i < j, j < tlen(t)), tget(tget(t, i), 0) != tget(tget(t, j), 0)),
                         [tget(t, i), tget(t, j)])]
  return And(V.is_RV(d), clsof(d) == ex.ccode(ex.cls(CDEF)), *ok(rc), *ok(fl))


class Merge(Contract):
  props = ("C07", "C08")
  target = "nnx.contextlib.ContextDef.merge"
  params = ("self", "keys")
  config = lambda self, ex: ctx_config(ex)

  def setup(self, ex, a):
    trace_context(ex)
    a.self = ex.sym("self", CDEF)
    a.keys = ex.sym("keys", "dict")
    ex.assume(is_dict(a.keys))

  def requires(self, ex, a):
    d, K = ex.lift(a.self), ex.heap.D(V.rval(ex.lift(a.keys)))
    rc, K = ex.named(cd(ex.heap, d)[S("_rng_counts")]), ex.named(K)
    i = z3.Int("i!mq")
    p = lambda j: tget(tget(rc, j), 1)
    return [("a context definition", wf_def(ex, d)),
            ("paths are tuples", forall([i], Implies(And(0 <= i, i < tlen(rc)), And(V.is_TV(p(i)), clsof(p(i)) == C("tuple"))), tget(rc, i))),
            ("a key for every stream", forall([i], Implies(And(0 <= i, i < tlen(rc)), K[tget(tget(rc, i), 0)] != Abs), tget(rc, i))),
            ("trace stack", wf_stack(ex, ex.heap))]

  def ensures(self, ex, a, h0, r):
    r = ex.lift(r)
    d = ex.lift(a.self)
    rc = ex.named(cd(h0, d)[S("_rng_counts")])
    fl = ex.named(cd(h0, d)[S("_flags")])
    K = ex.named(h0.D(V.rval(ex.lift(a.keys))))
    R = ex.named(rngs_of(ex.heap, r))
    G = ex.named(flags_of(ex.heap, r))
    nm = lambda j: tget(tget(rc, j), 0)
    fn = lambda j: tget(tget(fl, j), 0)
    st = lambda j: ex.heap.D(V.rval(R[nm(j)]))
    i, j = z3.Ints("i!me j!me")
    k = z3.Const("k!me", V)
    x = z3.Const("x!me", V)
    rng = And(0 <= i, i < tlen(rc))
    return [("a new context of the current traces", new_context(ex, r, h0)),
            ("with new streams and flags", And(is_dict(cd(ex.heap, r)[S("_rngs")]), is_dict(cd(ex.heap, r)[S("_flags")]))),
            ("a new stream under every name", forall([i], Implies(rng, And(
                V.is_RV(R[nm(i)]), clsof(R[nm(i)]) == ex.ccode(ex.cls(RNG)), V.rval(R[nm(i)]) >= h0.alloc,
                V.rval(R[nm(i)]) < ex.heap.alloc)), tget(rc, i))),
            ("with its base key", forall([i], Implies(rng, st(i)[KEY] == K[nm(i)]), tget(rc, i))),
            ("starting at count 0", forall([i], Implies(rng, st(i)[CNT] == IV(0)), tget(rc, i))),
            ("on the path of its definition", forall([i], Implies(rng, st(i)[PATH] == tget(tget(rc, i), 1)), tget(rc, i))),
            ("different streams for different names", forall([i, j], Implies(And(0 <= i, i < j, j < tlen(rc)),
                                                                             V.rval(R[nm(i)]) != V.rval(R[nm(j)])),
                                                             [tget(rc, i), tget(rc, j)])),
            ("and no other stream", forall([k], Implies(R[k] != Abs, exists([i], And(0 <= i, i < tlen(rc), nm(i) == k), tget(rc, i))), R[k])),
            ("every flag", forall([i], Implies(And(0 <= i, i < tlen(fl)), G[fn(i)] == tget(tget(fl, i), 1)), tget(fl, i))),
            ("and no other flag", forall([k], Implies(G[k] != Abs, exists([i], And(0 <= i, i < tlen(fl), fn(i) == k), tget(fl, i))), G[k]))]



def roundtrip(ex):
  """partition then merge (through PureContext.merge): same names, base keys and flags;
  every stream of the copy continues below the position of the fork."""
  trace_context(ex)
  c = ex.sym("context", CTX)
  ex.assume(wf_context(ex, ex.heap, c))
  h0 = ex.heap
  M, G = ex.named(rngs_of(h0, c)), ex.named(flags_of(h0, c))
  k = z3.Const("k!rt", V)
  ex.assume(forall([k], Implies(G[k] != Abs, V.is_SV(k)), G[k]), "flag names are strings")
  D0 = lambda x: h0.D(V.rval(M[x]))
  ex.prove("cover: a context", z3.BoolVal(False), kind="cover")
  try:
    pure = ex.call_method(c, "partition", [])
    c2 = ex.call_method(pure, "merge", [])
  except Raised as e:
    ex.prove_raise([("TraceContextError", Not(valid(h0, cd(h0, c)[S("_trace_state")])))], e.exc)
    return
  ex.prove("cover: merged", z3.BoolVal(False), kind="cover-any")
  c2 = ex.lift(c2)
  R, G2 = ex.named(rngs_of(ex.heap, c2)), ex.named(flags_of(ex.heap, c2))
  D2 = lambda x: ex.heap.D(V.rval(R[x]))
  y = ex.fresh("y")
  ex.assume(y != Abs)
  ex.prove("no stream is invented", Implies(R[y] != Abs, M[y] != Abs))
  ex.prove("no stream is lost", Implies(M[y] != Abs, R[y] != Abs))
  ex.prove("base keys stay", Implies(M[y] != Abs, D2(y)[KEY] == D0(y)[KEY]))
  ex.prove("the copy counts from 0", Implies(M[y] != Abs, D2(y)[CNT] == IV(0)))
  ex.prove("below the position of the fork", Implies(M[y] != Abs, D2(y)[PATH] == tsnoc(D0(y)[PATH], D0(y)[CNT])))
  ex.prove("the original goes on after it", Implies(M[y] != Abs, ex.heap.D(V.rval(M[y]))[CNT] == IV(V.ival(D0(y)[CNT]) + 1)))
  ex.prove("flags stay", G2[y] == G[y])


def in_region(s, p, c):
  """the position sequences a stream at (path p, count c) can still produce."""
  i = z3.Int("i!rg")
  return And(tlen(s) > tlen(p), forall([i], Implies(And(0 <= i, i < tlen(p)), tget(s, i) == tget(p, i)), tget(s, i), tget(p, i)),
             V.ival(tget(s, tlen(p))) >= c)


def regions(ex):
  """no position twice: histories of draws and forks of one root stream."""
  P, N = z3.Function("path_of", Int, V), z3.Function("count_of", Int, Int)
  live, out = z3.Function("live", Int, Bool), z3.Function("handed_out", V, Bool)
  i, j = z3.Ints("i!ri j!ri")
  s = z3.Const("s!ri", V)

  def inv(P, N, live, out):
    return And(forall([i, j, s], Implies(And(live(i), live(j), i != j), Not(And(in_region(s, P(i), N(i)), in_region(s, P(j), N(j))))),
                      [live(i), live(j), tlen(s)]),
               forall([i, s], Implies(And(live(i), out(s)), Not(in_region(s, P(i), N(i)))), [live(i), out(s)]))
  ex.assume(inv(P, N, live, out))
  a, b = ex.fresh("a", Int), ex.fresh("b", Int)
  ex.assume(And(live(a), Not(live(b)), N(a) >= 0))
  q = tsnoc(P(a), IV(N(a)))
  x, y = ex.fresh("x"), ex.fresh("y")
  u, v = ex.fresh("u", Int), ex.fresh("v", Int)
  for t in (x, y):
    ex.assume(tlen(t) >= 0)
  # the pieces
  ex.prove("a draw is from the region of its stream", in_region(q, P(a), N(a)))
  ex.prove("and leaves it", Not(in_region(q, P(a), N(a) + 1)))
  ex.prove("the region shrinks with the count", Implies(in_region(x, P(a), N(a) + 1), in_region(x, P(a), N(a))))
  ex.prove("a fork's region lies in its parent's", Implies(in_region(x, q, z3.IntVal(0)), in_region(x, P(a), N(a))))
  ex.prove("apart from what the parent keeps", Implies(in_region(x, q, z3.IntVal(0)), Not(in_region(x, P(a), N(a) + 1))))
  ex.prove("and without the position of the fork", Not(in_region(q, q, z3.IntVal(0))))
  # the steps
  ex.prove("a draw is new", Not(out(q)))
  N2 = lambda t: If(t == a, N(a) + 1, N(t))
  same = lambda f: f
  goal = lambda P2, N2, live2, out2: And(
      Implies(And(live2(u), live2(v), u != v), Not(And(in_region(x, P2(u), N2(u)), in_region(x, P2(v), N2(v))))),
      Implies(And(live2(u), out2(x)), Not(in_region(x, P2(u), N2(u)))))
  for n, c in (("the drawing stream", u == a), ("another stream", u != a)):
    for m, d in (("drawing", v == a), ("other", v != a)):
      ex.prove(f"a draw keeps the regions apart ({n}, {m})", Implies(And(c, d), goal(P, N2, live, lambda t: Or(out(t), t == q))))
  P3 = lambda t: If(t == b, q, P(t))
  N3 = lambda t: If(t == b, 0, If(t == a, N(a) + 1, N(t)))
  live3 = lambda t: Or(t == b, live(t))
  for n, c in (("parent", u == a), ("child", u == b), ("other", And(u != a, u != b))):
    for m, d in (("parent", v == a), ("child", v == b), ("other", And(v != a, v != b))):
      ex.prove(f"a fork keeps the regions apart ({n}, {m})", Implies(And(c, d), goal(P3, N3, live3, out)))


class Roundtrip(Lemma):
  props = ("C07", "C08")

  def __init__(self):
    super().__init__("partition then merge of a context", roundtrip, config=ctx_config)


class Regions(Lemma):
  props = ("C07",)

  def __init__(self):
    super().__init__("no two draws share a position", regions, config=ctx_config)


ARR = "jax.Array"


class MakeContext(Contract):
  props = ("C08",)
  target = "nnx.contextlib.context"
  params = ("params", "flags", "**rngs")
  callable = False
  config = lambda self, ex: ctx_config(ex)

  def setup(self, ex, a):
    trace_context(ex)
    ex.assume(wf_stack(ex, ex.heap))
    a.params = ex.sym("params")
    a.flags = ex.sym("flags")
    ex.assume(Or(V.is_NoneV(a.flags), is_dict(a.flags)))
    if ex.branch(is_dict(a.flags)):
      ex.hint(a.flags, "dict")
    a.rngs = ex.sym_map("rngs")

  def requires(self, ex, a):
    k = z3.Const("k!mk", V)
    return [("keyword names", And(a.rngs[S("params")] == Abs, a.rngs[S("flags")] == Abs,
                                  forall([k], Implies(a.rngs[k] != Abs, V.is_SV(k)), a.rngs[k])))]

  def ensures(self, ex, a, h0, r):
    r = ex.lift(r)
    p, f = ex.lift(a.params), ex.lift(a.flags)
    k = z3.Const("k!mc", V)
    R, G = ex.named(rngs_of(ex.heap, r)), ex.named(flags_of(ex.heap, r))
    given = lambda x: If(And(x == S("params"), Not(V.is_NoneV(p))), p, a.rngs[x])
    isint = lambda v: Or(V.is_IV(v), V.is_BV(v))
    arr = lambda v: And(Not(isint(v)), ex.isinst_term(v, ARR))
    prng = lambda v: F("ext:jax.random.PRNGKey(1)", V, V)(v)
    St = lambda x: ex.heap.D(V.rval(R[x]))
    new = lambda x, key: And(V.is_RV(R[x]), V.rval(R[x]) >= h0.alloc, clsof(R[x]) == ex.ccode(ex.cls(RNG)), St(x)[KEY] == key,
                             St(x)[CNT] == IV(0), V.is_TV(St(x)[PATH]), tlen(St(x)[PATH]) == 0)
    F0 = h0.D(V.rval(f))
    return [("a new context of the current traces", new_context(ex, r, h0)),
            ("exactly the streams given", forall([k], (R[k] != Abs) == (given(k) != Abs), R[k])),
            ("an integer seeds a new key", forall([k], Implies(And(given(k) != Abs, isint(given(k))), new(k, prng(given(k)))), R[k])),
            ("an array is the key", forall([k], Implies(And(given(k) != Abs, arr(given(k))), new(k, given(k))), R[k])),
            ("a stream is used as given", forall([k], Implies(And(given(k) != Abs, Not(isint(given(k))), Not(arr(given(k)))),
                                                             R[k] == given(k)), R[k])),
            ("exactly the flags given", forall([k], G[k] == If(V.is_NoneV(f), Abs, F0[k]), G[k]))]


racc = F("rng_accepts", V, V, Bool)
vrfil = F("rng_filter", V, Bool)
apply1 = F("apply1", V, V, V)


def truthy_of(v):
  from .filters import truthy_of as t
  return t(v)


class ToRngPredicate(Contract):
  """filters: None, ..., names, callables, and tuples, lists and dicts of filters."""
  props = ("C08",)
  target = "nnx.contextlib.to_rng_predicate"
  params = ("filter",)

  def config(self, ex):
    ctx_config(ex)
    h = ex.heap0 if hasattr(ex, "heap0") else None

  def setup(self, ex, a):
    a.filter = ex.sym("filter")
    f = a.filter
    self.axioms_at(ex, f)
    lst = And(V.is_RV(f), clsof(f) == C("list"))
    if ex.branch(callable_(f)):
      return
    for k, c in (("tuple", V.is_TV(f)), ("list", lst), ("dict", is_dict(f)), ("dict", V.is_VD(f))):
      if ex.branch(c):
        ex.hint(f, k)
        break

  def axioms_at(self, ex, f):
    """one unfolding of the recursive definitions of racc and vrfil, at f."""
    h = ex.heap
    ex.rng_heap = h
    n, k = z3.Consts("n!rp k!rp", V)
    j = z3.Int("j!rp")
    L = h.L(V.rval(f))
    M, MV = h.D(V.rval(f)), h.D(V.vdval(f))
    lst = And(V.is_RV(f), clsof(f) == C("list"))
    ex.assume(Implies(Or(V.is_RV(f), V.is_XV(f)), And(Implies(ex.isinst_term(f, "Mapping"), is_dict(f)),
                                                      Implies(ex.isinst_term(f, "Sequence_abc"), lst))),
              "mapping filters are dicts, sequence filters tuples or lists")
    call = callable_(f)
    ex.assume(forall([n], racc(f, n) == Or(
        V.is_EllV(f), And(V.is_SV(f), n == f), And(call, truthy_of(apply1(f, n))),
        And(Not(call), is_dict(f), exists([k], And(M[k] != Abs, truthy_of(M[k]), racc(k, n)), racc(k, n))),
        And(Not(call), V.is_VD(f), exists([k], And(MV[k] != Abs, truthy_of(MV[k]), racc(k, n)), racc(k, n))),
        And(Not(call), V.is_TV(f), exists([j], And(0 <= j, j < tlen(f), racc(tget(f, j), n)), tget(f, j))),
        And(Not(call), lst, exists([j], And(0 <= j, j < tlen(L), racc(tget(L, j), n)), tget(L, j)))), racc(f, n)))
    ex.assume(vrfil(f) == Or(
        V.is_NoneV(f), V.is_EllV(f), V.is_SV(f), call,
        And(is_dict(f), forall([k], Implies(And(M[k] != Abs, truthy_of(M[k])), vrfil(k)), M[k])),
        And(V.is_VD(f), forall([k], Implies(And(MV[k] != Abs, truthy_of(MV[k])), vrfil(k)), MV[k])),
        And(V.is_TV(f), forall([j], Implies(And(0 <= j, j < tlen(f)), vrfil(tget(f, j))), tget(f, j))),
        And(lst, forall([j], Implies(And(0 <= j, j < tlen(L)), vrfil(tget(L, j))), tget(L, j)))))

  def requires(self, ex, a):
    f = ex.lift(a.filter)
    if ex.heap is not getattr(ex, "rng_heap", None):
      same = z3.BoolVal(all(w[0] != "havoc" and ex.entails(w[1] >= 0) for w in ex.writes))
    else:
      same = z3.BoolVal(True)
    return [("no filter is changed meanwhile", same)]

  def raises(self, ex, a):
    return [("TypeError", Not(vrfil(ex.lift(a.filter))))]

  def result(self, ex, a, h0):
    r = ex.fresh("pred")
    ex.assume(callable_(r))
    ex.pred_src = r
    return r

  def ensures(self, ex, a, h0, r):
    f = ex.lift(a.filter)
    if isV(r) and r is getattr(ex, "pred_src", None):
      n = z3.Const("n!tp", V)
      return [("meaning", forall([n], truthy_of(apply1(r, n)) == racc(f, n), apply1(r, n)))]
    n = ex.fresh("name")
    ex.assume(V.is_SV(n))
    ex.hint(n, "str")
    t = ex.truth(ex.call(r, [n], {}))
    t = z3.BoolVal(t) if isinstance(t, bool) else t
    return [("selects exactly the streams the filter names", t == racc(f, n))]


def tree_nodes(ex):
  """ContextDef and PureContext are tree nodes that come back unchanged."""
  trace_context(ex)
  d = ex.sym("contextdef", CDEF)
  h0 = ex.heap
  r = node_functions(ex, "nnx.contextlib", CDEF)
  p = node_functions(ex, "nnx.contextlib", PCTX)
  ex.prove("both are registered", z3.BoolVal(r is not None and p is not None))
  if r is None or p is None:
    return
  ex.writes = []
  f, u, _ = r
  both = ex.call(f, [d], {})
  leaves, aux = ex.t_get(both, 0), ex.t_get(both, 1)
  ex.prove("a definition has no leaves", ex.iterm(ex.t_len(leaves)) == 0)
  d2 = ex.lift(ex.call(u, [aux, leaves], {}))
  A, B = ex.content(d, h0), ex.content(d2)
  ex.prove("and comes back with the same streams and flags", And(V.is_RV(d2), clsof(d2) == ex.ccode(ex.cls(CDEF)),
                                                               B[S("_rng_counts")] == A[S("_rng_counts")], B[S("_flags")] == A[S("_flags")]))
  pc = ex.sym("pure", PCTX)
  ex.assume(tlen(pc) == 2)
  f, u, _ = p
  both = ex.call(f, [pc], {})
  leaves, aux = ex.t_get(both, 0), ex.t_get(both, 1)
  ex.prove("the children of a pure context are its keys and its definition", And(
      ex.iterm(ex.t_len(leaves)) == 2, ex.lift(ex.t_get(leaves, 0)) == tget(pc, 0), ex.lift(ex.t_get(leaves, 1)) == tget(pc, 1)))
  x, y = ex.sym("keys"), ex.sym("definition")
  q = ex.lift(ex.call(u, [aux, (x, y)], {}))
  ex.prove("rebuilt around any children", And(V.is_TV(q), clsof(q) == ex.ccode(ex.cls(PCTX)), tlen(q) == 2, tget(q, 0) == x, tget(q, 1) == y))
  for w in ex.writes:
    ex.prove("nothing existing is changed", w[1] >= h0.alloc if w[0] != "havoc" else z3.BoolVal(False), kind="frame")


class TreeNodes(Lemma):
  props = ("C08",)

  def __init__(self):
    super().__init__("tree registration of context definitions", tree_nodes, config=ctx_config)


SPECS = [StableHashText(), StableHash(), MakeRng(), Fork(), Copy(), Lookup("has_rng"), Lookup("has_flag"), Lookup("get_flag"), Merge(),
         Roundtrip(), Regions(), MakeContext(), ToRngPredicate(), TreeNodes()]
REGISTRY = _t.REGISTRY + SPECS
AXIOMS = list
