"""C20: padding canonicalization, the calls Linear, Conv and Embed make, and the parameters they create.

Array functions of JAX are external: what is proved is which of them is called, once, on what.
"""
from pyded.spec import *
from pyded.loops import LoopSpec
from pyded.vals import PyFunc
from .containers import cd, isc, plain, VAL
from .tracers import MODULE, MST, trace_context, wf_module, valid, module_trace_state
from .contexts import CTX
from .calls13 import bound
from .nn import nn_config, fin, ndim, shape, array, none
from . import nn as _n

USES = ("nn",)
L = "nnx.nn.linear."
LIN, CONV, EMB = L + "Linear", L + "Conv", L + "Embed"
PROMOTE = "nnx.nn.dtypes.promote_dtype"


def isint(ex, v):
  return ex.isinst_term(v, "int")


class CanonPadding(Contract):
  """a string is kept; an integer means that pair for every axis; a sequence of rank integers or pairs gives one pair per axis."""
  props = ("C20",)
  target = L + "canonicalize_padding"
  params = ("padding", "rank")
  callable = False
  config = lambda self, ex: nn_config(ex)

  def setup(self, ex, a):
    w = ex.choose(4)
    if w < 3:
      a.padding = ex.sym("padding", ("str", "tuple", "list")[w])
    else:
      a.padding = ex.sym("padding")
      ex.assume(And(a.padding != Abs, Not(V.is_RV(a.padding)), Not(V.is_TV(a.padding))))
    a.rank = ex.sym("rank", "int")

  def seq(self, ex, a):
    """the elements, if padding is a tuple or a list."""
    p = ex.lift(a.padding)
    if hasattr(a, "_seq"):
      return a._seq
    k = ex.klass(a.padding)
    if k == "list":
      a._seq = ex.named(ex.heap.L(V.rval(p)))
    elif k == "tuple":
      a._seq = ex.named(p)
    else:
      a._seq = None
    return a._seq

  def pairlike(self, ex, v):
    return Or(isint(ex, v), And(V.is_TV(v), tlen(v) == 2))

  def rank(self, ex, a):
    return ex.iterm(a.rank)

  def requires(self, ex, a):
    p = ex.lift(a.padding)
    self.seq(ex, a)
    i = z3.Int("i!pq")
    out = [("not negative", self.rank(ex, a) >= 0)]
    if self.seq(ex, a) is not None:
      T = self.seq(ex, a)
      out.append(("elements", forall([i], Implies(And(0 <= i, i < tlen(T)), tget(T, i) != Abs), tget(T, i))))
    return out

  def raises(self, ex, a):
    p = ex.lift(a.padding)
    T = self.seq(ex, a)
    if T is None:
      return [("ValueError", Not(Or(V.is_SV(p), isint(ex, p))))]
    i = z3.Int("i!pr")
    return [("ValueError", Not(And(tlen(T) == self.rank(ex, a),
                                   forall([i], Implies(And(0 <= i, i < tlen(T)), self.pairlike(ex, tget(T, i))), tget(T, i)))))]

  def loops(self, ex):
    def inv(Lp):
      a = ex.spec_args
      T = self.seq(ex, a)
      out = Lp.fresh_objs("list")
      if len(out) != 1 or T is None:
        raise Unsupported("one list expected")
      N = ex.heap.L(V.rval(out[0]))
      j = z3.Int("j!pl")
      i = Lp.i
      return [("as many pairs as elements seen", And(V.is_TV(N), tlen(N) == i)),
              ("elements seen are integers or pairs", forall([j], Implies(And(0 <= j, j < i), self.pairlike(ex, tget(T, j))), tget(T, j))),
              ("each its pair", forall([j], Implies(And(0 <= j, j < i), self.pair(ex, tget(N, j), tget(T, j))), tget(N, j)))]
    return [LoopSpec(inv)]

  def pair(self, ex, r, v):
    """r is the pair v stands for."""
    return If(isint(ex, v), And(V.is_TV(r), tlen(r) == 2, tget(r, 0) == v, tget(r, 1) == v), r == v)

  def result(self, ex, a, h0):
    return ex.fresh("padding_lax")

  def ensures(self, ex, a, h0, r):
    p, rv = ex.lift(a.padding), ex.lift(r)
    if ex.branch(V.is_SV(p)):
      return [("a name is kept", rv == p)]
    T = self.seq(ex, a)
    if ex.branch(And(V.is_RV(rv), clsof(rv) == C("list"))):
      R = ex.named(ex.heap.L(V.rval(rv)))
    else:
      R = rv
    i = z3.Int("i!pe")
    ok = And(V.is_TV(R), tlen(R) == self.rank(ex, a))
    if T is None:
      return [("one pair per axis", ok), ("of the integer given", forall([i], Implies(And(0 <= i, i < tlen(R)), self.pair(ex, tget(R, i), p)), tget(R, i)))]
    return [("one pair per axis", ok), ("each the pair of its element", forall([i], Implies(And(0 <= i, i < tlen(R)), self.pair(ex, tget(R, i), tget(T, i))), tget(R, i)))]


def cfg(ex):
  nn_config(ex)
  ex.query_classes = [MODULE, "nnx.containers.Container"]
  ex.ext_handlers["jax.numpy.reshape"] = ex.ext_handlers[".reshape"]


def dimension_numbers(ex):
  """batch, then features, then the spatial axes; kernels hold the spatial axes first."""
  cfg(ex)
  x = ex.sym("input_shape", "tuple")
  n = tlen(x)
  ex.assume(n >= 2)
  got = []

  def cdn(ex, a, k):
    v = list(a) + [k[m] for m in ("lhs_spec", "rhs_spec", "out_spec")[len(a):]]
    got.append([ex.named(ex.lift(t)) for t in v])
    return ex.fresh("dimension_numbers")
  ex.ext_handlers["jax.lax.ConvDimensionNumbers"] = cdn
  ex.prove("cover: shapes exist", z3.BoolVal(False), kind="cover")
  fi, owner = ex.func(L + "_conv_dimension_numbers")
  ex.run_func(PyFunc(fi), [x], {})
  ex.prove("made once", z3.BoolVal(len(got) == 1))
  i = z3.Int("i!dn")
  for t, (a, b, first) in zip(got[0], ((0, n - 1, 1), (n - 1, n - 2, 0), (0, n - 1, 1))):
    ex.prove("as many as axes", And(V.is_TV(t), tlen(t) == n))
    ex.prove("batch or output, then feature axis", And(tget(t, 0) == IV(a), tget(t, 1) == IV(b)))
    ex.prove("then the spatial axes in order", forall([i], Implies(And(2 <= i, i < n), tget(t, i) == IV(i - 2 + first)), tget(t, i)))


def layer(ex, cls):
  cfg(ex)
  trace_context(ex)
  m = ex.sym("self", cls)
  ex.promoted = []

  def promote(ex, pf, args, kw):
    """None stays None, arrays become arrays (the contract of promote_dtype)."""
    if len(args) == 1 and isinstance(args[0], tuple):
      args = args[0]
    out = []
    for x in args:
      if x is None or (isV(x) and ex.branch(ex.lift(x) == NoneV)):
        out.append(None)
      else:
        out.append(array(ex, "cast%d_%d" % (len(ex.promoted), len(out))))
    ex.promoted.append((list(args), dict(kw), out))
    return ex.alloc_list(tuple(out))
  ex.call_hooks[PROMOTE] = promote
  ex.calls = []

  def hook(ex, f, args, kw):
    r = array(ex, "out%d" % len(ex.calls))
    ex.calls.append((f, list(args), dict(kw), r))
    return r
  ex.opaque_call = hook
  return m


def attr(ex, m, n):
  """the value an attribute of the layer holds."""
  if n not in ("kernel", "bias", "embedding"):
    w = cd(ex.heap, m)[S(n)]
    ex.assume(And(w != Abs, plain(ex, w), age(w) <= 0))
  v = ex.getattr_(m, n)
  return v


def is_layer(ex, m, names):
  """the parameters are arrays or None, the functions are callable."""
  h = ex.heap
  for n in names:
    v = cd(h, m)[S(n)]
    ex.assume(And(isc(ex, v, "nnx.containers.Variable"), age(v) <= 0, V.rval(v) < 0))
    ex.assume(cd(h, v)[S("unbox_fn")] == Abs, "the parameters of the layer have no unboxing function")
    w = cd(h, v)[S(VAL)]
    if n == "bias" and ex.choose(2):
      ex.assume(w == NoneV)
    else:
      ex.assume(And(V.is_XV(w), plain(ex, w)))
      ex.opaque(w)


def function(ex, m, n):
  v = cd(ex.heap, m)[S(n)]
  ex.assume(And(V.is_XV(v), callable_(v), plain(ex, v)))
  return v


def linear_call(ex):
  m = layer(ex, LIN)
  is_layer(ex, m, ("kernel", "bias"))
  f = function(ex, m, "dot_general")
  dt, prec = attr(ex, m, "dtype"), attr(ex, m, "precision")
  k, b = attr(ex, m, "kernel"), attr(ex, m, "bias")
  x = array(ex, "inputs")
  ex.prove("cover: layers exist", z3.BoolVal(False), kind="cover")
  n0 = len(ex.writes)
  r = ex.call(ClassV(ex.cls(LIN)) and ex.getattr_(m, "__call__"), [x], {})
  ex.prove("promoted once", z3.BoolVal(len(ex.promoted) == 1))
  args, kw, out = ex.promoted[0]
  ex.prove("input, kernel and bias are promoted to the layer's dtype", And(z3.BoolVal(len(args) == 3 and set(kw) == {"dtype"}),
           ex.lift(args[0]) == x, ex.lift(args[1]) == ex.lift(k), ex.lift(args[2]) == ex.lift(b), ex.lift(kw["dtype"]) == ex.lift(dt)))
  ex.prove("one contraction", z3.BoolVal(len(ex.calls) == 1))
  g, ga, gk, y = ex.calls[0]
  ex.prove("by the layer's function", ex.lift(g) == f)
  ex.prove("of the promoted input and kernel", And(z3.BoolVal(len(ga) == 3), ex.lift(ga[0]) == ex.lift(out[0]), ex.lift(ga[1]) == ex.lift(out[1])))
  want = ex.lift((((V.IV(ndim(ex.lift(out[0])) - 1),), (0,)), ((), ())))
  ex.prove("over the last axis of the input and the first of the kernel", ex.lift(ga[2]) == want)
  ex.prove("in the layer's precision", And(z3.BoolVal(set(gk) == {"precision"}), ex.lift(gk["precision"]) == ex.lift(prec)))
  y = ex.lift(y)
  ex.assume(ndim(y) >= 1, "the contraction with a kernel has a feature axis")
  if out[2] is None:
    ex.prove("without bias: the contraction itself", ex.lift(r) == y)
  else:
    ex.prove("the bias is laid out once", z3.BoolVal(len(ex.reshapes) == 1))
    if not ex.reshapes:
      return
    o, sh, t = ex.reshapes[0]
    i = z3.Int("i!lc")
    ex.prove("the promoted bias", o == ex.lift(out[2]))
    ex.prove("along the last axis", And(tlen(sh) == ndim(y), forall([i], Implies(And(0 <= i, i < tlen(sh) - 1), tget(sh, i) == IV(1)), tget(sh, i)),
                                        tget(sh, tlen(sh) - 1) == IV(-1)))
    ex.prove("and added to the contraction", ex.lift(r) == fin("op.add", y, t))
  ex.prove("nothing is written", z3.BoolVal(not [w for w in ex.writes[n0:] if w[0] != "L"]), kind="frame")


def embed_call(ex):
  m = layer(ex, EMB)
  is_layer(ex, m, ("embedding",))
  dt, e = attr(ex, m, "dtype"), attr(ex, m, "embedding")
  x = array(ex, "inputs")
  integer = z3.Const("integer indices", Bool)
  taken, asked = [], []

  def issub(ex, a, k):
    asked.append(list(a))
    return BV(integer)
  ex.ext_handlers["jax.numpy.issubdtype"] = issub

  def take(ex, a, k):
    v = dict(zip(("a", "indices", "axis"), a))
    v.update(k)
    taken.append((v, array(ex, "rows")))
    return taken[-1][1]
  ex.ext_handlers["jax.numpy.take"] = take
  dtx = ex.opaque_attrs["dtype"] = lambda ex, t: fin("dtype of", t)
  ex.prove("cover: layers exist", z3.BoolVal(False), kind="cover")
  n0 = len(ex.writes)
  try:
    r = ex.call(ex.getattr_(m, "__call__"), [x], {})
  except Raised as err:
    ex.prove("ValueError exactly for indices that are no integers", And(z3.BoolVal(ex.exc_name(err.exc) == "ValueError" and not taken), Not(integer)))
    r = None
  ex.prove("the type of the indices is asked for", And(z3.BoolVal(len(asked) == 1 and len(asked[0]) == 2), ex.val_of(asked[0][0]) == fin("dtype of", x)))
  ex.prove("integers are what is asked for", z3.BoolVal("jax.numpy.integer" in str(asked[0][1])))
  if r is not None:
    ex.prove("indices that are integers", integer)
    ex.prove("one selection, one promotion", z3.BoolVal(len(taken) == 1 and len(ex.promoted) == 1))
    args, kw, out = ex.promoted[0]
    ex.prove("the embedding is cast to the layer's dtype, integers allowed", And(z3.BoolVal(len(args) == 1 and set(kw) == {"dtype", "inexact"} and kw["inexact"] is False),
             ex.lift(args[0]) == ex.lift(e), ex.lift(kw["dtype"]) == ex.lift(dt)))
    v, t = taken[0]
    ex.prove("rows of it are selected by the indices", And(z3.BoolVal(set(v) == {"a", "indices", "axis"}), ex.lift(v["a"]) == ex.lift(out[0]), ex.lift(v["indices"]) == x,
             ex.lift(v["axis"]) == V.IV(0)))
    ex.prove("and returned", ex.lift(r) == t)
  ex.prove("nothing is written", z3.BoolVal(not [w for w in ex.writes[n0:] if w[0] != "L"]), kind="frame")


def embed_attend(ex):
  m = layer(ex, EMB)
  is_layer(ex, m, ("embedding",))
  dt, e = attr(ex, m, "dtype"), attr(ex, m, "embedding")
  q = array(ex, "query")
  dots = []

  def dot(ex, a, k):
    dots.append((list(a), dict(k), array(ex, "inner")))
    return dots[-1][2]
  ex.ext_handlers["jax.numpy.dot"] = dot

  def tr(ex, t):
    r = fin("transpose", t)
    ex.assume(V.is_XV(r))
    return ex.opaque(r)
  ex.opaque_attrs["T"] = tr
  ex.prove("cover: layers exist", z3.BoolVal(False), kind="cover")
  n0 = len(ex.writes)
  r = ex.call_method(m, "attend", [q])
  ex.prove("one product, one promotion", z3.BoolVal(len(dots) == 1 and len(ex.promoted) == 1))
  args, kw, out = ex.promoted[0]
  ex.prove("query and embedding are promoted to the layer's dtype", And(z3.BoolVal(len(args) == 2 and set(kw) == {"dtype"}), ex.lift(args[0]) == q,
           ex.lift(args[1]) == ex.lift(e), ex.lift(kw["dtype"]) == ex.lift(dt)))
  a, k, t = dots[0]
  ex.prove("the inner product with every row", And(z3.BoolVal(len(a) == 2 and not k), ex.lift(a[0]) == ex.lift(out[0]), ex.lift(a[1]) == fin("transpose", ex.lift(out[1]))))
  ex.prove("is returned", ex.lift(r) == t)
  ex.prove("nothing is written", z3.BoolVal(not [w for w in ex.writes[n0:] if w[0] != "L"]), kind="frame")


def new_layer(ex, cls):
  """a layer whose __init__ is about to run, and recorders of the keys drawn and initializers called."""
  cfg(ex)
  trace_context(ex)
  m = ex.sym("self", cls)
  h = ex.heap
  ex.assume(wf_module(ex, h, m))
  ex.assume(valid(h, module_trace_state(h, m)))
  k = z3.Const("k!nl", V)
  D = ex.named(cd(h, m))
  ex.assume(forall([k], Implies(k != S(MST), D[k] == Abs), D[k]))
  ctx = ex.sym("ctx", CTX)
  ex.drawn, ex.calls = [], []

  def rng(ex, pf, args, kw):
    args = list(args)
    who = bound(ex, pf, args, True)
    name = args[0] if args else kw["name"]
    r = array(ex, "key%d" % len(ex.drawn))
    ex.drawn.append((who, name, r))
    return r
  ex.call_hooks[CTX + ".make_rng"] = rng

  def assign(ex, pf, args, kw):
    """the first assignment of an attribute of a module at the current trace level (Module._setattr's contract; a container is stored as it is, not as its copy)."""
    args = list(args)
    who = bound(ex, pf, args, True)
    n, v = args
    D = cd(ex.heap, who)
    ex.prove("an attribute of the layer is set once", And(who == m, D[ex.lift(n)] == Abs))
    ex.write("D", V.rval(m), z3.Store(D, ex.lift(n), ex.lift(v)))
    return None
  ex.call_hooks[MODULE + "._setattr"] = assign

  def hook(ex, f, args, kw):
    r = array(ex, "param%d" % len(ex.calls))
    ex.calls.append((f, list(args), dict(kw), r))
    return r
  ex.opaque_call = hook
  return m, ctx


def functions(ex, *names):
  out = []
  for n in names:
    v = ex.sym(n)
    ex.assume(And(V.is_XV(v), callable_(v), plain(ex, v)))
    out.append(v)
  return out


def plains(ex, *names):
  out = []
  for n in names:
    v = ex.sym(n)
    ex.assume(And(v != Abs, plain(ex, v)))
    out.append(v)
  return out


def made(ex, m, ctx, want, fields):
  """parameters: name -> (initializer, shape or None); every other field holds the argument given."""
  real = [(n, w) for n, w in want.items() if w is not None]
  ex.prove("one key for each parameter created, one initializer call", z3.BoolVal(len(ex.drawn) == len(real) == len(ex.calls)))
  if not len(ex.drawn) == len(real) == len(ex.calls):
    return
  for j, (n, (f, sh, dt)) in enumerate(real):
    who, stream, key = ex.drawn[j]
    g, a, k, r = ex.calls[j]
    ex.prove(f"{n}: its key is drawn from the stream 'params' of the context", And(who == ctx, ex.lift(stream) == S("params")))
    ex.prove(f"{n}: initialized with its own key, shape and dtype", And(z3.BoolVal(len(a) == 3 and not k), ex.lift(g) == f, ex.lift(a[0]) == key, ex.lift(a[2]) == dt))
    t = ex.lift(a[1])
    i = z3.Int("i!mk")
    sh = ex.named(sh)
    ex.prove(f"{n}: of the declared shape", And(V.is_TV(t), tlen(t) == tlen(sh), forall([i], Implies(And(0 <= i, i < tlen(sh)), tget(t, i) == tget(sh, i)), tget(t, i), tget(sh, i))))
  D = cd(ex.heap, m)
  vals = {n: r for (n, w), (g, a, k, r) in zip(real, ex.calls)}
  for n, w in want.items():
    c = D[S(n)]
    ex.prove(f"{n}: a parameter", And(V.is_RV(c), clsof(c) == ex.ccode(ex.cls("nnx.containers.Param"))))
    ex.prove(f"{n}: holding what the initializer made" if w is not None else f"{n}: holding None", cd(ex.heap, c)[S(VAL)] == (ex.lift(vals[n]) if w is not None else NoneV))
  for n, v in fields.items():
    ex.prove(f"the field {n} holds the argument", D[S(n)] == ex.lift(v))


def linear_init(ex):
  m, ctx = new_layer(ex, LIN)
  i, o = ex.sym("in_features", "int"), ex.sym("out_features", "int")
  dt, pdt, prec = plains(ex, "dtype", "param_dtype", "precision")
  ki, bi, dg = functions(ex, "kernel_init", "bias_init", "dot_general")
  ub = bool(ex.choose(2))
  ex.prove("cover: arguments exist", z3.BoolVal(False), kind="cover")
  fi, owner = ex.func(LIN + ".__init__")
  kw = dict(use_bias=ub, dtype=dt, param_dtype=pdt, precision=prec, kernel_init=ki, bias_init=bi, dot_general=dg)
  ex.run_func(PyFunc(fi), [m, i, o], dict(kw, ctx=ctx))
  made(ex, m, ctx, {"kernel": (ki, mk(ex.lift(i), ex.lift(o)), pdt), "bias": (bi, mk(ex.lift(o)), pdt) if ub else None},
       dict(kw, in_features=i, out_features=o))


def embed_init(ex):
  m, ctx = new_layer(ex, EMB)
  i, o = ex.sym("num_embeddings", "int"), ex.sym("features", "int")
  dt, pdt = plains(ex, "dtype", "param_dtype")
  ex.assume(truthy_of(dt) if False else dt != NoneV)
  ki, = functions(ex, "embedding_init")
  ex.prove("cover: arguments exist", z3.BoolVal(False), kind="cover")
  fi, owner = ex.func(EMB + ".__init__")
  kw = dict(param_dtype=pdt, embedding_init=ki)
  ex.run_func(PyFunc(fi), [m, i, o], dict(kw, dtype=dt, ctx=ctx))
  made(ex, m, ctx, {"embedding": (ki, mk(ex.lift(i), ex.lift(o)), pdt)}, dict(kw, num_embeddings=i, features=o))


def conv_init(ex):
  m, ctx = new_layer(ex, CONV)
  i, o, g = ex.sym("in_features", "int"), ex.sym("out_features", "int"), ex.sym("feature_group_count", "int")
  ks = ex.sym("kernel_size", "tuple" if ex.choose(2) else "list")
  K = ex.named(ex.lift(ex.to_tuple(ks)))
  ex.assume(And(V.is_TV(K), ex.iterm(g) > 0))
  st, pad, idl, kdl, mf, dt, pdt, prec = plains(ex, "strides", "padding", "input_dilation", "kernel_dilation", "mask_fn", "dtype", "param_dtype", "precision")
  ki, bi, cg = functions(ex, "kernel_init", "bias_init", "conv_general_dilated")
  ub = bool(ex.choose(2))
  ex.prove("cover: arguments exist", z3.BoolVal(False), kind="cover")
  fi, owner = ex.func(CONV + ".__init__")
  kw = dict(padding=pad, input_dilation=idl, kernel_dilation=kdl, feature_group_count=g, use_bias=ub, mask_fn=mf, dtype=dt, param_dtype=pdt, precision=prec,
            kernel_init=ki, bias_init=bi, conv_general_dilated=cg)
  ex.run_func(PyFunc(fi), [m, i, o, ks, st], dict(kw, ctx=ctx))
  q = V.IV(ex.iterm(i) / ex.iterm(g))
  sh = ex.lift(ex.t_cat(ex.lower(K), (q, o)))
  made(ex, m, ctx, {"kernel": (ki, sh, pdt), "bias": (bi, mk(ex.lift(o)), pdt) if ub else None}, dict(kw, in_features=i, out_features=o, strides=st))
  k = ex.named(ex.lift(cd(ex.heap, m)[S("kernel_size")]))
  j = z3.Int("j!ci")
  ex.prove("the kernel size is kept as a tuple", And(V.is_TV(k), tlen(k) == tlen(K), forall([j], Implies(And(0 <= j, j < tlen(K)), tget(k, j) == tget(K, j)), tget(k, j))))


def conv_call(ex, kind, w_strides):
  """the layer reshapes, pads as named, convolves once with the declared options, adds the bias, restores the batch axes."""
  m = layer(ex, CONV)
  is_layer(ex, m, ("kernel", "bias"))
  ex.calls = []
  h = ex.heap
  D = cd(h, m)
  f = function(ex, m, "conv_general_dilated")
  ex.assume(cd(h, m)[S("mask_fn")] == NoneV if ex.choose(2) else And(V.is_XV(D[S("mask_fn")]), callable_(D[S("mask_fn")]), plain(ex, D[S("mask_fn")])))
  masked = not ex.entails(D[S("mask_fn")] == NoneV)
  K = D[S("kernel_size")]
  ex.assume(And(V.is_TV(K), clsof(K) == C("tuple"), plain(ex, K), age(K) <= 0))
  j = z3.Int("j!cc")
  ex.assume(forall([j], Implies(And(0 <= j, j < tlen(K)), V.is_IV(tget(K, j))), tget(K, j)))
  ex.hint(K, "tuple")
  rank = tlen(K)
  ex.assume(rank >= 1)
  opts = {}
  for n in ("strides", "input_dilation", "kernel_dilation"):
    v = D[S(n)]
    w = w_strides if n == "strides" else 2
    ex.assume(And(plain(ex, v), age(v) <= 0, (v == NoneV, V.is_IV(v), And(V.is_TV(v), clsof(v) == C("tuple")))[w]))
    if w == 2:
      ex.hint(v, "tuple")
      ex.assume(And(tlen(v) == rank, forall([j], Implies(And(0 <= j, j < tlen(v)), V.is_IV(tget(v, j))), tget(v, j))))
      opts[n] = lambda i, v=v: tget(v, i)
    else:
      if w == 1:
        ex.hint(v, "int")
      opts[n] = (lambda i: IV(1)) if w == 0 else (lambda i, v=v: v)
  g, i_f = D[S("feature_group_count")], D[S("in_features")]
  ex.assume(And(V.is_IV(g), V.is_IV(i_f), V.ival(g) > 0, V.ival(i_f) % V.ival(g) == 0))
  ex.hint(g, "int")
  ex.hint(i_f, "int")
  ub = bool(ex.choose(2))
  ex.assume(And(D[S("use_bias")] == BV(ub)))
  ex.assume((cd(h, D[S("bias")])[S(VAL)] == NoneV) == z3.BoolVal(not ub))
  k, b = attr(ex, m, "kernel"), attr(ex, m, "bias")
  dt, prec = attr(ex, m, "dtype"), attr(ex, m, "precision")
  padding = attr(ex, m, "padding")
  x = array(ex, "inputs")
  ex.assume(ndim(x) >= rank + 1, "the input has the spatial axes and the feature axis")
  pads, padded = [], []
  lax = ["CIRCULAR", "CIRCULAR", "CAUSAL"][kind]
  if kind == 0:
    lax = ex.sym("padding_lax", "str" if ex.choose(2) else "list")
    ex.assume(And(lax != S("CIRCULAR"), lax != S("CAUSAL")))

  def canon(ex, pf, args, kw):
    v = list(args) + [kw[q] for q in ("padding", "rank")[len(args):]]
    pads.append(v)
    return lax
  ex.call_hooks[L + "canonicalize_padding"] = canon
  dims = []

  def dn(ex, pf, args, kw):
    dims.append(list(args)[0])
    return ex.sym("dimension_numbers")
  ex.call_hooks[L + "_conv_dimension_numbers"] = dn

  def pad(ex, a, kw):
    r = array(ex, "padded%d" % len(padded))
    ex.assume(ndim(r) == ndim(ex.lift(a[0])))
    padded.append((list(a), dict(kw), r))
    return r
  ex.ext_handlers["jax.numpy.pad"] = pad

  def prod(ex, a, kw):
    r = F("prod", V, Int)(ex.lift(a[0]))
    ex.externals.add("numpy.prod")
    return V.IV(r)
  ex.ext_handlers["numpy.prod"] = prod
  ex.prove("cover: layers exist", z3.BoolVal(False), kind="cover")
  n0 = len(ex.writes)
  ex.reshapes = []
  one = ex.branch(ndim(x) == rank + 2)
  try:
    r = ex.call(ex.getattr_(m, "__call__"), [x], {})
  except Raised as err:
    ex.prove("only causal padding of more than one axis is refused", And(z3.BoolVal(kind == 2 and ex.exc_name(err.exc) == "ValueError"), rank != 1))
    return
  nb = ndim(x) - rank - 1
  sx = shape(x)
  cur = x
  rs = list(ex.reshapes)
  if not one:
    ex.prove("the input is reshaped first", z3.BoolVal(bool(rs) and rs[0][0].eq(x)))
    if not (rs and rs[0][0].eq(x)):
      return
    o, sh, cur = rs.pop(0)
    ex.prove("one batch axis and the others as they were", And(V.is_TV(sh), tlen(sh) == rank + 2,
             forall([j], Implies(And(1 <= j, j < rank + 2), tget(sh, j) == tget(sx, j - 1 + nb)), tget(sh, j))))
    ex.prove("of the number of elements of the batch axes", exists_prefix(ex, sh, sx, nb))
  ex.prove("the padding is canonicalized for the kernel's rank", And(z3.BoolVal(len(pads) == 1), ex.lift(pads[0][0]) == ex.lift(padding), ex.iterm(pads[0][1]) == rank))
  if kind == 0:
    ex.prove("no other padding", z3.BoolVal(not padded))
    want_pad = lax
  else:
    ex.prove("padded once", z3.BoolVal(len(padded) == 1))
    if len(padded) != 1:
      return
    a, kw, r2 = padded[0]
    ex.prove("the input is padded", ex.lift(a[0]) == cur)
    P = ex.named(ex.lift(ex.to_tuple(a[1])))
    kd = opts["kernel_dilation"]
    if kind == 1:
      ex.prove("periodically", z3.BoolVal(kw == {"mode": "wrap"}))
      ex.prove("one pair per axis, none for batch and features", And(V.is_TV(P), tlen(P) == rank + 2, tget(P, 0) == mk(IV(0), IV(0)), tget(P, rank + 1) == mk(IV(0), IV(0))))
      w = lambda q: (V.ival(tget(K, q)) - 1) * V.ival(kd(q)) + 1
      ex.prove("the dilated kernel's width less one in all", forall([j], Implies(And(1 <= j, j < rank + 1),
               And(tlen(tget(P, j)) == 2, V.ival(tget(tget(P, j), 0)) == (w(j - 1) - 1) / 2, V.ival(tget(tget(P, j), 1)) == w(j - 1) / 2)), tget(P, j)))
    else:
      ex.prove("with zeros", z3.BoolVal(not kw))
      left = V.ival(kd(z3.IntVal(0))) * (V.ival(tget(K, 0)) - 1)
      ex.prove("on the left by the dilated kernel's width less one", And(rank == 1, P == mk(mk(IV(0), IV(0)), mk(V.IV(left), IV(0)), mk(IV(0), IV(0)))))
    cur = ex.lift(r2)
    want_pad = "VALID"
  ex.prove("promoted once", z3.BoolVal(len(ex.promoted) == 1))
  args, kw, out = ex.promoted[0]
  calls = list(ex.calls)
  kk = ex.lift(k)
  if masked:
    ex.prove("the kernel is masked", And(z3.BoolVal(len(calls) == 2 and len(calls[0][1]) == 1), ex.lift(calls[0][0]) == D[S("mask_fn")], ex.lift(calls[0][1][0]) == kk))
    kk = ex.lift(calls[0][3])
    calls = calls[1:]
  ex.prove("input, kernel and bias are promoted to the layer's dtype", And(z3.BoolVal(len(args) == 3 and set(kw) == {"dtype"}),
           ex.lift(args[0]) == cur, ex.lift(args[1]) == kk, ex.lift(args[2]) == ex.lift(b), ex.lift(kw["dtype"]) == ex.lift(dt)))
  ex.prove("the layout is that of the input", And(z3.BoolVal(len(dims) == 1), ex.lift(dims[0]) == shape(cur)))
  ex.prove("one convolution", z3.BoolVal(len(calls) == 1))
  if len(calls) != 1:
    return
  fn, ga, gk, y = calls[0]
  ex.prove("by the layer's function, of the promoted input and kernel", And(z3.BoolVal(len(ga) == 4), ex.lift(fn) == f, ex.lift(ga[0]) == ex.lift(out[0]), ex.lift(ga[1]) == ex.lift(out[1])))

  def opt(n, t):
    T = ex.named(ex.lift(ex.to_tuple(t)))
    ex.prove(f"{n}: one number per spatial axis, as declared", And(V.is_TV(T), tlen(T) == rank, forall([j], Implies(And(0 <= j, j < rank), tget(T, j) == opts[n](j)), tget(T, j))))
  ex.prove("with the other options of the layer", z3.BoolVal(set(gk) == {"lhs_dilation", "rhs_dilation", "dimension_numbers", "feature_group_count", "precision"}))
  opt("strides", ga[2])
  ex.prove("with the canonical padding", ex.lift(ga[3]) == ex.lift(want_pad))
  if set(gk) == {"lhs_dilation", "rhs_dilation", "dimension_numbers", "feature_group_count", "precision"}:
    opt("input_dilation", gk["lhs_dilation"])
    opt("kernel_dilation", gk["rhs_dilation"])
    ex.prove("in the layer's groups and precision", And(ex.lift(gk["feature_group_count"]) == g, ex.lift(gk["precision"]) == ex.lift(prec)))
  y = ex.lift(y)
  if ub:
    ex.prove("the bias is laid out", z3.BoolVal(bool(rs) and rs[0][0].eq(ex.lift(out[2]))))
    if not (rs and rs[0][0].eq(ex.lift(out[2]))):
      return
    o, sh, t = rs.pop(0)
    nd = z3.If(ndim(y) - ndim(o) > 0, ndim(y) - ndim(o), 0)
    ex.prove("along the last axes", And(tlen(sh) == nd + ndim(o), forall([j], Implies(And(0 <= j, j < nd), tget(sh, j) == IV(1)), tget(sh, j)),
             forall([j], Implies(And(nd <= j, j < tlen(sh)), tget(sh, j) == tget(shape(o), j - nd)), tget(sh, j))))
    y = fin("op.add", y, t)
  ex.assume(ndim(y) >= 1, "the result of a convolution has a batch axis")
  if one:
    ex.prove("one batch axis: the convolution is the result", And(z3.BoolVal(not rs), ex.lift(r) == y))
  else:
    ex.prove("the result is reshaped", And(z3.BoolVal(len(rs) == 1), rs[-1][0] == y, ex.lift(r) == rs[-1][2]) if rs else z3.BoolVal(False))
    if len(rs) == 1:
      sh = rs[0][1]
      ex.prove("to the batch axes of the input and the others of the convolution", And(V.is_TV(sh), tlen(sh) == nb + ndim(y) - 1,
               forall([j], Implies(And(0 <= j, j < nb), tget(sh, j) == tget(sx, j)), tget(sh, j)),
               forall([j], Implies(And(nb <= j, j < tlen(sh)), tget(sh, j) == tget(shape(y), j - nb + 1)), tget(sh, j))))
  ex.prove("nothing is written", z3.BoolVal(all(w[0] == "L" or w[1] is not None for w in ex.writes[n0:])), kind="frame")
  for w in ex.writes[n0:]:
    ex.prove("nothing that existed is written", w[1] >= h.alloc if w[0] != "havoc" else z3.BoolVal(False), kind="frame")


def exists_prefix(ex, sh, sx, nb):
  """the first number of sh is the product of the first nb of sx."""
  p = tslice(sx, z3.IntVal(0), nb)
  return tget(sh, 0) == V.IV(F("prod", V, Int)(p))


SPECS = [CanonPadding(), Lemma(L + "_conv_dimension_numbers", dimension_numbers, config=cfg, props=("C20",)),
         Lemma(LIN + ".__call__", linear_call, config=cfg, props=("C20",)),
         Lemma(EMB + ".__call__", embed_call, config=cfg, props=("C20",)),
         Lemma(EMB + ".attend", embed_attend, config=cfg, props=("C20",)),
         Lemma(LIN + ".__init__", linear_init, config=cfg, props=("C20",)),
         Lemma(EMB + ".__init__", embed_init, config=cfg, props=("C20",)),
         Lemma(CONV + ".__init__", conv_init, config=cfg, props=("C20",))]
for _k, _kn in enumerate(("padding by lax", "circular padding", "causal padding")):
  for _w, _wn in enumerate(("no strides", "one stride", "strides per axis")):
    SPECS.append(Lemma(f"{CONV}.__call__ ({_kn}, {_wn})", lambda ex, k=_k, w=_w: conv_call(ex, k, w), config=cfg, props=("C20",)))
REGISTRY = list(_n.REGISTRY) + SPECS
AXIOMS = list
