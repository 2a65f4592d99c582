"""C19: mode selection and running statistics of batch normalization, layer normalization and dropout.

Array operations of JAX are external functions; elem(x, i) is the element of
an array at an index, and the element laws below are all that is assumed of
them.
"""
from pyded.spec import *
from pyded.loops import LoopSpec
from .containers import cd, isc, plain, wf_container, VAL, CONT
from .tracers import wf_module, valid, module_trace_state, MODULE, MST, trace_context, wf_stack, TC, stack
from .contexts import ctx_config, wf_context, rngs_of, flags_of, CTX, KEY, CNT, key_at, position
from . import contexts as _c

USES = ("contexts",)
N = "nnx.nn.normalization."
BN, LN, DO = N + "BatchNorm", N + "LayerNorm", "nnx.nn.stochastic.Dropout"
elem = F("elem", V, V, V)
ndim = F("ndim", V, Int)
shape = F("shape", V, V)
norm = lambda n, ax: If(ax < 0, n + ax, ax)


def fin(f, *a):
  return F(f, *([V] * len(a)), V)(*a)


add = lambda x, y: fin("op.add", x, y)
sub = lambda x, y: fin("op.sub", x, y)
mul = lambda x, y: fin("op.mul", x, y)
div = lambda x, y: fin("op.div", x, y)


pmean = lambda v, n, g: fin("jax.lax.pmean", v, n, g)
mean_ = lambda v, ax: fin("jax.numpy.mean", v, ax)


def axioms():
  x, y, i = z3.Consts("x!nn y!nn i!nn", V)
  out = [forall([x, y], f(x, y) == f(y, x), f(x, y)) for f in (add, mul, lambda x, y: fin("jax.numpy.maximum", x, y))]
  a, b = z3.Consts("a!nn b!nn", V)
  for j, c in ((0, a), (1, b)):
    t = fin(f"half{j}", pmean(fin("concat", a, b), x, y))
    out.append(forall([a, b, x, y], t == pmean(c, x, y), t))
  out.append(forall([x, y, i], elem(div(x, y), i) == div(elem(x, i), y), elem(div(x, y), i)))
  return out


def nn_config(ex):
  ctx_config(ex)
  ex.KLASS_CANDIDATES = ["str", "tuple", "dict", "int"]
  ex.opaque_methods = set(ex.opaque_methods) | {"reshape", "astype"}

  def nd(ex, t):
    r = ndim(t)
    ex.assume(r >= 0)
    return r

  def sh(ex, t):
    r = shape(t)
    j = z3.Int("j!sh")
    ex.assume(And(V.is_TV(r), clsof(r) == C("tuple"), tlen(r) == ndim(t), ndim(t) >= 0, age(r) <= 0,
                  forall([j], Implies(And(0 <= j, j < tlen(r)), V.is_IV(tget(r, j))), tget(r, j))))
    ex.hint(r, "tuple")
    return r
  ex.opaque_attrs["ndim"] = nd
  ex.opaque_attrs["shape"] = sh

  def arr(r, what="array functions give arrays"):
    ex.assume(And(V.is_XV(r), age(r) <= 0, plain(ex, r)), what)
    return ex.opaque(r)

  def call(name, a, k):
    r = ex.opaque_call_named(name, a, k)
    return arr(r) if isV(r) else r

  def where(name, m, x, y):
    r = fin("select", *[ex.lift(t) for t in (m, x, y)])
    i = z3.Const("i!wh", V)
    ex.externals.add(name)
    ex.assume(forall([i], elem(r, i) == If(elem(r_mask(m), i) != Abs, elem(ex.lift(x), i), elem(ex.lift(y), i)), elem(r, i)))
    return arr(r)

  def r_mask(m):
    return fin("kept", ex.lift(m))

  def zeros_like(ex, a, k):
    r = fin("zeros_like", ex.lift(a[0]))
    i = z3.Const("i!zl", V)
    ex.externals.add("jax.numpy.zeros_like")
    ex.assume(forall([i], elem(r, i) == ZERO, elem(r, i)))
    return arr(r)
  ex.ext_handlers["jax.numpy.zeros_like"] = zeros_like
  ex.ext_handlers["jax.lax.select"] = lambda ex, a, k: where("jax.lax.select", *a)
  ex.ext_handlers["jax.numpy.where"] = lambda ex, a, k: where("jax.numpy.where", *a)
  for n in ("jax.numpy.asarray", "jax.lax.rsqrt", "jax.numpy.broadcast_to", "jax.random.bernoulli", "jax.numpy.zeros", "jax.numpy.ones",
            "jax.lax.real", "jax.lax.imag"):
    ex.ext_handlers[n] = lambda ex, a, k, n=n: call(n, a, k)

  def known(n, *names):
    """an array function of named parameters: the same term however they are passed."""
    def h(ex, a, k):
      v = dict(zip(names, a))
      v.update(k)
      ex.externals.add(n)
      if not set(v) <= set(names) or len(a) > len(names):
        raise Unsupported("arguments of " + n)
      return arr(fin(n, *[ex.val_of(v[m]) if m in v else NoneV for m in names]))
    ex.ext_handlers[n] = h
  known("jax.numpy.mean", "a", "axis")
  known("jax.lax.pmean", "x", "axis_name", "axis_index_groups")
  for n in ("jax.numpy.maximum",):
    known(n, "x", "y")
  for n in ("jax.lax.square", "jax.numpy.square"):
    ex.ext_handlers[n] = lambda ex, a, k: ex.opaque_op("op.mul", [a[0], a[0]])

  def concat(ex, a, k):
    T = ex.to_tuple(a[0])
    if not isinstance(T, tuple) or len(T) != 2 or k or len(a) > 1:
      raise Unsupported("arguments of concatenate")
    return arr(fin("concat", *[ex.lift(t) for t in T]))
  ex.ext_handlers["jax.numpy.concatenate"] = concat

  def split(ex, a, k):
    if k or len(a) != 2 or a[1] != 2:
      raise Unsupported("arguments of split")
    return tuple(arr(fin(f"half{j}", ex.lift(a[0]))) for j in (0, 1))
  ex.ext_handlers["jax.numpy.split"] = split
  ex.reshapes = []

  def reshape(ex, a, k):
    sh = ex.named(ex.lift(ex.to_tuple(a[1])))
    r = arr(fin("reshape", ex.lift(a[0]), sh))
    ex.reshapes.append((ex.lift(a[0]), sh, r))
    return r
  ex.ext_handlers[".reshape"] = reshape
  old = type(ex).opaque_op

  def op(name, args):
    r = old(ex, name, args)
    return arr(r, "arithmetic of arrays gives arrays") if name in ("op.add", "op.sub", "op.mul", "op.div") else r
  ex.opaque_op = op


ZERO = z3.Const("array zero", V)


def none(v):
  return v == NoneV


def first(*xs):
  r = NoneV
  for x in reversed(xs):
    r = If(none(x), r, x)
  return r


class FirstFrom(Contract):
  props = ("C19",)
  target = "nnx.module.first_from"
  params = ("*args",)
  pure = True
  config = lambda self, ex: nn_config(ex)

  def setup(self, ex, a):
    a.args = ex.sym("args", "tuple")

  def requires(self, ex, a):
    if isinstance(a.args, tuple):
      return []
    T = ex.lift(a.args)
    i = z3.Int("i!fq")
    return [("values", And(tlen(T) >= 0, forall([i], Implies(And(0 <= i, i < tlen(T)), tget(T, i) != Abs), tget(T, i))))]

  def raises(self, ex, a):
    if isinstance(a.args, tuple):
      return [("ValueError", And(*[none(ex.lift(x)) for x in a.args]))]
    T = ex.lift(a.args)
    i = z3.Int("i!fr")
    return [("ValueError", forall([i], Implies(And(0 <= i, i < tlen(T)), none(tget(T, i))), tget(T, i)))]

  def result(self, ex, a, h0):
    if isinstance(a.args, tuple):
      return ex.named(first(*[ex.lift(x) for x in a.args]))
    return ex.fresh("first")

  def loops(self, ex):
    def inv(L):
      T = ex.lift(ex.spec_args.args)
      j = z3.Int("j!fl")
      return [("none so far", forall([j], Implies(And(0 <= j, j < L.i), none(tget(T, j))), tget(T, j)))]
    return [LoopSpec(inv)]

  def ensures(self, ex, a, h0, r):
    r = ex.lift(r)
    if isinstance(a.args, tuple):
      return [("the first that is not None", r == first(*[ex.lift(x) for x in a.args])), ("not None", Not(none(r)))]
    T = ex.lift(a.args)
    i, j = z3.Ints("i!fe j!fe")
    return [("one of the arguments, not None, and every earlier one is None",
             exists([i], And(0 <= i, i < tlen(T), r == tget(T, i), Not(none(r)), forall([j], Implies(And(0 <= j, j < i), none(tget(T, j))), tget(T, j))), tget(T, i)))]


def flag_of(ex, h, ctx, name):
  v = flags_of(h, ctx)[S(name)]
  return If(none(ctx), NoneV, If(v == Abs, NoneV, v))


def layer(ex, a, cls):
  trace_context(ex)
  a.self = ex.sym("self", cls)
  a.ctx = ex.sym("ctx")
  ex.branch(a.ctx == NoneV)
  ex.assume(Or(a.ctx == NoneV, And(V.is_RV(a.ctx), clsof(a.ctx) == ex.ccode(ex.cls(CTX)))))
  if not ex.entails(a.ctx == NoneV):
    ex.hint(a.ctx, "nnx:" + CTX)


def ctx_ok(ex, c):
  return Or(none(c), wf_context(ex, ex.heap, c))


class DropoutCall(Contract):
  props = ("C19",)
  target = DO + ".__call__"
  params = ("self", "inputs", "deterministic", "ctx")
  callable = False

  def config(self, ex):
    nn_config(ex)
    ex.field_inv[(DO, "rate")] = lambda ex, obj, val: ex.opaque(val)
    ex.field_inv[(DO, "rng_collection")] = lambda ex, obj, val: ex.hint(val, "str")
    ex.field_inv[(DO, "broadcast_dims")] = lambda ex, obj, val: ex.hint(val, "tuple")

    def bern(ex, a, k):
      r = ex.opaque_call_named("jax.random.bernoulli", a, k)
      ex.assume(V.is_XV(r))
      ex.draws.append((a, k, r))
      return ex.opaque(r)
    ex.ext_handlers["jax.random.bernoulli"] = bern

  def setup(self, ex, a):
    layer(ex, a, DO)
    a.inputs = ex.sym("inputs")
    ex.assume(V.is_XV(a.inputs))
    ex.opaque(a.inputs)
    a.deterministic = ex.sym("det")
    ex.assume(plain(ex, a.deterministic))
    D = cd(ex.heap, a.self)
    self.active = None
    ex.draws = []

  def requires(self, ex, a):
    h = ex.heap
    s = ex.lift(a.self)
    D = cd(h, s)
    j = z3.Int("j!dr")
    bd = D[S("broadcast_dims")]
    x = ex.lift(a.inputs)
    return [("a dropout layer", And(wf_module(ex, h, s), V.is_XV(D[S("rate")]), plain(ex, D[S("deterministic")]), V.is_SV(D[S("rng_collection")]),
                                    V.is_TV(bd), clsof(bd) == C("tuple"))),
            ("broadcast dimensions name axes", forall([j], Implies(And(0 <= j, j < tlen(bd)), And(V.is_IV(tget(bd, j)), 0 <= norm(ndim(x), V.ival(tget(bd, j))), V.ival(tget(bd, j)) < ndim(x))), tget(bd, j))),
            ("a context or none", ctx_ok(ex, ex.lift(a.ctx)))]

  def mode(self, ex, a, h):
    return first(ex.lift(a.deterministic), cd(h, ex.lift(a.self))[S("deterministic")], flag_of(ex, h, ex.lift(a.ctx), "deterministic"))

  def rate(self, ex, a, h, c):
    return ex.as_bool(ex.py_eq(cd(h, ex.lift(a.self))[S("rate")], c))

  def cases(self, ex, a, h):
    m = self.mode(ex, a, h)
    off = Or(self.rate(ex, a, h, 0.0), ex.as_bool(ex.truth(ex.named(m))))
    return off, And(Not(off), self.rate(ex, a, h, 1.0)), And(Not(off), Not(self.rate(ex, a, h, 1.0)))

  def stream(self, ex, a, h):
    return rngs_of(h, ex.lift(a.ctx))[cd(h, ex.lift(a.self))[S("rng_collection")]]

  def raises(self, ex, a):
    h = ex.heap
    off, zero, drop = self.cases(ex, a, h)
    c = ex.lift(a.ctx)
    return [("ValueError", none(self.mode(ex, a, h))),
            ("ValueError", And(drop, none(c))),
            ("ValueError", And(drop, self.stream(ex, a, h) == Abs)),
            ("TraceContextError", And(drop, Not(valid(h, cd(h, c)[S("_trace_state")]))))]

  def modifies(self, ex, a, h0, i):
    if not hasattr(a, "_drop"):
      a._drop = self.cases(ex, a, h0)[2]
    return And(a._drop, Not(none(ex.lift(a.ctx))), i == V.rval(self.stream(ex, a, h0)))

  def loops(self, ex):
    def inv(L):
      a = ex.spec_args
      bs = [n for n, v in L.env1.items() if isV(v) and ex.klass(v) == "list"]
      return [("as many axes", And(*[tlen(ex.heap.L(ex.did(L.env1[n]))) == ndim(ex.lift(a.inputs)) for n in bs]))]
    return [LoopSpec(inv, modifies=lambda L, x: x >= ex.h0.alloc)]

  def ensures(self, ex, a, h0, r):
    off, zero, drop = self.cases(ex, a, h0)
    x, r = ex.lift(a.inputs), ex.lift(r)
    i = z3.Const("i!de", V)
    rate = cd(h0, ex.lift(a.self))[S("rate")]
    keep = sub(FLT(ex, 1.0), rate)
    s = self.stream(ex, a, h0)
    out = [("unchanged when deterministic or at rate zero", Implies(off, r == x)),
           ("zeros at rate one", Implies(zero, forall([i], elem(r, i) == ZERO, elem(r, i)))),
           ("otherwise zero or divided by the keep probability", Implies(drop, forall([i], Or(elem(r, i) == ZERO, elem(r, i) == div(elem(x, i), keep)), elem(r, i)))),
           ("a mask is drawn only then, once", Implies(Not(drop), z3.BoolVal(not ex.draws)))]
    if ex.draws:
      (args, kw, m) = ex.draws[0]
      key = ex.lift(args[0] if args else kw.get("key"))
      p = ex.lift(kw["p"] if "p" in kw else args[1])
      out += [("once", z3.BoolVal(len(ex.draws) == 1)),
              ("from the key of the layer's stream at its position", key == key_at(h0.D(V.rval(s))[KEY], position(ex, h0, s))),
              ("with the keep probability", p == keep)]
    out.append(("exactly one key is drawn", Implies(drop, ex.heap.D(V.rval(s))[CNT] == IV(V.ival(h0.D(V.rval(s))[CNT]) + 1))))
    return out


def FLT(ex, v):
  return ex.lift(v)


def axes_of(ex, v):
  """the axes argument as a tuple of integers."""
  return v


class CanonAxes(Contract):
  """an axis or several as nonnegative axes."""
  props = ("C19",)
  target = N + "_canonicalize_axes"
  params = ("rank", "axes")
  pure = True
  allocates = True
  config = lambda self, ex: nn_config(ex)

  def setup(self, ex, a):
    a.rank = z3.Int("rank")
    one = ex.choose(2) == 0
    a.axes = z3.Int("axis") if one else ex.sym("axes", "tuple")

  def ints(self, ex, a):
    t = a.axes
    if isinstance(t, int) or has_sort(t, Int):
      return (t,)
    if isinstance(t, tuple):
      return t
    return (t,) if ex.klass(t) == "int" else None

  def requires(self, ex, a):
    if self.ints(ex, a) is not None:
      return []
    T = ex.lift(a.axes)
    i = z3.Int("i!ca")
    return [("integers", And(V.is_TV(T), tlen(T) >= 0, forall([i], Implies(And(0 <= i, i < tlen(T)), V.is_IV(tget(T, i))), tget(T, i))))]

  def result(self, ex, a, h0):
    c = self.ints(ex, a)
    if c is not None and len(c) == 1:
      return (z3.simplify(norm(ex.iterm(a.rank), ex.iterm(c[0]))),)
    r = ex.fresh("axes")
    ex.hint(r, "tuple")
    return r

  def ensures(self, ex, a, h0, r):
    n = ex.iterm(a.rank)
    c = self.ints(ex, a)
    R = ex.named(ex.lift(ex.to_tuple(r)))
    i, j = z3.Ints("i!ce j!ce")
    if c is not None and len(c) == 1:
      return [("the axis, counted from the front", And(tlen(R) == 1, tget(R, 0) == IV(norm(n, ex.iterm(c[0])))))]
    T = ex.lift(ex.to_tuple(a.axes))
    at = lambda j: IV(norm(n, V.ival(tget(T, j))))
    return [("a tuple", And(V.is_TV(R), clsof(R) == C("tuple"), tlen(R) >= 0)),
            ("every axis is one of the given ones, counted from the front", forall([i], Implies(And(0 <= i, i < tlen(R)), exists([j], And(0 <= j, j < tlen(T), tget(R, i) == at(j)), tget(T, j))), tget(R, i))),
            ("every given axis", forall([j], Implies(And(0 <= j, j < tlen(T)), exists([i], And(0 <= i, i < tlen(R), tget(R, i) == at(j)), tget(R, i))), tget(T, j))),
            ("no axis twice", forall([i, j], Implies(And(0 <= i, i < j, j < tlen(R)), tget(R, i) != tget(R, j)), [tget(R, i), tget(R, j)]))]


abs2 = F("abs_sq", V, V)


class AbsSq(Contract):
  props = ("C19",)
  target = N + "_abs_sq"
  params = ("x",)
  pure = True
  config = lambda self, ex: nn_config(ex)

  def setup(self, ex, a):
    a.x = array(ex, "x")

  def result(self, ex, a, h0):
    r = abs2(ex.lift(a.x))
    ex.assume(And(V.is_XV(r), plain(ex, r), age(r) <= 0))
    return ex.opaque(r)

  def ensures(self, ex, a, h0, r):
    x = ex.lift(a.x)
    if not hasattr(ex.spec_args, "x") or ex.spec_args is not a:
      return []
    c = ex.as_bool(ex.truth(F("ext:jax.numpy.iscomplexobj(1)", V, V)(x)))
    re, im = [F(f"ext:jax.lax.{n}(1)", V, V)(x) for n in ("real", "imag")]
    return [("the square of the absolute value", ex.lift(r) == If(c, add(mul(re, re), mul(im, im)), mul(x, x)))]


def array(ex, n):
  t = ex.sym(n)
  ex.assume(And(V.is_XV(t), plain(ex, t)))
  return ex.opaque(t)


def stats(ex, x, axes, dtype, name, groups):
  f32 = ex.lift(ex.ext_value("jax.numpy.float32")) if hasattr(ex, "ext_value") else None
  dt = fin("promoted dtype", If(none(dtype), fin("dtype of", x), dtype))
  y = F("ext:jax.numpy.asarray(2)", V, V, V)(x, dt)
  m, m2 = mean_(y, axes), mean_(abs2(y), axes)
  par = lambda v: If(none(name), v, pmean(v, name, groups))
  m, m2 = par(m), par(m2)
  return m, fin("jax.numpy.maximum", ex.lift(0.0), sub(m2, abs2(m)))


class ComputeStats(Contract):
  """mean and variance over the axes, averaged over the device axis if one is named."""
  props = ("C19",)
  target = N + "_compute_stats"
  params = ("x", "axes", "dtype", "axis_name", "axis_index_groups", "use_mean")
  pure = True

  def config(self, ex):
    nn_config(ex)
    ex.ext_handlers["jax.numpy.result_type"] = lambda ex, a, k: fin("dtype of", ex.lift(a[0]))

    def promote(ex, a, k):
      ex.externals.add("jax.numpy.promote_types")
      ex.promoted = a[1]
      return fin("promoted dtype", ex.lift(a[0]))
    ex.ext_handlers["jax.numpy.promote_types"] = promote

  def setup(self, ex, a):
    a.x = array(ex, "x")
    a.axes = ex.sym("axes", "tuple")
    a.dtype = ex.sym("dtype")
    a.axis_name = ex.sym("axis_name")
    a.axis_index_groups = ex.sym("groups")
    a.use_mean = True
    ex.promoted = None

  def result(self, ex, a, h0):
    out = []
    for v in stats(ex, *[ex.val_of(t) for t in (a.x, a.axes, a.dtype, a.axis_name, a.axis_index_groups)]):
      v = ex.named(v)
      ex.assume(And(V.is_XV(v), plain(ex, v), age(v) <= 0))
      out.append(ex.opaque(v))
    return tuple(out)

  def requires(self, ex, a):
    return [("the mean is used", z3.BoolVal(a.use_mean is True))]

  def ensures(self, ex, a, h0, r):
    m, v = stats(ex, *[ex.val_of(t) for t in (a.x, a.axes, a.dtype, a.axis_name, a.axis_index_groups)])
    out = [("the mean over the axes", ex.lift(ex.t_get(r, 0)) == m), ("and the variance", ex.lift(ex.t_get(r, 1)) == v)]
    if ex.spec_args is a:
      out.append(("in at least single precision", z3.BoolVal("float32" in str(ex.promoted))))
    return out


class BatchNormCall(Contract):
  props = ("C19",)
  target = BN + ".__call__"
  params = ("self", "x", "use_running_average", "ctx")
  callable = False
  STATS = ("mean", "var")

  def config(self, ex):
    nn_config(ex)
    for n in ("mean", "var", "scale", "bias"):
      ex.field_inv[(BN, n)] = lambda ex, obj, val: ex.hint(val, "nnx:" + CONT)
    ex.field_inv[(BN, "axis")] = lambda ex, obj, val: ex.hint(val, "int")
    ex.field_inv[(BN, "momentum")] = lambda ex, obj, val: ex.opaque(val)

  def setup(self, ex, a):
    layer(ex, a, BN)
    a.x = array(ex, "x")
    a.use_running_average = ex.sym("running")

  def requires(self, ex, a):
    h = ex.heap
    s = ex.lift(a.self)
    D = cd(h, s)
    var = lambda v: And(v != Abs, isc(ex, v, "nnx.containers.Variable"), wf_container(ex, v), cd(h, v)[S("unbox_fn")] == Abs)
    return [("a batch normalization layer", And(wf_module(ex, h, s), *[var(D[S(n)]) for n in ("mean", "var", "scale", "bias")])),
            ("with arrays for statistics", And(*[V.is_XV(cd(h, D[S(n)])[S(VAL)]) for n in self.STATS])),
            ("settings", And(V.is_XV(D[S("momentum")]), V.is_IV(D[S("axis")]), *[And(D[S(n)] != Abs, Not(isc(ex, D[S(n)], CONT))) for n in ("use_running_average", "dtype", "epsilon", "axis_name", "axis_index_groups", "axis", "momentum")])),
            ("the axis exists", And(0 <= norm(ndim(ex.lift(a.x)), V.ival(D[S("axis")])), V.ival(D[S("axis")]) < ndim(ex.lift(a.x)))),
            ("a context or none", ctx_ok(ex, ex.lift(a.ctx)))]

  def mode(self, ex, a, h):
    return first(ex.lift(a.use_running_average), cd(h, ex.lift(a.self))[S("use_running_average")], flag_of(ex, h, ex.lift(a.ctx), "use_running_average"))

  def running(self, ex, a, h):
    if not hasattr(a, "_run"):
      a._run = ex.as_bool(ex.truth(ex.named(self.mode(ex, a, h))))
    return a._run

  def raises(self, ex, a):
    h = ex.heap
    return [("ValueError", none(self.mode(ex, a, h))),
            ("TraceContextError", And(Not(self.running(ex, a, h)), Not(valid(h, module_trace_state(h, ex.lift(a.self))))))]

  def modifies(self, ex, a, h0, i):
    return And(Not(self.running(ex, a, h0)), i == V.rval(ex.lift(a.self)))

  def ensures(self, ex, a, h0, r):
    s, x = ex.lift(a.self), ex.lift(a.x)
    run = self.running(ex, a, h0)
    D0, D = cd(h0, s), ex.named(cd(ex.heap, s))
    val = lambda n: cd(h0, D0[S(n)])[S(VAL)]
    k = z3.Const("k!bn", V)
    call = ex.last_call.get(N + "_normalize")
    if call is None:
      return [("the input is normalized", z3.BoolVal(False))]
    red = ex.named(ex.lift(ex.to_tuple(call.reduction_axes)))
    ft = ex.named(ex.lift(ex.to_tuple(call.feature_axes)))
    if red.decl().name() in ex.filtered:
      ex.assume(ex.filtered[red.decl().name()](IV))
    m, v = stats(ex, x, red, *[D0[S(n)] for n in ("dtype", "axis_name", "axis_index_groups")])
    mom = D0[S("momentum")]
    upd = lambda n, b: add(mul(mom, val(n)), mul(sub(IV(1), mom), b))
    i, j = z3.Ints("i!bn j!bn")
    ax = norm(ndim(x), V.ival(D0[S("axis")]))
    out = [("the axes reduced are axes of the input, without the feature axis", forall([i], Implies(And(0 <= i, i < tlen(red)), And(V.is_IV(tget(red, i)), 0 <= V.ival(tget(red, i)), V.ival(tget(red, i)) < ndim(x), V.ival(tget(red, i)) != ax)), tget(red, i))),
           ("and all of them", forall([j], Implies(And(0 <= j, j < ndim(x), j != ax), exists([i], And(0 <= i, i < tlen(red), tget(red, i) == IV(j)), tget(red, i))), IV(j))),
           ("the feature axis", And(tlen(ft) == 1, tget(ft, 0) == IV(ax))),
           ("nothing but the statistics changes", forall([k], Implies(And(k != S("mean"), k != S("var")), D[k] == D0[k]), D[k])),
           ("in running average mode they stay, and normalize", Implies(run, And(D[S("mean")] == D0[S("mean")], D[S("var")] == D0[S("var")], ex.lift(r) == self.out(ex, a, h0, val("mean"), val("var"), red, ft)))),
           ("otherwise the batch statistics normalize", Implies(Not(run), ex.lift(r) == self.out(ex, a, h0, m, v, red, ft)))]
    for n, b in (("mean", m), ("var", v)):
      c = D[S(n)]
      out += [(f"the running {n} is replaced by the weighted average", Implies(Not(run), cd(ex.heap, c)[S(VAL)] == upd(n, b))),
              (f"in a variable of the same kind", Implies(Not(run), And(V.is_RV(c), clsof(c) == clsof(D0[S(n)]), forall([k], Implies(k != S(VAL), cd(ex.heap, c)[k] == cd(h0, D0[S(n)])[k]), cd(ex.heap, c)[k]))))]
    return out

  def out(self, ex, a, h0, m, v, red, ft):
    D0 = cd(h0, ex.lift(a.self))
    val = lambda n: cd(h0, D0[S(n)])[S(VAL)]
    return fin("normalized", ex.lift(a.x), m, v, val("scale"), val("bias"), red, ft, D0[S("dtype")], D0[S("epsilon")])


class Normalize(Contract):
  """(x - mean) / sqrt(var + epsilon), scaled and shifted along the feature axes."""
  props = ("C19",)
  target = N + "_normalize"
  params = ("x", "mean", "var", "scale", "bias", "reduction_axes", "feature_axes", "dtype", "epsilon")
  pure = True

  def config(self, ex):
    nn_config(ex)

    def dt(ex, pf, args, kw):
      ex.canon = (list(args), dict(kw))
      r = ex.fresh("dtype")
      ex.assume(And(V.is_XV(r), plain(ex, r), age(r) <= 0))
      ex.opaque(r)
      ex.canon_r = r
      return r
    ex.call_hooks["nnx.nn.dtypes.canonicalize_dtype"] = dt

  def setup(self, ex, a):
    for n in ("x", "mean", "var"):
      setattr(a, n, array(ex, n))
    for n in ("scale", "bias"):
      setattr(a, n, array(ex, n) if ex.choose(2) == 0 else None)
    a.reduction_axes = ex.sym("red", "tuple")
    a.feature_axes = ex.sym("feat", "tuple")
    a.dtype = ex.sym("dtype")
    a.epsilon = array(ex, "epsilon")
    ex.reshapes, ex.canon = [], None

  def axes(self, ex, a):
    return [ex.named(ex.lift(ex.to_tuple(t))) for t in (a.reduction_axes, a.feature_axes)]

  def requires(self, ex, a):
    n = ndim(ex.lift(a.x))
    i = z3.Int("i!nq")
    ok = lambda T: And(V.is_TV(T), tlen(T) >= 0, forall([i], Implies(And(0 <= i, i < tlen(T)), And(V.is_IV(tget(T, i)), 0 <= norm(n, V.ival(tget(T, i))), V.ival(tget(T, i)) < n)), tget(T, i)))
    return [("the axes exist", And(*[ok(T) for T in self.axes(ex, a)]))]

  def result(self, ex, a, h0):
    r = fin("normalized", *[ex.val_of(getattr(a, p)) for p in self.params])
    ex.assume(And(V.is_XV(r), age(r) <= 0))
    return ex.opaque(r)

  def loops(self, ex):
    def inv(L):
      x = ex.lift(ex.spec_args.x)
      n = ndim(x)
      out = []
      j, q = z3.Ints("j!nl q!nl")
      for nm, v in L.env0.items():
        if not isV(v) or v.decl().name() != "RV" or ex.klass(v) != "list":   # lists made here
          continue
        T0, T = ex.named(L.h0.L(ex.did(v))), ex.named(ex.heap.L(ex.did(v)))
        if not ex.entails(tlen(T0) == n):
          out.append(("other lists are lists", And(V.is_TV(T), tlen(T) >= 0)))
          continue
        at = lambda q: ex.iterm(L.elem(q))
        done = lambda j: exists([q], And(0 <= q, q < L.i, ex.lift(L.elem(q)) == IV(j)), ex.lift(L.elem(q)))
        mine = ex.entails(T0 == shape(x))
        c = z3.Int("c!nl")
        if not mine and not ex.entails(Implies(And(0 <= c, c < n), tget(T0, c) == IV(1))):
          out.append(("unchanged", T == T0))
          continue
        new = (lambda j: IV(1)) if mine else (lambda j: tget(shape(x), j))
        out += [("a tuple", And(V.is_TV(T), tlen(T) == n)),
                ("axes done", forall([q], Implies(And(0 <= q, q < L.i), tget(T, at(q)) == new(at(q))), ex.lift(L.elem(q)))),
                ("others not", forall([j], Implies(And(0 <= j, j < n, Not(done(j))), tget(T, j) == tget(T0, j)), tget(T, j)))]
      return out
    return [LoopSpec(inv, modifies=lambda L, x: x >= ex.h0.alloc)] * 2

  def ensures(self, ex, a, h0, r):
    if ex.spec_args is not a:
      return []
    x = ex.lift(a.x)
    n = ndim(x)
    red, feat = self.axes(ex, a)
    j, q = z3.Ints("j!nz q!nz")
    found = {}
    for o, sh, t in ex.reshapes:
      for p in ("mean", "var", "scale", "bias"):
        v = getattr(a, p)
        if v is not None and o.eq(ex.lift(v)):
          found.setdefault(p, []).append((sh, t))
    names = [p for p in ("mean", "var", "scale", "bias") if getattr(a, p) is not None]
    out = [("each array is laid out once", z3.BoolVal(all(len(found.get(p, ())) == 1 for p in names)))]
    if not z3.is_true(out[0][1]):
      return out
    got = {p: found[p][0][1] for p in names}
    for p in names:
      sh = found[p][0][0]
      T, ax = (red, True) if p in ("mean", "var") else (feat, False)
      isax = lambda j: exists([q], And(0 <= q, q < tlen(T), IV(norm(n, V.ival(tget(T, q)))) == IV(j)), tget(T, q))
      one, full = (lambda j: IV(1)), (lambda j: tget(shape(x), j))
      a1, a2 = (one, full) if ax else (full, one)
      out += [(f"{p}: one entry per axis", tlen(sh) == n),
              (f"{p}: the listed axes", forall([q], Implies(And(0 <= q, q < tlen(T)), tget(sh, norm(n, V.ival(tget(T, q)))) == a1(norm(n, V.ival(tget(T, q))))), tget(T, q))),
              (f"{p}: the others", forall([j], Implies(And(0 <= j, j < n, Not(isax(j))), tget(sh, j) == a2(j)), tget(sh, j)))]
    m = F("ext:jax.lax.rsqrt(1)", V, V)(add(got["var"], ex.lift(a.epsilon)))
    if a.scale is not None:
      m = mul(m, got["scale"])
    y = mul(sub(x, got["mean"]), m)
    if a.bias is not None:
      y = add(y, got["bias"])
    ok = ex.canon is not None and set(ex.canon[1]) == {"dtype"} and not any(isinstance(t, Star) for t in ex.canon[0])
    out.append(("the type is made from the arguments and the one asked for", And(z3.BoolVal(ok), ex.lift(ex.canon[1]["dtype"]) == ex.lift(a.dtype)) if ok else z3.BoolVal(False)))
    if ok:
      out.append(("normalized, scaled and shifted", ex.lift(r) == F("ext:jax.numpy.asarray(2)", V, V, V)(y, ex.canon_r)))
    return out


SPECS = [FirstFrom(), DropoutCall(), CanonAxes(), AbsSq(), ComputeStats(), BatchNormCall(), Normalize()]
REGISTRY = _c.REGISTRY + SPECS
AXIOMS = axioms
