from lib import *
from nnx import spmd


class Cell(nnx.Module):
  """w (mapped), s (second mapped kind), b (broadcast), n (carry)."""

  def __init__(self, L=None, ax=0, ax2=0, carry=True, *, ctx=None, sh=None):
    def m(a, ax):
      return np.moveaxis(a, 0, ax) if L is not None else a[0]
    l = 1 if L is None else L
    r = np.arange(l * 6, dtype=np.float32).reshape(l, 2, 3)
    self.w = nnx.Param(jnp.asarray(m(r, ax)), **({"sharding": sh} if sh else {}))
    self.s = nnx.BatchStat(jnp.asarray(m(r[:, :, 0] + 5, ax2)))
    self.b = nnx.Variable(jnp.asarray(3.0))
    self.n = nnx.Cache(jnp.asarray(1.0))
    self.k = 2


def program(rng, newcarry, draws):
  ops = [rng.randrange(6) for _ in range(rng.randrange(1, 5))]
  two = rng.random() < 0.5

  def f(m, carry, x, *bargs, ctx=None, **bkw):
    out = carry * m.k + jnp.sum(m.w) + m.b * m.n
    xs = x["u"] if isinstance(x, dict) else x
    for o in ops:
      if o == 0:
        m.w = m.w + out
      elif o == 1:
        m.n = m.n * 2 + 1
      elif o == 2:
        m.s = m.s * 2 - jnp.sum(xs)
      elif o == 3:
        out = out - jnp.sum(xs) * m.n
      elif o == 4 and bargs:
        out = out + bargs[0]
      elif o == 5 and bkw:
        out = out + bkw["z"]
    if newcarry:
      m.fresh = nnx.Cache((m.fresh + 1) if hasattr(m, "fresh") else m.n * 0 + 5.0) if not hasattr(m, "fresh") else m.fresh + 1
      out = out + m.fresh
    if ctx is not None and draws:
      out = out + jax.random.randint(ctx.make_rng("a"), (), 0, 9)
      m.s = m.s + jax.random.randint(ctx.make_rng("b"), (), 0, 9)
    out = out % 101
    m.w = m.w % 17
    m.s = m.s % 19
    m.n = m.n % 23
    y = {"y": jnp.stack([out, out * 2]), "z": (xs * 0 + out)}
    return out, (y if not two else (y["y"], y["z"]))
  f.__name__ = "stepfn"
  return f


def close(a, b):
  la, ta = jax.tree_util.tree_flatten(a)
  lb, tb = jax.tree_util.tree_flatten(b)
  return ta == tb and all(np.shape(x) == np.shape(y) and np.allclose(np.asarray(x), np.asarray(y), rtol=1e-4, atol=1e-3)
                          for x, y in zip(la, lb))


def fstate(m):
  return {k: v for k, v in m.get_state().items()}


def loop(f, m, opts, carry, x, bargs, bkw, ctx_parts, L, sh_name=None):
  """the sequential loop over per-step modules (independent of scan)."""
  axes = opts["variable_axes"]
  kinds = list(axes)
  cur = {}
  attrs = {k: v for k, v in public(m).items()}
  mapped = {k: next((t for t in kinds if isinstance(v, t)), None) for k, v in attrs.items() if isinstance(v, nnx.Variable)}
  bc = {k for k, v in attrs.items() if isinstance(v, nnx.Variable) and mapped[k] is None and opts["variable_broadcast"] is not None
        and type(v) is opts["variable_broadcast"]}
  state = {k: np.asarray(v.value) for k, v in attrs.items() if isinstance(v, nnx.Variable)}
  stacks = {k: [None] * L for k in state if mapped[k] is not None}
  ys = [None] * L
  order = range(L - 1, -1, -1) if opts.get("reverse") else range(L)
  extra = {}
  for i in order:
    s = Cell()
    for k in state:
      v = attrs[k]
      val = jnp.asarray(np.take(state[k], i, axis=axes[mapped[k]])) if mapped[k] is not None else jnp.asarray(state[k])
      object.__getattribute__(s, "__dict__")[k] = type(v)(val, sharding=None)
    for k, v in extra.items():
      object.__getattribute__(s, "__dict__")[k] = type(v)(v.value)
    xi = jax.tree_util.tree_map(lambda q, a=opts["in_axes"]: jnp.asarray(np.take(np.asarray(q), i, axis=a)), x) if x is not None else None
    kw = dict(bkw)
    if ctx_parts is not None:
      keys, ctxdef = ctx_parts
      kw["ctx"] = ctxdef.merge({n: (kk[i] if n in keys["split"] else kk) for n, kk in keys["vals"].items()})
    carry, y = f(s, carry, xi, *bargs, **kw)
    ys[i] = y
    for k, v in public(s).items():
      if k in stacks:
        stacks[k][i] = np.asarray(v.value)
      elif k in state and k not in bc:
        state[k] = np.asarray(v.value)
      elif k not in state and isinstance(v, nnx.Variable):
        extra[k] = v
  out = jax.tree_util.tree_map(lambda *q: np.stack([np.asarray(z) for z in q], axis=opts["out_axes"]), *ys)
  final = dict(state)
  for k in stacks:
    final[k] = np.stack(stacks[k], axis=axes[mapped[k]])
  for k, v in extra.items():
    final[k] = np.asarray(v.value)
  return carry, out, final


def scan_(rng):
  L = rng.randrange(1, 5)
  ax = rng.choice([0, 1, 2, -1])
  ax2 = rng.choice([0, 1])
  opts = dict(variable_axes={nnx.Param: ax, nnx.BatchStat: ax2} if rng.random() < 0.7 else {nnx.BatchStat: ax2, nnx.Param: ax},
              variable_broadcast=rng.choice([None, nnx.Variable]), in_axes=0, out_axes=rng.choice([0, 0, 1]),
              reverse=rng.random() < 0.4)
  kindB = None
  if opts["variable_broadcast"] is nnx.Variable:
    opts["variable_broadcast"] = lambda p, v: type(v) is nnx.Variable
  if rng.random() < 0.3:
    opts["unroll"] = 2
  if rng.random() < 0.5:
    opts["length"] = L
  opts["in_axes"] = rng.choice([0, 0, 1])
  m = Cell(L, ax, ax2)
  use_ctx = rng.random() < 0.5
  newcarry = rng.random() < 0.3
  f = program(rng, newcarry, use_ctx)
  base = np.arange(L * 2, dtype=np.float32).reshape(L, 2) + 1
  x = base if opts["in_axes"] == 0 else base.T
  x = rng.choice([x, {"u": x, "v": x * 2}])
  bargs = (2.0,) if rng.random() < 0.5 else ()
  bkw = {"z": 4.0} if rng.random() < 0.5 else {}
  parts = None
  kw = dict(bkw)
  if use_ctx:
    split = rng.choice([None, "a", ("a", "b"), ...])
    opts["split_rngs"] = split
    ctx = nnx.context(a=1, b=2)
    twin = nnx.context(a=1, b=2)
    keys, ctxdef = twin.partition()
    names = {None: [], "a": ["a"], ("a", "b"): ["a", "b"], ...: ["a", "b"]}[split]
    vals = {n: (jax.random.split(k, L) if n in names else k) for n, k in keys.items()}
    parts = (dict(split=names, vals=vals), ctxdef)
    kw["ctx"] = ctx
  o2 = dict(opts)
  o2["variable_broadcast"] = nnx.Variable if callable(opts["variable_broadcast"]) else None
  o2["in_axes"] = opts["in_axes"]
  ref = m.clone()
  mods = [q for _, q in walk(m)[0]]
  want_c, want_y, want_s = loop(f, ref, o2, jnp.asarray(2.0), x, bargs, bkw, parts, L)
  g = nnx.scan(f, **opts)
  c, y = g(m, jnp.asarray(2.0), jax.tree_util.tree_map(jnp.asarray, x), *bargs, **kw)
  assert close(c, want_c), ("carry", c, want_c)
  assert close(y, want_y), ("outputs", y, want_y)
  got = {k: np.asarray(v.value) for k, v in public(m).items() if isinstance(v, nnx.Variable)}
  assert got.keys() == want_s.keys(), (got.keys(), want_s.keys())
  for k in got:
    assert close(got[k], want_s[k]), (k, got[k], want_s[k])
    assert k not in public(ref) or type(vars(m)[k]) is type(vars(ref)[k])
  assert m.k == 2 and [q for _, q in walk(m)[0]] == mods
  if use_ctx:
    assert {k: s.count for k, s in ctx._rngs.items()} == {"a": 1, "b": 1}


def lengths(rng):
  m = Cell(3, 0, 0)
  f = lambda m, c, x: (c + jnp.sum(m.w), x)
  f.__name__ = "g"
  ok = dict(variable_axes={nnx.Param: 0, nnx.BatchStat: 0})
  s = snapshot(m)
  raised(ValueError, lambda: nnx.scan(f, **ok)(m, 0.0, jnp.ones((2, 1))))
  raised(ValueError, lambda: nnx.scan(f, **ok, length=4)(m, 0.0, jnp.ones((3, 1))))
  raised(ValueError, lambda: nnx.scan(f, variable_axes={nnx.Param: 0, nnx.BatchStat: 1})(m, 0.0, jnp.ones((3, 1))))
  raised(ValueError, lambda: nnx.scan(lambda m, c, x: (c, x), is_init=False)(m, 0.0, None))
  raised(ValueError, lambda: nnx.Scan(Init, variable_axes={nnx.Param: 0})(ctx=nnx.context(0)))
  raised(ValueError, lambda: nnx.Scan(Init, split_rngs="params")(ctx=nnx.context(0)))
  unchanged(s)
  c, y = nnx.scan(lambda m, c, x: (c + 1.0, c), is_init=False, length=5)(Cell(), 0.0, None)
  assert c == 5 and close(y, jnp.arange(5.0))


class Init(nnx.Module):

  def __init__(self, *, ctx, rate=1.0):
    self.w = nnx.Param(jax.random.normal(ctx.make_rng("params"), (2, 3)), sharding=("in", "out"))
    self.g = nnx.BatchStat(jnp.zeros(2) + rate)
    self.n = nnx.Cache(jnp.asarray(0.0))

  def __call__(self, c, x, *, ctx=None):
    self.n = self.n + 1
    self.g = self.g + c
    assert vars(self)["w"].sharding == ("in", "out")
    d = jax.random.randint(ctx.make_rng("noise"), (2,), 0, 9) if ctx is not None else 0.0
    return c * 0.5 + x @ self.w.T @ self.w[:, :2] * 0.0 + d, c

  def other(self, c, x, *, ctx=None):
    return c + jnp.sum(self.w), x


def scan_class(rng):
  L = rng.randrange(1, 4)
  split = rng.random() < 0.7
  ax = rng.choice([0, 1])
  name = rng.random() < 0.6
  kw = dict(variable_axes={nnx.Param: ax, nnx.BatchStat: 0}, length=L, split_rngs="params" if split else None)
  if name:
    kw["metadata_params"] = {spmd.PARTITION_NAME: "layers"}
  else:
    pass
  if split:
    kw["split_rngs"] = ("params", "noise")
  mod = nnx.Scan(Init, **kw)(ctx=nnx.context(7))
  inner = mod.scan_module
  keys, ctxdef = nnx.context(7).partition()
  per = []
  for i in range(L):
    k = jax.random.split(keys["params"], L)[i] if split else keys["params"]
    per.append(Init(ctx=ctxdef.merge({"params": k})))
  assert close(inner.w, np.stack([np.asarray(p.w) for p in per], axis=ax))
  assert close(inner.g, np.stack([np.asarray(p.g) for p in per], axis=0))
  assert np.shape(inner.n) == ()
  if L > 1:
    same_w = np.allclose(np.take(np.asarray(inner.w), 0, ax), np.take(np.asarray(inner.w), 1, ax))
    assert same_w == (not split)
  want = ("in", "out")
  if name:
    want = ("layers", "in", "out") if ax == 0 else ("in", "layers", "out")
  assert vars(inner)["w"].sharding == want
  ctx = nnx.context(noise=3)
  twin, tdef = nnx.context(noise=3).partition()
  c, y = mod(jnp.ones(2), jnp.ones((L, 3)), ctx=ctx)
  cc, ys = jnp.ones(2), []
  gs = []
  for i in range(L):
    ys.append(cc)
    gs.append(np.asarray(per[i].g) + np.asarray(cc))
    kk = jax.random.split(twin["noise"], L)[i] if split else twin["noise"]
    d = jax.random.randint(tdef.merge({"noise": kk}).make_rng("noise"), (2,), 0, 9)
    cc = cc * 0.5 + d
  assert close(c, cc) and close(y, jnp.stack(ys)), (c, cc)
  assert close(inner.g, np.stack(gs)) and inner.n == L
  assert vars(inner)["w"].sharding == want, vars(inner)["w"].sharding
  w0 = np.asarray(inner.w)
  c2, _ = mod.call.other(jnp.asarray(1.0), jnp.ones((L, 3)))
  assert close(c2, 1.0 + w0.sum())


def metadata_scan(rng):
  """axis names are absent inside the step and back afterwards."""
  L = 3
  ax = rng.choice([0, 1, -1])
  full = {0: ("layers", "p", "q"), 1: ("p", "layers", "q"), -1: ("p", "q", "layers")}[ax]
  m = Cell(L, ax, 0, sh=full)
  seen = []

  def f(m, c, x):
    seen.append(vars(m)["w"].sharding)
    m.w = m.w + 1
    return c, x
  nnx.scan(f, variable_axes={nnx.Param: ax, nnx.BatchStat: 0}, metadata_params={spmd.PARTITION_NAME: "layers"})(
      m, 0.0, jnp.ones((3, 1)))
  assert set(seen) == {("p", "q")}, seen
  assert vars(m)["w"].sharding == full


def reusable(rng):
  """the options and arguments are not consumed by a call."""
  m = Cell(2, 0, 0)
  ks = {"z": 1.0}
  f = program(rng, False, False)
  g = nnx.scan(f, variable_axes={nnx.Param: 0, nnx.BatchStat: 0})
  a = g(m.clone(), 1.0, jnp.ones((2, 2)), **ks)
  b = g(m.clone(), 1.0, jnp.ones((2, 2)), **ks)
  assert close(a, b) and ks == {"z": 1.0}
  h = g(Cell(3, 0, 0), 1.0, jnp.ones((3, 2)))
  assert np.shape(jax.tree_util.tree_leaves(h[1])[0])[0] == 3


CHECKS = [("scan equals the loop", scan_, 24), ("lengths", lengths, 1), ("scan classes", scan_class, 6),
          ("axis metadata", metadata_scan, 3), ("reusable", reusable, 2)]
