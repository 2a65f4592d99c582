from lib import *


class Blk(nnx.Module):

  def __init__(self, v):
    self.w = nnx.Param(jnp.arange(2.0) + v)
    self.n = nnx.BatchStat(jnp.asarray(float(v)))
    self.c = nnx.Cache(jnp.ones(2) * v)
    self.tag = "t"

  def step(self, x, k=1.0):
    self.n = self.n + k
    return self.w * x + self.n


class Net(nnx.Module):

  def __init__(self, rng):
    self.a = Blk(rng.randrange(1, 5))
    self.b = Blk(rng.randrange(1, 5))
    if rng.random() < 0.6:
      self.shared = self.a
    if rng.random() < 0.4:
      self.loop = self
    self.raw = jnp.asarray(float(rng.randrange(4)))
    self.k = rng.randrange(1, 4)


def program(rng):
  """a random function (module, x, *rest, ctx=None) -> outputs that changes state."""
  ops = [(rng.randrange(9), rng.choice("ab"), float(rng.randrange(1, 4))) for _ in range(rng.randrange(1, 6))]
  draws = rng.random() < 0.5

  def f(m, x, y=1.0, *, ctx=None):
    out = x
    for o, s, k in ops:
      blk = getattr(m, s)
      if o == 0:
        out = out + blk.step(x, k)
      elif o == 1:
        blk.w = blk.w * k
      elif o == 2:
        blk.c = blk.c + out
      elif o == 3:
        blk.new = nnx.Intermediate(out * k)
      elif o == 4:
        m.raw = m.raw + k
        out = out + m.raw
      elif o == 5 and hasattr(m, "shared"):
        m.shared.n = m.shared.n * 2
      elif o == 6:
        blk.sow(nnx.Intermediate, "trace", out)
      elif o == 7:
        out = out * y
      elif o == 8 and ctx is not None and draws:
        out = out + jax.random.randint(ctx.make_rng("noise"), (2,), 0, 9)
        if ctx.has_rng("other"):
          blk.c = blk.c + jax.random.randint(ctx.make_rng("other"), (2,), 0, 9)
    return out, {"m": m.k * out}
  f.__name__ = "prog"
  return f, ops


def close(a, b):
  la, ta = jax.tree_util.tree_flatten(a)
  lb, tb = jax.tree_util.tree_flatten(b)
  return ta == tb and all(np.allclose(np.asarray(x), np.asarray(y), rtol=1e-5, atol=1e-6) and np.shape(x) == np.shape(y)
                          for x, y in zip(la, lb))


def state_close(m, n):
  a, b = m.get_state(), n.get_state()
  assert list(a) == list(b), (list(a), list(b))
  for k in a:
    assert type(a[k]) is type(b[k]) or not isinstance(a[k], containers.Container), k
    assert close(a[k], b[k]), (k, a[k], b[k])


def mkctx(rng):
  kw = {"noise": rng.randrange(9)}
  if rng.random() < 0.5:
    kw["other"] = 3
  c = nnx.context(rng.randrange(9), flags={"train": True}, **kw)
  for _ in range(rng.randrange(3)):
    c.make_rng("noise")
  return c


def pos(c):
  return {k: (s.count, s.count_path, np.asarray(s.key).tolist()) for k, s in c._rngs.items()}


def lifted(rng, kind):
  m = Net(rng)
  f, ops = program(rng)
  x = jnp.arange(2.0) + rng.randrange(3)
  ctx = mkctx(rng) if rng.random() < 0.5 else None
  ref = m.clone()
  args = (x, float(rng.randrange(1, 4)))[: rng.randrange(1, 3)]
  kw = {}
  refkw = {}
  before = pos(ctx) if ctx else None
  if ctx is not None:
    twin = nnx.context(flags={"train": True}, **{k: nnx.contextlib.RngStream(s.key, s.count, s.count_path) for k, s in ctx._rngs.items()})
    kw["ctx"] = ctx
    refkw["ctx"] = twin.partition().merge()
  stateful = True
  if kind == "jit":
    stateful = rng.random() < 0.7
    g = nnx.jit(f, stateful=stateful)
  else:
    g = nnx.remat(f)
  mods = [q for _, q in walk(m)[0]]
  orig = m.clone()
  ret = g(m, *args, **kw)
  want = f(ref, *args, **refkw)
  assert close(ret, want), (ret, want, ops)
  assert [q for _, q in walk(m)[0]] == mods, "module identities changed"
  if stateful:
    state_close(m, ref)
  else:
    state_close(m, orig)
  if ctx is not None:
    assert pos(ctx) == {k: (c + 1, p, q) for k, (c, p, q) in before.items()}, "the context is forked exactly once"
  # a second call continues from there (compiled code reused or not)
  if ctx is not None:
    refkw["ctx"] = twin.partition().merge()
  ret = g(m, *args, **kw)
  if stateful:
    want = f(ref, *args, **refkw)
    assert close(ret, want)
    state_close(m, ref)
  else:
    state_close(m, orig)
  raised_type(lambda: g({"a": 1}, x)) if kind == "jit" else None


def raised_type(t):
  raised(TypeError, t)


def jit_(rng):
  lifted(rng, "jit")


def remat_(rng):
  lifted(rng, "remat")


def jit_reuse(rng):
  """one compiled function, modules of differing static structure."""
  def f(m, x):
    m.a.n = m.a.n + m.k
    return x * m.k + (10.0 if hasattr(m, "shared") else 0.0) + (100.0 if m.a.tag == "u" else 0.0)
  g = nnx.jit(f)
  for _ in range(6):
    m = Net(rng)
    m.a.tag = rng.choice("tu")
    ref = m.clone()
    assert close(g(m, 2.0), f(ref, 2.0))
    state_close(m, ref)


def inner_levels(rng):
  """inside the lifted call the module is mutable and the context drawable; outside ones are not."""
  out = nnx.Sequence([])
  outer = Blk(1)
  octx = nnx.context(noise=0)

  def f(m, x, ctx=None):
    m.a.n = m.a.n + 1
    if ctx is not None:
      ctx.make_rng("noise")
    raised(nnx.TraceContextError, lambda: setattr(outer, "n", 3.0))
    raised(nnx.TraceContextError, lambda: octx.make_rng("noise"))
    fresh = Blk(2)
    fresh.n = 4.0
    return x
  m = Net(rng)
  nnx.jit(f)(m, jnp.ones(2), ctx=nnx.context(noise=1))
  assert np.allclose(outer.n, 1.0)


def grad_(rng):
  m = Net(rng)
  f, ops = program(rng)
  has_aux = rng.random() < 0.5
  stateful = rng.random() < 0.7
  x = jnp.arange(2.0) + 1

  def loss(m, x, y=1.0):
    out, aux = f(m, x, y)
    l = jnp.sum(out) + jnp.sum(m.a.w ** 2) * y + jnp.sum(m.b.c * 3.0) + m.a.n * 2.0
    return (l, aux) if has_aux else l
  flt = rng.choice([nnx.Param, (nnx.Param, nnx.Cache), nnx.All(nnx.Param, lambda p, v: p.startswith("a")),
                    lambda p, v: p.endswith("c"), nnx.Not(nnx.BatchStat), nnx.BatchStat])
  if rng.random() < 0.2:
    gf = nnx.grad(loss, has_aux=has_aux, stateful=stateful)
    flt = nnx.Param
  else:
    gf = nnx.grad(loss, flt, has_aux=has_aux, stateful=stateful)
  args = (x, 2.0)[: rng.randrange(1, 3)]
  ref = m.clone()
  orig = m.clone()
  pure = orig.partition(flt, ...)
  d, nd = pure.states

  def plain(leaves):
    st = State({k: v for k, v in zip(d, jax.tree_util.tree_unflatten(td, leaves))})
    mm = pure.moduledef.merge(st, nd)
    o = loss(mm, *args)
    return o[0] if has_aux else o
  vals = tuple(d.values())
  lv, td = jax.tree_util.tree_flatten(vals)
  with_none = jax.grad(plain)(lv) if False else None
  # oracle gradients by central differences on small integers are inexact: use jax on a plain function instead
  def plain2(lv):
    from nnx import tracers
    with tracers.nnx_trace(tracers.get_top_trace(lv)):
      return plain(lv)
  want = jax.grad(plain2)(lv)
  expect = State({k: v for k, v in zip(d, jax.tree_util.tree_unflatten(td, want))})
  mods = [q for _, q in walk(m)[0]]
  ret = gf(m, *args)
  if has_aux:
    grads, aux = ret
  else:
    grads = ret
  assert isinstance(grads, State) and list(grads) == list(d), (list(grads), list(d))
  for k in d:
    assert type(grads[k]) is type(d[k]) or not isinstance(d[k], containers.Container)
    assert close(grads[k], expect[k]), (k, grads[k], expect[k])
  out = loss(ref, *args)
  if has_aux:
    assert close(aux, out[1])
  assert [q for _, q in walk(m)[0]] == mods
  state_close(m, ref if stateful else orig)
  raised(TypeError, lambda: gf({"a": 1}, x))


class Inner(nnx.Module):

  def __init__(self, k, *, ctx=None):
    self.w = nnx.Param(jnp.ones(2) * k)
    self.n = nnx.BatchStat(jnp.asarray(0.0))
    if ctx is not None:
      self.i = nnx.Param(jax.random.normal(ctx.make_rng("params"), (2,)))

  def __call__(self, x, s=2, *, ctx=None):
    self.n = self.n + 1
    self.probe(s)
    if ctx is not None:
      x = x + jax.random.randint(ctx.make_rng("noise"), (2,), 0, 9)
    return x * self.w * s

  def other(self, x, *, ctx=None):
    self.n = self.n + 10
    return x - self.w


def remat_class(rng):
  use = rng.random() < 0.5
  ck = {"ctx": nnx.context(3)} if rng.random() < 0.5 else {}
  rk = {"ctx": nnx.context(3)} if ck else {}
  sa = rng.choice([(), 1, (1,)])
  R = nnx.Remat(Inner, static_argnums=sa)
  seen = []
  Inner.probe = lambda self, s: seen.append(isinstance(s, int))
  r = R(4, **ck)
  p = Inner(4, **rk)
  x = jnp.arange(2.0)
  c1, c2 = nnx.context(noise=2), nnx.context(noise=2)
  for k in range(3):
    args = (x, 3)
    kw1 = {"ctx": c1} if use else {}
    kw2 = {"ctx": c2.partition().merge()} if use else {}
    assert close(r(*args, **kw1), p(*args, **kw2))
    assert seen[0] == (sa != ())
    seen.clear()
    if sa == ():
      assert close(r.call.other(x), p.other(x))
    state_close(r.remat_module, p)

  @jax.jit
  def through(st):
    from nnx import tracers
    with tracers.nnx_trace(tracers.get_top_trace(st)):
      mm = df.merge(st)
      o = mm(x, 3)
      return o, mm.get_state()
  st, df = r.partition()
  a, s1 = through(st)
  assert close(a, p(x, 3))
  g1 = nnx.grad(lambda m, x: jnp.sum(m(x, 3) ** 2))(r, x)
  g2 = nnx.grad(lambda m, x: jnp.sum(m(x, 3) ** 2))(p_minus(p), x)
  assert [k.split("/")[-1] for k in g1] == list(g2) and all(close(a, b) for a, b in zip(g1.values(), g2.values()))


def p_minus(p):
  return p


CHECKS = [("lifted jit", jit_, 30), ("lifted remat", remat_, 25), ("lifted grad", grad_, 25), ("jit reuse", jit_reuse, 3),
          ("trace levels inside jit", inner_levels, 2), ("remat classes", remat_class, 6)]
