from lib import *
import optax


class Net(nnx.Module):

  def __init__(self, rng, ctx):
    self.lin = nnx.Linear(2, 3, ctx=ctx)
    self.bn = nnx.BatchNorm(3, ctx=ctx)
    if rng.random() < .5:
      self.shared = self.lin
    self.scale = 2.0

  def __call__(self, x, train=True, *, ctx=None):
    return self.bn(self.lin(x), use_running_average=not train) * self.scale

  def aux(self, x):
    self.bn.mean = self.bn.mean + 1
    return x


def close(a, b):
  la, ta = jax.tree_util.tree_flatten(a)
  lb, tb = jax.tree_util.tree_flatten(b)
  return ta == tb and all(np.allclose(np.asarray(x), np.asarray(y), rtol=1e-5, atol=1e-6) for x, y in zip(la, lb))


def txs(rng):
  return rng.choice([optax.sgd(0.1), optax.adam(1e-2), optax.sgd(0.1, momentum=0.9), optax.chain(optax.clip(0.5), optax.adamw(1e-2)),
                     optax.identity(), optax.set_to_zero()])


def make(rng):
  ctx = nnx.context(rng.randrange(9))
  m = Net(rng, ctx)
  (params, stats), df = m.partition(nnx.Param, ...)
  tx = txs(rng)
  extra = {}
  if rng.random() < .7:
    extra["batch_stats"] = nnx.TreeNode(stats)
  if rng.random() < .5:
    extra["name"] = "run"
  if rng.random() < .5:
    extra["ema"] = jnp.ones(2)
  step = rng.choice([None, 0, 5])
  if step is not None:
    extra["step"] = step
  ts = nnx.TrainState(df, params=params, tx=tx, **extra)
  return m, params, stats, df, tx, ts, extra, step or 0


def grads_like(rng, params):
  r = np.random.RandomState(rng.randrange(999))
  return jax.tree_util.tree_map(lambda x: jnp.asarray(r.randn(*np.shape(x)).astype("f")), params)


def fields(ts):
  return dict(vars(ts))


def apply_gradients(rng):
  m, params, stats, df, tx, ts, extra, step = make(rng)
  opt, prm = tx.init(params), params
  assert close(ts.opt_state, opt) and int(ts.step) == step and ts.params is params
  cur = ts
  for k in range(rng.randrange(1, 4)):
    g = grads_like(rng, params)
    old = fields(cur)
    olddeep = {q: dict(vars(v)) if isinstance(v, containers.Container) else v for q, v in old.items()}
    kw = {}
    if rng.random() < .4 and "batch_stats" in extra:
      kw["batch_stats"] = jax.tree_util.tree_map(lambda x: x + 1, cur.batch_stats)
    if rng.random() < .3 and "name" in extra:
      kw["name"] = "other"
    new = cur.apply_gradients(g, **kw)
    up, opt = tx.update(g, opt, prm)
    prm = optax.apply_updates(prm, up)
    step += 1
    assert type(new) is nnx.TrainState and new is not cur
    assert close(new.params, prm) and list(new.params) == list(params) and isinstance(new.params, State)
    assert all(type(new.params[q]) is type(params[q]) for q in params)
    assert close(new.opt_state, opt)
    assert int(new.step) == step
    assert new.tx is tx and new.moduledef is df
    for q in ("batch_stats", "name", "ema"):
      if q in extra:
        if q in kw:
          got = getattr(new, q)
          assert got is kw[q] or close(got, kw[q])
        else:
          assert vars(new)[q] is old[q] or close(getattr(new, q), getattr(cur, q))
    assert vars(new).keys() == old.keys()
    for q in ("params", "opt_state", "step"):
      assert type(vars(new)[q]) is nnx.TreeNode
    now = fields(cur)
    assert now.keys() == old.keys() and all(now[q] is old[q] for q in old), "the original train state changed"
    assert all(dict(vars(v)).keys() == olddeep[q].keys() and all(vars(v)[z] is olddeep[q][z] for z in olddeep[q])
               for q, v in now.items() if isinstance(v, containers.Container))
    fails(lambda: cur.apply_gradients(g, nonexistent=1))
    raised(AttributeError, lambda: setattr(new, "step", 0))
    cur = new


def under_jit(rng):
  m, params, stats, df, tx, ts, extra, step = make(rng)
  g = grads_like(rng, params)
  a = ts.apply_gradients(g)
  b = jax.jit(lambda t, g: t.apply_gradients(g))(ts, g)
  assert close(a.params, b.params) and close(a.opt_state, b.opt_state) and int(b.step) == step + 1
  assert b.moduledef == df and b.tx is tx
  leaves, td = jax.tree_util.tree_flatten(ts)
  c = jax.tree_util.tree_unflatten(td, leaves)
  assert close(c.params, ts.params) and int(c.step) == step and c.moduledef == df


def apply_model(rng):
  m, params, stats, df, tx, ts, extra, step = make(rng)
  x = jnp.asarray(np.random.RandomState(1).randn(4, 2).astype("f"))
  other = jax.tree_util.tree_map(lambda v: v * 3, params)
  zero = jax.tree_util.tree_map(lambda v: v * 0, params)
  seq = rng.choice([("params", "S"), ("S", "params"), ("O", "S"), ("params", "S", "Z"), ("Z", "params", "S"), ("params", "O", "S")])
  sub = {"S": stats, "O": other, "Z": zero}
  if "batch_stats" in extra and rng.random() < .5:
    seq = tuple("batch_stats" if q == "S" else q for q in seq)
  args = [sub.get(q, q) for q in seq]
  vals = [stats if q == "batch_stats" else params if q == "params" else sub[q] for q in seq]
  ref = df.merge(*vals)
  train = rng.random() < .5
  want = ref(x, train=train)
  out, pure = ts.apply(*args)(x, train=train)
  assert close(out, want)
  assert isinstance(pure, nnx.Pure) and close(pure.get_state(), ref.get_state()) and list(pure.get_state()) == list(ref.get_state())
  o2, p2 = ts.apply(*args).aux(x)
  r2 = df.merge(*vals)
  r2.aux(x)
  assert close(p2.get_state(), r2.get_state())
  assert ts.params is params
  fails(lambda: ts.apply("no_such_field")(x))


CHECKS = [("apply_gradients", apply_gradients, 25), ("under jit", under_jit, 4), ("apply", apply_model, 20)]
