from lib import *
from nnx.module import first_from


def close(a, b, t=1e-4):
  return np.shape(a) == np.shape(b) and np.allclose(np.asarray(a), np.asarray(b), rtol=t, atol=t)


MODE = [None, True, False]


def pick(*a):
  for x in a:
    if x is not None:
      return x
  return KeyError


def mkctx(rng, flagname, **rngs):
  f = rng.choice(["no ctx", "absent", None, True, False])
  if f == "no ctx":
    return None, None
  flags = {} if f == "absent" else {flagname: f}
  if rng.random() < 0.5:
    flags["other"] = True
  return nnx.context(flags=flags, **rngs), None if f == "absent" else f


def batchnorm(rng):
  nd = rng.randrange(2, 5)
  shape = [rng.randrange(1, 4) for _ in range(nd)]
  axis = rng.choice([-1, rng.randrange(nd), -rng.randrange(1, nd + 1)])
  C = shape[axis]
  ctor = rng.choice(MODE)
  kw = dict(use_bias=rng.random() < .7, use_scale=rng.random() < .7, momentum=rng.choice([0.9, 0.5, 0.0, 1.0, 0.99]),
            epsilon=rng.choice([1e-5, 1e-2, 0.5]))
  ictx = nnx.context(0)
  bn = nnx.BatchNorm(C, axis=axis, use_running_average=ctor, ctx=ictx, **kw)
  assert ictx._rngs["params"].count == kw["use_bias"] + kw["use_scale"]
  assert type(vars(bn)["mean"]) is nnx.BatchStat and type(vars(bn)["var"]) is nnx.BatchStat
  assert close(bn.mean, np.zeros(C)) and close(bn.var, np.ones(C))
  r = np.random.RandomState(rng.randrange(10**6))
  if kw["use_scale"]:
    bn.scale = jnp.asarray(r.rand(C).astype("f") + 0.5)
  else:
    assert bn.scale is None
  if kw["use_bias"]:
    bn.bias = jnp.asarray(r.rand(C).astype("f"))
  else:
    assert bn.bias is None
  mean, var = r.rand(C).astype("f"), r.rand(C).astype("f") + 0.3
  bn.mean, bn.var = jnp.asarray(mean), jnp.asarray(var)
  sc = np.ones(C) if bn.scale is None else np.asarray(bn.scale)
  bi = np.zeros(C) if bn.bias is None else np.asarray(bn.bias)
  red = tuple(i for i in range(nd) if i != axis % nd)
  for _ in range(rng.randrange(1, 4)):
    x = r.randn(*shape).astype("f") * 3 + 1
    call = rng.choice(MODE)
    ctx, flag = mkctx(rng, "use_running_average")
    mode = pick(call, ctor, flag)
    args = {}
    if call is not None or rng.random() < .5:
      args["use_running_average"] = call
    if ctx is not None or rng.random() < .3:
      args["ctx"] = ctx
    before = {k: np.asarray(v.value) for k, v in public(bn).items() if isinstance(v, nnx.Variable) and v.value is not None}
    stored = {k: v for k, v in public(bn).items()}
    if mode is KeyError:
      raised(ValueError, lambda: bn(jnp.asarray(x), **args))
      assert all(np.array_equal(before[k], getattr(bn, k)) for k in before)
      continue
    y = bn(jnp.asarray(x), **args)
    if mode:
      m, v = mean, var
    else:
      m, v = x.mean(red), x.var(red)
      mean = kw["momentum"] * mean + (1 - kw["momentum"]) * m
      var = kw["momentum"] * var + (1 - kw["momentum"]) * v
    assert close(bn.mean, mean) and close(bn.var, var), (mode, bn.mean, mean, bn.var, var)
    if mode:
      assert vars(bn)["mean"] is stored["mean"] and np.array_equal(bn.mean, before["mean"])
    bs = [1] * nd
    bs[axis % nd] = C
    want = (x - m.reshape(bs)) / np.sqrt(v.reshape(bs) + kw["epsilon"]) * sc.reshape(bs) + bi.reshape(bs)
    assert close(y, want, 2e-3), np.abs(np.asarray(y) - want).max()
    for k in ("scale", "bias"):
      assert vars(bn)[k] is stored[k]
    assert type(vars(bn)["mean"]) is nnx.BatchStat


def dropout(rng):
  rate = rng.choice([0.0, 1.0, 0.5, 0.25, 0.9, 0.1])
  ctor = rng.choice(MODE)
  coll = rng.choice(["dropout", "noise"])
  nd = rng.randrange(1, 4)
  shape = [rng.randrange(1, 5) for _ in range(nd)]
  bd = tuple(rng.sample(range(nd), rng.randrange(0, nd))) if rng.random() < .5 else ()
  kw = {}
  if coll != "dropout":
    kw["rng_collection"] = coll
  if bd:
    kw["broadcast_dims"] = bd
  if ctor is not None or rng.random() < .5:
    kw["deterministic"] = ctor
  d = nnx.Dropout(rate, **kw)
  x = jnp.asarray(np.random.RandomState(rng.randrange(9**6)).rand(*shape).astype("f") + 1.0)
  call = rng.choice(MODE)
  ctx, flag = mkctx(rng, "deterministic", dropout=1, noise=2)
  mode = pick(call, ctor, flag)
  args = {}
  if call is not None or rng.random() < .5:
    args["deterministic"] = call
  if ctx is not None or rng.random() < .3:
    args["ctx"] = ctx
  counts = lambda: {k: s.count for k, s in ctx._rngs.items()} if ctx is not None else {}
  if mode is KeyError:
    raised(ValueError, lambda: d(x, **args))
    assert all(v == 0 for v in counts().values())
    return
  twin = nnx.context(dropout=1, noise=2)
  if mode or rate == 0.0:
    assert np.array_equal(d(x, **args), x)
    assert all(v == 0 for v in counts().values())
    return
  if rate == 1.0:
    y = d(x, **args)
    assert np.array_equal(y, np.zeros(shape)) and y.dtype == x.dtype
    assert all(v == 0 for v in counts().values())
    return
  if ctx is None:
    raised(ValueError, lambda: d(x, **args))
    return
  y = np.asarray(d(x, **args))
  assert counts() == {k: int(k == coll) for k in ("dropout", "noise")}
  kept_ = np.asarray(x) / (1 - rate)
  z = y == 0
  assert np.allclose(y[~z], kept_[~z], rtol=1e-5)
  bs = [1 if i in bd else n for i, n in enumerate(shape)]
  mask = np.broadcast_to(np.asarray(jax.random.bernoulli(twin.make_rng(coll), p=1 - rate, shape=tuple(bs))), shape)
  assert np.array_equal(mask, ~z)
  e = nnx.context(flags={"deterministic": False}, **({"noise": 0} if coll == "dropout" else {"dropout": 0}))
  raised(ValueError, lambda: d(x, deterministic=False, ctx=e))


def keep_rate(rng):
  for rate in (0.25, 0.9):
    d = nnx.Dropout(rate)
    y = np.asarray(d(jnp.ones((200, 100)), deterministic=False, ctx=nnx.context(dropout=3)))
    assert abs((y == 0).mean() - rate) < 0.02


def first(rng):
  xs = [rng.choice([None, 0, False, "", 1, True, (), 2.0]) for _ in range(rng.randrange(0, 6))]
  w = pick(*xs)
  if w is KeyError:
    raised(ValueError, lambda: first_from(*xs))
  else:
    assert first_from(*xs) is w


CHECKS = [("batch norm", batchnorm, 60), ("dropout", dropout, 120), ("keep rate", keep_rate, 1), ("first_from", first, 100)]
