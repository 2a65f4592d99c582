from lib import *
from nnx.nn.linear import canonicalize_padding


def close(a, b, t=1e-3):
  return np.shape(a) == np.shape(b) and np.allclose(np.asarray(a, dtype="f"), np.asarray(b, dtype="f"), rtol=t, atol=t)


DT = [jnp.float32, jnp.float16, jnp.bfloat16]


def init_log(rng, calls):
  def init(key, shape, dtype):
    calls.append((tuple(np.asarray(key).tolist()), tuple(shape), jnp.dtype(dtype)))
    return jnp.asarray(np.random.RandomState(len(calls)).randn(*shape), dtype)
  return init


def params_ok(rng, build, shapes, pd):
  """parameters: declared shapes and dtypes, one key each, in order."""
  calls = []
  ctx, twin = nnx.context(3, other=1), nnx.context(3, other=1)
  m = build(init_log(rng, calls), ctx)
  keys = [tuple(np.asarray(twin.make_rng("params")).tolist()) for _ in shapes]
  assert len(calls) == len(shapes), (len(calls), len(shapes))
  assert [c[1] for c in calls] == [tuple(s) for s in shapes], (calls, shapes)
  assert all(c[2] == jnp.dtype(pd) for c in calls)
  assert sorted(c[0] for c in calls) == sorted(keys)
  assert ctx._rngs["params"].count == len(shapes) and ctx._rngs["other"].count == 0
  return m


def linear(rng):
  i, o = rng.randrange(1, 5), rng.randrange(1, 5)
  ub = rng.random() < .7
  pd = rng.choice(DT)
  dt = rng.choice([None, None, jnp.float32])
  m = params_ok(rng, lambda init, ctx: nnx.Linear(i, o, use_bias=ub, param_dtype=pd, dtype=dt, kernel_init=init, bias_init=init, ctx=ctx),
                [(i, o)] + ([(o,)] if ub else []), pd)
  assert m.kernel.shape == (i, o) and m.kernel.dtype == pd and type(vars(m)["kernel"]) is nnx.Param
  assert type(vars(m)["bias"]) is nnx.Param
  assert (m.bias is None) == (not ub) and (not ub or (m.bias.shape == (o,) and m.bias.dtype == pd))
  lead = [rng.randrange(0, 4) for _ in range(rng.randrange(0, 4))]
  x = np.random.RandomState(1).randn(*lead, i).astype("f")
  if rng.random() < .2:
    x = x.astype("i")
  y = m(jnp.asarray(x))
  want = np.asarray(x, "f") @ np.asarray(m.kernel, "f") + (np.asarray(m.bias, "f") if ub else 0)
  assert close(y, want, 3e-2 if pd != jnp.float32 else 1e-4) and y.shape == tuple(lead) + (o,)
  if dt is not None:
    assert y.dtype == dt
  assert nnx.Linear(2, 3, ctx=nnx.context(0)).kernel.dtype == jnp.float32


def np_conv(x, k, strides, pads, idil, kdil, groups):
  """direct convolution: x (N, *sp, C), k (*ks, C/g, O)."""
  nd = len(strides)
  N, C = x.shape[0], x.shape[-1]
  O = k.shape[-1]
  sp = [(n - 1) * d + 1 if n else 0 for n, d in zip(x.shape[1:-1], idil)]
  z = np.zeros((N, *sp, C))
  z[(slice(None),) + tuple(slice(None, None, d) for d in idil)] = x
  z = np.pad(z, [(0, 0)] + [(max(a, 0), max(b, 0)) for a, b in pads] + [(0, 0)])
  ks = [(n - 1) * d + 1 for n, d in zip(k.shape[:nd], kdil)]
  out = [(n - q) // s + 1 for n, q, s in zip(z.shape[1:-1], ks, strides)]
  y = np.zeros((N, *out, O))
  import itertools
  cg, og = C // groups, O // groups
  for pos in itertools.product(*[range(n) for n in out]):
    for kp in itertools.product(*[range(n) for n in k.shape[:nd]]):
      v = z[(slice(None),) + tuple(p * s + q * d for p, s, q, d in zip(pos, strides, kp, kdil))]
      for g in range(groups):
        y[(slice(None),) + pos + (slice(g * og, (g + 1) * og),)] += v[:, g * cg:(g + 1) * cg] @ k[kp][:, g * og:(g + 1) * og]
  return y


def same_pads(sizes, ks, strides):
  out = []
  for n, k, s in zip(sizes, ks, strides):
    o = -(-n // s)
    t = max((o - 1) * s + k - n, 0)
    out.append((t // 2, t - t // 2))
  return out


def tup(v, n):
  return (1,) * n if v is None else (v,) * n if isinstance(v, int) else tuple(v)


def conv(rng):
  nd = rng.choice([1, 1, 2, 2, 3])
  g = rng.choice([1, 1, 2])
  cin, cout = g * rng.randrange(1, 3), g * rng.randrange(1, 3)
  ks = [rng.randrange(1, 4 if nd < 3 else 3) for _ in range(nd)]
  each = lambda hi: rng.choice([None, 1, rng.randrange(1, hi), [rng.randrange(1, hi) for _ in range(nd)],
                                tuple(rng.randrange(1, hi) for _ in range(nd))])
  strides, kdil, idil = each(3), each(3), rng.choice([None, 1, each(3)])
  pad = rng.choice(["SAME", "VALID", "CIRCULAR", rng.randrange(3), [rng.choice([rng.randrange(3), (rng.randrange(3), rng.randrange(2))]) for _ in range(nd)],
                    tuple((rng.randrange(3), rng.randrange(2)) for _ in range(nd))] + (["CAUSAL"] * 2 if nd == 1 else []))
  if isinstance(pad, str):
    idil = rng.choice([None, 1])     # jax refuses named padding of dilated inputs
  ub = rng.random() < .6
  mask = rng.random() < .2
  sp = [rng.randrange(4, 7) if nd < 3 else 4 for _ in range(nd)]
  lead = [rng.randrange(1, 3) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
  st, kd, idl = tup(strides, nd), tup(kdil, nd), tup(idil, nd)
  kse = [(k - 1) * d + 1 for k, d in zip(ks, kd)]
  x = np.random.RandomState(rng.randrange(999)).randn(*lead, *sp, cin).astype("f")
  pd = jnp.float32
  mk = lambda init, ctx: nnx.Conv(cin, cout, rng.choice([list, tuple])(ks), strides, padding=pad, input_dilation=idil, kernel_dilation=kdil,
                                  feature_group_count=g, use_bias=ub, mask_fn=(lambda k: k * 0.5) if mask else None,
                                  kernel_init=init, bias_init=init, ctx=ctx)
  m = params_ok(rng, mk, [tuple(ks) + (cin // g, cout)] + ([(cout,)] if ub else []), pd)
  xs = x.reshape((-1,) + x.shape[len(lead):])
  if pad == "CIRCULAR":
    xs = np.pad(xs, [(0, 0)] + [((k - 1) // 2, k // 2) for k in kse] + [(0, 0)], mode="wrap")
    pads = [(0, 0)] * nd
  elif pad == "CAUSAL":
    xs = np.pad(xs, [(0, 0), (kd[0] * (ks[0] - 1), 0), (0, 0)])
    pads = [(0, 0)]
  elif pad == "VALID":
    pads = [(0, 0)] * nd
  elif pad == "SAME":
    dil = [(n - 1) * d + 1 for n, d in zip(sp, idl)]
    pads = same_pads(dil, kse, st)
  elif isinstance(pad, int):
    pads = [(pad, pad)] * nd
  else:
    pads = [(p, p) if isinstance(p, int) else p for p in pad]
  tot = [(n - 1) * d + 1 + a + b for n, d, (a, b) in zip(xs.shape[1:-1], idl, pads)]
  if any(t < k for t, k in zip(tot, kse)):
    return
  y = m(jnp.asarray(x))
  k = np.asarray(m.kernel, "f") * (0.5 if mask else 1.0)
  want = np_conv(xs, k, st, pads, idl, kd, g) + (np.asarray(m.bias) if ub else 0)
  want = want.reshape(tuple(lead) + want.shape[1:])
  assert y.shape == want.shape, (y.shape, want.shape, pad)
  assert close(y, want), (pad, strides, kdil, idil, np.abs(np.asarray(y) - want).max())


def padding(rng):
  rank = rng.randrange(1, 5)
  for s in ("SAME", "VALID", "CIRCULAR", "CAUSAL"):
    assert canonicalize_padding(s, rank) == s
  n = rng.randrange(4)
  assert [tuple(p) for p in canonicalize_padding(n, rank)] == [(n, n)] * rank
  seq = [rng.choice([rng.randrange(4), (rng.randrange(4), rng.randrange(4))]) for _ in range(rank)]
  assert [tuple(p) for p in canonicalize_padding(rng.choice([tuple, list])(seq), rank)] == [(p, p) if isinstance(p, int) else p for p in seq]
  bad = list(seq)
  k = rng.randrange(4)
  if k == 0:
    bad.append(1)
  elif k == 1:
    bad.pop()
  elif k == 2:
    bad[rng.randrange(rank)] = rng.choice([(1,), (1, 2, 3), 1.5, None, "SAME"])
  else:
    bad = rng.choice([None, 2.5, {1: 2}, {1, 2}])
  raised(ValueError, lambda: canonicalize_padding(bad, rank))
  raised(ValueError, lambda: nnx.Conv(1, 1, (2,) * rank, padding=bad, ctx=nnx.context(0))(jnp.ones((1,) + (4,) * rank + (1,))))
  raised(ValueError, lambda: nnx.Conv(1, 1, (2, 2), padding="CAUSAL", ctx=nnx.context(0))(jnp.ones((1, 4, 4, 1))))
  raised(TypeError, lambda: nnx.Conv(1, 1, 3, ctx=nnx.context(0)))


def embed(rng):
  n, f = rng.randrange(1, 6), rng.randrange(1, 4)
  pd = rng.choice(DT)
  m = params_ok(rng, lambda init, ctx: nnx.Embed(n, f, param_dtype=pd, embedding_init=init, ctx=ctx), [(n, f)], pd)
  assert m.embedding.shape == (n, f) and m.embedding.dtype == pd
  lead = [rng.randrange(0, 4) for _ in range(rng.randrange(0, 4))]
  idx = np.random.RandomState(2).randint(0, n, lead)
  y = m(jnp.asarray(idx, rng.choice([jnp.int32, jnp.uint8, jnp.int8])))
  assert y.shape == tuple(lead) + (f,) and np.array_equal(np.asarray(y, "f"), np.asarray(m.embedding, "f")[idx])
  for bad in (jnp.ones((2,)), jnp.ones((1,), bool), jnp.asarray(1.0)):
    raised(ValueError, lambda: m(bad))
  q = np.random.RandomState(3).randn(*lead, f).astype("f")
  assert close(m.attend(jnp.asarray(q)), q @ np.asarray(m.embedding, "f").T, 3e-2)


CHECKS = [("linear", linear, 40), ("conv", conv, 60), ("padding", padding, 25), ("embed", embed, 30)]
