from lib import *
from nnx.contextlib import RngStream, to_rng_predicate, PureContext, ContextDef

NM = ["params", "dropout", "a", "b", "noise", "", "params2"]


def streams(c):
  return {k: (tuple(np.asarray(s.key).tolist()), s.count, s.count_path) for k, s in c._rngs.items()}


def build(rng):
  names = rng.sample(NM[1:], rng.randrange(0, 5))
  kw, want = {}, {}
  for n in names:
    k = rng.randrange(4)
    i = rng.randrange(50)
    key = jax.random.PRNGKey(i)
    if k == 0:
      kw[n] = i
    elif k == 1:
      kw[n] = key
    elif k == 2:
      kw[n] = RngStream(key)
    else:
      kw[n] = RngStream(key, rng.randrange(4), (1, 2)[: rng.randrange(3)])
    want[n] = (tuple(np.asarray(key).tolist()), kw[n].count if isinstance(kw[n], RngStream) else 0,
               kw[n].count_path if isinstance(kw[n], RngStream) else ())
  flags = {f: rng.choice([True, False, None]) for f in rng.sample(["train", "use_running_average", "deterministic", "x"], rng.randrange(4))}
  pos = []
  if rng.random() < 0.6:
    i = rng.choice([0, 0, 5, 17])
    pos = [rng.choice([i, jax.random.PRNGKey(i)])]
    want["params"] = (tuple(np.asarray(jax.random.PRNGKey(i)).tolist()), 0, ())
  fl = rng.choice([flags, flags or None])
  kw = {k: v for k, v in kw.items()}
  c = nnx.context(*pos, flags=fl, **kw)
  return c, want, flags


def construct(rng):
  c, want, flags = build(rng)
  assert streams(c) == want, (streams(c), want)
  for n in NM + ["zzz"]:
    assert c.has_rng(n) == (n in want)
  for f in ["train", "use_running_average", "deterministic", "x", "nope"]:
    assert c.has_flag(f) == (f in flags)
    assert c.get_flag(f) is flags.get(f, None)


def roundtrip(rng):
  c, want, flags = build(rng)
  p = c.partition()
  for k in range(3):
    if k:
      leaves, td = jax.tree_util.tree_flatten(p)
      assert len(leaves) == len(want)
      p = jax.tree_util.tree_unflatten(td, leaves)
      if k == 2:
        assert jax.tree_util.tree_structure(p) == td
    assert isinstance(p, PureContext)
    d = p.merge()
    assert {n: s[0] for n, s in streams(d).items()} == {n: s[0] for n, s in want.items()}
    assert {n: s[2] for n, s in streams(d).items()} == {n: s[2] + (s[1],) for n, s in want.items()}
    assert all(s[1] == 0 for s in streams(d).values())
    for f in ["train", "use_running_average", "deterministic", "x", "nope"]:
      assert d.get_flag(f) is flags.get(f, None) and d.has_flag(f) == (f in flags)
  assert {n: (s[0], s[1] - 1, s[2]) for n, s in streams(c).items()} == want
  for f in flags:
    assert c.get_flag(f) is flags[f]
  if want:
    n = rng.choice(list(want))
    e, g = p.merge(), p.merge()
    assert np.array_equal(e.make_rng(n), g.make_rng(n))


class F_:
  def __init__(self, f, fn, ok=True):
    self.f, self.fn, self.ok = f, fn, ok


def rand_rf(rng, depth=2, hashable=False):
  k = rng.randrange(5 if depth == 0 or hashable else 8)
  if k == 0:
    return F_(None, lambda n: False)
  if k == 1:
    return F_(..., lambda n: True)
  if k == 2:
    s = rng.choice(NM)
    return F_(s, lambda n: n == s)
  if k == 3:
    c = rng.choice("pabd")
    return F_(lambda name: c in name, lambda n: c in n)
  if k == 4:
    subs = [rand_rf(rng, 0, True) for _ in range(rng.randrange(3))]
    return F_(tuple(s.f for s in subs), lambda n: any([s.fn(n) for s in subs]))
  if k == 5:
    subs = [rand_rf(rng, depth - 1) for _ in range(rng.randrange(4))]
    return F_([s.f for s in subs], lambda n: any([s.fn(n) for s in subs]))
  if k == 6:
    subs = [rand_rf(rng, depth - 1) for _ in range(rng.randrange(4))]
    return F_(tuple(s.f for s in subs), lambda n: any([s.fn(n) for s in subs]))
  subs = [(rand_rf(rng, 0, True), rng.choice([True, False, 1, 0, None])) for _ in range(rng.randrange(4))]
  d = {s.f: inc for s, inc in subs}
  fns = {s.f: s.fn for s, inc in subs}
  return F_(d, lambda n: any([bool(inc) and fns[f](n) for f, inc in d.items()]))


def filters(rng):
  a = rand_rf(rng, 3)
  p = to_rng_predicate(a.f)
  for n in NM + ["x", "param", "a b"]:
    assert bool(p(n)) == bool(a.fn(n)), (a.f, n)


def fixed(rng):
  for bad in (3, 2.5, {1}, frozenset(["a"]), object(), 0, True):
    raised(TypeError, lambda: to_rng_predicate(bad))
    raised(TypeError, lambda: to_rng_predicate((bad,)))
    raised(TypeError, lambda: to_rng_predicate(["a", bad]))
    raised(TypeError, lambda: to_rng_predicate({"a": True, 3: True}))
  p = to_rng_predicate({3: False, "a": True})
  assert p("a") and not p("b")
  assert to_rng_predicate("params")("params") and not to_rng_predicate("params")("param")
  assert not to_rng_predicate("params")("params2") and not to_rng_predicate("params")("p")
  assert not to_rng_predicate("")("a") and to_rng_predicate("")("")
  assert not to_rng_predicate(())("a") and not to_rng_predicate({})("a") and not to_rng_predicate([])("a")
  p = to_rng_predicate({"a": True, "b": False})
  assert p("a") and not p("b")
  p = to_rng_predicate({...: False, "a": True})
  assert p("a") and not p("b")
  p = to_rng_predicate([None, "a", ("b", ["c"])])
  assert p("a") and p("b") and p("c") and not p("d")
  f = lambda name: name == "q"
  assert to_rng_predicate(f)("q") and not to_rng_predicate(f)("r")
  c = nnx.context()
  assert not c._rngs and c.get_flag("x") is None and not c.has_rng("params")
  c = nnx.context(0)
  assert list(c._rngs) == ["params"] and np.array_equal(c._rngs["params"].key, jax.random.PRNGKey(0))
  c = nnx.context(flags=dict(a=False))
  assert c.get_flag("a") is False and c.has_flag("a") and not c.has_flag("b") and c.get_flag("b") is None
  c = nnx.context(params=3)
  assert np.array_equal(c._rngs["params"].key, jax.random.PRNGKey(3))
  d = c.copy()
  assert d._rngs["params"].key is c._rngs["params"].key and d.get_flag("z") is None
  m = nnx.context(1, flags=dict(t=True, f=False)).partition().merge()
  assert m.get_flag("t") is True and m.get_flag("f") is False and m.has_flag("f")


CHECKS = [("construct", construct, 150), ("roundtrip", roundtrip, 60), ("filters", filters, 500), ("fixed", fixed, 1)]
