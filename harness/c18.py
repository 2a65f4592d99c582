from lib import *
from nnx import spmd

P = spmd.PARTITION_NAME


def rand_sharded(rng):
  ent = {}
  for _ in range(rng.randrange(0, 8)):
    k = rng.randrange(8)
    sh = tuple(rng.choice(["a", "b", None, "layers"]) for _ in range(rng.randrange(0, 5)))
    if k <= 3:
      v = rng.choice(VARS)(payload(rng), sharding=sh, **{"foo": (1, 2)} if rng.random() < .3 else {})
    elif k == 4:
      v = rng.choice(VARS)(payload(rng), foo=1)
    elif k == 5:
      v = nnx.Node(payload(rng), **({"sharding": sh} if rng.random() < .6 else {}))
    elif k == 6:
      v = np.ones(2)
    else:
      v = rng.choice(VARS)(payload(rng), sharding=None)
    ent[rand_path(rng)] = v
  return State(ent)


def has(v):
  return isinstance(v, nnx.Node) and vars(v).get("sharding") is not None


def frz(s):
  return {k: (v, dict(vars(v)) if isinstance(v, containers.Container) else None) for k, v in s.items()}


def kept(s, f):
  assert s.keys() == f.keys()
  for k, (v, d) in f.items():
    assert s[k] is v
    assert d is None or (vars(v).keys() == d.keys() and all(vars(v)[q] is d[q] for q in d))


def rest_same(a, b, k):
  if not has(a):
    assert same(a, b), k
    return
  assert type(a) is type(b)
  da, db = dict(vars(a)), dict(vars(b))
  da.pop("sharding"), db.pop("sharding")
  assert da.keys() == db.keys() and all(same(da[q], db[q]) for q in da), k


def add(rng):
  s = rand_sharded(rng)
  f = frz(s)
  i = rng.randrange(0, 7)
  name = rng.choice(["layers", "a", "n"])
  params = rng.choice([{P: name}, {P: name, "other": 1}])
  t = spmd.add_axis(s, i, params)
  assert isinstance(t, State) and list(t) == list(s)
  kept(s, f)
  for k in s:
    rest_same(s[k], t[k], k)
    if has(s[k]):
      sh = s[k].sharding
      want = (sh + (None,) * (i - len(sh)))[:i] + (name,) + sh[i:]
      assert t[k].sharding == want and type(t[k].sharding) is tuple, (sh, i, t[k].sharding)
  g = frz(t)
  within = all(i <= len(s[k].sharding) for k in s if has(s[k]))
  back = spmd.remove_axis(t, i, params)
  assert list(back) == list(s)
  kept(t, g)
  for k in s:
    rest_same(s[k], back[k], k)
    if has(s[k]):
      sh = s[k].sharding
      assert back[k].sharding == (sh if i <= len(sh) else sh + (None,) * (i - len(sh)))
      if within:
        assert same(back[k], s[k])
  if any(has(v) for v in s.values()):
    fails(lambda: spmd.remove_axis(t, i, {P: name + "x"}))
    kept(t, g)
  raised(ValueError, lambda: spmd.add_axis(s, i, {}))
  raised(ValueError, lambda: spmd.add_axis(s, i, {"partition": "x"}))
  raised(ValueError, lambda: spmd.remove_axis(t, i, {"x": 1}))


def negative(rng):
  """negative indices count from the end of the resulting sharding, so that removal is still the inverse."""
  sh = tuple(rng.choice(["a", "b", None]) for _ in range(rng.randrange(0, 4)))
  s = State({"w": nnx.Param(1.0, sharding=sh)})
  i = -rng.randrange(1, len(sh) + 2)
  t = spmd.add_axis(s, i, {P: "L"})
  assert len(t["w"].sharding) == len(sh) + 1 and t["w"].sharding[i] == "L"
  assert spmd.remove_axis(t, i, {P: "L"})["w"].sharding == sh


def nested(rng):
  """two axes added and removed in opposite order; states may come from modules."""
  m = M1(w=nnx.Param(jnp.ones((2, 3)), sharding=("i", "o")), b=nnx.BatchStat(1.0), k=3)
  s = m.get_state()
  i, j = rng.randrange(3), rng.randrange(4)
  t = spmd.add_axis(spmd.add_axis(s, i, {P: "L"}), j, {P: "M"})
  assert len(t["w"].sharding) == 4
  u = spmd.remove_axis(spmd.remove_axis(t, j, {P: "M"}), i, {P: "L"})
  assert same(u, s) or all(same(u[k], s[k]) for k in s)
  spec = spmd.get_partition_spec(t)
  assert tuple(spec["w"]) == t["w"].sharding
  # values are passed through, even when abstract
  a = jax.eval_shape(lambda q: spmd.add_axis(q, 0, {P: "L"}), s)
  assert a["w"].sharding == ("L", "i", "o") and a["w"].value.shape == (2, 3)


CHECKS = [("add then remove", add, 400), ("negative indices", negative, 30), ("nested", nested, 20)]
