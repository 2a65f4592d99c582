from pytrees import *
import jax.tree_util as jtu
from flax import serialization


def is_nodeish(v):
  return isinstance(v, (jax.Array, np.ndarray, nnx.Node, nnx.Pytree, nnx.TreeNode, State))


def flat(rng):
  o = rand_obj(rng, 1)
  p = pic(o)
  fl = fields_of(o)
  want = [k for k in sorted(fl) if is_nodeish(fl[k])]
  top = jtu.tree_flatten_with_path(o, is_leaf=lambda x: x is not o)[0]
  assert [str(k[0]) for k, _ in top] == ["." + k for k in want], ([str(k) for k, _ in top], want)
  assert all(x is fl[k] for (_, x), k in zip(top, want))
  l2 = jtu.tree_flatten(o, is_leaf=lambda x: x is not o)[0]
  assert len(l2) == len(want) and all(a is fl[k] for a, k in zip(l2, want))
  leaves, td = jtu.tree_flatten(o)
  n = jtu.tree_unflatten(td, leaves)
  assert type(n) is type(o) and n is not o
  assert same_obj(n, o)
  for k in fl:
    if k not in want:
      assert vars(n)[k] is fl[k] or same(vars(n)[k], fl[k])
  # only the leaves take part in what changes
  new = [np.array([i, 7.0]) for i, _ in enumerate(leaves)]
  e = jtu.tree_unflatten(td, new)
  assert type(e) is type(o) and all(a is b for a, b in zip(jtu.tree_leaves(e), new))
  assert list(fields_of(e)) and fields_of(e).keys() == fl.keys() or not fl
  assert jtu.tree_structure(e) == td
  for k in fl:
    if k not in want:
      assert same(vars(e)[k], fl[k])
  back = jtu.tree_unflatten(jtu.tree_structure(e), leaves)
  assert same_obj(back, o)
  locked(n)
  locked(e)
  assert_pic(o, p)


def structure(rng):
  o = P0(a=nnx.Param(1.0), s=nnx.Static(1), k=3)
  assert jtu.tree_structure(o) == jtu.tree_structure(P0(a=nnx.Param(2.0), s=nnx.Static(1), k=3))
  for q in (P0(a=nnx.Param(1.0), s=nnx.Static(2), k=3), P0(a=nnx.Param(1.0), s=nnx.Static(1), k=4),
            P0(a=nnx.BatchStat(1.0), s=nnx.Static(1), k=3), P1(a=nnx.Param(1.0), s=nnx.Static(1), k=3),
            P0(b=nnx.Param(1.0), s=nnx.Static(1), k=3)):
    assert jtu.tree_structure(o) != jtu.tree_structure(q)
  out = jax.jit(lambda t: t.replace(a=t.a * 2))(o)
  assert type(out) is P0 and out.a == 2 and out.s == 1 and out.k == 3 and type(vars(out)["a"]) is nnx.Param


def rand_ser(rng, depth=1):
  """an object every node field of which flax can serialize."""
  kw = {}
  for n in rng.sample(FIELDS, rng.randrange(0, 6)):
    k = rng.randrange(7)
    if k == 0:
      kw[n] = nnx.Param(np.arange(2.0) + rng.randrange(5), sharding=("x",))
    elif k == 1:
      kw[n] = nnx.Node({"u": np.ones(2) * rng.randrange(5), "v": np.zeros(1)})
    elif k == 2:
      kw[n] = np.arange(3.0) * rng.randrange(5)
    elif k == 3:
      kw[n] = jnp.ones(2) * rng.randrange(5)
    elif k == 4 and depth:
      kw[n] = rand_ser(rng, depth - 1)
    elif k == 5:
      kw[n] = nnx.Static(rng.randrange(4))
    else:
      kw[n] = rng.choice([1, "s", (1, 2)])
  return rng.choice(PLAIN + MUT)(**kw)


def expect_dict(o):
  out = {}
  for k, v in fields_of(o).items():
    if is_nodeish(v):
      raw = v.value if isinstance(v, containers.Container) else v
      out[k] = expect_dict(raw) if isinstance(raw, nnx.Pytree) else raw
  return out


def perturb(d):
  if isinstance(d, dict):
    return {k: perturb(v) for k, v in d.items()}
  return np.asarray(d) + 10.0


def eq_dict(a, b):
  if isinstance(a, dict) or isinstance(b, dict):
    return isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys() and all(eq_dict(a[k], b[k]) for k in a)
  return np.array_equal(np.asarray(a), np.asarray(b))


def state_dict(rng):
  o = rand_ser(rng)
  p = pic(o)
  sd = serialization.to_state_dict(o)
  want = expect_dict(o)
  assert eq_dict(sd, want), (sd, want)
  new = perturb(sd)
  ks = list(new)
  rng.shuffle(ks)
  new = {k: new[k] for k in ks}
  keep = dict(new)
  n = serialization.from_state_dict(o, new)
  assert new == keep or list(new) == list(keep)
  assert new.keys() == keep.keys() and all(new[k] is keep[k] for k in keep), "the given state dict changed"
  assert type(n) is type(o) and n is not o

  def chk(n, o):
    assert type(n) is type(o)
    a, b = fields_of(n), fields_of(o)
    assert a.keys() == b.keys()
    for k in b:
      if not is_nodeish(b[k]):
        assert same(a[k], b[k])
      elif isinstance(b[k], nnx.Pytree):
        chk(a[k], b[k])
      elif isinstance(b[k], containers.Container):
        assert type(a[k]) is type(b[k]) and meta(a[k]) == meta(b[k])
  chk(n, o)
  assert eq_dict(serialization.to_state_dict(n), new)
  locked(n)
  same_again = serialization.from_state_dict(o, sd)
  assert eq_dict(serialization.to_state_dict(same_again), sd)
  raised(ValueError, lambda: serialization.from_state_dict(o, {**new, "unknown_field": 1}))
  if new:
    k = rng.choice(list(new))
    less = {q: v for q, v in new.items() if q != k}
    raised(ValueError, lambda: serialization.from_state_dict(o, less))
    raised(ValueError, lambda: serialization.from_state_dict(o, {**less, k + "_renamed": new[k]}))
  nonnodes = [k for k, v in fields_of(o).items() if not is_nodeish(v)]
  if nonnodes:
    raised(ValueError, lambda: serialization.from_state_dict(o, {**new, nonnodes[0]: 1}))
  assert_pic(o, p)


def dataclass_dict(rng):
  o = D0(w=np.ones(2), n=np.zeros(1), t=np.ones(1), s=rng.randrange(4))
  sd = serialization.to_state_dict(o)
  assert set(sd) == {"w", "n", "t"}
  n = serialization.from_state_dict(o, perturb(sd))
  assert type(n) is D0 and n.s == o.s and np.array_equal(n.w, [11, 11]) and n.n == 10 and n.t == 11
  assert type(vars(n)["w"]) is nnx.Param and type(vars(n)["t"]) is nnx.BatchStat and vars(n)["t"].sharding == ("a",)
  leaves, td = jtu.tree_flatten(o)
  q = jtu.tree_unflatten(td, leaves)
  assert same_obj(q, o)


CHECKS = [("flatten and unflatten", flat, 300), ("structure", structure, 2), ("state dicts", state_dict, 150),
          ("dataclass state dicts", dataclass_dict, 10)]
