from lib import *
import jax.tree_util as jtu
from nnx.containers import ContainerMetadata, NodeBase
from nnx.pytreelib import TreeNode


class Custom(nnx.Variable):

  def __init__(self, value, extra=7, **md):
    super().__init__(value, extra=extra, **md)


class Deep(Custom):
  pass


class Bare(NodeBase):
  pass


class OwnTree(TreeNode):
  pass


KINDS = VARS + [nnx.Node, Custom, Deep, Bare, OwnTree, TreeNode, nnx.Variable]


def meta(c):
  return {k: v for k, v in vars(c).items() if k != "value"}


def mk(rng, value=None):
  cls = rng.choice(KINDS)
  return cls(payload(rng) if value is None else value, **metadata(rng))


def node(rng):
  c = mk(rng)
  cls, md, v = type(c), meta(c), c.value
  before = dict(vars(c))
  leaves, td = jtu.tree_flatten(c)
  vl, vtd = jtu.tree_flatten(v)
  assert len(leaves) == len(vl) and all(x is y for x, y in zip(leaves, vl))
  # exactly one child, the value itself
  kids = []
  top = jtu.tree_flatten(c, is_leaf=lambda x: x is not c)[0]
  assert len(top) == 1 and top[0] is v
  kp = jtu.tree_flatten_with_path(c, is_leaf=lambda x: x is not c)[0]
  assert len(kp) == 1 and kp[0][1] is v
  assert [str(k) for k in kp[0][0]] == [".value"]
  full = jtu.tree_flatten_with_path(c)[0]
  assert [x for _, x in full] == leaves or all(x is y for (_, x), y in zip(full, leaves))
  d = jtu.tree_unflatten(td, leaves)
  assert type(d) is cls and d is not c and same(d, c)
  new = [object() for _ in leaves]
  e = jtu.tree_unflatten(td, new)
  assert type(e) is cls and meta(e) == md
  got = jtu.tree_leaves(e)
  assert all(x is y for x, y in zip(got, new)) and len(got) == len(new)
  assert jtu.tree_structure(e) == td and jtu.tree_structure(c) == td
  assert vars(c).keys() == before.keys() and all(vars(c)[k] is before[k] for k in before)
  # mutating the results cannot reach the structure or the original
  vars(d)["hack"] = 1
  vars(e)["value"] = 0
  f = jtu.tree_unflatten(td, leaves)
  assert same(f, c) and "hack" not in vars(f)
  g = jtu.tree_map(lambda x: x, c)
  assert same(g, c)
  s = rng.choice([0, "leaf", None, 1.5])
  top_td = jtu.tree_structure(c, is_leaf=lambda x: x is not c)
  h = jtu.tree_unflatten(top_td, [s])
  assert type(h) is cls and meta(h) == md and h.value is s


def structure(rng):
  """class and every metadata entry take part in the structure; the value does not."""
  a = mk(rng, 1.0)
  b = type(a)(2.0, **meta(a))
  assert jtu.tree_structure(a) == jtu.tree_structure(b)
  k = rng.randrange(3)
  if k == 0:
    md = dict(meta(a))
    md["added"] = 1
    o = type(a)(1.0, **md)
  elif k == 1 and meta(a):
    md = dict(meta(a))
    md[rng.choice(list(md))] = "something else"
    o = type(a)(1.0, **md)
  else:
    cls = rng.choice([c for c in (nnx.Param, nnx.BatchStat, VarSub, nnx.Cache) if c is not type(a)])
    md = dict(meta(a))
    o = cls(1.0, **md)
  assert jtu.tree_structure(a) != jtu.tree_structure(o)


def static(rng):
  vals = [1, 0, -1, 2.5, "s", "", (1, 2), (), None, "t", (1, 3), len, frozenset([1])]
  a, b = rng.choice(vals), rng.choice(vals)
  x, y = nnx.Static(a), nnx.Static(b)
  assert jtu.tree_leaves(x) == []
  assert (jtu.tree_structure(x) == jtu.tree_structure(y)) == (a == b)
  z = jtu.tree_unflatten(jtu.tree_structure(x), [])
  assert type(z) is nnx.Static and z.value == a and z == x
  if a == b:
    assert hash(x) == hash(y)
  m = jtu.tree_map(lambda q: 1 / 0, {"k": x})
  assert m["k"] == x
  calls = []

  @jax.jit
  def f(s, q):
    calls.append(s.value)
    return q
  if not callable(a) and not isinstance(a, frozenset):
    f(x, 1.0), f(nnx.Static(a), 2.0)
    assert len(calls) == 1 and calls[0] == a
    f(nnx.Static("another"), 2.0)
    assert calls == [a, "another"]


def compiled(rng):
  """variables cross jit with class and metadata."""
  c = mk(rng, jnp.arange(3.0))
  out = jax.jit(lambda v: type(v)(v.value * 2, **meta(v)))(c)
  assert type(out) is type(c) and meta(out) == meta(c) and np.array_equal(out.value, [0, 2, 4])


def initializer(rng):
  md = metadata(rng)
  v = payload(rng)
  got = []

  def base(*args):
    got.append(args)
    return v
  init = nnx.with_metadata(base, **md)
  args = (1, (2, 3), "x")[: rng.randrange(4)]
  src = dict(md)
  r = init(*args)
  assert isinstance(r, ContainerMetadata) and got == [args]
  cls = rng.choice(KINDS)
  own = {k: x for k, x in metadata(rng).items() if k not in md}
  c = cls(r, **own)
  want = dict(own)
  want.update(md)
  if issubclass(cls, nnx.Variable):
    want.setdefault("sharding", None)
  if issubclass(cls, Custom):
    want.setdefault("extra", 7)
  assert type(c) is cls and c.value is v and meta(c) == want, (meta(c), want)
  # the initializer stays usable and unshared
  vars(c)["hack"] = 3
  d = cls(init(*args), **own)
  assert meta(d) == want and md == src
  from nnx.spmd import with_logical_partitioning
  p = with_logical_partitioning(base, ("a", None))
  e = nnx.Param(p(), foo=1)
  assert e.sharding == ("a", None) and e.value is v and e.foo == 1
  # through assignment
  m = M1()
  m.w = nnx.Param(init(*args))
  q = dict(md)
  q.setdefault("sharding", None)
  assert meta(vars(m)["w"]) == q and m.w is v


CHECKS = [("variables are one-child nodes", node, 300), ("what the structure holds", structure, 200),
          ("static containers", static, 60), ("through jit", compiled, 15), ("with_metadata initializers", initializer, 200)]
