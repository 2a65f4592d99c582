"""Generators and independent oracles shared by the executable properties."""
import contextlib
import copy

import jax
import jax.numpy as jnp
import numpy as np

import nnx
from nnx import containers
from nnx.state import State


class VarA(nnx.Variable):
  pass


class VarSub(nnx.Param):
  pass


class M0(nnx.Module):
  pass


class M1(nnx.Module):

  def __init__(self, *args, **kw):
    for k, v in kw.items():
      setattr(self, k, v)

  def ping(self, x):
    return x


class M2(M1):
  cls_attr = 7


MODS = [M0, M1, M2]
NAMES = ["a", "b", "a-b", "aa", "B", "z", "_p", "0", "a b", "ab", "10", "9", "é", "", "A", "_module", "x.y", "a!"]
VARS = [nnx.Param, nnx.BatchStat, nnx.Cache, nnx.Intermediate, VarA, VarSub]


def arr(rng):
  k = rng.randrange(6)
  if k == 0:
    return np.arange(rng.randrange(4)).astype(np.float32) + rng.random()
  if k == 1:
    return jnp.asarray(rng.random())
  if k == 2:
    return jnp.ones((rng.randrange(3), 2)) * rng.randrange(9)
  if k == 3:
    return rng.randrange(100)
  if k == 4:
    return rng.random()
  return np.array([[rng.randrange(9)]])


def payload(rng):
  k = rng.randrange(8)
  if k == 0:
    return (arr(rng), arr(rng))
  if k == 1:
    return {"u": arr(rng)}
  if k == 2:
    return rng.choice([None, "s", True, False, ()])
  return arr(rng)


def metadata(rng):
  md = {}
  for k in ("sharding", "foo", "tag", "meta", "collection"):
    if rng.random() < 0.3:
      md[k] = ("x", None)[: rng.randrange(3)] if k == "sharding" else rng.choice(
          [1, "s", (1, 2), None, True, ("a",)])
  return md


def variable(rng, value=None):
  return rng.choice(VARS)(payload(rng) if value is None else value, **metadata(rng))


def node_attr(rng):
  k = rng.randrange(10)
  if k == 0:
    return np.arange(3.0) + rng.randrange(5)
  if k == 1:
    return jnp.ones(2) * rng.randrange(5)
  if k == 2:
    return nnx.Node(payload(rng), **{q: v for q, v in metadata(rng).items()})
  if k == 3:
    return State({"q": rng.randrange(9), "p/r": rng.randrange(9)})
  return variable(rng)


def static_attr(rng):
  return rng.choice([1, 0, -3, 2.5, "str", "", None, True, False, (), (1, "a"), ("x", None), len, int, nnx.Static(3),
                     nnx.Static("s"), frozenset([1]), b"x", ...])


def rand_graph(rng, maxm=5, static=True, init_flags=False, names=None):
  """a random module graph: sharing, cycles, self references, empty modules."""
  names = names or NAMES
  n = rng.randrange(1, maxm + 1)
  mods = [rng.choice(MODS)() for _ in range(n)]
  for i, m in enumerate(mods):
    for nm in rng.sample(names, rng.randrange(0, min(7, len(names)))):
      r = rng.random()
      if r < 0.4:
        vars(m)[nm] = node_attr(rng)
      elif r < 0.62 and static:
        vars(m)[nm] = static_attr(rng)
      elif r < 1.0:
        vars(m)[nm] = mods[rng.randrange(n)]
    if init_flags and rng.random() < 0.4:
      m._module__state.is_initializing = True
  # make most modules reachable
  for j in range(1, n):
    if rng.random() < 0.8:
      vars(mods[rng.randrange(j)])[f"c{j}"] = mods[j]
  return mods[0]


def is_module(x):
  return isinstance(x, nnx.Module)


def is_node_value(x):
  return isinstance(x, (jax.Array, np.ndarray, nnx.Node, State, nnx.Pure)) or nnx.is_node(x)


def public(m):
  return {k: v for k, v in object.__getattribute__(m, "__dict__").items() if not k.startswith("_module__")}


def walk(root):
  """independent model of the graph: modules in first-visit order and the
  state entries (path, value) of the depth-first alphabetical walk."""
  order, seen, entries = [], {}, []

  def go(m, path):
    if id(m) in seen:
      return
    seen[id(m)] = len(order)
    order.append((path, m))
    pub = public(m)
    for k in sorted(pub):
      v = pub[k]
      if is_module(v):
        go(v, path + (k,))
      elif is_node_value(v):
        entries.append(("/".join(path + (k,)), v))
  go(root, ())
  return order, entries, seen


def same(a, b):
  """deep equality of leaf values, types included."""
  if type(a) is not type(b):
    if isinstance(a, jax.Array) and isinstance(b, jax.Array):
      pass
    else:
      return False
  if isinstance(a, (jax.Array, np.ndarray)):
    return a.dtype == b.dtype and a.shape == b.shape and bool(np.array_equal(np.asarray(a), np.asarray(b)))
  if isinstance(a, containers.Container):
    va, vb = vars(a), vars(b)
    return va.keys() == vb.keys() and all(same(va[k], vb[k]) for k in va)
  if isinstance(a, State):
    return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
  if isinstance(a, (tuple, list)):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  if isinstance(a, dict):
    return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
  try:
    return bool(a == b)
  except Exception:
    return a is b


def snapshot(root):
  """identity-preserving picture of a graph, to check nothing changed."""
  order, entries, seen = walk(root)
  pic = []
  for path, m in order:
    pic.append((m, type(m), dict(public(m)), list(public(m)), m._module__state,
                {k: (dict(vars(v)) if isinstance(v, containers.Container) else
                     dict(v) if isinstance(v, State) else
                     np.array(v, copy=True) if isinstance(v, np.ndarray) else None)
                 for k, v in public(m).items()}, m._module__state.is_initializing))
  return pic


def unchanged(pic):
  for m, t, pub, order, st, deep, flag in pic:
    assert type(m) is t
    now = public(m)
    assert now.keys() == pub.keys(), (now.keys(), pub.keys())
    for k in pub:
      assert now[k] is pub[k], f"attribute {k!r} was replaced"
      v, d = now[k], deep[k]
      if isinstance(v, containers.Container):
        assert vars(v).keys() == d.keys() and all(vars(v)[q] is d[q] for q in d), f"container {k!r} changed"
      elif isinstance(v, State):
        assert list(v) == list(d) and all(v[q] is d[q] for q in d), f"state {k!r} changed"
      elif isinstance(v, np.ndarray):
        assert np.array_equal(v, d), f"array {k!r} changed"
    assert m._module__state is st
    assert m._module__state.is_initializing == flag


def isomorphic(a, b, leaf=same, fresh=True):
  """a and b are isomorphic graphs (b made of other objects when fresh)."""
  fwd, bwd = {}, {}
  oa = {id(m) for _, m in walk(a)[0]}

  def go(x, y, path):
    assert type(x) is type(y), f"{path}: class {type(x).__name__} vs {type(y).__name__}"
    if id(x) in fwd or id(y) in bwd:
      assert fwd.get(id(x)) == id(y) and bwd.get(id(y)) == id(x), f"{path}: sharing differs"
      return
    if fresh:
      assert id(y) not in oa, f"{path}: not a fresh module"
    fwd[id(x)], bwd[id(y)] = id(y), id(x)
    px, py = public(x), public(y)
    assert px.keys() == py.keys(), f"{path}: attributes {sorted(px)} vs {sorted(py)}"
    assert x._module__state.is_initializing == y._module__state.is_initializing, f"{path}: init flag"
    if fresh:
      assert not (x._module__state.id == y._module__state.id), f"{path}: same id"
      assert y._module__state is not x._module__state
    for k in px:
      u, v = px[k], py[k]
      if is_module(u) or is_module(v):
        assert is_module(u) and is_module(v), f"{path}/{k}: module vs value"
        go(u, v, path + "/" + k)
      else:
        assert is_node_value(u) == is_node_value(v)
        assert leaf(u, v), f"{path}/{k}: {u!r} vs {v!r}"
  go(a, b, "")


def rand_path(rng):
  return "/".join(rng.choice(["a", "b", "a-b", "aa", "B", "z", "0", "10", "9", "é", "a.b"]) for _ in range(rng.randrange(1, 4)))


def rand_entries(rng, n=None):
  n = rng.randrange(0, 9) if n is None else n
  out = {}
  while len(out) < n:
    out[rand_path(rng)] = rng.choice([variable(rng), node_attr(rng), payload(rng)])
  ks = list(out)
  rng.shuffle(ks)
  return {k: out[k] for k in ks}


def rand_state(rng, n=None):
  return State(rand_entries(rng, n))


class Acc:
  """a filter together with its independent meaning and validity."""

  def __init__(self, f, fn, valid=True):
    self.f, self.fn, self.valid = f, fn, valid


def rand_filter(rng, depth=2, invalid=0.0, ell=True):
  r = rng.random()
  if r < invalid:
    bad = rng.choice(["params", "", 3, 2.5, ["x"], {"a": 1}, {1}, b"p", np.ones(2), State({})])
    return Acc(bad, None, False)
  k = rng.randrange(11 if depth > 0 else 6)
  if k <= 1:
    t = rng.choice(VARS + [nnx.Variable, nnx.Node, containers.Container, jax.Array, np.ndarray, int, object, State, str, type(None)])
    return Acc(t, lambda p, x: isinstance(x, t))
  if k == 2:
    return Acc(None, lambda p, x: False)
  if k == 3:
    c = rng.choice("abzB09")
    v = rng.choice([(lambda b: b), (lambda b: [1] if b else []), (lambda b: "y" if b else ""), (lambda b: np.bool_(b))])
    return Acc(lambda path, value: v(c in path), lambda p, x: c in p)
  if k == 4:
    if ell:
      return Acc(..., lambda p, x: True)
    return Acc(nnx.Param, lambda p, x: isinstance(x, nnx.Param))
  if k == 5:
    return Acc(lambda path, value: not isinstance(value, nnx.Variable), lambda p, x: not isinstance(x, nnx.Variable))
  subs = [rand_filter(rng, depth - 1, invalid) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
  ok = all(s.valid for s in subs)
  fs = [s.f for s in subs]
  if k in (6, 7):
    return Acc(tuple(fs), lambda p, x: any([s.fn(p, x) for s in subs]), ok)
  if k == 8:
    return _lazy(lambda: nnx.All(*fs), lambda p, x: all([s.fn(p, x) for s in subs]), ok)
  if k == 9:
    from nnx.partitioning import Any
    return _lazy(lambda: Any(*fs), lambda p, x: any([s.fn(p, x) for s in subs]), ok)
  s = rand_filter(rng, depth - 1, invalid)
  return _lazy(lambda: nnx.Not(s.f), lambda p, x: not s.fn(p, x), s.valid)


class Build:
  """a filter built by a combinator call that may itself raise."""

  def __init__(self, mk):
    self.mk = mk


def _lazy(mk, fn, ok):
  if not ok:
    raised(TypeError, mk)
    return Acc("invalid", None, False)
  return Acc(mk(), fn, True)


def raised(exc, thunk):
  try:
    r = thunk()
  except exc as e:
    assert type(e) is exc or exc is not ValueError and exc is not TypeError or isinstance(e, exc)
    return e
  raise AssertionError(f"{exc.__name__} expected, got {r!r}")


def first_match(accs, path, value):
  for i, a in enumerate(accs):
    if a.fn(path, value):
      return i
  return None


def leaves_of(x):
  return jax.tree_util.tree_leaves(x)


@contextlib.contextmanager
def other_trace():
  """run the body under a different jax and nnx trace."""
  from nnx import tracers
  with jax.core.new_main(jax.core.EvalTrace) if False else contextlib.nullcontext():
    yield


def fails(thunk):
  """any exception."""
  try:
    r = thunk()
  except Exception as e:
    return e
  raise AssertionError(f"an exception was expected, got {r!r}")
