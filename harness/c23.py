from lib import *
import copy
import pickle
import threading
from nnx import ids


def twin_of(root):
  """an independently built graph with the same structure."""
  fwd = {}

  def go(m):
    if id(m) in fwd:
      return fwd[id(m)]
    n = object.__new__(type(m))
    from nnx.module import ModuleState
    vars(n)["_module__state"] = ModuleState(m._module__state.is_initializing)
    fwd[id(m)] = n
    ks = list(public(m))
    for k in reversed(ks):
      v = public(m)[k]
      vars(n)[k] = go(v) if is_module(v) else v
    return n
  return go(root), fwd


def static_pub(m):
  return {k: v for k, v in public(m).items() if not is_module(v) and not is_node_value(v)}


def flat_static(rng):
  return rng.choice([1, 0, -3, 2.5, "str", "", None, (), (1, "a"), len, int, nnx.Static(3), frozenset([1])])


def mutate(rng, root):
  """one structural difference; returns False when nothing relevant changed."""
  order, _, _ = walk(root)
  _, m = rng.choice(order)
  k = rng.randrange(7)
  pub = public(m)
  if k == 0:
    vars(m)["added"] = flat_static(rng)
    return True
  if k == 1:
    st = [n for n in static_pub(m)]
    if not st:
      return False
    n = rng.choice(st)
    old = vars(m)[n]
    vars(m)[n] = "something different"
    return True
  if k == 2:
    st = list(static_pub(m))
    if not st:
      return False
    del vars(m)[rng.choice(st)]
    return True
  if k == 3:
    m._module__state.is_initializing = not m._module__state.is_initializing
    return True
  if k == 4:
    vars(m)["newsub"] = rng.choice(MODS)()
    return True
  if k == 5:
    # unshare: one more reference to a fresh copy instead of the shared one
    subs = [n for n, v in pub.items() if is_module(v)]
    if not subs:
      return False
    n = rng.choice(subs)
    new = type(pub[n])()
    vars(m)[n] = new
    return None
  if type(m) is M1:
    return None
  object.__setattr__(m, "__class__", M2 if type(m) is not M2 else M1)
  return True


def struct(root):
  """independent structural key: classes, sharing, statics, flags."""
  order, _, seen = walk(root)
  out = []

  def go(m, vis):
    if id(m) in vis:
      return ("ref", vis[id(m)])
    vis[id(m)] = len(vis)
    r = [type(m), m._module__state.is_initializing]
    subs, st = [], []
    for k in sorted(public(m)):
      v = public(m)[k]
      if is_module(v):
        subs.append((k, go(v, vis)))
      elif not is_node_value(v):
        st.append((k, v))
    return ("mod", tuple(r), tuple(subs), tuple(st))
  return go(root, {})


def hashable(root):
  try:
    hash(root.get_module_def())
    return True
  except TypeError:
    return False


def equality(rng):
  a = rand_graph(rng, init_flags=True)
  b, fwd = twin_of(a)
  da, db = a.get_module_def(), b.get_module_def()
  assert da == db and not (da != db)
  assert hash(da) == hash(db)
  # interchangeable
  st = a.get_state()
  x, y = da.merge(st), db.merge(st)
  isomorphic(x, y)
  # node values do not matter
  for _, m in walk(b)[0]:
    for k, v in list(public(m).items()):
      if isinstance(v, nnx.Variable):
        vars(m)[k] = nnx.Param(99)
  assert b.get_module_def() == da
  r = mutate(rng, b)
  want = struct(a) == struct(b)
  dm = b.get_module_def()
  assert (da == dm) == want, (da, dm, want)
  assert (dm == da) == want
  if want:
    assert hash(da) == hash(dm)
  else:
    c = {da: 1}
    assert dm not in c
  assert da != 3 and da != "x" and not (da == (1, 2))
  # two random graphs
  o = rand_graph(rng, maxm=2, names=["a"])
  p = rand_graph(rng, maxm=2, names=["a"])
  assert (o.get_module_def() == p.get_module_def()) == (struct(o) == struct(p))


def tree(rng):
  a = rand_graph(rng, init_flags=True)
  d = a.get_module_def()
  assert jax.tree_util.tree_leaves(d) == []
  leaves, td = jax.tree_util.tree_flatten(d)
  e = jax.tree_util.tree_unflatten(td, leaves)
  assert type(e) is type(d) and e == d and hash(e) == hash(d) and e.index == d.index
  assert e.module_state == d.module_state and e.submodules == d.submodules and e.static_fields == d.static_fields and e.type is d.type
  f = jax.tree_util.tree_map(lambda q: 1 / 0, {"k": [d]})["k"][0]
  assert f == d
  st = a.get_state()
  isomorphic(d.merge(st), e.merge(st))
  isomorphic(a, f.merge(st))
  b, _ = twin_of(a)
  assert jax.tree_util.tree_structure(b.get_module_def()) == td


def compiled(rng):
  """a function compiled for one definition is reused exactly for equal ones."""
  n = [0]

  @jax.jit
  def f(pure):
    n[0] += 1
    from nnx import tracers
    with tracers.nnx_trace(tracers.get_top_trace(pure)):
      m = pure.merge()
      return jnp.asarray(float(m.k)) + (10.0 if m.is_initializing else 0.0) + (100.0 if m.s is m.t else 0.0)

  def mk(k, flag, share):
    m = M1(k=k, w=nnx.Param(jnp.ones(2)))
    m.s = M1(z=1)
    m.t = m.s if share else M1(z=1)
    m._module__state.is_initializing = flag
    return m
  seen = set()
  for _ in range(10):
    c = (rng.choice([1, 2]), rng.random() < .5, rng.random() < .5)
    v = float(f(mk(*c).partition()))
    seen.add(c)
    assert v == c[0] + (10 if c[1] else 0) + (100 if c[2] else 0), (v, c)
    assert n[0] == len(seen)


def uuids(rng):
  us = [ids.uuid() for _ in range(rng.randrange(1, 20))]
  us += [copy.copy(rng.choice(us)) for _ in range(3)] + [copy.deepcopy(rng.choice(us)) for _ in range(3)]
  us += list(copy.deepcopy({"k": us[0]}).values())
  us += copy.deepcopy([us[0], (us[1 % len(us)],)])[:1]
  assert len(set(us)) == len(us)
  for i, a in enumerate(us):
    for j, b in enumerate(us):
      assert (a == b) == (i == j)
      if a == b:
        assert hash(a) == hash(b)
    assert a != a.id and a == ids.UUID(a.id) and hash(a) == hash(ids.UUID(a.id))
  out = []
  lock = threading.Lock()

  def work():
    mine = [ids.uuid() for _ in range(300)]
    with lock:
      out.extend(mine)
  ts = [threading.Thread(target=work) for _ in range(4)]
  [t.start() for t in ts], [t.join() for t in ts]
  assert len(set(out)) == len(out) == 1200 and not set(out) & set(us)
  m = M1(a=M0())
  c = m.clone()
  all_ids = [m._module__state.id, m.a._module__state.id, c._module__state.id, c.a._module__state.id]
  assert len(set(all_ids)) == 4


CHECKS = [("equality and hash", equality, 400), ("tree operations", tree, 100), ("compiled reuse", compiled, 4), ("module ids", uuids, 20)]
