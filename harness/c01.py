from lib import *


def check_entries(state, entries):
  assert type(state) is State
  assert list(state) == sorted(p for p, _ in entries), (list(state), [p for p, _ in entries])
  for p, v in entries:
    assert state[p] is v or same(state[p], v), p


def whole(rng):
  m = rand_graph(rng, maxm=rng.choice([1, 3, 5, 8]), init_flags=True)
  pic = snapshot(m)
  _, entries, _ = walk(m)
  paths = [p for p, _ in entries]
  if len(set(paths)) != len(paths):
    return
  p = m.partition()
  check_entries(p.states, entries)
  check_entries(m.get_state(), entries)
  n = p.merge()
  isomorphic(m, n)
  unchanged(pic)
  n2 = m.clone()
  isomorphic(m, n2)
  isomorphic(n, n2)
  isomorphic(m, p.moduledef.merge(m.get_state()))
  unchanged(pic)
  # usable at the current trace level, and independent of the original
  for _, k in walk(n)[0]:
    k.new_attr = 5
    assert k.new_attr == 5
    del k.new_attr
  for _, k in walk(n)[0]:
    for nm, v in list(public(k).items()):
      if isinstance(v, nnx.Variable) and nm.isidentifier():
        setattr(k, nm, "changed")
  unchanged(pic)
  isomorphic(m, p.merge())


def filters(rng):
  m = rand_graph(rng, maxm=6, init_flags=True)
  pic = snapshot(m)
  _, entries, _ = walk(m)
  accs = [rand_filter(rng, 2, 0, ell=False) for _ in range(rng.randrange(0, 4))] + [Acc(..., lambda p, x: True)]
  p = m.partition(*[a.f for a in accs])
  if len(accs) == 1:
    assert type(p.states) is State
  else:
    assert type(p.states) is tuple and len(p.states) == len(accs)
  parts = p.states if isinstance(p.states, tuple) else (p.states,)
  seen = []
  for s, a, i in zip(parts, accs, range(99)):
    for path, v in s.items():
      seen.append(path)
  assert sorted(seen) == sorted(q for q, _ in entries)
  isomorphic(m, p.merge())
  sh = list(parts)
  rng.shuffle(sh)
  isomorphic(m, p.moduledef.merge(*sh))
  q = jax.tree_util.tree_map(lambda x: x, p)
  isomorphic(m, q.merge(), leaf=lambda a, b: same(a, b) or leaf_close(a, b))
  unchanged(pic)


def leaf_close(a, b):
  if isinstance(a, containers.Container):
    return type(a) is type(b) and {k: v for k, v in vars(a).items() if k != "value"} == {
        k: v for k, v in vars(b).items() if k != "value"}
  return type(a) is type(b)


def fixed(rng):
  # sharing through attributes visited in a different order than created
  a, b, c = M0(), M1(), M2()
  vars(a)["z"] = b
  vars(a)["a"] = c
  vars(c)["x"] = b
  vars(b)["up"] = a
  b.w = nnx.Param(1.0, sharding=("i",))
  c.w = nnx.BatchStat(2.0)
  a.s = (1, 2)
  p = a.partition()
  assert list(p.states) == ["a/w", "a/x/w"]
  n = p.merge()
  assert n.a.x is n.z and n.z.up is n and n.z.w == 1.0 and n.s == (1, 2)
  assert vars(n.z)["w"].sharding == ("i",) and type(vars(n.a)["w"]) is nnx.BatchStat
  # a long chain and a wide fan
  root = M0()
  cur = root
  for i in range(60):
    nxt = M1()
    cur.n = nxt
    nxt.v = nnx.Param(i)
    cur = nxt
  cur.n = root
  isomorphic(root, root.clone())
  w = M0()
  sh = M1(v=nnx.Param(3))
  for i in range(40):
    setattr(w, f"k{i}", sh if i % 3 else M2(v=nnx.Cache(i)))
  isomorphic(w, w.clone())
  # two equal-looking but distinct sub-modules stay distinct
  d = M0()
  d.l, d.r = M1(v=nnx.Param(1)), M1(v=nnx.Param(1))
  e = d.clone()
  assert e.l is not e.r
  e.l.v = 9
  assert e.r.v == 1 and d.l.v == 1
  # empty graph, filters covering with several passes
  isomorphic(M0(), M0().clone())
  st, rest = d.partition(lambda p, x: p.startswith("l"), ...).states
  assert list(st) == ["l/v"] and list(rest) == ["r/v"]
  raised(ValueError, lambda: d.partition(nnx.BatchStat))
  # private and underscore names are attributes like any other
  f = M0()
  f._hidden = nnx.Param(4)
  f._mod = M1(v=nnx.Param(5))
  f.__dict__["_static"] = 3
  g = f.clone()
  assert g._hidden == 4 and g._mod.v == 5 and g._static == 3
  assert list(f.get_state()) == ["_hidden", "_mod/v"]
  # Static containers stay containers
  f.k = nnx.Static(7)
  assert type(vars(f.clone())["k"]) is nnx.Static and f.clone().k == 7
  # None and falsy statics survive
  f.n0, f.n1, f.n2, f.n3 = None, 0, "", False
  h = f.clone()
  assert h.n0 is None and h.n1 == 0 and h.n2 == "" and h.n3 is False
  # __init__ is not run again
  calls = []

  class Counted(nnx.Module):
    def __init__(self):
      calls.append(1)
      self.x = nnx.Param(1)
  cc = Counted()
  cc.clone()
  assert len(calls) == 1


CHECKS = [("whole", whole, 500), ("filters", filters, 300), ("fixed", fixed, 1)]
