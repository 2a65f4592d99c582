from lib import *


def graph(rng):
  while True:
    m = rand_graph(rng, maxm=5)
    _, e, _ = walk(m)
    if len({p for p, _ in e}) == len(e):
      return m, e


def updates_for(rng, entries):
  d = {}
  for p, v in entries:
    if rng.random() < 0.5:
      if isinstance(v, containers.Container):
        d[p] = v.replace(value=rng.randrange(1000)) if rng.random() < 0.7 else type(v)(
            np.ones(2) * rng.randrange(99), **{k: q for k, q in vars(v).items() if k != "value"})
      elif isinstance(v, State):
        d[p] = State({"new": 1})
      else:
        d[p] = np.ones(3) * rng.randrange(50)
  return d


def module(rng):
  m, entries = graph(rng)
  order0, _, _ = walk(m)
  before = dict(entries)
  statics = [(x, {k: v for k, v in public(x).items() if not is_node_value(v)}) for _, x in order0]
  us = [updates_for(rng, entries) for _ in range(rng.randrange(1, 4))]
  states = [State(u) for u in us]
  pics = [dict(s) for s in states]
  vals = {id(v): (v, dict(vars(v))) for u in us for v in u.values() if isinstance(v, containers.Container)}
  k = rng.randrange(6)
  if k == 0:
    us, arg = us[-1:], states[-1]
  elif k == 1:
    arg = tuple(states)
  elif k == 2:
    p = m.partition()
    arg = nnx.Pure.new(tuple(states), p.moduledef)
  elif k == 3:
    us = us[-1:]
    arg = nnx.Pure.new(states[-1], m.get_module_def())
  elif k == 4:
    other = m.clone()
    ent2 = walk(other)[1]
    u = {}
    for p, v in ent2:
      if isinstance(v, nnx.Variable):
        tgt = other
        *path, name = p.split("/")
        for q in path:
          tgt = vars(tgt)[q]
        vars(tgt)[name] = v.replace(value=rng.randrange(1000))
    us = [dict(walk(other)[1])]
    arg = other
    opic = snapshot(other)
  else:
    us, arg = us, tuple(states)
  assert m.update_state(arg) is None
  want = dict(before)
  for u in us:
    want.update(u)
  got = dict(walk(m)[1])
  assert got.keys() == want.keys(), (got.keys(), want.keys())
  for p in want:
    assert same(got[p], want[p]), (p, got[p], want[p])
  order1, _, _ = walk(m)
  assert [(p, id(x)) for p, x in order0] == [(p, id(x)) for p, x in order1]
  for x, st in statics:
    now = {k: v for k, v in public(x).items() if not is_node_value(v)}
    assert now.keys() == st.keys() and all(now[k] is st[k] for k in st)
  for s, pic in zip(states, pics):
    assert list(s) == sorted(pic) and all(s[q] is pic[q] for q in pic)
  for v, d in vals.values():
    assert vars(v) == d or all(vars(v)[q] is d[q] for q in d)
  if k == 4:
    unchanged(opic)
    # no aliasing between the two modules
    for (p, v), (q, w) in zip(walk(m)[1], walk(other)[1]):
      if isinstance(v, containers.Container):
        assert v is not w
  for p, v in walk(m)[1]:
    for s in states:
      if p in s and isinstance(v, containers.Container):
        assert v is not s[p], "an update's container was stored, not copied"


def pure(rng):
  m, entries = graph(rng)
  k = rng.randrange(2)
  p = m.partition() if k else m.partition(nnx.Param, nnx.BatchStat, ...)
  raw = p.states
  before = dict(entries)
  us = [updates_for(rng, entries) for _ in range(rng.randrange(1, 4))]
  for u in us:
    if rng.random() < 0.3:
      u["new/path"] = nnx.Param(rng.randrange(9))
  states = [State(u) for u in us]
  c = rng.randrange(5)
  if c == 0:
    us, arg = us[-1:], states[-1]
  elif c == 1:
    arg = tuple(states)
  elif c == 2:
    arg = nnx.Pure.new(tuple(states), p.moduledef)
  elif c == 3:
    us, arg = us[-1:], nnx.Pure.new(states[-1], p.moduledef)
  else:
    other = m.clone()
    us, arg = [dict(walk(other)[1])], other
  q = p.update_state(arg)
  assert type(q) is nnx.Pure and type(q.states) is State
  want = dict(before)
  for u in us:
    want.update(u)
  assert list(q.states) == sorted(want)
  for x in want:
    assert q.states[x] is want[x] or same(q.states[x], want[x]), x
  assert q.moduledef == p.moduledef and p.states is raw
  if isinstance(raw, State):
    assert list(raw) == sorted(before) and all(raw[x] is before[x] for x in before)
  else:
    assert sorted(x for s in raw for x in s) == sorted(before)


def refused(rng):
  m, entries = graph(rng)
  pic = snapshot(m)
  p = m.partition()
  for bad in (5, None, "str", {"a": 1}, 2.5, object(), [1, 2], (1, 2), {"w": nnx.Param(1)}, M2() if type(m) is not M2 else M1()):
    try:
      m.update_state(bad)
    except Exception:
      pass
    else:
      raise AssertionError(f"update_state({bad!r}) was accepted")
    unchanged(pic)
    if isinstance(bad, nnx.Module):
      continue
    try:
      p.update_state(bad)
    except Exception:
      pass
    else:
      raise AssertionError(f"Pure.update_state({bad!r}) was accepted")


def fixed(rng):
  m = M1(w=nnx.Param(1), s=3)
  m.sub = M2(w=nnx.Param(2), b=nnx.BatchStat(3))
  m.again = m.sub
  sub = m.sub
  m.update_state((State({"again/w": nnx.Param(5)}), State({"again/w": nnx.Param(6)}), State({"w": nnx.Param(7)})))
  assert m.sub.w == 6 and m.sub is sub and m.again is sub and m.w == 7 and m.s == 3 and m.sub.b == 3
  a, b = State({"w": nnx.Param(10)}), State({"w": nnx.Param(11)})
  m.update_state((a, b))
  assert m.w == 11
  m.update_state((b, a))
  assert m.w == 10
  p = m.partition().update_state((a, b))
  assert p.states["w"].value == 11
  p = m.partition().update_state((b, a))
  assert p.states["w"].value == 10
  p = m.partition(nnx.Param, ...).update_state(nnx.Pure.new((a, b), m.get_module_def()))
  assert p.states["w"].value == 11
  m.update_state(())
  assert m.w == 10
  m.update_state(State({}))
  assert m.w == 10
  fails(lambda: m.update_state(M2()))
  raised(ValueError, lambda: m.update_state(State({"w": nnx.BatchStat(0)})))
  assert m.w == 10


CHECKS = [("module", module, 400), ("pure", pure, 300), ("refused", refused, 60), ("fixed", fixed, 1)]
