from lib import *


def expected(accs, items):
  parts = [{} for _ in accs]
  rest = {}
  for p, v in items:
    i = first_match(accs, p, v)
    (rest if i is None else parts[i])[p] = v
  return parts, rest


def check_parts(got, parts):
  got = (got,) if len(parts) == 1 else got
  assert (isinstance(got, tuple) and len(got) == len(parts)), got
  for g, e in zip(got, parts):
    assert type(g) is State
    assert list(g) == sorted(e), (list(g), sorted(e))
    for k in e:
      assert g[k] is e[k], k


def filters_of(rng, k=None):
  k = rng.choice([1, 1, 2, 2, 3, 4, 6]) if k is None else k
  accs = [rand_filter(rng, 2, 0.0, ell=False) for _ in range(k)]
  if rng.random() < 0.4:
    accs[-1] = Acc(..., lambda p, x: True)
  return accs


def run(obj, items, accs, same_leaf=True, partition_of=lambda r: r):
  fs = [a.f for a in accs]
  parts, rest = expected(accs, items)
  bad_ell = any(a.f is ... for a in accs[:-1])
  if bad_ell:
    raised(ValueError, lambda: obj.filter(*fs))
    raised(ValueError, lambda: obj.partition(*fs))
    return
  r = obj.filter(*fs)
  check_parts(r if len(fs) > 1 else r, parts)
  if len(fs) == 1:
    assert type(r) is State
  if rest:
    raised(ValueError, lambda: obj.partition(*fs))
  else:
    q = partition_of(obj.partition(*fs))
    assert (type(q) is State) if len(fs) == 1 else type(q) is tuple
    check_parts(q, parts)


def state(rng):
  s = rand_state(rng)
  before = dict(s)
  accs = filters_of(rng)
  if rng.random() < 0.15 and len(accs) > 1:
    accs[rng.randrange(len(accs) - 1)] = Acc(..., lambda p, x: True)
  run(s, list(s.items()), accs)
  assert list(s) == sorted(before) and all(s[k] is before[k] for k in before)


def module(rng):
  m = rand_graph(rng)
  pic = snapshot(m)
  accs = filters_of(rng)
  run(m, walk(m)[1], accs, partition_of=lambda p: p.states)
  unchanged(pic)


def pure(rng):
  m = rand_graph(rng)
  items = walk(m)[1]
  k = rng.randrange(3)
  p = m.partition() if k == 0 else m.partition(...) if k == 1 else m.partition(nnx.Param, nnx.BatchStat, ...)
  raw = p.states
  accs = filters_of(rng)
  run(p, items, accs, partition_of=lambda q: q.states)
  assert p.states is raw
  q = p.partition()
  check_parts(q.states, [dict(items)])
  assert q.moduledef is p.moduledef
  # pop_state
  fs = [a.f for a in accs]
  if any(f is ... for f in fs):
    return
  parts, rest = expected(accs, items)
  got, left = p.pop_state(*fs)
  if len(fs) == 1:
    assert type(got) is State
  check_parts(got, parts)
  check_parts(left.states, [rest])
  assert left.moduledef == p.moduledef


def fixed(rng):
  s = State({"a": nnx.Param(1), "b": nnx.BatchStat(2), "c": 3})
  raised(ValueError, lambda: s.filter(..., nnx.Param))
  raised(ValueError, lambda: s.partition(..., nnx.Param))
  raised(ValueError, lambda: s.partition(nnx.Param, ..., ...))
  raised(ValueError, lambda: s.filter(nnx.Param, ..., None))
  raised(ValueError, lambda: s.partition(nnx.Param))
  raised(ValueError, lambda: s.partition(nnx.Param, nnx.BatchStat))
  raised(ValueError, lambda: State({"c": None}).partition(nnx.Param))
  a, b = s.partition(nnx.Variable, ...)
  assert list(a) == ["a", "b"] and list(b) == ["c"]
  a, b, c = s.partition(nnx.Param, nnx.Variable, ...)
  assert list(a) == ["a"] and list(b) == ["b"] and list(c) == ["c"]
  assert type(State({}).partition(nnx.Param)) is State
  x, y = State({}).partition(nnx.Param, nnx.Cache)
  assert len(x) == len(y) == 0
  for bad in ("p", 1, ["x"]):
    raised(TypeError, lambda: s.filter(bad))
    raised(TypeError, lambda: s.partition(nnx.Param, bad))
    raised(TypeError, lambda: State({}).filter(bad))
  z = State({"k": 0, "j": None, "i": False})
  f = z.filter(lambda p, v: v is None or v == 0)
  assert list(f) == ["i", "j", "k"] and f["k"] == 0 and f["j"] is None
  r = s.filter(None, None)
  assert isinstance(r, tuple) and len(r) == 2 and not len(r[0]) and not len(r[1])


CHECKS = [("state", state, 400), ("module", module, 200), ("pure", pure, 200), ("fixed", fixed, 1)]
