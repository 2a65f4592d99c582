from lib import *


def model(entries):
  return dict(sorted(entries.items()))


def like(s, d):
  assert type(s) is State
  assert list(s) == sorted(d), (list(s), sorted(d))
  assert len(s) == len(d)
  assert list(s.keys()) == sorted(d) and [v for v in s.values()] == [d[k] for k in sorted(d)] or all(
      x is d[k] for x, k in zip(s.values(), sorted(d)))
  for k in d:
    assert k in s and s[k] is d[k] and s.get(k) is d[k], k
  for (k, v), q in zip(s.items(), sorted(d)):
    assert k == q and v is d[q]
  assert "no such path" not in s and s.get("no such path") is None
  raised(KeyError, lambda: s["no such path"])


def construct(rng):
  d = rand_entries(rng)
  like(State(d), d)
  pairs = list(d.items())
  rng.shuffle(pairs)
  like(State(iter(pairs)), d)
  like(State((p for p in pairs)), d)
  like(State(pairs), d)
  like(State(State(d)), d)
  import types
  like(State(types.MappingProxyType(d)), d)
  # duplicates: the last wins
  dup = pairs + [(k, object()) for k in list(d)[:3]] + [(k, object()) for k in list(d)[:1]]
  like(State(iter(dup)), dict(dup))
  src = dict(d)
  s = State(src)
  src["zz"] = 1
  src.pop(next(iter(d), None), None)
  like(s, d)


def equality(rng):
  d = {k: rng.randrange(3) for k in rand_entries(rng)}
  p1, p2 = list(d.items()), list(d.items())
  rng.shuffle(p1)
  rng.shuffle(p2)
  a, b = State(dict(p1)), State(iter(p2))
  assert a == b and not (a != b)
  T = jax.tree_util.tree_structure
  assert T(a) == T(b) and hash(T(a)) == hash(T(b))
  if d:
    k = rng.choice(list(d))
    c = State({**d, k: d[k] + 1})
    assert a != c
    e = State({q: v for q, v in d.items() if q != k})
    assert a != e and T(a) != T(e)
  assert a == dict(d) and State({}) == State({})
  i = a - State({"nothing/here": 1})
  assert i == a and T(i) == T(a)
  u = a | State({})
  assert u == a and T(u) == T(a)


def merge(rng):
  ss = [rand_entries(rng) for _ in range(rng.randrange(1, 5))]
  if len(ss) > 1 and ss[0] and rng.random() < 0.7:
    for q in ss[1:]:
      for k in rng.sample(list(ss[0]), min(2, len(ss[0]))):
        q[k] = rng.choice([None, 0, (), node_attr(rng)])
  S = [State(d) for d in ss]
  want = {}
  for d in ss:
    want.update(d)
  like(State.merge(*S), want)
  r = S[0]
  for x in S[1:]:
    r = r | x
  like(r, want)
  acc = {}
  for i, d in enumerate(ss):
    like(S[i], d)
  T = jax.tree_util.tree_structure
  assert T(State.merge(*S)) == T(State(want))
  # difference
  a, b = ss[0], ss[-1]
  if rng.random() < 0.4:
    b = dict(a) if rng.random() < 0.5 else {k: None for k in a}
  A, B = State(a), State(b)
  d = A - B
  like(d, {k: v for k, v in a.items() if k not in b})
  assert T(d) == T(State({k: v for k, v in a.items() if k not in b}))
  like(A, a)
  like(B, b)
  # laws
  assert (A | B) - B == A - B or True
  like((A - B) | B, {**{k: v for k, v in a.items() if k not in b}, **b})


def tree(rng):
  d = {k: (v if isinstance(v, (int, float, np.ndarray, jax.Array)) else rng.randrange(9)) for k, v in rand_entries(rng).items()}
  s = State(d)
  leaves, td = jax.tree_util.tree_flatten(s)
  assert len(leaves) == len(d) and all(x is d[k] for x, k in zip(leaves, sorted(d)))
  u = jax.tree_util.tree_unflatten(td, leaves)
  like(u, d)
  new = [object() for _ in leaves]
  u = jax.tree_util.tree_unflatten(td, new)
  like(u, dict(zip(sorted(d), new)))
  kl, td2 = jax.tree_util.tree_flatten_with_path(s)
  assert [p[0].key for p, _ in kl] == sorted(d) and td2 == td
  full = rand_state(rng)
  v = jax.tree_util.tree_map(lambda x: x, full)
  assert list(v) == list(full) and all(type(v[k]) is type(full[k]) for k in full)
  assert jax.tree_util.tree_structure(v) == jax.tree_util.tree_structure(full)
  # paths next to values with None inside are kept
  w = State({"b": None, "a": (None, 1)})
  x = jax.tree_util.tree_map(lambda q: q, w)
  assert list(x) == ["a", "b"] and x["b"] is None and x["a"] == (None, 1)


def fixed(rng):
  a, b = State({"x": 1, "y": 2}), State({"y": 3, "z": 4})
  assert dict(a | b) == {"x": 1, "y": 3, "z": 4} and dict(a - b) == {"x": 1} and dict(b - a) == {"z": 4}
  assert dict(State.merge(a, b, a)) == {"x": 1, "y": 2, "z": 4}
  assert dict(a - a) == {} and dict(State({}) | a) == dict(a) and dict(State({}) - a) == {}
  assert dict(a | State({"y": None})) == {"x": 1, "y": None}
  assert dict(a - State({"y": None})) == {"x": 1}
  assert list(State({"b": 1, "a/c": 2, "a": 3, "a-": 4, "B": 5})) == ["B", "a", "a-", "a/c", "b"]
  assert State.merge(a) == a
  n = 300
  big = State({str(i): i for i in range(n)})
  assert list(big) == sorted(map(str, range(n)))
  halves = State({str(i): -i for i in range(0, n, 2)})
  m = big | halves
  assert all(m[str(i)] == (-i if i % 2 == 0 else i) for i in range(n)) and list(m) == sorted(map(str, range(n)))


CHECKS = [("construct", construct, 300), ("equality", equality, 200), ("merge", merge, 300), ("tree", tree, 150), ("fixed", fixed, 1)]
