from lib import *
from nnx.contextlib import RngStream, _stable_hash


class Rec:
  """records every (stream key, positions) used for a draw through the real hash input."""


def pos_key(stream_key, path):
  """the key the real code derives for a position, by its public behaviour."""
  return tuple(np.asarray(jax.random.fold_in(stream_key, _stable_hash(path))).tolist())


def history(rng):
  """random draws, forks and merges over a tree of contexts; the model holds
  for every context and stream the position prefix and the next number."""
  keys = {n: jax.random.PRNGKey(i) for i, n in enumerate(rng.sample(["params", "a", "b"], rng.randrange(1, 4)))}
  root = nnx.context(**keys) if "params" not in keys else nnx.context(keys["params"], **{k: v for k, v in keys.items() if k != "params"})
  live = [(root, {n: ((), 0) for n in keys})]
  pend = []
  used = {n: set() for n in keys}
  drawn = {n: {} for n in keys}
  for _ in range(rng.randrange(4, 30)):
    i = rng.randrange(len(live))
    c, st = live[i]
    op = rng.random()
    if op < 0.5:
      n = rng.choice(list(keys))
      pre, k = st[n]
      pos = pre + (k,)
      key = tuple(np.asarray(c.make_rng(n)).tolist())
      st[n] = (pre, k + 1)
      assert pos not in used[n], "position used twice"
      used[n].add(pos)
      for p, old in drawn[n].items():
        assert old != key or p == pos, f"positions {p} and {pos} of {n} gave the same key"
      drawn[n][pos] = key
    elif op < 0.7:
      p = c.partition()
      new = {}
      for n in keys:
        pre, k = st[n]
        assert pre + (k,) not in used[n]
        used[n].add(pre + (k,))
        new[n] = (pre + (k,), 0)
        st[n] = (pre, k + 1)
      pend.append((p, new))
    elif op < 0.9 and pend:
      p, new = pend.pop(rng.randrange(len(pend)))
      if rng.random() < 0.5:
        p = jax.tree_util.tree_map(lambda x: x, p)
      live.append((p.merge(), new))
    else:
      raised(ValueError, lambda: c.make_rng("unknown"))
    for c2, st2 in live:
      for n in keys:
        s = c2._rngs[n]
        assert (s.count_path, s.count) == st2[n], (n, (s.count_path, s.count), st2[n])
  # determinism: the same history gives the same keys
  for n in keys:
    for pos, key in drawn[n].items():
      assert pos_key(keys[n], pos) == key, (n, pos)


def hash_inputs(rng):
  """the position hash sees the whole sequence, unambiguously."""
  seen = {}
  for _ in range(400):
    t = tuple(rng.choice([0, 1, 2, 9, 10, 11, 12, 100, 111, 1000]) for _ in range(rng.randrange(1, 6)))
    h = _stable_hash(t)
    assert h == _stable_hash(tuple(t)) and 0 <= h < 2 ** 32
    assert seen.setdefault(h, t) == t, (seen[h], t)
  fix = [(1, 11), (11, 1), (1, 1, 1), (111,), (1, 1), (11,), (0,), (0, 0), (0, 0, 0), (10,), (1, 0)]
  assert len({_stable_hash(t) for t in fix}) == len(fix)
  assert _stable_hash((1, 2)) != _stable_hash((2, 1))


def fixed(rng):
  c = nnx.context(0, dropout=1)
  c0 = nnx.context(0, dropout=1)
  for _ in range(5):
    assert np.array_equal(c.make_rng("params"), c0.make_rng("params"))
  assert c._rngs["params"].count == 5 and c._rngs["dropout"].count == 0
  raised(ValueError, lambda: c.make_rng("nope"))
  assert c._rngs["params"].count == 5 and c._rngs["dropout"].count == 0
  # copy shares the counters
  d = c.copy()
  a = np.asarray(d.make_rng("params"))
  b = np.asarray(c.make_rng("params"))
  assert not np.array_equal(a, b)
  # forks in series and in depth are distinct from draws before and after
  ks = []
  cur = nnx.context(7)
  for i in range(30):
    ks.append(tuple(np.asarray(cur.make_rng("params")).tolist()))
    side = cur.partition().merge()
    ks.append(tuple(np.asarray(side.make_rng("params")).tolist()))
    ks.append(tuple(np.asarray(side.make_rng("params")).tolist()))
    if i % 2:
      cur = cur.partition().merge()
  assert len(set(ks)) == len(ks)
  # merging the same pure context twice restarts the same positions
  p = nnx.context(3).partition()
  x, y = p.merge(), p.merge()
  assert np.array_equal(x.make_rng("params"), y.make_rng("params"))
  # a stream with a restored position
  s = RngStream(jax.random.PRNGKey(0), 4, (2, 3))
  e = nnx.context(s)
  k = e.make_rng("params")
  assert pos_key(jax.random.PRNGKey(0), (2, 3, 4)) == tuple(np.asarray(k).tolist()) and s.count == 5
  q = e.partition()
  assert s.count == 6 and q.merge()._rngs["params"].count_path == (2, 3, 5)
  assert q.merge()._rngs["params"].count == 0


CHECKS = [("history", history, 60), ("hash_inputs", hash_inputs, 5), ("fixed", fixed, 1)]
