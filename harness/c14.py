from lib import *


def attr_map(root):
  order, entries, _ = walk(root)
  return {(id(m), k): v for _, m in order for k, v in public(m).items()}


def owners(root):
  """path -> (owner module, attribute)."""
  order, entries, seen = walk(root)
  out, vis = {}, set()

  def go(m, path):
    if id(m) in vis:
      return
    vis.add(id(m))
    for k in sorted(public(m)):
      v = public(m)[k]
      if is_module(v):
        go(v, path + (k,))
      elif is_node_value(v):
        out["/".join(path + (k,))] = (m, k)
  go(root, ())
  return out


def pop(rng):
  m = rand_graph(rng)
  _, entries, _ = walk(m)
  if len({p for p, _ in entries}) < len(entries):
    return
  before = attr_map(m)
  where = owners(m)
  part = m.get_state()
  accs = [rand_filter(rng) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
  calls = []
  fs = [a.f for a in accs]
  out = m.pop_state(*fs)
  if len(fs) == 1:
    assert isinstance(out, State)
    out = (out,)
  assert isinstance(out, tuple) and len(out) == len(fs) and all(isinstance(s, State) for s in out)
  gone = set()
  for p, v in entries:
    i = first_match(accs, p, v)
    for j, s in enumerate(out):
      if j == i:
        assert p in s and s[p] is v, f"{p} missing from part {j}"
      else:
        assert p not in s
    if i is not None:
      o, k = where[p]
      gone.add((id(o), k))
  assert sum(len(s) for s in out) == len(gone)
  after = attr_map_full(m, before)
  want = {q: v for q, v in before.items() if q not in gone}
  assert after.keys() == want.keys(), "attributes"
  assert all(after[q] is want[q] for q in want)
  for s in out:
    assert list(s) == sorted(s)
  # popped and rest make up the state
  rest = m.get_state()
  union = dict(rest)
  for s in out:
    union.update(s)
  assert union.keys() == dict(part).keys()
  # popping again gives nothing
  again = m.pop_state(*fs)
  again = again if isinstance(again, tuple) else (again,)
  assert all(len(s) == 0 for s in again)
  # and putting back restores
  if gone:
    m.update_state(tuple(out))
    assert list(m.get_state()) == list(part)


def attr_map_full(root, before):
  """the attributes of every module that was reachable before (submodules are never removed)."""
  return attr_map(root)


def wide(rng):
  """a module reached along many paths is visited once."""
  n = 14
  mods = [M1() for _ in range(n)]
  for i in range(n - 1):
    for k in ("l", "m", "r"):
      vars(mods[i])[k] = mods[i + 1]
    vars(mods[i])["v"] = nnx.Param(i)
  vars(mods[-1])["back"] = mods[0]
  seen = []

  def pred(path, value):
    seen.append(path)
    return value.value % 2 == 0
  out = mods[0].pop_state(pred)
  assert len(out) == n // 2 and len(seen) == len(set(seen)) == n - 1
  assert all("m" not in p and "r" not in p.split("/") for p in seen)


def predicates_once(rng):
  """first match wins: later predicates are not needed, entries stay where none matches."""
  m = rand_graph(rng, names=["a", "b", "c"])
  _, entries, _ = walk(m)
  if len({p for p, _ in entries}) < len(entries):
    return
  snap = {p: v for p, v in entries}
  got = []
  out = m.pop_state(lambda p, v: False, lambda p, v: got.append((p, v)) or False)
  assert all(len(s) == 0 for s in out)
  assert [p for p, _ in got] == [p for p, _ in entries] and all(snap[p] is v for p, v in got)
  raised(ValueError, lambda: m.pop_state())
  s = snapshot(m)
  raised(TypeError, lambda: m.pop_state(nnx.Param, "params"))
  unchanged(s)


def pure_pop(rng):
  m = rand_graph(rng)
  _, entries, _ = walk(m)
  if len({p for p, _ in entries}) < len(entries):
    return
  accs = [rand_filter(rng, ell=False) for _ in range(rng.choice([1, 2, 3]))]
  accs = [a for a in accs if a.f is not ...] or [Acc(nnx.Param, lambda p, x: isinstance(x, nnx.Param))]
  pure = m.partition()
  keep = dict(pure.states)
  st, rest = pure.pop_state(*[a.f for a in accs])
  st = (st,) if len(accs) == 1 else st
  assert len(st) == len(accs)
  for p, v in entries:
    i = first_match(accs, p, v)
    for j, s in enumerate(st):
      assert (p in s) == (i == j)
    assert (p in rest.states) == (i is None)
  assert sum(len(s) for s in st) + len(rest.states) == len(entries)
  assert rest.moduledef == pure.moduledef and isinstance(rest, nnx.Pure)
  assert pure.states.keys() == keep.keys()


def sow(rng):
  m = rng.choice(MODS)()
  kinds = [nnx.Intermediate, nnx.Param, VarA, VarSub]
  model = {}
  m.plain = 3
  m.node = nnx.Node((1,))
  m.scalar = nnx.Intermediate(5)
  m.lst = nnx.Intermediate([1])
  m.sub = M0()
  m.arr = np.ones(2)
  m.seeded = nnx.Intermediate((9, 8), foo="meta")
  model["seeded"] = (nnx.Intermediate, (9, 8), {"foo": "meta", "sharding": None})
  bad = ["plain", "node", "scalar", "lst", "sub", "arr"] + (["ping"] if isinstance(m, M1) else [])
  for _ in range(rng.randrange(1, 12)):
    kind = rng.choice(kinds)
    n = rng.choice(["i", "j", "seeded"] + bad)
    v = rng.choice([1, (1, 2), (), None, "s", np.ones(1), [3]])
    if n in bad:
      s = snapshot(m)
      raised(ValueError, lambda: m.sow(kind, n, v))
      unchanged(s)
    elif n in model and model[n][0] is not kind:
      s = snapshot(m)
      raised(ValueError, lambda: m.sow(kind, n, v))
      unchanged(s)
    else:
      assert m.sow(kind, n, v) is None
      if n not in model:
        model[n] = (kind, (), {"sharding": None})
      model[n] = (kind, model[n][1] + (v,), model[n][2])
    for q, (kd, t, md) in model.items():
      c = vars(m)[q]
      assert type(c) is kd and type(c.value) is tuple and len(c.value) == len(t)
      assert all(x is y for x, y in zip(c.value, t))
      assert {k: x for k, x in vars(c).items() if k != "value"} == md
    assert set(public(m)) == set(model) | set(bad) - {"ping"}


CHECKS = [("pop from graphs", pop, 300), ("each module once", wide, 2), ("first match and refusal", predicates_once, 60),
          ("pop from pure modules", pure_pop, 100), ("sow", sow, 150)]
