from lib import *
import itertools
import threading
from jax.sharding import PartitionSpec as PS
from nnx import spmd

DIMS = ["batch", "embed", "heads", "kv", "x"]
MESH = ["X", "Y", "Z", "data"]


def rand_rules(rng):
  out = []
  for _ in range(rng.randrange(0, 8)):
    m = rng.choice([rng.choice(MESH), rng.choice(MESH), tuple(rng.sample(MESH, rng.randrange(0, 3))), None])
    out.append((rng.choice(DIMS), m))
  return rng.choice([tuple, list])(out)


def axes_of(m):
  return set() if m is None else {m} if isinstance(m, str) else set(m)


def oracle(dims, rules):
  used, out, done = set(), [None] * len(dims), set()
  for n, m in rules:
    if n in dims and n not in done and not (axes_of(m) & used):
      out[dims.index(n)] = m
      used |= axes_of(m)
      done.add(n)
  return out


def dims_(rng, dup=False):
  d = [x if rng.random() < 0.8 else None for x in rng.sample(DIMS, rng.randrange(0, 5))]
  if dup and any(d):
    d.insert(rng.randrange(len(d) + 1), rng.choice([x for x in d if x]))
  return d


def call(rng, dims, rules, ambient):
  """via explicit rules or the ambient scope."""
  if ambient:
    with spmd.logical_axis_rules(rules):
      return spmd.logical_to_mesh_axes(dims)
  return spmd.logical_to_mesh_axes(dims, rules)


def translate(rng):
  rules = rand_rules(rng)
  dims = rng.choice([tuple, list])(dims_(rng))
  d0, r0 = list(dims), list(rules)
  amb = rng.random() < 0.5
  if amb:
    got = call(rng, dims, rules, True)
  else:
    with spmd.logical_axis_rules(rng.choice([(), [("batch", "data")], [("embed", "data"), ("batch", "X")]])):
      got = spmd.logical_to_mesh_axes(dims, rules)
  assert isinstance(got, PS) and len(got) == len(dims)
  want = PS(*oracle(dims, rules))
  assert got == want, (dims, rules, got, want)
  flat = [a for e in got for a in sorted(axes_of(e))]
  assert len(flat) == len(set(flat))
  assert list(dims) == d0 and list(rules) == r0
  assert spmd.logical_to_mesh_axes(None, rules) is None
  assert spmd.logical_to_mesh_axes(None) is None
  t = {"a": PS(*dims), "b": PS(), "c": [PS(*dims[:1])]}
  tt = spmd.logical_to_mesh(t, rules)
  assert tt["a"] == want and tt["b"] == PS() and tt["c"][0] == PS(*oracle(dims[:1], rules))
  with spmd.logical_axis_rules(rules):
    assert spmd.logical_to_mesh(t)["a"] == want
    assert spmd.logical_to_mesh(t, ())["a"] == PS(*[None] * len(dims))


def duplicates(rng):
  dims = dims_(rng, True)
  if not any(dims):
    return
  raised(ValueError, lambda: spmd.logical_to_mesh_axes(dims, rand_rules(rng)))
  raised(ValueError, lambda: spmd.logical_to_mesh_axes(("a", "b", None), {"a": "X"}))
  assert spmd.logical_to_mesh_axes((None, None, "a"), [("a", "X")]) == PS(None, None, "X")


def scopes(rng):
  base = spmd.get_logical_axis_rules()
  stack = [base]

  def rec(d):
    r = rand_rules(rng)
    cm = spmd.logical_axis_rules(r)
    boom = rng.random() < 0.4
    try:
      with cm:
        assert spmd.get_logical_axis_rules() is r
        if d:
          for _ in range(rng.randrange(1, 3)):
            rec(d - 1)
            assert spmd.get_logical_axis_rules() is r
        if rng.random() < 0.3:
          spmd.set_logical_axis_rules([("q", "X")])
        if boom:
          raise KeyError("stop")
    except KeyError:
      pass
  spmd.set_logical_axis_rules(r0 := rand_rules(rng))
  rec(3)
  assert spmd.get_logical_axis_rules() is r0
  out = []
  t = threading.Thread(target=lambda: out.append(spmd.get_logical_axis_rules()))
  t.start(), t.join()
  assert list(out[0]) == []
  spmd.set_logical_axis_rules(())


def exhaustive(rng):
  """all rule lists up to length 3 over 2 names and 3 assignments, all dims of length 2."""
  mesh = ["X", ("X", "Y"), None, "Y"]
  rules = list(itertools.product("ab", mesh))
  for dims in itertools.product(["a", "b", None], repeat=2):
    if dims[0] == dims[1] and dims[0]:
      continue
    for n in range(4):
      for rs in itertools.product(rules, repeat=n):
        assert spmd.logical_to_mesh_axes(dims, rs) == PS(*oracle(dims, rs)), (dims, rs)


CHECKS = [("translation", translate, 500), ("duplicates", duplicates, 60), ("rules scopes", scopes, 40),
          ("small rule lists", exhaustive, 1)]
