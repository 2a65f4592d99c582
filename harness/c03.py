from lib import *
from nnx import partitioning


def meaning(rng):
  a = rand_filter(rng, depth=3, invalid=0.06)
  if not a.valid:
    raised(TypeError, lambda: partitioning.to_predicate(a.f))
    return
  p = partitioning.to_predicate(a.f)
  for path, v in list(rand_entries(rng, 8).items()) + [("a/b", None), ("", 0)]:
    got = bool(p(path, v))
    assert got == bool(a.fn(path, v)), (a.f, path, v, got)
    assert bool(p(path, v)) == got


def invalid(rng):
  for bad in ["params", "", 3, 0, 2.5, [nnx.Param], {"a": 1}, {1}, b"p", frozenset(), State({}), True, False, [], {}]:
    for w in [bad, (bad,), (nnx.Param, bad), ((), (None, (bad,)))]:
      raised(TypeError, lambda: partitioning.to_predicate(w))
    for c in (nnx.All, partitioning.Any, nnx.Not):
      raised(TypeError, lambda: c(bad))
    raised(TypeError, lambda: nnx.All(nnx.Param, bad))
    raised(TypeError, lambda: partitioning.Any(..., bad))


def fixed(rng):
  P = partitioning.to_predicate
  v = nnx.Param(1)
  seen = []

  def f(path, value):
    seen.append((path, value))
    return True
  for g in (f, (f,), nnx.All(f), partitioning.Any(f), nnx.Not(f), (None, (f,))):
    seen.clear()
    P(g)("some/path", v)
    assert len(seen) >= 1 and all(s[0] == "some/path" and s[1] is v for s in seen), (g, seen)
  assert P(f) is f
  assert not P(())("a", v) and nnx.All()("a", v) and not partitioning.Any()("a", v)
  assert P(...)("a", None) and not P(None)("a", None)
  assert P(type(None))("a", None) and P(object)("a", 3)
  assert not P(nnx.Param)("a", nnx.Variable(1)) and P(nnx.Variable)("a", v)
  assert P((nnx.BatchStat, nnx.Param))("a", v)
  assert not nnx.Not(...)("a", v) and nnx.Not(None)("a", v)
  assert nnx.All((nnx.Param, None), nnx.Variable)("a", v)
  big = tuple([None] * 40 + [nnx.Param])
  assert P(big)("a", v) and not P(big)("a", nnx.Cache(1))
  assert not nnx.All(*([...] * 40 + [None]))("a", v)

  class CallableTuple(tuple):
    def __call__(self, path, value):
      return path == "yes"
  t = CallableTuple((nnx.Param,))
  assert P(t)("yes", 0) and not P(t)("no", v)

  class Meta(type):
    def __instancecheck__(cls, x):
      return x == 5

  class Five(metaclass=Meta):
    pass
  assert P(Five)("a", 5) and not P(Five)("a", 6)
  assert P(partitioning.buffers)("a", np.ones(1)) and P(partitioning.buffers)("a", jnp.ones(1)) and not P(partitioning.buffers)("a", v)


CHECKS = [("meaning", meaning, 600), ("invalid", invalid, 1), ("fixed", fixed, 1)]
