"""Pytree classes used by c11, c12 and c24."""
import dataclasses

from lib import *


class P0(nnx.Pytree):

  def __init__(self, **kw):
    for k, v in kw.items():
      setattr(self, k, v)


class P1(P0):
  cls_attr = 3


class PM(nnx.Pytree, mutable=True):

  def __init__(self, **kw):
    for k, v in kw.items():
      setattr(self, k, v)


class PMchild(PM):           # not declared mutable itself
  pass


class PMM(P0, mutable=True):
  pass


@nnx.dataclass
class D0(nnx.Pytree):
  w: nnx.Param = nnx.param_field(default=1.0)
  s: int = nnx.static_field(default=2)
  n: object = nnx.node_field(default=3.0)
  t: object = nnx.var_field(nnx.BatchStat, default=4.0, sharding=("a",))


@nnx.dataclass
class DM(nnx.Pytree, mutable=True):
  w: nnx.Param = nnx.param_field(default=1.0)
  s: int = nnx.static_field(default=2)


PLAIN = [P0, P1, PMchild]
MUT = [PM, PMM]
FIELDS = ["a", "b", "B", "zz", "_p", "x1", "count", "c"]


def rand_value(rng, depth=1):
  k = rng.randrange(9)
  if k <= 2:
    return variable(rng)
  if k == 3:
    return nnx.Node(payload(rng))
  if k == 4:
    return nnx.Static(rng.choice([1, "s", (1, 2)]))
  if k == 5 and depth > 0:
    return rand_obj(rng, depth - 1)
  if k == 6:
    return np.arange(3.0) + rng.randrange(4)
  if k == 7:
    return jnp.ones(2) * rng.randrange(5)
  return rng.choice([1, 2.5, "str", None, (1, 2), True])


def rand_obj(rng, depth=1, cls=None):
  cls = cls or rng.choice(PLAIN + MUT)
  return cls(**{n: rand_value(rng, depth) for n in rng.sample(FIELDS, rng.randrange(0, 6))})


def fields_of(o):
  return {k: v for k, v in vars(o).items() if not k.startswith("_pytree__")}


def pic(o):
  """field name -> stored object and (container) contents."""
  return {k: (v, dict(vars(v)) if isinstance(v, containers.Container) else None) for k, v in vars(o).items()}


def assert_pic(o, p):
  now = vars(o)
  assert now.keys() == p.keys(), (now.keys(), p.keys())
  for k, (v, d) in p.items():
    assert now[k] is v, f"field {k} replaced"
    if d is not None:
      assert vars(v).keys() == d.keys() and all(vars(v)[q] is d[q] for q in d), f"container {k} changed"


def meta(c):
  return {k: v for k, v in vars(c).items() if k != "value"}


def same_obj(a, b):
  if isinstance(a, nnx.Pytree) or isinstance(b, nnx.Pytree):
    return type(a) is type(b) and fields_of(a).keys() == fields_of(b).keys() and all(
        same_obj(fields_of(a)[k], fields_of(b)[k]) for k in fields_of(a))
  if isinstance(a, containers.Container) and isinstance(b, containers.Container):
    return type(a) is type(b) and meta(a) == meta(b) and same_obj(a.value, b.value)
  return same(a, b)


def is_mutable(o):
  return type(o) in (PM, PMM, DM)


def locked(o):
  """o accepts neither a new field nor (unless mutable) an assignment."""
  p = pic(o)
  raised(AttributeError, lambda: setattr(o, "brand_new_field", 1))
  raised(AttributeError, lambda: setattr(o, "brand_new_field", nnx.Param(1)))
  if not is_mutable(o):
    for k in list(fields_of(o)):
      raised(AttributeError, lambda: setattr(o, k, 5))
      v = vars(o)[k]
      raised(AttributeError, lambda: setattr(o, k, v))
  assert_pic(o, p)
