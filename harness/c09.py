from lib import *


class BoxVar(nnx.Variable):
  """its attribute reads go through the unboxing function."""

  def unbox_fn(self, c):
    return ("boxed", c.value)


class SubParam(nnx.Param):
  pass


class BareC(containers.Container):
  pass


KINDS = VARS + [nnx.Node, BoxVar, SubParam, BareC]


def container(rng, cls=None, value=None):
  cls = cls or rng.choice(KINDS)
  v = payload(rng) if value is None else value
  md = metadata(rng)
  if cls is nnx.Static:
    md = {}
  return cls(v, **md)


def raw(m, k):
  return vars(m)[k]


def meta(c):
  return {k: v for k, v in vars(c).items() if k != "value"}


def read(c):
  if isinstance(c, BoxVar):
    return ("boxed", c.value)
  return c.value


def freeze(x):
  return (type(x), dict(vars(x))) if isinstance(x, containers.Container) else x


def eqf(a, b):
  """two frozen pictures hold the identical content."""
  if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], dict) and isinstance(a[0], type):
    return a[0] is b[0] and a[1].keys() == b[1].keys() and all(a[1][k] is b[1][k] for k in a[1])
  return a is b


def assign(rng):
  """histories of assignments over several modules and containers."""
  mods = [rng.choice(MODS)() for _ in range(rng.randrange(1, 4))]
  pool = [container(rng) for _ in range(4)]
  names = ["a", "b", "c"]
  model = {(i, n): None for i in range(len(mods)) for n in names}   # None | ("plain", v) | ("cont", cls, meta, v)
  given = [freeze(c) for c in pool]
  for _ in range(rng.randrange(1, 14)):
    i, n = rng.randrange(len(mods)), rng.choice(names)
    cur = model[i, n]
    if rng.random() < 0.45:
      j = rng.randrange(len(pool))
      c = pool[j]
      if cur is None or cur[0] == "plain":
        setattr(mods[i], n, c)
        model[i, n] = ("cont", type(c), meta(c), c.value)
        assert raw(mods[i], n) is not c, "the given container itself was stored"
      else:
        ok = type(c) is cur[1] and meta(c) == cur[2]
        before = raw(mods[i], n)
        fz = freeze(before)
        if ok:
          setattr(mods[i], n, c)
          model[i, n] = ("cont", cur[1], cur[2], c.value)
          assert raw(mods[i], n) is not c
        else:
          raised(ValueError, lambda: setattr(mods[i], n, c))
          assert raw(mods[i], n) is before and eqf(fz, freeze(before))
    elif rng.random() < 0.15 and cur is not None:
      delattr(mods[i], n)
      model[i, n] = None
    else:
      v = payload(rng)
      setattr(mods[i], n, v)
      model[i, n] = ("plain", v) if cur is None or cur[0] == "plain" else ("cont", cur[1], cur[2], v)
    # everything as the model says
    for (k, nm), w in model.items():
      d = vars(mods[k])
      if w is None:
        assert nm not in d
      elif w[0] == "plain":
        assert d[nm] is w[1] and getattr(mods[k], nm) is w[1]
      else:
        c = d[nm]
        assert type(c) is w[1] and meta(c) == w[2] and c.value is w[3], (c, w)
        got = getattr(mods[k], nm)
        want = read(c)
        assert got is want or got == want
    for c, g in zip(pool, given):
      assert eqf(g, freeze(c)), "a container given by the caller changed"
    held = [id(d) for m in mods for d in vars(m).values() if isinstance(d, containers.Container)]
    assert len(held) == len(set(held)), "two attributes share one container"


def replace(rng):
  c = container(rng)
  before = freeze(c)
  kw = {}
  bad = False
  md = meta(c)
  for k in list(md):
    if rng.random() < 0.3:
      kw[k] = rng.choice([1, "w", ("q",), None])
  if rng.random() < 0.25:
    kw[rng.choice(["unknown", "shardin", "val", "Value"])] = 1
    bad = True
  incompatible = False
  if rng.random() < 0.8:
    r = rng.random()
    if r < 0.5:
      kw["value"] = payload(rng)
      want = kw["value"]
    else:
      if rng.random() < 0.5:
        o = type(c)(payload(rng), **{k: v for k, v in md.items()})
      else:
        o = container(rng)
      incompatible = not (type(o) is type(c) and meta(o) == md)
      kw["value"], want = o, o.value
  else:
    want = c.value
  if incompatible or bad:
    raised(ValueError, lambda: c.replace(**kw))
  else:
    r = c.replace(**kw)
    assert type(r) is type(c) and r is not c
    assert r.value is want
    exp = dict(md)
    exp.update({k: v for k, v in kw.items() if k != "value"})
    assert meta(r) == exp, (meta(r), exp)
  assert eqf(before, freeze(c))


def construct(rng):
  cls = rng.choice(KINDS)
  src = container(rng, cls if rng.random() < 0.6 else None)
  before = freeze(src)
  kw = dict(meta(src)) if rng.random() < 0.6 else metadata(rng)
  want = dict(kw)
  if issubclass(cls, nnx.Variable):
    want.setdefault("sharding", None)
  ok = type(src) is cls and meta(src) == want
  if ok:
    r = cls(src, **kw)
    assert type(r) is cls and meta(r) == want and r.value is src.value and r is not src
  else:
    raised(ValueError, lambda: cls(src, **kw))
  assert eqf(before, freeze(src))
  # creation from a plain value
  v = payload(rng)
  r = cls(v, **kw)
  assert type(r) is cls and meta(r) == want and r.value is v


def copy_(rng):
  c = container(rng)
  d = c.copy()
  assert d is not c and type(d) is type(c) and meta(d) == meta(c) and d.value is c.value
  assert c.is_equivalent(d)
  o = container(rng)
  assert bool(c.is_equivalent(o)) == (type(o) is type(c) and meta(o) == meta(c))
  assert not c.is_equivalent(c.value)
  e = type(c)(3.5, **meta(c))
  assert c.is_equivalent(e)
  k = dict(meta(c))
  k["extra"] = 1
  assert not c.is_equivalent(type(c)(c.value, **k))
  vars(d)["value"] = "changed"
  vars(d)["newkey"] = 1
  assert not isinstance(c.value, str) or c.value != "changed"
  assert "newkey" not in vars(c)


def static(rng):
  s = nnx.Static(rng.choice([1, "a", (1, 2)]))
  m = M1()
  m.s = s
  assert type(vars(m)["s"]) is nnx.Static and vars(m)["s"] is not s and m.s == s.value
  m.s = "other"
  assert type(vars(m)["s"]) is nnx.Static and m.s == "other" and s.value != "other"
  m.s = nnx.Static(9)
  assert m.s == 9
  raised(ValueError, lambda: setattr(m, "s", nnx.Param(3)))
  assert m.s == 9


def unboxing(rng):
  """the unboxing function may also come as metadata, and sees the stored container."""
  seen = []

  def ub(c):
    seen.append(c)
    return [c.value, "u"]
  m = M1()
  m.a = rng.choice(VARS + [nnx.Node])(5, unbox_fn=ub)
  assert m.a == [5, "u"] and seen and seen[-1] is vars(m)["a"]
  m.a = 6
  assert m.a == [6, "u"] and vars(m)["a"].value == 6 and vars(m)["a"].unbox_fn is ub
  n = m.clone()
  assert n.a == [6, "u"]
  p = m.partition()[0]
  assert p["a"].value == 6


CHECKS = [("assignment histories", assign, 400), ("replace", replace, 400), ("constructing from a container", construct, 300),
          ("copy and equivalence", copy_, 200), ("static containers", static, 20), ("unboxing", unboxing, 10)]
