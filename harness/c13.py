from lib import *
from nnx.module import DelayedAccessor, CallableProxy


class Cnt(nnx.Module):
  """a module whose calls change every kind of state."""

  def __init__(self, v=0):
    self.n = nnx.BatchStat(jnp.asarray(float(v)))
    self.w = nnx.Param(jnp.ones(2) * v)
    self.tag = "start"
    self.log = ()

  def __call__(self, x, *, k=1, fail=False, new=False):
    self.n = self.n + k
    self.tag = "called"
    self.log = self.log + (k,)
    if new:
      self.extra = nnx.Cache(jnp.asarray(7.0))
    if fail:
      raise KeyError("stop")
    return ("out", x, float(self.n), self.is_initializing)

  def other(self, x):
    self.w = self.w * 2
    return ("other", x, self.is_initializing)

  @property
  def table(self):
    return {"f": [self.other, self.__call__], 3: self}


class Box(nnx.Module):

  def __init__(self, rng, depth):
    self.items_ = nnx.Sequence([Cnt(i) for i in range(rng.randrange(1, 4))])
    self.d = nnx.Dict(p=Cnt(3), q=Cnt(4))
    if depth:
      self.sub = Box(rng, depth - 1)
      self.again = self.sub
      self.back = self
    self.leaf = Cnt(5)

  def __getitem__(self, k):
    return self.leaf if k == "leaf" else self.d[k]

  def both(self, a, b=0):
    self.leaf(a)
    return self.leaf.other(b)


def path(rng, m, depth):
  """a random access path to a callable: list of ('a', name) | ('i', key)."""
  p = []
  while depth and rng.random() < 0.5:
    p.append(("a", rng.choice(["sub", "again"])))
    depth -= 1
    if depth and rng.random() < 0.3:
      p.append(("a", "back"))
  r = rng.randrange(8)
  n = len(m.items_)
  if r == 0:
    p.append(("a", "both"))
    return p, True
  if r == 1:
    p += [("a", "leaf")]
  elif r == 2:
    p += [("i", "leaf")]
  elif r == 3:
    p += [("a", "items_"), ("i", 0)]
  elif r == 4:
    p += [("a", "d"), ("a", rng.choice("pq"))]
  elif r == 5:
    p += [("a", "d"), ("i", rng.choice("pq"))]
  elif r == 6:
    p += [("i", rng.choice("pq"))]
  else:
    p += [("a", "leaf"), ("a", "table")]
    p += [("i", "f"), ("i", rng.choice([0, -1]))] if rng.random() < 0.5 else [("i", 3)]
  if rng.random() < 0.4 and p[-1] not in (("i", 0), ("i", -1)) or rng.random() < 0.2 and p[-1] == ("i", 3):
    p.append(("a", "other"))
  return p, False


def follow(x, p):
  for k, v in p:
    x = getattr(x, v) if k == "a" else x[v]
  return x


def eq_state(a, b):
  return list(a) == list(b) and all(same(a[k], b[k]) for k in a)


def apply_(rng):
  depth = rng.randrange(3)
  m = Box(rng, depth)
  p, both = path(rng, m, depth)
  kw = {}
  is_cnt = not both and p[-1] not in (("a", "other"), ("i", 0)) and p[-1][1] != "other"
  if is_cnt and rng.random() < 0.6 and ("a", "table") not in p:
    kw["k"] = rng.randrange(2, 5)
  if is_cnt and rng.random() < 0.3 and ("a", "table") not in p:
    kw["new"] = True
  fail = is_cnt and ("a", "table") not in p and rng.random() < 0.15
  if fail:
    kw["fail"] = True
  ref = m.clone()
  x = rng.randrange(9)
  pic = snapshot(m)
  if fail:
    want = None
    raised(KeyError, lambda: follow(ref, p)(x, **kw))
  else:
    want = follow(ref, p)(x, **kw)
  form = rng.randrange(5)
  pure = m.partition() if rng.random() < 0.5 else m.partition(nnx.Param, ...)
  states = pure.states if isinstance(pure.states, tuple) else (pure.states,)
  keep = [dict(s) for s in states]
  vals = [{k: dict(vars(v)) if isinstance(v, containers.Container) else v for k, v in s.items()} for s in states]

  def states_kept():
    for s, k, v in zip(states, keep, vals):
      assert dict(s) == k or (s.keys() == k.keys() and all(s[q] is k[q] for q in k))
      for q in k:
        if isinstance(k[q], containers.Container):
          assert vars(s[q]).keys() == v[q].keys() and all(vars(s[q])[z] is v[q][z] for z in v[q])
  call = {0: lambda: follow(m.apply, p), 1: lambda: follow(pure.apply, p), 2: lambda: follow(pure.moduledef.apply(*states), p),
          3: lambda: follow(pure.call, p), 4: lambda: follow(m.partition().call, p)}[form]()
  if fail:
    raised(KeyError, lambda: call(x, **kw))
    unchanged(pic)
    states_kept()
    return
  for rep in range(2):            # the accessor is reusable and starts from the same states again
    out = call(x, **kw)
    if form in (3, 4):
      assert out == want, (p, out, want)
    else:
      o, st = out
      assert o == want, (p, o, want)
      if form == 0:
        assert isinstance(st, Box) and st is not m
        isomorphic(ref, st)
        assert not ({id(a) for _, a in walk(m)[0]} & {id(a) for _, a in walk(st)[0]})
      else:
        assert isinstance(st, nnx.Pure) and isinstance(st.states, State)
        isomorphic(ref, st.merge())
        assert eq_state(st.states, ref.get_state())
    unchanged(pic)
    states_kept()


def accessor(rng):
  """every path selects what ordinary access selects, and building it has no effect."""
  class T:
    def __init__(self, tag, d):
      self.tag = tag
      self.d = d

    def __getattr__(self, name):
      if name.startswith("__"):
        raise AttributeError(name)
      return T(self.tag + (("a", name),), self.d)

    def __getitem__(self, k):
      return T(self.tag + (("i", k),), self.d)

    def __call__(self, *a, **k):
      return self.tag, a, k
  p = [rng.choice([("a", rng.choice(["x", "y", "foo", "_h", "value", "merge", "items"])),
                   ("i", rng.choice([0, "k", -1, None, (1, 2), slice(1, 2)]))]) for _ in range(rng.randrange(6))]
  a = follow(DelayedAccessor(), p)
  assert a(T((), 0)).tag == tuple(p)
  got = []

  def ctxfn(acc, *args, **kw):
    got.append((args, kw))
    return acc(T((), 0))(*args, **kw)
  c = follow(CallableProxy(ctxfn, DelayedAccessor()), p)
  assert got == []
  assert c(1, 2, z=3) == (tuple(p), (1, 2), {"z": 3}) and got == [((1, 2), {"z": 3})]
  # two continuations of one prefix stay independent
  b1, b2 = follow(DelayedAccessor(), p).left, None
  base = follow(DelayedAccessor(), p)
  l, r = base.left, base["right"]
  assert l(T((), 0)).tag == tuple(p) + (("a", "left"),) and r(T((), 0)).tag == tuple(p) + (("i", "right"),)
  assert base(T((), 0)).tag == tuple(p)


def init_(rng):
  depth = rng.randrange(3)
  m = Box(rng, depth)
  mods = [q for _, q in walk(m)[0]]
  seen = []

  class Probe(nnx.Module):

    def __call__(self, fail):
      seen.append([q.is_initializing for q in mods])
      self.deep = 1
      if fail:
        raise KeyError("stop")
      return "done"

    def nested(self):
      r = m.init.leaf.other(1)
      seen.append([q.is_initializing for q in mods])
      return r
  pr = Probe()
  m.probe = pr
  mods = [q for _, q in walk(m)[0]]
  fail = rng.random() < 0.5
  for f in (fail, False):
    seen.clear()
    if f:
      raised(KeyError, lambda: m.init.probe(True))
    else:
      assert m.init.probe(False) == "done"
    assert len(seen) == 1 and all(seen[0])
    assert not any(q.is_initializing for q in mods)
  raised(AttributeError, lambda: m.init.nonexistent(1))
  assert not any(q.is_initializing for q in mods)
  out = m.init.leaf(4)
  assert out[3] is True and m.leaf(4)[3] is False
  # the flag is carried by partition during init, and cleared on the original only
  cap = []
  pr2 = rng.choice([m])
  orig = Probe.__call__
  Probe.__call__ = lambda self, fail: cap.append(m.partition().merge())
  m.init.probe(False)
  Probe.__call__ = orig
  assert all(q.is_initializing for _, q in walk(cap[0])[0])
  assert not any(q.is_initializing for q in mods)


CHECKS = [("apply and call act on a copy", apply_, 150), ("accessor paths", accessor, 150), ("init scope", init_, 40)]
