from lib import *


class Item(nnx.Module):

  def __init__(self, i, kind, log):
    self.i, self.kind, self.log = i, kind, log

  def out(self, rec):
    self.log.append((self.i, rec))
    return {"tuple": (self.i, rec[0][:1]), "dict": {"a": self.i}, "one": ("one", self.i)[1], "list": [self.i], "none": None,
            "empty": (), "emptyd": {}}[self.kind]

  def __call__(self, *args, **kw):
    return self.out((args, tuple(sorted(kw))))


class WithCtx(Item):

  def __call__(self, *args, ctx=None, **kw):
    return self.out((args, tuple(sorted(kw)), ctx))


class PosCtx(Item):

  def __call__(self, x=None, ctx="default", a=None):
    return self.out(((x,), ("a",) if a is not None else (), ctx))


KINDS = ["tuple", "dict", "one", "list", "none", "empty", "emptyd"]


class NT(tuple):
  pass


def items(rng):
  n = rng.randrange(0, 13)
  r = rng.random()
  mk = lambda i: rng.choice([M0, M1, M2])()
  xs = [mk(i) for i in range(n)]
  if n and rng.random() < .4:
    xs[rng.randrange(n)] = xs[rng.randrange(n)]
  it = rng.choice([lambda: xs, lambda: tuple(xs), lambda: iter(xs), lambda: (x for x in xs), lambda: dict.fromkeys(xs) if len(set(map(id, xs))) == n else xs])()
  s = nnx.Sequence(it)
  assert len(s) == n and isinstance(len(s), int)
  for k in range(2):
    got = list(s)
    assert len(got) == n and all(a is b for a, b in zip(got, xs)), (n, len(got))
  assert all(s[i] is xs[i] for i in range(n))
  for i in (n, n + 1, n + 10):
    raised(IndexError, lambda: s[i])
  if n:
    c = s.clone()
    assert len(c) == n and all(type(a) is type(b) for a, b in zip(c, xs))
    ids = [id(x) for x in xs]
    cid = [id(x) for x in c]
    assert [ids.index(i) for i in ids] == [cid.index(i) for i in cid]
  plain = nnx.Sequence([1, "x", nnx.Param(3), len])
  assert list(plain) == [1, "x", 3, len] and plain[2] == 3 and len(plain) == 4


def calling(rng):
  log, want = [], []
  n = rng.randrange(0, 12)
  xs = []
  for i in range(n):
    kind = rng.choice(KINDS)
    cls = rng.choice([Item, WithCtx, PosCtx])
    xs.append((cls, kind))
  mods = [c(i, k, log) for i, (c, k) in enumerate(xs)]
  ctx = rng.choice([None, nnx.context(0)])
  args, kw = rng.choice([((1,), {}), ((), {}), ((), {"a": 2})])

  # oracle
  out, exp, bad = None, [], False
  a, k = args, dict(kw)
  for i, (c, kind) in enumerate(xs):
    if i:
      if isinstance(out, tuple):
        a, k = out, {}
      elif isinstance(out, dict):
        a, k = (), dict(out)
      else:
        a, k = (out,), {}
    if c is PosCtx and len(a) > 1 and (ctx is not None or len(a) > 3):
      bad = True
      break
    if c is PosCtx:
      x = (a + (None,))[:1]
      cx = a[1] if len(a) > 1 else (ctx if ctx is not None else "default")
      rec = (x, ("a",) if k.get("a") is not None else (), cx)
      if len(a) > 2:
        rec = (x, ("a",), cx)
    elif c is WithCtx:
      rec = (a, tuple(sorted(k)), ctx)
    else:
      rec = (a, tuple(sorted(k)))
    exp.append((i, rec))
    out = {"tuple": (i, rec[0][:1]), "dict": {"a": i}, "one": i, "list": [i], "none": None, "empty": (), "emptyd": {}}[kind]
  s = nnx.Sequence(mods)
  for m in mods:                      # records stay out of the module structure
    vars(m)["log"] = log
  ckw = {} if ctx is None else {"ctx": ctx}
  if bad:
    fails(lambda: s(*args, **kw, **ckw))
    return
  r = s(*args, **kw, **ckw)
  assert len(log) == len(exp), (log, exp)
  for (i, g), (j, w) in zip(log, exp):
    assert i == j and g == w, (g, w)
  want = out if n else None
  assert r == want and type(r) is type(want)
  if n and rng.random() < .3:
    t = nnx.Sequence(mods[:1] + [3])
    raised(TypeError, lambda: t(*args, **kw))
  # functions and nested sequences are items too
  q = nnx.Sequence([lambda x: (x, x + 1), lambda a, b: {"u": a, "v": b}, lambda u, v: u * 10 + v,
                    nnx.Sequence([lambda x: x + 1])])
  assert q(1) == 13
  w = nnx.Sequence([lambda x, *, ctx: (x, ctx), lambda x, c, **kw: (x, c, kw)])
  cc = nnx.context(0)
  assert w(5, ctx=cc) == (5, cc, {})


def mapping(rng):
  names = rng.sample(["a", "b", "z", "A", "k1", "_h", "items_", "é", "0"], rng.randrange(0, 6))
  src = {n: rng.choice([M0, M1])() for n in names}
  how = rng.randrange(4)
  if how == 0:
    d = nnx.Dict(src)
  elif how == 1:
    d = nnx.Dict(list(src.items()))
  elif how == 2:
    ident = {k: v for k, v in src.items() if k.isidentifier()}
    d = nnx.Dict({k: v for k, v in src.items() if k not in ident}, **ident)
  else:
    d = nnx.Dict(iter(list(src.items())))
  model = dict(src)
  for _ in range(rng.randrange(0, 8)):
    k = rng.choice(["a", "b", "new", "z", "0"])
    r = rng.random()
    v = rng.choice([M0(), 3, M1()])
    if r < .4:
      d[k] = v
      model[k] = v
    elif r < .8:
      setattr(d, k, v)
      model[k] = v
    elif k in model:
      delattr(d, k)
      del model[k]
  assert len(d) == len(model) and set(d) == set(model) and len(list(d)) == len(model)
  for k in model:
    assert d[k] is model[k] and getattr(d, k) is model[k] and k in d and d.get(k) is model[k]
  assert set(d.keys()) == set(model) and {k: id(v) for k, v in d.items()} == {k: id(v) for k, v in model.items()}
  assert len(list(d.values())) == len(model)
  for k in ("missing", "keys", "clone", "_module__state", 3):
    if k not in model:
      raised(KeyError, lambda: d[k])
      assert k not in d and d.get(k, 5) == 5
  raised(AttributeError, lambda: d.missing)
  assert d == d and d != nnx.Dict(src) and hash(d) == hash(d) and isinstance(d, nnx.Module)
  c = d.clone()
  assert set(c) == set(model) and all(type(c[k]) is type(model[k]) for k in model)
  p = nnx.Dict(w=nnx.Param(1.0))
  p["w"] = 2.0
  assert p.w == 2.0 and type(vars(p)["w"]) is nnx.Param and len(p) == 1
  assert len(nnx.Dict()) == 0 and list(nnx.Dict()) == []


CHECKS = [("sequence items", items, 120), ("sequence calls", calling, 200), ("dicts", mapping, 120)]
