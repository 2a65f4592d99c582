from lib import *
import dataclasses as dc
from nnx.dataclasses import field, node_field, static_field, var_field, param_field


def mkfactory(v, log):
  def f():
    log.append(1)
    return v
  return f


def build(rng):
  """a random dataclass and its expected fields."""
  spec = []
  base = rng.choice([nnx.Module, nnx.Pytree])
  ann, ns = {}, {}
  n = rng.randrange(1, 6)
  have_default = False
  log = []
  for i in range(n):
    name = f"f{i}"
    kind = rng.choice(["param", "var", "node", "static", "field", "bare", "dcfield"])
    kw = {}
    dflt = dc.MISSING
    mode = rng.choice(["none", "default", "factory"]) if not have_default else rng.choice(["default", "factory"])
    v = rng.choice([1.5, "s", (1, 2), None, 0])
    if mode == "default":
      kw["default"] = dflt = v
    elif mode == "factory":
      kw["default_factory"] = mkfactory(v, log)
      dflt = v
    if mode != "none":
      have_default = True
    md = None
    if rng.random() < .5:
      md = {"user": i, ("k", 1): "x"}
      kw["metadata"] = md
    init = True
    if mode != "none" and rng.random() < .25:
      kw["init"] = init = False
    rp = rng.random() < .7
    kw["repr"] = rp
    cmp = rng.random() < .7
    kw["compare"] = cmp
    hsh = rng.choice([None, True, False])
    if rng.random() < .4:
      kw["hash"] = hsh
    else:
      hsh = None
    sh = None
    cls = None
    snap = dict(md) if md is not None else None
    if kind == "param":
      cls = nnx.Param
      f = param_field(**kw)
    elif kind == "var":
      cls = rng.choice(VARS)
      if rng.random() < .6:
        sh = rng.choice([("a",), ("a", None), ()])
        f = var_field(cls, sharding=sh, **kw)
      else:
        f = var_field(cls, **kw)
    elif kind == "node":
      cls = nnx.Node
      f = node_field(**kw)
    elif kind == "static":
      cls = nnx.Static
      f = static_field(**kw)
    elif kind == "field":
      f = field(**kw)
    elif kind == "dcfield":
      f = dc.field(**kw)
    else:
      f = dflt if mode == "default" else dc.field(default_factory=kw["default_factory"]) if mode == "factory" else None
      init = rp = cmp = True
      hsh = None
      md = snap = None
    ann[name] = object
    if f is not None or mode == "default":
      ns[name] = f
    assert md is None or md == snap, "the caller's metadata changed"
    spec.append(dict(name=name, cls=cls, sh=sh, default=dflt, init=init, repr=rp, compare=cmp, hash=hsh, md=md or {}, kind=kind,
                     factory=kw.get("default_factory", dc.MISSING) if mode == "factory" else dc.MISSING, mode=mode, snap=snap))
  ns["__annotations__"] = ann
  ns["__qualname__"] = "DC"
  C = type(base)("DC", (base,), ns)
  C = nnx.dataclass(C) if rng.random() < .5 else nnx.dataclass(eq=False)(C)
  return C, spec, log, base


def kinds(rng):
  C, spec, log, base = build(rng)
  fs = {f.name: f for f in dc.fields(C)}
  assert list(fs) == [s["name"] for s in spec]
  for s in spec:
    f = fs[s["name"]]
    assert f.init == s["init"] and f.repr == s["repr"] and f.compare == s["compare"] and f.hash == s["hash"]
    assert f.default_factory is s["factory"]
    if s["mode"] == "default":
      assert f.default is s["default"]
    else:
      assert f.default is dc.MISSING
    assert {k: v for k, v in f.metadata.items() if k != "nnx_container_fn"} == s["md"]
    assert ("nnx_container_fn" in f.metadata) == (s["cls"] is not None)
    assert s["snap"] is None or s["md"] == s["snap"]
  for _ in range(2):
    kw, want = {}, {}
    nf = 0
    for s in spec:
      r = rng.random()
      if not s["init"] or (s["default"] is not dc.MISSING and r < .5):
        want[s["name"]] = s["default"]
        nf += s["mode"] == "factory"
      else:
        v = rng.choice([7, "given", np.arange(2.0), [1, 2], (3,), None, False])
        if s["cls"] is not None and s["cls"] is not nnx.Static and rng.random() < .2:
          c = s["cls"](v, **({"sharding": s["sh"]} if issubclass(s["cls"], nnx.Variable) else {}))
          kw[s["name"]], want[s["name"]] = c, v
        else:
          kw[s["name"]] = want[s["name"]] = v
    log.clear()
    o = C(**kw)
    assert len(log) == nf
    for s in spec:
      got = object.__getattribute__(o, s["name"])
      w = want[s["name"]]
      if s["cls"] is None:
        assert got is w
      else:
        assert type(got) is s["cls"] and got.value is w, (got, s)
        md = {k: v for k, v in vars(got).items() if k != "value"}
        exp = {"sharding": s["sh"]} if issubclass(s["cls"], nnx.Variable) else {}
        assert md == exp, (md, exp)
      assert getattr(o, s["name"]) is w
    o2 = C(**kw)
    for s in spec:
      if s["cls"] is not None:
        assert vars(o2)[s["name"]] is not vars(o)[s["name"]]  # an own container, also for a class-level default
  unk = {s["name"]: 1 for s in spec if s["init"]}
  raised(TypeError, lambda: C(**unk, bogus=1))
  for s in spec:
    if not s["init"]:
      raised(TypeError, lambda: C(**unk, **{s["name"]: 1}))
    elif s["default"] is dc.MISSING:
      raised(TypeError, lambda: C(**{k: v for k, v in unk.items() if k != s["name"]}))


def incompatible(rng):
  """a container of another class or metadata is refused for a declared field."""
  @nnx.dataclass
  class D(nnx.Module):
    w: object = param_field()
    b: object = var_field(nnx.BatchStat, default=0, sharding=("x",))
  raised(ValueError, lambda: D(w=nnx.BatchStat(1)))
  raised(ValueError, lambda: D(w=nnx.Param(1, sharding=("x",))))
  raised(ValueError, lambda: D(w=1, b=nnx.BatchStat(1)))
  d = D(w=nnx.Param(3), b=nnx.BatchStat(4, sharding=("x",)))
  assert d.w == 3 and d.b == 4
  d.w = 5
  assert type(vars(d)["w"]) is nnx.Param and d.w == 5
  st = d.get_state()
  assert list(st) == ["b", "w"]


def reserved(rng):
  for fn in (lambda **k: param_field(**k), lambda **k: var_field(nnx.Param, **k), node_field, static_field):
    md = {"nnx_container_fn": lambda v: v, "o": 1}
    raised(ValueError, lambda: fn(metadata=md))
    raised(ValueError, lambda: fn(default=1, metadata={"nnx_container_fn": None}))
    assert set(md) == {"nnx_container_fn", "o"}
    md = {"user": 1}
    fn(metadata=md)
    fn(metadata=md)
    assert md == {"user": 1}
    from types import MappingProxyType
    f = fn(metadata=MappingProxyType(md))
    assert f.metadata["user"] == 1 and md == {"user": 1}


def options(rng):
  """the decorator's options are those of a plain dataclass."""
  kw = {k: rng.random() < .5 for k in ("init", "repr", "eq", "unsafe_hash")}
  if kw["eq"]:
    kw["order"] = rng.random() < .5
  kw = {k: v for k, v in kw.items() if rng.random() < .7}
  if kw.get("order") and kw.get("eq") is False:
    return

  def mk(dec, base):
    class E(base):
      a: int = 3
      b: int = 4
    return dec(E)
  A = mk(nnx.dataclass(**kw), object)
  B = mk(dc.dataclass(**kw), object)
  p, q = A.__dataclass_params__, B.__dataclass_params__
  assert repr(p) == repr(q)
  assert A() is not None and (A() == A()) == (B() == B())
  assert (A.__hash__ is None) == (B.__hash__ is None)
  C = nnx.dataclass(type("Z", (nnx.Module,), {"__annotations__": {"k": int}, "k": 3}))
  assert C(4).k == 4 and C().k == 3 and dc.is_dataclass(C)
  fr = nnx.dataclass(frozen=True)(type("W", (), {"__annotations__": {"k": int}, "k": 3}))
  raised(dc.FrozenInstanceError, lambda: setattr(fr(), "k", 1))


def inheritance(rng):
  @nnx.dataclass
  class A(nnx.Module):
    w: object = param_field(default=1)
    s: object = static_field(default=2)

  @nnx.dataclass
  class B(A):
    n: object = node_field(default=3)
    w: object = var_field(nnx.BatchStat, default=5)
  b = B()
  assert type(vars(b)["w"]) is nnx.BatchStat and b.w == 5 and type(vars(b)["s"]) is nnx.Static and type(vars(b)["n"]) is nnx.Node
  assert type(vars(A())["w"]) is nnx.Param
  m = b.clone()
  assert type(vars(m)["w"]) is nnx.BatchStat and m.s == 2 and type(vars(m)["s"]) is nnx.Static


CHECKS = [("field kinds", kinds, 250), ("incompatible containers", incompatible, 1), ("reserved metadata", reserved, 1),
          ("decorator options", options, 60), ("inheritance", inheritance, 1)]
