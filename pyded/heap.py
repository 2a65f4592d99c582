"""Persistent symbolic heap: id -> contents, one component per kind of object."""
import z3
from .logic import *

SORTS = {"D": Map, "L": V, "S": VSet, "O": Int}


BOUND = {}    # term id -> (term, b): every object reachable inside has id < b
LOWER = {}    # name of an allocation constant -> numeric lower bound


def set_bound(t, b):
  BOUND[t.get_id()] = (t, b)


def lower_of(t):
  """numeric lower bound of an allocation term, or None."""
  if z3.is_int_value(t):
    return t.as_long()
  if z3.is_app(t):
    if t.num_args() == 0:
      return LOWER.get(t.decl().name())
    if t.decl().kind() == z3.Z3_OP_ADD:
      ls = [lower_of(c) for c in t.children()]
      return None if None in ls else sum(ls)
  return None


def bound_of(t, depth=0):
  """b such that age(t) <= b is known (objects reachable from t have id < b)."""
  if depth > 12 or not z3.is_app(t):
    return None
  r = BOUND.get(t.get_id())
  if r is not None:
    return r[1]
  k, nm = t.decl().kind(), t.decl().name()
  if k == z3.Z3_OP_SELECT:
    return bound_of(t.arg(0), depth + 1)
  if nm in ("D0", "L0"):
    return 0
  if nm in ("tget", "tslice", "minus"):
    return bound_of(t.arg(0), depth + 1)
  if nm.startswith("fld.") or nm in ("rval", "vdval"):
    return bound_of(t.arg(0), depth + 1)
  if nm in ("IV", "SV", "BV", "CV", "NoneV", "EllV", "Abs", "FV"):
    return 0
  cs = None
  if k == z3.Z3_OP_ITE:
    cs = t.children()[1:]
  elif nm in ("over", "tcat", "tsnoc") or (nm.startswith("mk") and nm[2:].isdigit()):
    cs = t.children()
  elif k == z3.Z3_OP_STORE:
    cs = [t.arg(0), t.arg(2)]
  elif k == z3.Z3_OP_CONST_ARRAY:
    return 0
  elif nm in ("RV", "VD") and z3.is_int_value(t.arg(0)):
    return t.arg(0).as_long() + 1
  elif nm in ("RV", "VD") and not z3.is_int_value(t.arg(0)):
    return bound_of(t.arg(0), depth + 1)
  if cs is not None:
    bs = [bound_of(c, depth + 1) for c in cs]
    return None if None in bs else max(bs)
  return None


PARENT = {}   # name of an allocation constant -> term it is at least


def alloc_form(t):
  """(name of allocation constant or None, offset) of an id term, or None."""
  if z3.is_int_value(t):
    return None, t.as_long()
  if z3.is_app(t):
    if t.num_args() == 0:
      nm = t.decl().name()
      return (nm, 0) if nm in PARENT else None
    if t.decl().kind() == z3.Z3_OP_ADD:
      base, off = None, 0
      for c in t.children():
        f = alloc_form(c)
        if f is None or (f[0] is not None and base is not None):
          return None
        base = base or f[0]
        off += f[1]
      return base, off
  return None


def older(i, a):
  """object id i is surely below the allocation term a."""
  i = z3.simplify(i)
  fi, fa = alloc_form(i), alloc_form(z3.simplify(a))
  if fi is not None and fa is not None:
    base, off = fa
    for _ in range(100):
      if base == fi[0]:
        return fi[1] < off
      if base is None:
        return False
      p = alloc_form(z3.simplify(PARENT[base]))
      if p is None:
        return False
      base, off = p[0], p[1] + off
    return False
  lb = lower_of(a)
  if lb is None:
    return False
  b = bound_of(i)
  return b is not None and b <= lb


class _Base:
  def __init__(self, fn):
    self.fn = fn

  def read(self, i):
    return self.fn(i)


class _Upd:
  def __init__(self, prev, i, val):
    self.prev, self.i, self.val = prev, i, val

  def read(self, i):
    if older(i, self.i):
      return self.prev.read(i)
    e = z3.simplify(self.i == i)
    if z3.is_true(e):
      return self.val
    if z3.is_false(e):
      return self.prev.read(i)
    return If(e, self.val, self.prev.read(i))


class _Split:
  """Where keep(i) the old contents, elsewhere arbitrary (fn) contents."""

  def __init__(self, prev, keep, fn):
    self.prev, self.keep, self.fn = prev, keep, fn
    self.memo = {}

  def read(self, i):
    e = z3.simplify(self.keep(i))
    if z3.is_true(e):
      return self.prev.read(i)
    if z3.is_false(e):
      return self.fn(i)
    b = bound_of(i)
    if b is not None and self.keeps_below(b):
      return self.prev.read(i)
    return If(e, self.prev.read(i), self.fn(i))

  def keeps_below(self, b):
    """every id below b is kept, whatever else."""
    if b not in self.memo:
      x = z3.Int("x!kb")
      s = z3.Solver()
      s.set("timeout", 100)
      s.add(x < b, z3.Not(self.keep(x)))
      self.memo[b] = s.check() == z3.unsat
    return self.memo[b]


class Heap:
  __slots__ = ("comp", "alloc")

  def __init__(self, comp, alloc):
    self.comp, self.alloc = comp, alloc

  @staticmethod
  def initial(tag="0", alloc=None):
    comp = {k: _Base(F(f"{k}{tag}", Int, s)) for k, s in SORTS.items()}
    return Heap(comp, z3.IntVal(0) if alloc is None else alloc)

  def rd(self, kind, i):
    if isinstance(i, int):
      i = z3.IntVal(i)
    return self.comp[kind].read(i)

  def D(self, i):
    return self.rd("D", i)

  def L(self, i):
    return self.rd("L", i)

  def S(self, i):
    return self.rd("S", i)

  def O(self, i):
    return self.rd("O", i)

  def wr(self, kind, i, val):
    if isinstance(i, int):
      i = z3.IntVal(i)
    comp = dict(self.comp)
    comp[kind] = _Upd(comp[kind], i, val)
    return Heap(comp, self.alloc)

  def havoc(self, tag, keep, alloc, kinds=("D", "L", "S", "O")):
    """Forget everything where not keep(i); keep is python fn Int->Bool."""
    comp = dict(self.comp)
    for k in kinds:
      comp[k] = _Split(comp[k], keep, F(f"{k}{tag}", Int, SORTS[k]))
    return Heap(comp, alloc)

  def with_alloc(self, a):
    return Heap(dict(self.comp), a)


def idof(v):
  """id of a mutable-object value (RV or VD)."""
  v = z3.simplify(v) if v.decl().kind() == z3.Z3_OP_ITE else v
  if v.decl().name() in ("RV", "VD"):
    return v.arg(0)
  return If(V.is_VD(v), V.vdval(v), V.rval(v))
