"""Value sort, symbols and background axioms of the verifier.

V is the sort of Python values.  Mutable objects are RV(id); the contents of
the object live in a heap (see heap.py) indexed by id.  VD(id) is the
attribute dictionary of object id (what vars(x) returns).  Tuples are
immutable values described by tlen / tget.  Strings and classes are coded by
integers (distinct literals get distinct codes).  XV covers every other
value (arrays, floats, opaque objects of libraries), FV functions.
"""
import z3

_V = z3.Datatype("V")
_V.declare("Abs")
_V.declare("NoneV")
_V.declare("EllV")
_V.declare("BV", ("bval", z3.BoolSort()))
_V.declare("IV", ("ival", z3.IntSort()))
_V.declare("SV", ("sval", z3.IntSort()))
_V.declare("TV", ("tval", z3.IntSort()))
_V.declare("RV", ("rval", z3.IntSort()))
_V.declare("VD", ("vdval", z3.IntSort()))
_V.declare("CV", ("cval", z3.IntSort()))
_V.declare("FV", ("fval", z3.IntSort()))
_V.declare("XV", ("xval", z3.IntSort()))
V = _V.create()
Int, Bool = z3.IntSort(), z3.BoolSort()
Abs, NoneV, EllV = V.Abs, V.NoneV, V.EllV
BV, IV, SV, TV, RV, VD, CV, FV, XV = (
    V.BV, V.IV, V.SV, V.TV, V.RV, V.VD, V.CV, V.FV, V.XV)
Map = z3.ArraySort(V, V)      # dict contents (Abs = key absent)
VSet = z3.ArraySort(V, Bool)  # set contents
EMPTY = z3.K(V, Abs)
NOSET = z3.K(V, z3.BoolVal(False))

F = z3.Function
tlen = F("tlen", V, Int)
tget = F("tget", V, Int, V)
clsof = F("clsof", V, Int)
subc = F("subc", Int, Int, Bool)
dlen = F("dlen", Map, Int)
over = F("over", Map, Map, Map)       # right-biased union of contents
minus = F("minus", Map, Map, Map)     # keys of the first not in the second
truthy = F("truthy", V, Bool)         # truth value of opaque values
pyeq = F("pyeq", V, V, Bool)          # == of opaque values
callable_ = F("callable_", V, Bool)
age = F("age", V, Int)                # every object reachable inside v has id < age
hashable_ = F("hashable", V, Bool)

# sequence algebra on tuple values
tnil = z3.Const("tnil", V)
tsnoc = F("tsnoc", V, V, V)
tcat = F("tcat", V, V, V)
tslice = F("tslice", V, Int, Int, V)
tfrom = F("tfrom", z3.ArraySort(Int, V), Int, V)
# strings
sconcat = F("sconcat", V, V, V)
sjoin = F("sjoin", V, V, V)
ssplit = F("ssplit", V, V, V)
sprefix = F("sprefix", V, V, Bool)
sstr = F("sstr", V, V)
slt = F("slt", V, V, Bool)            # strict order used by sorted() on keys
shas = F("shas", V, V, Bool)          # substring test

_str_codes = {}
_str_names = {}


def S(lit):
  """V term of a string literal (codes follow no order; order is slt)."""
  if lit not in _str_codes:
    _str_codes[lit] = len(_str_codes) + 1
    _str_names[len(_str_codes)] = lit
  return SV(z3.IntVal(_str_codes[lit]))


def str_of_code(n):
  return _str_names.get(n)


def literals():
  return dict(_str_codes)


_cls_codes = {}


def cls_code(name):
  if name not in _cls_codes:
    _cls_codes[name] = 1000 + len(_cls_codes)
  return _cls_codes[name]


def cls_name(code):
  for k, v in _cls_codes.items():
    if v == code:
      return k
  return None


def C(name):
  return z3.IntVal(cls_code(name))


_fn_codes = {}


def fn_code(key):
  if key not in _fn_codes:
    _fn_codes[key] = 1 + len(_fn_codes)
  return _fn_codes[key]


_x_codes = {}


def x_code(key):
  if key not in _x_codes:
    _x_codes[key] = 1 + len(_x_codes)
  return _x_codes[key]


def has_sort(x, s):
  return isinstance(x, z3.ExprRef) and x.sort() == s


def isV(x):
  return isinstance(x, z3.ExprRef) and x.sort() == V


def forall(vs, body, *pats):
  if z3.is_true(z3.simplify(body)):
    return z3.BoolVal(True)
  pats = [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats
          if all(pat_ok(q) for q in (p if isinstance(p, (list, tuple)) else [p]))]
  return z3.ForAll(vs, body, patterns=pats)


def pat_ok(t):
  """legal as a trigger: no boolean connectives or conditionals inside."""
  st = [t]
  while st:
    e = st.pop()
    if z3.is_quantifier(e):
      return False
    if z3.is_app(e):
      if e.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES,
                             z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
        return False
      st.extend(e.children())
  return True


def exists(vs, body, *pats):
  ps = [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats]
  return z3.Exists(vs, body, patterns=ps) if ps else z3.Exists(vs, body)


And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If


def core_axioms():
  """Background theory.  Every axiom is a fact of CPython's semantics."""
  ax = []
  v, w = z3.Consts("v w", V)
  k = z3.Const("k", V)
  A, B = z3.Consts("A B", Map)
  i, j = z3.Ints("i j")
  b = z3.Bool("b")
  c, c2, c3 = z3.Ints("c c2 c3")
  # contents algebra
  ax.append(forall([A, B, k], over(A, B)[k] == If(B[k] == Abs, A[k], B[k]), over(A, B)[k]))
  ax.append(forall([A, B, k], minus(A, B)[k] == If(B[k] == Abs, A[k], Abs), minus(A, B)[k]))
  ax.append(forall([A], And(dlen(A) >= 0, (dlen(A) == 0) == (A == EMPTY)), dlen(A)))
  # tuples
  ax.append(forall([v], tlen(v) >= 0, tlen(v)))
  ax.append(tlen(tnil) == 0)
  ax.append(V.is_TV(tnil))
  ax.append(forall([v, w], And(V.is_TV(tsnoc(v, w)), tlen(tsnoc(v, w)) == tlen(v) + 1,
                               tget(tsnoc(v, w), tlen(v)) == w), tsnoc(v, w)))
  ax.append(forall([v, w, i], Implies(And(0 <= i, i < tlen(v)), tget(tsnoc(v, w), i) == tget(v, i)),
                   tget(tsnoc(v, w), i)))
  ax.append(forall([v, w], And(V.is_TV(tcat(v, w)), tlen(tcat(v, w)) == tlen(v) + tlen(w)), tcat(v, w)))
  ax.append(forall([v, w, i], tget(tcat(v, w), i) == If(i < tlen(v), tget(v, i), tget(w, i - tlen(v))),
                   tget(tcat(v, w), i)))
  ax.append(forall([v, i, j], Implies(And(0 <= i, i <= j, j <= tlen(v)),
                                      And(V.is_TV(tslice(v, i, j)), tlen(tslice(v, i, j)) == j - i)),
                   tslice(v, i, j)))
  ax.append(forall([v, i, j, c], Implies(And(0 <= i, i <= j, j <= tlen(v), 0 <= c, c < j - i),
                                         tget(tslice(v, i, j), c) == tget(v, i + c)),
                   tget(tslice(v, i, j), c)))
  # age: objects inside a value were allocated before it was read
  ax.append(forall([i], age(RV(i)) == i + 1, age(RV(i))))
  ax.append(forall([i], age(VD(i)) == i + 1, age(VD(i))))
  ax.append(forall([v, i], Implies(And(0 <= i, i < tlen(v)), age(tget(v, i)) <= age(v)), tget(v, i)))
  ax.append(forall([v], Implies(Or(V.is_BV(v), V.is_IV(v), V.is_SV(v), V.is_CV(v), V.is_NoneV(v), V.is_EllV(v), v == tnil),
                                age(v) <= 0), age(v)))
  # classes of values
  ax.append(clsof(NoneV) == C("NoneType"))
  ax.append(clsof(EllV) == C("ellipsis"))
  ax.append(forall([b], clsof(BV(b)) == C("bool"), BV(b)))
  ax.append(forall([i], clsof(IV(i)) == C("int"), IV(i)))
  ax.append(forall([i], clsof(SV(i)) == C("str"), SV(i)))
  ax.append(forall([i], clsof(VD(i)) == C("dict"), VD(i)))
  # subclass relation: reflexive, transitive over the named classes
  ax.append(forall([c], subc(c, c), subc(c, c)))
  ax.append(forall([v], Implies(And(V.is_RV(v)), And(
      clsof(v) != C("bool"), clsof(v) != C("int"), clsof(v) != C("str"), clsof(v) != C("NoneType"),
      clsof(v) != C("ellipsis"))), clsof(v)))
  # callability of value kinds
  ax.append(Not(callable_(NoneV)))
  ax.append(Not(callable_(EllV)))
  ax.append(forall([i], Not(callable_(SV(i))), callable_(SV(i))))
  ax.append(forall([i], Not(callable_(IV(i))), callable_(IV(i))))
  ax.append(forall([b], Not(callable_(BV(b))), callable_(BV(b))))
  ax.append(forall([i], callable_(CV(i)), callable_(CV(i))))
  ax.append(forall([i], callable_(FV(i)), callable_(FV(i))))
  return ax
