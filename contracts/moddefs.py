"""C23: module definitions as values; ids."""
from pyded.spec import *
from pyded.core import mk
from .containers import cd, container_config
from .common import node_functions

USES = ()
MDEF = "nnx.module.ModuleDef"
MGR = "nnx.ids.UUIDManager"
UUID = "nnx.ids.UUID"
FIELDS = ("_type", "_index", "_submodules", "_static_fields", "_module_state")
hash_ = F("hash", V, Int)
RID, LOCK, CNTR = S("id"), S("_lock"), S("_id")


def isc(ex, v, full):
  return And(V.is_RV(v), clsof(v) == ex.ccode(ex.cls(full)))


def md_config(ex):
  container_config(ex)
  ex.query_classes = list(ex.query_classes) + [MDEF]

  def tup(ex, obj, val):
    ex.assume(And(V.is_TV(val), clsof(val) == C("tuple")))
    ex.hint(val, "tuple")
  for f in ("_submodules", "_static_fields", "_module_state"):
    ex.field_inv[(MDEF, f)] = tup
  ex.field_inv[(MDEF, "_type")] = lambda ex, obj, val: (ex.assume(V.is_CV(val)), ex.hint(val, "type"))
  ex.field_inv[(MDEF, "_index")] = lambda ex, obj, val: (ex.assume(V.is_IV(val)), ex.hint(val, "int"))


def wf_def(ex, d):
  D = cd(ex.heap, d)
  return And(isc(ex, d, MDEF), V.is_CV(D[S("_type")]), V.is_IV(D[S("_index")]),
             *[And(V.is_TV(D[S(f)]), clsof(D[S(f)]) == C("tuple")) for f in FIELDS[2:]])


def sym_def(ex, name):
  d = ex.sym(name, MDEF)
  ex.assume(wf_def(ex, d))
  return d


def same_def(h, x, y):
  A, B = cd(h, x), cd(h, y)
  return And(A[S("_type")] == B[S("_type")], *[peq(A[S(f)], B[S(f)]) for f in ("_submodules", "_static_fields", "_module_state")])


class DefEq(Contract):
  """equality: exactly class, sub-module structure, static fields and flags agree."""
  props = ("C23",)
  target = MDEF + ".__eq__"
  params = ("self", "other")
  pure = True
  config = lambda self, ex: md_config(ex)

  def setup(self, ex, a):
    a.self = sym_def(ex, "self")
    a.other = ex.sym("other")
    if ex.branch(ex.isinst_term(a.other, ex.cls(MDEF))):
      ex.hint(a.other, "nnx:" + MDEF)
      ex.assume(wf_def(ex, a.other))

  def requires(self, ex, a):
    return []

  def result(self, ex, a, h0):
    return ex.fresh("eq", Bool)

  def ensures(self, ex, a, h0, r):
    x, y = ex.lift(a.self), ex.lift(a.other)
    return [("equal exactly when the definitions agree",
             ex.as_bool(ex.truth(r)) == And(ex.isinst_term(y, ex.cls(MDEF)), same_def(h0, x, y)))]


def hash_law(ex):
  x, y = z3.Consts("x!hl y!hl", V)
  ex.assume(forall([x, y], Implies(peq(x, y), hash_(x) == hash_(y)), [hash_(x), hash_(y)]), "values compared equal have equal hashes")
  for n in range(1, 8):
    xs = [z3.Const(f"x{i}!hl", V) for i in range(n)]
    th = F(f"tuplehash{n}", *([Int] * (n + 1)))
    ex.assume(forall(xs, hash_(mk(*xs)) == th(*[hash_(x) for x in xs]), hash_(mk(*xs))), "the hash of a tuple is a function of the hashes of its elements")


def eq_hash(ex):
  """equal definitions have equal hashes."""
  hash_law(ex)
  a, b = sym_def(ex, "a"), sym_def(ex, "b")
  h = ex.heap
  ex.prove("cover: two definitions", z3.BoolVal(False), kind="cover")
  ex.assume(same_def(h, a, b))
  x = ex.iterm(ex.call_method(a, "__hash__", []))
  y = ex.iterm(ex.call_method(b, "__hash__", []))
  ex.prove("equal definitions hash equal", x == y)


def tree_node(ex):
  """a definition has no leaves; tree operations give back a definition with identical fields."""
  fl, un, fk = node_functions(ex, "nnx.module", MDEF)
  d = sym_def(ex, "moduledef")
  h0 = ex.heap
  ex.entry_alloc = ex.heap.alloc
  ex.prove("cover: a definition", z3.BoolVal(False), kind="cover")
  kids, aux = ex.to_tuple(ex.call(fl if fl is not None else fk, [d], {}))
  ex.prove("no leaves", ex.iterm(ex.t_len(ex.to_tuple(kids))) == 0)
  d2 = ex.lift(ex.call(un, [aux, ()], {}))
  ex.prove("a definition", isc(ex, d2, MDEF))
  A, B = cd(h0, d), cd(ex.heap, d2)
  for f in FIELDS:
    ex.prove(f"the same {f}", A[S(f)] == B[S(f)])


def sym_uuid(ex, name):
  u = ex.sym(name, UUID)
  ex.assume(And(isc(ex, u, UUID), V.is_IV(cd(ex.heap, u)[RID])))
  return u


class Issue(Contract):
  """one draw, with other threads drawing at any time outside the lock: the id lies strictly above the
  counter at the acquisition of the lock and at most at the counter at its release."""
  props = ("C23",)
  target = MGR + ".__call__"
  params = ("self",)

  def config(self, ex):
    md_config(ex)
    ex.field_inv[(MGR, "_id")] = lambda ex, obj, val: (ex.assume(V.is_IV(val)), ex.hint(val, "int"))
    ex.field_inv[(UUID, "id")] = lambda ex, obj, val: (ex.assume(V.is_IV(val)), ex.hint(val, "int"))
    ex.with_hook = self.lock
    ex.ext_handlers[".acquire"] = lambda ex, a, k: self.lock(ex, a[0], "enter")
    ex.ext_handlers[".release"] = lambda ex, a, k: self.lock(ex, a[0], "exit")

  def interfere(self, ex, m):
    """other threads draw ids: the counter may grow, nothing else changes."""
    i = V.rval(m)
    D = ex.heap.D(i)
    n = ex.fresh("others", Int)
    ex.assume(n >= V.ival(D[CNTR]))
    ex.heap = ex.heap.wr("D", i, z3.Store(D, CNTR, IV(n)))
    return n

  def lock(self, ex, cm, phase):
    a = ex.spec_args
    m = ex.lift(a.self)
    ex.prove("the manager's own lock is used", ex.lift(cm) == cd(ex.h0, m)[LOCK])
    D = ex.heap.D(V.rval(m))
    if phase == "enter":
      ex.prove("the counter is not written before the lock is held", D == ex.heap_out.D(V.rval(m)))
      ex.prove("the lock is not taken twice", z3.BoolVal(not ex.lock_held and ex.lock_acq is None))
      ex.lock_held = True
      ex.lock_acq = self.interfere(ex, m)
    else:
      ex.prove("the lock is held at its release", z3.BoolVal(ex.lock_held))
      ex.lock_held = False
      ex.lock_rel = V.ival(D[CNTR])
      self.interfere(ex, m)
      ex.heap_out = ex.heap

  def setup(self, ex, a):
    a.self = ex.sym("self", MGR)
    D = cd(ex.heap, a.self)
    ex.assume(And(isc(ex, a.self, MGR), V.is_IV(D[CNTR]), V.is_XV(D[LOCK])))
    ex.lock_held, ex.lock_acq, ex.lock_rel, ex.heap_out = False, None, None, ex.heap

  def requires(self, ex, a):
    D = cd(ex.heap, ex.lift(a.self))
    return [("a manager", V.is_IV(D[CNTR]))]

  def modifies(self, ex, a, h0, i):
    return i == V.rval(ex.lift(a.self))

  def result(self, ex, a, h0):
    r = ex.fresh("uuid")
    ex.hint(r, "nnx:" + UUID)
    return r

  def ensures(self, ex, a, h0, r):
    r = ex.lift(r)
    m = ex.lift(a.self)
    u = cd(ex.heap, r)
    D, D0 = ex.named(cd(ex.heap, m)), ex.named(cd(h0, m))
    k = z3.Const("k!is", V)
    out = [("a new id object", And(isc(ex, r, UUID), V.rval(r) >= h0.alloc, V.is_IV(u[RID]))),
           ("above every id drawn before", V.ival(u[RID]) > V.ival(D0[CNTR])),
           ("not above the counter", And(V.is_IV(D[CNTR]), V.ival(D[CNTR]) >= V.ival(u[RID])))]
    if ex.spec_args is a:
      done = not ex.lock_held and ex.lock_acq is not None and ex.lock_rel is not None
      out.append(("drawn under the lock", z3.BoolVal(done)))
      if done:
        out.append(("above the counter when the lock was taken", V.ival(u[RID]) > ex.lock_acq))
        out.append(("covered by the counter when the lock was released", V.ival(u[RID]) <= ex.lock_rel))
        out.append(("the counter is not written after the release", D == ex.heap_out.D(V.rval(m))))
    return out


def global_manager(ex):
  """nnx.ids.uuid, created when the module is imported."""
  m = z3.Const("uuid manager", V)
  D = cd(ex.heap, m)
  ex.assume(And(isc(ex, m, MGR), V.is_IV(D[CNTR]), age(m) <= 0))
  ex.hint(m, "nnx:" + MGR)
  return m


def id_config(ex):
  md_config(ex)
  ex.global_over["nnx.ids.uuid"] = global_manager


class IdCopy(Contract):
  """copying an id draws a new one."""
  props = ("C23",)
  params = ("self",)
  target = UUID + ".__copy__"
  callable = False
  config = lambda self, ex: id_config(ex)

  def setup(self, ex, a):
    a.self = sym_uuid(ex, "self")
    m = global_manager(ex)
    ex.assume(V.ival(cd(ex.heap, a.self)[RID]) <= V.ival(cd(ex.heap, m)[CNTR]))
    if "memo" in self.params:
      a.memo = ex.sym("memo", "dict")

  def modifies(self, ex, a, h0, i):
    return i == V.rval(global_manager(ex))

  def ensures(self, ex, a, h0, r):
    m = global_manager(ex)
    r = ex.lift(r)
    return [("a new id", And(isc(ex, r, UUID), V.ival(cd(ex.heap, r)[RID]) > V.ival(cd(h0, m)[CNTR]))),
            ("different from the original", V.ival(cd(ex.heap, r)[RID]) != V.ival(cd(h0, ex.lift(a.self))[RID]))]


class IdDeepCopy(IdCopy):
  target = UUID + ".__deepcopy__"
  params = ("self", "memo")


class IdEq(Contract):
  props = ("C23",)
  target = UUID + ".__eq__"
  params = ("self", "other")
  pure = True
  callable = False
  config = lambda self, ex: md_config(ex)

  def setup(self, ex, a):
    a.self = sym_uuid(ex, "self")
    a.other = ex.sym("other")
    if ex.branch(ex.isinst_term(a.other, ex.cls(UUID))):
      ex.hint(a.other, "nnx:" + UUID)
      ex.assume(And(isc(ex, a.other, UUID), V.is_IV(cd(ex.heap, a.other)[RID])))

  def ensures(self, ex, a, h0, r):
    x, y = a.self, a.other
    return [("equal exactly when the same id",
             ex.as_bool(ex.truth(r)) == And(ex.isinst_term(y, ex.cls(UUID)), cd(h0, x)[RID] == cd(h0, y)[RID]))]


def id_hash(ex):
  x, y = sym_uuid(ex, "x"), sym_uuid(ex, "y")
  ex.assume(cd(ex.heap, x)[RID] == cd(ex.heap, y)[RID])
  ex.prove("cover: two ids", z3.BoolVal(False), kind="cover")
  ex.prove("equal ids hash equal", ex.iterm(ex.call_method(x, "__hash__", [])) == ex.iterm(ex.call_method(y, "__hash__", [])))


def manager_init(ex):
  """a new manager starts with a counter and a lock of its own."""
  def lock(ex, a, k):
    r = ex.fresh("lock")
    ex.assume(V.is_XV(r))
    return r
  ex.ext_handlers["threading.Lock"] = ex.ext_handlers["threading.RLock"] = lock
  m = ex.lift(ex.call(ClassV(ex.cls(MGR)), [], {}))
  D = cd(ex.heap, m)
  ex.prove("a counter and a lock", And(isc(ex, m, MGR), V.is_IV(D[CNTR]), D[LOCK] != Abs, Not(V.is_NoneV(D[LOCK]))))


SPECS = [DefEq(), Issue(), IdCopy(), IdDeepCopy(), IdEq(),
         Lemma("nnx.module.ModuleDef#equal definitions hash equal", eq_hash, md_config, props=("C23",)),
         Lemma("nnx.module.ModuleDef#tree node", tree_node, md_config, props=("C23",)),
         Lemma("nnx.ids.UUID#equal ids hash equal", id_hash, md_config, props=("C23",)),
         Lemma("nnx.ids.UUIDManager#new manager", manager_init, md_config, props=("C23",))]
REGISTRY = SPECS
AXIOMS = list
