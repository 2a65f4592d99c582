"""Symbolic state, branching, value conversions, classes and obligations."""
import z3
from .logic import *
from .heap import Heap, idof
from .vals import *
from .world import ClassInfo, FuncInfo, World, canon_ext

BUILTIN_EXC = {
    "ValueError": ["Exception"], "TypeError": ["Exception"], "KeyError": ["LookupError"],
    "IndexError": ["LookupError"], "LookupError": ["Exception"], "AttributeError": ["Exception"],
    "AssertionError": ["Exception"], "Exception": ["BaseException"], "RuntimeError": ["Exception"],
    "BaseException": [], "NotImplementedError": ["RuntimeError"], "RecursionError": ["RuntimeError"],
    "StopIteration": ["Exception"], "AnyException": ["BaseException"], "KeyboardInterrupt": ["BaseException"],
}

KIND_TESTS = {
    "str": lambda v: V.is_SV(v),
    "bool": lambda v: V.is_BV(v),
    "int": lambda v: Or(V.is_IV(v), V.is_BV(v)),
    "NoneType": lambda v: V.is_NoneV(v),
    "ellipsis": lambda v: V.is_EllV(v),
    "type": lambda v: V.is_CV(v),
    "tuple": lambda v: V.is_TV(v),
}
# external / builtin class order used for subclass facts
EXT_BASES = {
    "bool": ["int"], "dict": ["Mapping"], "list": ["Sequence_abc"], "tuple": ["Sequence_abc"],
    "str": ["Sequence_abc"], "Mapping": ["Iterable"], "Sequence_abc": ["Iterable"], "set": ["Iterable"],
    "mappingproxy": ["Mapping"],
}
RV_EXT = ("dict", "list", "set", "mappingproxy")

mk_fns = {}


def mkfn(n):
  if n not in mk_fns:
    mk_fns[n] = z3.Function(f"mk{n}", *([V] * (n + 1)))
  return mk_fns[n]


def mk(*ts):
  if not ts:
    return tnil
  return mkfn(len(ts))(*ts)


tnew = F("tnew", Int, V, V)     # instance of a tuple subclass with given elements
trep = F("trep", V, Int, V)     # [v] * n
trange = F("trange", Int, Int, V)
tin = F("tin", V, V, Bool)      # membership in a tuple/list content
ukey = F("ukey", Int, V)        # dict key of an id object
ukeyinv = F("ukeyinv", V, Int)
slen = F("slen", V, Int)
kseq = F("kseq", Map, Int, Int, V)   # key sequence of dict contents in the order token
kpos = F("kpos", Map, Int, V, Int)


def mk_axioms(maxn=9):
  ax = []
  for n in range(1, maxn + 1):
    xs = z3.Consts(" ".join(f"x{i}" for i in range(n)), V)
    t = mkfn(n)(*xs)
    body = [V.is_TV(t), tlen(t) == n, clsof(t) == C("tuple")]
    body += [tget(t, i) == xs[i] for i in range(n)]
    m = age(xs[0])
    for x in xs[1:]:
      m = If(age(x) > m, age(x), m)
    body += [age(t) == m]
    ax.append(forall(list(xs), And(*body), t))
  v, w = z3.Consts("v w", V)
  c, i, n = z3.Ints("c i n")
  ax.append(forall([c, v], And(V.is_TV(tnew(c, v)), Implies(subc(c, C("tuple")), clsof(tnew(c, v)) == c),
                               tlen(tnew(c, v)) == tlen(v), age(tnew(c, v)) == age(v)), tnew(c, v)))
  ax.append(forall([c, v, i], tget(tnew(c, v), i) == tget(v, i), tget(tnew(c, v), i)))
  ax.append(forall([v, n], Implies(n >= 0, And(V.is_TV(trep(v, n)), tlen(trep(v, n)) == n)), trep(v, n)))
  ax.append(forall([v, n, i], Implies(And(0 <= i, i < n), tget(trep(v, n), i) == v), tget(trep(v, n), i)))
  ax.append(forall([c, n], Implies(c <= n, And(V.is_TV(trange(c, n)), tlen(trange(c, n)) == n - c)), trange(c, n)))
  ax.append(forall([c, n, i], Implies(And(0 <= i, i < n - c), tget(trange(c, n), i) == IV(c + i)), tget(trange(c, n), i)))
  ax.append(forall([i], ukeyinv(ukey(i)) == i, ukey(i)))
  ax.append(forall([i], V.is_XV(ukey(i)), ukey(i)))
  ax.append(forall([v, w], tin(v, w) == exists([i], And(0 <= i, i < tlen(w), tget(w, i) == v)), tin(v, w)))
  ax.append(clsof(tnil) == C("tuple"))
  ax.append(forall([v, w], And(clsof(tsnoc(v, w)) == C("tuple")), tsnoc(v, w)))
  ax.append(forall([v, w], And(clsof(tcat(v, w)) == C("tuple")), tcat(v, w)))
  for k, f in KIND_TESTS.items():
    ax.append(forall([v], subc(clsof(v), C(k)) == f(v), subc(clsof(v), C(k))))
  return ax


class Dec:
  __slots__ = ("prefix", "pos", "alts", "taken", "q")

  def __init__(self, prefix):
    self.prefix, self.pos, self.alts, self.taken, self.q = prefix, 0, [], [], 0

  def take(self, v):
    self.pos += 1
    self.taken.append(v)
    self.q = 0


class Obl:
  __slots__ = ("name", "pc", "goal", "loc", "kind", "trace")

  def __init__(self, name, pc, goal, loc, kind="prove", trace=()):
    self.name, self.pc, self.goal, self.loc, self.kind, self.trace = name, pc, goal, loc, kind, trace


class Core:
  def __init__(self, world, axioms=(), feas_ms=150):
    self.w = world
    self.extra_axioms = list(axioms)
    self.obligations = []
    self.covers = []
    self.feas_ms = feas_ms
    self.assumptions = set()      # trusted facts used
    self.externals = set()        # external functions modelled as pure deterministic symbols
    self.used_contracts = set()
    self.inlined = set()
    self.frozen = {}              # class full name -> set of frozen fields
    self.solver_time = 0.0
    self._axioms = None

  # ---------------------------------------------------------------- classes
  def class_code_name(self, c):
    if isinstance(c, ClassInfo):
      return "nnx:" + c.full
    return canon_ext(c)

  def ccode(self, c):
    return C(self.class_code_name(c))

  def class_facts(self):
    """subclass facts of the classes in the current source (mechanical)."""
    ax = []
    c = z3.Int("c")
    names = []
    edges = set()
    known = list(self.w.class_by_full.values())
    for ci in known:
      for b in ci.bases:
        if isinstance(b, str) and b in ("Generic", "Protocol", "object"):
          continue
        if isinstance(b, str) and b.startswith("abc."):
          continue
        edges.add((self.class_code_name(ci), self.class_code_name(b)))
    for a, bs in EXT_BASES.items():
      for b in bs:
        edges.add((a, b))
    for a, b in sorted(edges):
      ax.append(forall([c], Implies(subc(c, C(a)), subc(c, C(b))), subc(c, C(a))))
      ax.append(subc(C(a), C(b)))
    # closed world on the classes in the source: negative facts
    allc = sorted({self.class_code_name(k) for k in known} | set(EXT_BASES) | {"jax.Array", "numpy.ndarray", "float"}
                  | {"NoneType", "ellipsis", "int", "type"})
    anc = {}

    def up(x):
      if x in anc:
        return anc[x]
      anc[x] = {x}
      for a, b in edges:
        if a == x:
          anc[x] |= up(b)
      return anc[x]
    for a in allc:
      for b in allc:
        if b not in up(a):
          ax.append(Not(subc(C(a), C(b))))
    # instances of the classes in the source (other than named tuples) are objects
    v = z3.Const("v", V)
    for ci in known:
      if "tuple" not in ci.mro():
        cc = C(self.class_code_name(ci))
        ax.append(forall([v], Implies(subc(clsof(v), cc), V.is_RV(v)), subc(clsof(v), cc)))
    # families assumed disjoint for all (user) classes
    fams = self.disjoint_families()
    for i in range(len(fams)):
      for j in range(i + 1, len(fams)):
        ax.append(forall([c], Implies(subc(c, C(fams[i])), Not(subc(c, C(fams[j])))),
                         [subc(c, C(fams[i])), subc(c, C(fams[j]))]))
    return ax

  def disjoint_families(self):
    fams = []
    for full in ("nnx.module.Module", "nnx.containers.Container", "nnx.state.State", "nnx.pytreelib.Pytree",
                 "nnx.module.Pure", "nnx.module.ModuleDef", "nnx.contextlib.Context", "nnx.contextlib.RngStream",
                 "nnx.contextlib.PureContext", "nnx.contextlib.ContextDef", "nnx.containers.ContainerMetadata",
                 "nnx.ids.UUID", "nnx.module.ModuleState", "nnx.tracers.TraceState",
                 "nnx.partitioning.OfType", "nnx.partitioning.Any", "nnx.partitioning.All",
                 "nnx.partitioning.Not", "nnx.partitioning.Everything", "nnx.partitioning.Nothing"):
      ci = self.w.class_by_full.get(full)
      if ci is not None:
        fams.append(self.class_code_name(ci))
    return fams + ["jax.Array", "numpy.ndarray", "dict", "list", "set", "str", "type", "float"]

  def axioms(self):
    if self._axioms is None:
      self._axioms = core_axioms() + mk_axioms() + self.class_facts() + list(self.extra_axioms)
    return self._axioms

  # ---------------------------------------------------------------- path state
  def reset(self, prefix):
    self.decs = [Dec(tuple(prefix))]
    self.pc = []
    self.heap = Heap.initial()
    self.frames = []
    self.hints = {}
    self.map_names = {}
    self.fresh_n = 0
    self.fnreg = {}
    self.fnrev = {}
    self.tracebr = []
    self.cur_loc = None
    self.writes = None
    self.facts = {}
    self.noklass = {}
    self.solver = z3.SimpleSolver() if False else z3.Solver()
    self.limit(self.feas_ms)
    self.solver.set("mbqi", False)
    for a in self.axioms():
      self.solver.add(a)
    self.call_depth = 0
    # objects stored in objects that exist on entry exist on entry
    i, k = z3.Int("i!h0"), z3.Const("k!h0", V)
    D0, L0 = F("D0", Int, Map), F("L0", Int, V)
    self.assume(forall([i, k], Implies(i < 0, age(D0(i)[k]) <= 0), D0(i)[k]))
    self.assume(forall([i], Implies(i < 0, age(L0(i)) <= 0), L0(i)))
    self.warm = 0   # the first queries also pay for loading the axioms

  def fresh(self, base, sort=V):
    self.fresh_n += 1
    return z3.Const(f"{base}!{self.fresh_n}", sort)

  def fresh_fn(self, base, *sorts):
    self.fresh_n += 1
    return z3.Function(f"{base}!{self.fresh_n}", *sorts)

  def assume(self, f, why=None):
    if f is True:
      return
    if f is False:
      raise Abort()
    if why:
      self.assumptions.add(why)
    if z3.is_true(f):
      return
    self.pc.append(f)
    self.solver.add(f)
    self.note_facts(f)

  def note_facts(self, f):
    """conjuncts of the path condition, for syntactic look-up."""
    pos = len(self.pc) - 1
    st = [z3.simplify(f)]
    n = 0
    while st and n < 60:
      g = st.pop()
      n += 1
      if z3.is_and(g):
        st.extend(g.children())
        continue
      if z3.is_quantifier(g):
        continue
      self.facts[g.get_id()] = (g, f, pos)
      h, neg = (g.arg(0), True) if z3.is_not(g) else (g, False)
      if z3.is_eq(h):
        h = h.arg(1) == h.arg(0)
        h = Not(h) if neg else h
        self.facts[h.get_id()] = (h, f, pos)

  def is_fact(self, g):
    e = self.facts.get(g.get_id())
    return e is not None and e[2] < len(self.pc) and self.pc[e[2]] is e[1]

  def syntactic(self, cond):
    """truth value of cond if it (or its negation) is a conjunct of the path condition."""
    if self.is_fact(cond):
      return True
    n = cond.arg(0) if z3.is_not(cond) else Not(cond)
    if self.is_fact(n):
      return False
    return None

  def replaying(self):
    return any(d.pos < len(d.prefix) for d in self.decs)

  def limit(self, ms):
    """effort of a quick query in solver resources (about 2500 per ms on an idle
    machine), so that the outcome does not depend on the load; time as a backstop."""
    self.solver.set("rlimit", int(ms * 2500))
    self.solver.set("timeout", int(ms * 10))

  qlog = None

  def where(self):
    """the point of the exploration reached: decisions so far and queries since."""
    return tuple((tuple(d.taken), d.q) for d in self.decs)

  def check(self, extra=None, ms=None):
    """a query; the re-execution of a path gets the answers of the first execution,
    so that it takes the same course."""
    return self.same_answer("check", lambda: self.check_now(extra, ms)) if self.decs else self.check_now(extra, ms)

  def check_now(self, extra=None, ms=None):
    import time
    t = time.time()
    try:
      if self.warm < 2:
        self.warm += 1
        self.limit(max(ms or 0, 8 * self.feas_ms))
      elif ms:
        self.limit(ms)
      r = self.solver.check(*([extra] if extra is not None else []))
    finally:
      if ms or self.warm <= 2:
        self.limit(self.feas_ms)
        self.warm += self.warm == 2
      self.solver_time += time.time() - t
    return r

  def entails(self, f, ms=None):
    """quick proof attempt under the current path condition."""
    if f is True:
      return True
    if f is False:
      return False
    f = z3.simplify(f)
    if z3.is_true(f):
      return True
    if z3.is_false(f):
      return False
    if self.syntactic(f) is True:
      return True
    return self.check(Not(f), ms) == z3.unsat

  def choose(self, n, label=""):
    d = self.decs[-1]
    if d.pos < len(d.prefix):
      v = d.prefix[d.pos]
    else:
      v = 0
      base = tuple(d.taken)
      for i in range(1, n):
        d.alts.append(base + (i,))
    self.same_point(d, n)
    d.take(v)
    return v

  def same_point(self, d, what):
    """a decision re-executed is the decision first executed."""
    if self.qlog is None:
      self.qlog = {}
    k = ("decision", self.where()[:-1], tuple(d.taken))
    if self.qlog.setdefault(k, (what, self.cur_loc)) != (what, self.cur_loc):
      raise Unsupported("the exploration of the paths diverged")

  def branch(self, cond):
    if cond is True or cond is False:
      return cond
    cond = z3.simplify(cond)
    d = self.decs[-1]
    self.same_point(d, "branch")
    known = True if z3.is_true(cond) else False if z3.is_false(cond) else self.syntactic(cond)
    if d.pos < len(d.prefix):
      v = d.prefix[d.pos]
    elif known is not None:
      v = int(known)
    else:
      rt = self.check(cond)
      if rt == z3.unsat:
        v = 0
      else:
        rf = self.check(Not(cond))
        v = 1
        if rf != z3.unsat:
          d.alts.append(tuple(d.taken) + (0,))
    d.take(v)
    if known is not None and bool(v) == known:
      return known
    self.assume(cond if v else Not(cond))
    self.learn(cond, bool(v))
    return bool(v)

  def learn(self, cond, val):
    """turn class tests into hints."""
    if z3.is_quantifier(cond):
      return
    k = cond.decl().kind()
    if k == z3.Z3_OP_NOT:
      return self.learn(cond.arg(0), not val)
    if k == z3.Z3_OP_AND and val:
      for c in cond.children():
        self.learn(c, True)
      return
    if k == z3.Z3_OP_OR and not val:
      for c in cond.children():
        self.learn(c, False)
      return
    if not val:
      return
    nm = cond.decl().name()
    if nm == "subc" and cond.arg(0).decl().name() == "clsof":
      code = cond.arg(1)
      if z3.is_int_value(code):
        n = cls_name(code.as_long())
        if n:
          self.hint(cond.arg(0).arg(0), n)
    elif k == z3.Z3_OP_DT_IS or nm == "is":
      try:
        con = cond.decl().params()[0].name()
      except Exception:
        con = ""
      m = {"SV": "str", "IV": "int", "BV": "bool", "TV": "tuple", "CV": "type", "VD": "dict", "FV": "function"}
      if con in m:
        self.hint(cond.arg(0), m[con])
    elif k == z3.Z3_OP_EQ:
      a, b = cond.arg(0), cond.arg(1)
      if a.decl().name() == "clsof" and z3.is_int_value(b):
        n = cls_name(b.as_long())
        if n:
          self.hint(a.arg(0), n)

  def hint(self, term, name):
    old = self.hints.get(term.get_id())
    if old is not None and old[1] != name:
      # keep the more specific
      a, b = self.cls_by_code(old[1]), self.cls_by_code(name)
      if isinstance(a, ClassInfo) and not (isinstance(b, ClassInfo) and b.has_base(a)):
        return
    self.hints[term.get_id()] = (term, name)

  def opaque(self, term):
    """the term is a library value (follows from the path condition)."""
    if not self.entails(V.is_XV(term)):
      raise Unsupported("a library value expected")
    self.hint(term, "opaque")
    return term

  def cls_by_code(self, name):
    if name.startswith("nnx:"):
      return self.w.class_by_full[name[4:]]
    return name

  def klass(self, v):
    """static upper bound of the class of v: ClassInfo, builtin name or None."""
    if v is None:
      return "NoneType"
    if v is Ellipsis:
      return "ellipsis"
    if isinstance(v, bool) or has_sort(v, Bool):
      return "bool"
    if isinstance(v, int) or has_sort(v, Int):
      return "int"
    if isinstance(v, float):
      return "float"
    if isinstance(v, str):
      return "str"
    if isinstance(v, tuple):
      return "tuple"
    if isinstance(v, (PyFunc, Prim, PartialV, BoundExt)):
      return "function"
    if isinstance(v, (ClassV, ExtClass)):
      return "type"
    if isinstance(v, DView):
      return "dictview"
    if isinstance(v, (GenV, MapV, ZipV, EnumV)):
      return "iterator"
    if isinstance(v, RangeV):
      return "range"
    if isinstance(v, SortedV):
      return "list"
    if isinstance(v, ExtV):
      return "external"
    if isV(v):
      nm = v.decl().name()
      m = {"NoneV": "NoneType", "EllV": "ellipsis", "BV": "bool", "IV": "int", "SV": "str", "VD": "dict", "CV": "type",
           "FV": "function", "tnil": "tuple", "tsnoc": "tuple", "tcat": "tuple", "tslice": "tuple", "trep": "tuple",
           "trange": "tuple"}
      if nm in m:
        return m[nm]
      if nm.startswith("mk") and nm[2:].isdigit():
        return "tuple"
      if nm == "tnew":
        c = v.arg(0)
        if z3.is_int_value(c):
          return self.cls_by_code(cls_name(c.as_long()))
        return "tuple"
      h = self.hints.get(v.get_id())
      if h is not None:
        return None if h[1] == "opaque" else self.cls_by_code(h[1])
      return self._klass_query(v)
    return None

  KLASS_CANDIDATES = ["str", "NoneType", "tuple", "dict", "list", "int", "bool", "type"]

  def same_answer(self, what, f):
    """the answer of the first execution of this point of the path."""
    if self.nolog or not self.decs:
      return f()
    if self.qlog is None:
      self.qlog = {}
    key = (what, self.where())
    if self.decs:
      self.decs[-1].q += 1
    r = self.qlog.get(key)
    if r is not None and r[1] != self.cur_loc:
      raise Unsupported("the exploration of the paths diverged")
    if r is None:
      self.nolog = True
      try:
        r = self.qlog[key] = (f(), self.cur_loc)
      finally:
        self.nolog = False
    return r[0]

  nolog = False

  def _klass_query(self, v):
    # asked before in vain, and nothing was learnt about v since
    last = self.noklass.get(v.get_id())
    if last is not None:
      n, f = last[1:]
      if n <= len(self.pc) and (n == 0 or self.pc[n - 1] is f) and not any(self.mentions(g, v) for g in self.pc[n:]):
        return None
    r = self.same_answer("klass", lambda: self._klass_query1(v))
    if r is not None:
      self.hint(v, r if isinstance(r, str) else self.class_code_name(r))
    if r is None:
      self.noklass[v.get_id()] = (v, len(self.pc), self.pc[-1] if self.pc else None)
    return r

  def mentions(self, f, v):
    if z3.is_quantifier(f):
      return True
    st, seen, i = [f], set(), v.get_id()
    while st:
      t = st.pop()
      k = t.get_id()
      if k == i:
        return True
      if k in seen:
        continue
      seen.add(k)
      if z3.is_app(t):
        st.extend(t.children())
    return False

  def _klass_query1(self, v):
    # a candidate model rules most classes out
    mdl, sure = None, False
    try:
      res = self.check()
      if res != z3.unsat:
        mdl = self.solver.model()
        sure = res == z3.sat
    except z3.Z3Exception:
      pass

    def possible(f, user=True):
      # (a model that may break quantified facts only decides against user classes)
      return mdl is None or not (sure or user) or not z3.is_false(mdl.eval(f, model_completion=True))
    for k in self.KLASS_CANDIDATES:
      f = self.isinst_term(v, k)
      if possible(f, False) and self.entails(f):
        self.hint(v, k)
        return k
    best = None
    for full in self.query_classes:
      ci = self.w.class_by_full.get(full)
      if ci is None:
        continue
      f = self.isinst_term(v, ci)
      if possible(f) and self.entails(f):
        if best is None or ci.has_base(best):
          best = ci
    if best is not None:
      self.hint(v, self.class_code_name(best))
    return best

  query_classes = ["nnx.module.Module", "nnx.state.State", "nnx.module.Pure", "nnx.module.ModuleDef",
                   "nnx.containers.Container", "nnx.containers.Node", "nnx.containers.Variable",
                   "nnx.contextlib.Context", "nnx.contextlib.RngStream", "nnx.contextlib.PureContext",
                   "nnx.pytreelib.Pytree"]

  def is_tuple_class(self, ci):
    return isinstance(ci, ClassInfo) and "tuple" in ci.mro()

  def isinst_term(self, v, cls):
    """formula: V term v is an instance of cls (ClassInfo or builtin name)."""
    if isinstance(cls, ClassInfo):
      if self.is_protocol(cls):
        return self.protocol_test(v, cls)
      f = subc(clsof(v), self.ccode(cls))
      return And(V.is_TV(v) if self.is_tuple_class(cls) else V.is_RV(v), f)
    cls = canon_ext(cls)
    if cls in KIND_TESTS:
      return KIND_TESTS[cls](v)
    if cls == "object":
      return z3.BoolVal(True)
    if cls in ("dict",):
      return Or(V.is_VD(v), And(V.is_RV(v), subc(clsof(v), C("dict"))))
    if cls in ("list", "set", "mappingproxy"):
      return And(V.is_RV(v), subc(clsof(v), C(cls)))
    if cls == "Mapping":
      return Or(V.is_VD(v), And(V.is_RV(v), subc(clsof(v), C("Mapping"))))
    if cls == "Sequence_abc":
      return Or(V.is_SV(v), V.is_TV(v), And(V.is_RV(v), subc(clsof(v), C("Sequence_abc"))))
    if cls == "Iterable":
      return Or(V.is_SV(v), V.is_TV(v), V.is_VD(v), And(Or(V.is_RV(v), V.is_XV(v)), subc(clsof(v), C("Iterable"))))
    if cls in ("function",):
      return V.is_FV(v)
    return And(V.is_XV(v), subc(clsof(v), C(cls)))

  def is_protocol(self, ci):
    return "Protocol" in ci.mro() or "typing.Protocol" in ci.mro()

  def protocol_test(self, v, ci):
    members = list(ci.annotations) + [m for m in ci.methods]
    conds = []
    for m in members:
      conds.append(If(V.is_RV(v), self.heap.D(V.rval(v))[S(m)] != Abs, F(f"hasattr.{m}", V, Bool)(v)))
    return And(*conds)

  def is_instance(self, v, cls):
    """cls: ClassV/ExtClass/python tuple/V term -> bool or BoolRef."""
    if isinstance(cls, tuple):
      rs = [self.is_instance(v, c) for c in cls]
      if any(r is True for r in rs):
        return True
      rs = [r for r in rs if r is not False]
      return False if not rs else (rs[0] if len(rs) == 1 else Or(*rs))
    if isinstance(cls, ClassV):
      target = cls.ci
    elif isinstance(cls, ExtClass):
      target = canon_ext(cls.name)
    elif isinstance(cls, ExtV):
      target = canon_ext(cls.name)
    elif isV(cls):
      if self.klass(cls) == "tuple":
        i = z3.Int("i!isn")
        t = self.lift(v)
        return exists([i], And(0 <= i, i < tlen(cls), subc(clsof(t), V.cval(tget(cls, i)))))
      return subc(clsof(self.lift(v)), V.cval(cls))
    else:
      raise Unsupported(f"isinstance with {cls!r}")
    if isV(v):
      return self._static_inst(v, target)
    k = self.klass(v)
    if isinstance(target, ClassInfo):
      return False
    if target == "object":
      return True
    return target in self._ext_up(k)

  def _static_inst(self, v, target):
    f = z3.simplify(self.isinst_term(v, target))
    if z3.is_true(f) or z3.is_false(f):
      return z3.is_true(f)
    h = self.hints.get(v.get_id())
    if h is not None and isinstance(target, ClassInfo) and not self.is_protocol(target):
      k = self.cls_by_code(h[1])
      if isinstance(k, ClassInfo) and k.has_base(target):
        return True
    return f

  def _ext_up(self, k):
    out = {k}
    st = [k]
    while st:
      x = st.pop()
      for b in EXT_BASES.get(x, []):
        if b not in out:
          out.add(b)
          st.append(b)
    return out

  # ---------------------------------------------------------------- conversions
  def reg_fn(self, obj):
    key = id(obj)
    if key not in self.fnrev:
      n = 1000 + len(self.fnreg)
      self.fnreg[n] = obj
      self.fnrev[key] = n
    return self.fnrev[key]

  def lift(self, v):
    if isV(v):
      return v
    if v is None:
      return NoneV
    if v is Ellipsis:
      return EllV
    if isinstance(v, bool):
      return BV(z3.BoolVal(v))
    if isinstance(v, int):
      return IV(z3.IntVal(v))
    if isinstance(v, str):
      return S(v)
    if isinstance(v, float):
      return XV(z3.IntVal(x_code(("float", v))))
    if has_sort(v, Bool):
      return BV(v)
    if has_sort(v, Int):
      return IV(v)
    if isinstance(v, tuple):
      return mk(*[self.lift(x) for x in v])
    if isinstance(v, ClassV):
      return CV(self.ccode(v.ci))
    if isinstance(v, ExtClass):
      return CV(self.ccode(v.name))
    if isinstance(v, ExtV):
      return FV(z3.IntVal(fn_code(v.name)))
    if isinstance(v, (PyFunc, Prim, PartialV, BoundExt, PropertyV)):
      if isinstance(v, PyFunc) and v.frame is None and v.bound is None:
        return FV(z3.IntVal(fn_code(v.fi.full)))
      return FV(z3.IntVal(self.reg_fn(v)))
    if isinstance(v, SortedV):
      if getattr(v, "obj", None) is None:
        v.obj = self.alloc_list(self.to_tuple(v))
      return v.obj
    if isinstance(v, (GenV, MapV, ZipV, EnumV, RangeV)):
      return self.lift(self.to_tuple(v))
    raise Unsupported(f"cannot lift {v!r}")

  def lower(self, t):
    if not isV(t):
      return t
    nm = t.decl().name()
    if t.decl().kind() == z3.Z3_OP_ITE or nm in ("select", "store"):
      t = z3.simplify(t)
      nm = t.decl().name()
    if nm == "NoneV":
      return None
    if nm == "EllV":
      return Ellipsis
    if nm == "BV":
      a = z3.simplify(t.arg(0))
      return True if z3.is_true(a) else False if z3.is_false(a) else a
    if nm == "IV":
      a = z3.simplify(t.arg(0))
      return a.as_long() if z3.is_int_value(a) else a
    if nm == "SV":
      a = t.arg(0)
      if z3.is_int_value(a):
        s = str_of_code(a.as_long())
        if s is not None:
          return s
      return t
    if nm == "tnil":
      return ()
    if nm.startswith("mk") and nm[2:].isdigit():
      return tuple(self.lower(c) for c in t.children())
    if nm == "FV" and z3.is_int_value(t.arg(0)):
      n = t.arg(0).as_long()
      if n in self.fnreg:
        return self.fnreg[n]
      for k, c in list(__import__("pyded.logic", fromlist=["x"])._fn_codes.items()):
        if c == n:
          if k in self.w.funcs:
            return PyFunc(self.w.funcs[k])
          return ExtV(k)
      return t
    if nm == "CV" and z3.is_int_value(t.arg(0)):
      n = cls_name(t.arg(0).as_long())
      if n:
        c = self.cls_by_code(n)
        return ClassV(c) if isinstance(c, ClassInfo) else ExtClass(c)
    h = self.hints.get(t.get_id())
    if h is not None:
      if h[1] == "int":
        pass
    return t

  def as_int(self, v):
    if isinstance(v, bool):
      return int(v)
    if isinstance(v, int) or has_sort(v, Int):
      return v
    if isV(v):
      return V.ival(v)
    if has_sort(v, Bool):
      return If(v, 1, 0)
    raise Unsupported(f"int expected, got {v!r}")

  def iterm(self, v):
    v = self.as_int(v)
    return z3.IntVal(v) if isinstance(v, int) else v

  def truth(self, v):
    """truth value as bool or formula."""
    if v is None or v is False:
      return False
    if v is True or v is Ellipsis:
      return True
    if isinstance(v, (int, str, float, tuple)):
      return bool(v)
    if has_sort(v, Bool):
      return v
    if has_sort(v, Int):
      return v != 0
    if isinstance(v, (PyFunc, ClassV, ExtClass, ExtV, Prim, PartialV, BoundExt)):
      return True
    if isinstance(v, RangeV):
      return self.iterm(v.hi) > self.iterm(v.lo)
    if isV(v):
      k = self.klass(v)
      if k == "NoneType":
        return False
      if k == "bool":
        return V.bval(v)
      if k == "int":
        return If(V.is_BV(v), V.bval(v), V.ival(v) != 0)
      if k == "str":
        return v != S("")
      if k == "tuple" or self.is_tuple_class(k):
        return tlen(v) != 0
      if k == "dict":
        return self.heap.D(idof(v)) != EMPTY
      if k == "list":
        return tlen(self.heap.L(V.rval(v))) != 0
      if k == "set":
        return self.heap.S(V.rval(v)) != NOSET
      if isinstance(k, ClassInfo):
        return self.truth_obj(v, k)
      if k in ("type", "function"):
        return True
      t = truthy(v)
      return And(Not(V.is_NoneV(v)), Implies(V.is_BV(v), V.bval(v)), Implies(V.is_IV(v), V.ival(v) != 0),
                 Implies(V.is_SV(v), v != S("")), Implies(V.is_TV(v), tlen(v) != 0),
                 Implies(Or(V.is_XV(v), V.is_RV(v), V.is_VD(v)), t))
    if isinstance(v, DView):
      return self.heap.D(v.did) != EMPTY
    raise Unsupported(f"truth of {v!r}")

  def truth_obj(self, v, ci):
    m, _ = ci.lookup("__bool__")
    if m is not None:
      return self.truth(self.call_method(v, "__bool__"))
    m, _ = ci.lookup("__len__")
    if m is not None:
      n = self.call_method(v, "__len__")
      return (n != 0) if isinstance(n, int) else (self.iterm(n) != 0)
    return True

  # ---------------------------------------------------------------- tuples
  def t_len(self, v):
    if isinstance(v, tuple):
      return len(v)
    nm = v.decl().name()
    if nm == "tnil":
      return 0
    if nm.startswith("mk") and nm[2:].isdigit():
      return int(nm[2:])
    if nm == "tsnoc":
      n = self.t_len(v.arg(0))
      return n + 1
    if nm == "tcat":
      return self.t_len(v.arg(0)) + self.t_len(v.arg(1))
    if nm == "tnew":
      return self.t_len(v.arg(1))
    return tlen(v)

  def t_get(self, v, i):
    if isinstance(v, tuple) and isinstance(i, int):
      return v[i]
    if isinstance(v, tuple):
      v = self.lift(v)
    nm = v.decl().name()
    if isinstance(i, int):
      if nm.startswith("mk") and nm[2:].isdigit() and 0 <= i < int(nm[2:]):
        return self.lower(v.arg(i))
      if nm == "tnew":
        return self.t_get(v.arg(1), i)
      if nm == "tcat":
        n = self.t_len(v.arg(0))
        if isinstance(n, int):
          return self.t_get(v.arg(0), i) if i < n else self.t_get(v.arg(1), i - n)
      if nm == "tsnoc":
        n = self.t_len(v.arg(0))
        if isinstance(n, int):
          return self.lower(v.arg(1)) if i == n else self.t_get(v.arg(0), i)
    r = tget(v, self.iterm(i))
    self.assume(age(r) <= self.heap.alloc)
    return self.lower(r)

  def note_old(self, t):
    """a value read from memory refers to objects that exist now."""
    if isV(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED or isV(t) and t.decl().name() == "select":
      self.assume(age(t) <= self.heap.alloc)

  # ---------------------------------------------------------------- allocation
  def alloc(self, cls_term, kind="D"):
    i = z3.simplify(self.heap.alloc)
    self.heap = self.heap.with_alloc(z3.simplify(i + 1))
    r = RV(i)
    self.assume(clsof(r) == cls_term)
    self.heap = self.heap.wr("D", i, EMPTY)
    return r

  def alloc_dict(self, content=EMPTY, order=None):
    r = self.alloc(C("dict"))
    self.hint(r, "dict")
    i = r.arg(0)
    self.heap = self.heap.wr("D", i, content)
    if order is not None:
      self.heap = self.heap.wr("O", i, order)
    else:
      self.heap = self.heap.wr("O", i, self.fresh("ord", Int))
    return r

  def alloc_list(self, seq):
    r = self.alloc(C("list"))
    self.hint(r, "list")
    self.heap = self.heap.wr("L", r.arg(0), self.lift(seq))
    return r

  def alloc_set(self, content):
    r = self.alloc(C("set"))
    self.hint(r, "set")
    self.heap = self.heap.wr("S", r.arg(0), content)
    return r

  def write(self, kind, i, val):
    if isinstance(i, int):
      i = z3.IntVal(i)
    if self.writes is not None:
      self.writes.append((kind, i))
    self.heap = self.heap.wr(kind, i, val)

  def did(self, v):
    """id of a dict-like value; branches are avoided when the kind is known."""
    nm = v.decl().name()
    if nm in ("RV", "VD"):
      return v.arg(0)
    h = self.hints.get(v.get_id())
    if h is not None and h[1] not in ("dict",):
      return V.rval(v)
    if self.entails(V.is_RV(v)):
      return V.rval(v)
    if self.entails(V.is_VD(v)):
      return V.vdval(v)
    return idof(v)

  # ---------------------------------------------------------------- obligations
  def prove(self, name, goal, kind="prove"):
    if goal is True:
      goal = z3.BoolVal(True)
    if goal is False:
      goal = z3.BoolVal(False)
    if self.replaying():
      return
    self.obligations.append(Obl(self.cur_target + "/" + name, list(self.pc), goal, self.cur_loc or self.last_loc, kind,
                                tuple(tuple(d.taken) for d in self.decs)))

  def explore(self, run):
    """run all paths of `run` from scratch (decision re-execution)."""
    work = [()]
    n = 0
    while work:
      prefix = work.pop()
      self.reset(prefix)
      n += 1
      if n > self.max_paths:
        raise Unsupported(f"more than {self.max_paths} paths")
      try:
        run()
      except Abort:
        pass
      work.extend(self.decs[0].alts)
    return n

  max_paths = 3000
  last_loc = None

  def snapshot(self):
    return (list(self.pc), self.heap, [(f, dict(f.env)) for f in self.frames], dict(self.hints), self.call_depth,
            list(self.frames), self.cur_loc, None if self.writes is None else list(self.writes), dict(self.map_names))

  def restore(self, s):
    self.pc = list(s[0])
    self.heap = s[1]
    self.frames = list(s[5])
    for f, e in s[2]:
      f.env = dict(e)
    self.hints = dict(s[3])
    self.call_depth = s[4]
    self.cur_loc = s[6]
    self.writes = None if s[7] is None else list(s[7])
    self.map_names = dict(s[8])

  def sub_explore(self, thunk):
    """all paths of thunk from here; the state afterwards is as before.
    -> list of (pc_delta, outcome) with outcome = thunk() or an exception."""
    if self.decs:
      self.decs[-1].q += 1
    snap = self.snapshot()
    n0 = len(self.pc)
    fresh0 = self.fresh_n
    fmax = fresh0
    res = []
    work = [()]
    count = 0
    while work:
      prefix = work.pop()
      count += 1
      if count > 400:
        raise Unsupported("too many inner paths")
      self.restore(snap)
      self.fresh_n = fresh0
      self.solver.push()
      d = Dec(tuple(prefix))
      self.decs.append(d)
      try:
        try:
          out = thunk()
          ok = True
        except Abort:
          ok = False
        if ok:
          res.append((self.pc[n0:], out))
      finally:
        self.decs.pop()
        self.solver.pop()
        fmax = max(fmax, self.fresh_n)
      work.extend(d.alts)
    self.restore(snap)
    self.fresh_n = fmax
    return res
