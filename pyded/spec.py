"""Contracts on the functions of /repo and the generation of their obligations.

A Contract is checked against the body of its function (verification mode) and
stands for the function in its callers (call mode).  A Lemma is a small client
program over the real code (calls of functions of /repo by contract or inlined)
whose claims are obligations of the same kind.
"""
import ast
import time
import z3
from .loops import *
from .loops import Loops, key_axioms, LoopSpec, ALLKINDS, comp_of
from .logic import pat_ok
from .interp import interp_axioms
from .calls import Star
from .heap import set_bound, older, bound_of, lower_of


class Engine(Loops):
  def __init__(self, world, axioms=(), **kw):
    super().__init__(world, axioms=list(interp_axioms()) + list(key_axioms()) + list(axioms), **kw)
    self.cur_target = "?"
    self.global_over = {}
    self.contracts = {}
    self.call_hooks = {}
    self.ext_handlers = {}
    self.field_inv = {}
    self.opaque_attrs = {}
    self.opaque_methods = set()
    self.loop_specs = []
    self.loop_ord = None
    self.h0 = None
    self.spec_args = None

  def func(self, full):
    """FuncInfo of a dotted name: module function, or method (also inherited)."""
    c, _, m = full.rpartition(".")
    ci = self.w.class_by_full.get(c)
    if ci is not None:
      fi, owner = ci.lookup(m)
      if fi is not None:
        return fi, owner
    if full in self.w.funcs:
      return self.w.funcs[full], None
    raise Unsupported(f"no function {full} in the source")

  def cls(self, full):
    ci = self.w.class_by_full.get(full)
    if ci is None:
      raise Unsupported(f"no class {full} in the source")
    return ci

  def named(self, t):
    """a constant equal to t (usable in triggers)."""
    t = z3.simplify(t)
    if pat_ok(t):
      return t
    c = self.fresh("nm", t.sort())
    self.assume(c == t)
    return c

  def ite(self, c, x, y):
    """If(c, x, y), reduced where the path condition decides c."""
    if c is True or c is False:
      return x if c else y
    c = z3.simplify(c)
    if z3.is_true(c) or self.entails(c):
      return x
    if z3.is_false(c) or self.entails(Not(c)):
      return y
    return If(c, x, y)

  def content(self, r, h=None):
    """contents of the dictionary object r, as a term usable in triggers."""
    h = h or self.heap
    r = self.lift(r)
    return self.named(z3.simplify(h.D(V.rval(r) if r.decl().name() != "RV" else r.arg(0))))

  def sym_map(self, name):
    """symbolic dictionary contents whose values exist on entry."""
    m = z3.Const(name, Map)
    k = z3.Const("k!sm", V)
    self.assume(forall([k], age(m[k]) <= self.heap.alloc, m[k]))
    if z3.is_int_value(self.heap.alloc):
      set_bound(m, self.heap.alloc.as_long())
    return m

  def sym(self, name, cls=None, sort=None):
    """symbolic entry value, optionally an instance of cls (dotted name or builtin)."""
    if sort is not None:
      return z3.Const(name, sort)
    v = z3.Const(name, V)
    self.assume(v != Abs)
    self.assume(age(v) <= self.heap.alloc)
    if z3.is_int_value(self.heap.alloc):
      set_bound(v, self.heap.alloc.as_long())
    if cls is not None:
      k = self.w.class_by_full.get(cls, cls)
      self.assume(self.isinst_term(v, k))
      self.hint(v, self.class_code_name(k) if not isinstance(k, str) else k)
      if k == "list" or not isinstance(k, str) and not self.is_tuple_class(k):
        self.assume(V.is_RV(v))
      if k == "tuple":
        self.assume(clsof(v) == C("tuple"))
    return v


class Args:
  pass


class Spec:
  label = None
  axioms = ()          # extra axioms: list or fn()
  max_paths = 3000
  loops = ()
  feas_ms = 150

  def config(self, ex):
    pass

  def run(self, ex):
    raise NotImplementedError


class Lemma(Spec):
  """client program: run(ex) assumes its hypotheses and proves its claims."""

  def __init__(self, label, run, config=None, axioms=(), loops=(), max_paths=3000, about=(), props=()):
    self.label, self._run, self._config, self.axioms, self.loops = label, run, config, axioms, loops
    self.max_paths = max_paths
    self.about = tuple(about)
    if props:
      self.props = tuple(props)

  def config(self, ex):
    if self._config:
      self._config(ex)

  def run(self, ex):
    self._run(ex)


class Contract(Spec):
  target = None            # dotted name of the function
  params = ()              # names given to the parameters by position; "*x" "**x"
  pure = False             # no effect on existing objects and no new object in the result
  allocates = False        # pure, but result() allocates the new objects of the result itself
  comps = ALLKINDS         # heap components of existing objects it may change; when restricted, no new object escapes
  verify = True
  trusted = None           # reason, for contracts that are assumed

  @property
  def label(self):
    return self.target

  # ---- to override
  def setup(self, ex, a):
    """define the symbolic arguments as attributes of a, assume preconditions."""
    raise NotImplementedError

  def requires(self, ex, a):
    return []

  def raises(self, ex, a):
    """[(exception class, condition)] in the order they are decided."""
    return []

  def modifies(self, ex, a, h0, i):
    return z3.BoolVal(False)

  def result(self, ex, a, h0):
    return ex.fresh("res")

  def ensures(self, ex, a, h0, r):
    return []

  def on_raise(self, ex, a, h0, exc):
    return []

  # ---- call mode
  def bind(self, ex, pf, args, kwargs):
    fr = ex.bind_frame(pf, args, kwargs)
    ex.frames.remove(fr)
    na = pf.fi.node.args
    names = [p.arg for p in na.posonlyargs + na.args]
    if na.vararg is not None:
      names.append(na.vararg.arg)
    names += [p.arg for p in na.kwonlyargs]
    if na.kwarg is not None:
      names.append(na.kwarg.arg)
    a = Args()
    if len(names) != len(self.params):
      raise Unsupported(f"{self.target}: signature changed")
    for p, n in zip(self.params, names):
      v = fr.env[n]
      if p.startswith("**"):
        v = ex.heap.D(ex.did(v))
      setattr(a, p.lstrip("*"), v)
    a._fi = pf
    return a

  def effect(self, ex, a):
    h0 = ex.heap
    if not self.pure:
      ex.havoc_heap(self.target, lambda i: self.modifies(ex, a, h0, i), self.comps, alloc=self.comps == ALLKINDS)
    r = self.result(ex, a, h0)
    t = ex.lift(r)
    ex.assume(t != Abs)
    ex.assume(age(t) <= ex.heap.alloc)
    for nm, f in self.ensures(ex, a, h0, r):
      ex.assume(f)
    return ex.lower(r) if isV(r) else r

  # ---- verification mode
  def call_target(self, ex, a):
    fi, owner = ex.func(self.target)
    na = fi.node.args
    pos = [p.arg for p in na.posonlyargs + na.args]
    args, kwargs = [], {}
    kwo = [p.arg for p in na.kwonlyargs]
    k = 0
    npos = 0
    for p in self.params:
      v = getattr(a, p.lstrip("*"))
      if p.startswith("**"):
        kwargs["**"] = SymKw(v)
      elif p.startswith("*"):
        if isinstance(v, tuple):
          args.extend(v)
        else:
          args.append(Star(v))
      elif npos < len(pos):
        args.append(v)
        npos += 1
      else:
        if k >= len(kwo):
          raise Unsupported(f"{self.target}: signature changed")
        kwargs[kwo[k]] = v
        k += 1
    pf = PyFunc(fi)
    pf.owner = owner
    ex.top_call = fi
    return ex.call_func(pf, args, kwargs)

  def run(self, ex):
    a = Args()
    self.setup(ex, a)
    for nm, f in self.requires(ex, a):
      ex.assume(f)
    ex.h0 = h0 = ex.heap
    ex.entry_alloc = h0.alloc
    ex.spec_args = a
    ex.prove("cover: precondition reachable", z3.BoolVal(False), kind="cover")
    conds = [(e, c if not isinstance(c, bool) else z3.BoolVal(c)) for e, c in self.raises(ex, a)]
    ex.writes = []
    try:
      r = self.call_target(ex, a)
    except Raised as e:
      ex.prove_raise(conds, e.exc)
      for nm, f in self.on_raise(ex, a, h0, e.exc):
        ex.prove(nm, f)
      self.frame(ex, a, h0)
      return
    ex.prove("cover: normal return", z3.BoolVal(False), kind="cover-any")
    for e, c in conds:
      ex.prove(f"returns only when {e} is not due", Not(c))
    rt = r
    for nm, f in self.ensures(ex, a, h0, rt):
      ex.prove(nm, f)
    self.frame(ex, a, h0)
    if self.pure and not self.allocates and not (r is None or isinstance(r, (bool, int, str)) or has_sort(r, Bool) or has_sort(r, Int)):
      ex.prove("the result holds no new object", age(ex.lift(r)) <= h0.alloc, kind="frame")

  def frame(self, ex, a, h0):
    seen = set()
    for w in ex.writes:
      if w[0] == "havoc":
        x = z3.Int("x!frame")
        out = len(w) > 2 and not set(w[2]) <= set(self.comps) or len(w) < 3 and self.comps != ALLKINDS
        g = forall([x], Implies(And(x < h0.alloc, w[1](x)), z3.BoolVal(False) if out else self.modifies(ex, a, h0, x)))
        ex.prove("effects of callees inside the modifies clause", g, kind="frame")
        continue
      i = z3.simplify(w[1])
      ok = comp_of(w[0]) in self.comps
      if (i.get_id(), ok) in seen:
        continue
      seen.add((i.get_id(), ok))
      if z3.is_int_value(i) and z3.is_int_value(z3.simplify(h0.alloc)) and i.as_long() >= z3.simplify(h0.alloc).as_long():
        continue
      ex.prove("writes inside the modifies clause", Or(i >= h0.alloc, self.modifies(ex, a, h0, i)) if ok else i >= h0.alloc, kind="frame")


def prove_raise(self, conds, exc):
  name = self.exc_name(exc)
  alts = []
  before = []
  for e, c in conds:
    if self.exc_matches(exc, e.lstrip("~")):
      alts.append(And(c, *[Not(b) for b in before]))
    if not e.startswith("~"):   # "~": a later condition may take precedence
      before.append(c)
  self.prove(f"raises {name} only when due", Or(*alts) if alts else z3.BoolVal(False), kind="raise")


def exc_name(self, exc):
  if isinstance(exc, ExcV):
    c = exc.cls
    return c if isinstance(c, str) else getattr(c, "name", None) or getattr(getattr(c, "ci", None), "name", str(c))
  return str(exc)


Engine.prove_raise = prove_raise
Engine.exc_name = exc_name


def generate(world, spec, registry=(), axioms=()):
  """-> (obligations, info). Unsupported constructs become failed obligations."""
  ax = list(axioms) + list(spec.axioms() if callable(spec.axioms) else spec.axioms)
  ex = Engine(world, axioms=ax, feas_ms=spec.feas_ms)
  ex.max_paths = spec.max_paths
  for c in registry:
    ex.contracts[c.target] = c
  ex.cur_target = spec.label
  spec.config(ex)
  t0 = time.time()
  npaths = 0
  err = None

  def run():
    ex.loop_specs = list(spec.loops(ex) if callable(spec.loops) else spec.loops)
    ex.loop_ord = None
    ex.top_call = None
    ex.spec_args = None
    ex.last_call = {}
    ex.h0 = None
    ex.entry_alloc = z3.IntVal(0)
    ex.writes = []
    try:
      spec.run(ex)
    except Raised as e:
      ex.prove(f"no exception escapes ({ex.exc_name(e.exc)})", z3.BoolVal(False))
  try:
    npaths = ex.explore(run)
  except Unsupported as e:
    loc = ex.cur_loc
    err = f"{e}"
    ex.obligations.append(Obl(f"{spec.label}/inside the verified subset: {e}", [], z3.BoolVal(False), loc, "subset", ()))
  info = dict(paths=npaths, gen_s=round(time.time() - t0, 2), feas_s=round(ex.solver_time, 2),
              externals=sorted(ex.externals), assumptions=sorted(ex.assumptions), inlined=sorted(ex.inlined),
              contracts_used=sorted(ex.used_contracts), error=err)
  return ex, info
