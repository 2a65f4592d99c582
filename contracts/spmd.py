"""C17: logical axis rules; C18: adding and removing axis names.

lset(x)   the set of leaves of a tree of None, strings and tuples
"""
from pyded.spec import *
from pyded.loops import LoopSpec
from .containers import cd, isc, container_config, wf_container, SHARD, SPECS as CSPECS

USES = ("containers",)
M = "nnx.spmd."
lset = F("lset", V, VSet)
pspec = F("pspec", V, V)
UNASSIGNED = z3.Const("unassigned axis", V)
RULES_OBJ = z3.Const("axis rules", V)


def lset_axioms():
  x, y = z3.Consts("x!ls y!ls", V)
  i = z3.Int("i!ls")
  return [forall([x, y], lset(x)[y] == If(V.is_NoneV(x), False, If(
      V.is_TV(x), exists([i], And(0 <= i, i < tlen(x), lset(tget(x, i))[y]), tget(x, i)), y == x)), lset(x)[y])]


def tree_leaves(ex, a, k):
  """jax.tree_util.tree_leaves of a tree of None, strings, tuples and lists."""
  x = a[0]
  if isV(x) and ex.klass(x) == "list":
    x = ex.heap.L(ex.did(x))
  x = ex.lift(x)
  t = ex.fresh("leaves")
  y = z3.Const("y!tl", V)
  i = z3.Int("i!tl")
  w = ex.fresh_fn("leafat", V, Int)
  ex.assume(And(V.is_TV(t), clsof(t) == C("tuple"), age(t) <= ex.heap.alloc))
  ex.hint(t, "tuple")
  ex.assume(forall([i], Implies(And(0 <= i, i < tlen(t)), lset(x)[tget(t, i)]), tget(t, i)))
  ex.assume(forall([y], Implies(lset(x)[y], And(0 <= w(y), w(y) < tlen(t), tget(t, w(y)) == y)), lset(x)[y]))
  return ex.alloc_list(t)


def counter(ex, a, k):
  """collections.Counter of a sequence: how often each element occurs (distinguishing once from more)."""
  t = ex.lift(ex.to_tuple(a[0]))
  c = ex.fresh("counts", Map)
  x = z3.Const("x!ct", V)
  i, j = z3.Ints("i!ct j!ct")
  w1, w2 = ex.fresh_fn("count1", V, Int), ex.fresh_fn("count2", V, Int)
  rng = lambda q: And(0 <= q, q < tlen(t))
  ex.assume(forall([i], Implies(rng(i), c[tget(t, i)] != Abs), tget(t, i)))
  ex.assume(forall([i, j], Implies(And(rng(i), rng(j), i < j, tget(t, i) == tget(t, j)), V.ival(c[tget(t, i)]) > 1), [tget(t, i), tget(t, j)]))
  ex.assume(forall([x], Implies(c[x] != Abs, And(V.is_IV(c[x]), V.ival(c[x]) >= 1, rng(w1(x)), tget(t, w1(x)) == x)), c[x]))
  ex.assume(forall([x], Implies(And(c[x] != Abs, V.ival(c[x]) > 1), And(w1(x) < w2(x), w2(x) < tlen(t), tget(t, w2(x)) == x)), c[x]))
  ex.externals.add("collections.Counter")
  return ex.alloc_dict(c)


def unassigned(ex):
  ex.assume(And(V.is_RV(UNASSIGNED), clsof(UNASSIGNED) == ex.ccode(ex.cls(M + "_UnassignedAxis")), age(UNASSIGNED) <= 0))
  ex.hint(UNASSIGNED, "nnx:" + M + "_UnassignedAxis")
  if ex.cls(M + "_UnassignedAxis").lookup("__eq__")[0] is not None:
    raise Unsupported("_UnassignedAxis defines __eq__")
  x = z3.Const("x!ua", V)
  ex.assume(forall([x], Implies(Or(V.is_NoneV(x), V.is_SV(x), V.is_TV(x)), And(Not(pyeq(x, UNASSIGNED)), Not(pyeq(UNASSIGNED, x)))),
                   pyeq(x, UNASSIGNED), pyeq(UNASSIGNED, x)))
  ex.assumptions.add("a string, tuple or None never equals the sentinel object (its class has no __eq__)")
  return UNASSIGNED


def rules_obj(ex):
  ex.assume(And(V.is_RV(RULES_OBJ), clsof(RULES_OBJ) == ex.ccode(ex.cls(M + "_AxisRules")), age(RULES_OBJ) <= 0,
                cd(ex.heap, RULES_OBJ)[S("rules")] != Abs))
  ex.hint(RULES_OBJ, "nnx:" + M + "_AxisRules")
  return RULES_OBJ


def pspec_new(ex, a, k):
  seq = ()
  for x in a:
    seq = ex.t_cat(seq, ex.to_tuple(x.seq) if hasattr(x, "seq") else ex.to_tuple(x.v) if not isV(x) and hasattr(x, "v") else (x,))
  r = pspec(ex.lift(seq))
  ex.assume(V.is_TV(r))
  return r


def spmd_config(ex):
  container_config(ex)
  for p in ("jax.tree_util.tree_leaves", "jax.tree_leaves"):
    ex.ext_handlers[p] = tree_leaves
  ex.ext_handlers["collections.Counter"] = counter
  ex.ext_handlers["jax.sharding.PartitionSpec"] = pspec_new
  ex.global_over[M + "_unassigned_axis"] = unassigned
  ex.global_over[M + "_axis_rules"] = rules_obj


class MeshFree(Contract):
  props = ("C17",)
  target = M + "_mesh_assignment_free"
  pure = True
  params = ("new_assignment", "existing_assignments")
  config = lambda self, ex: spmd_config(ex)

  def setup(self, ex, a):
    a.new_assignment = ex.sym("new")
    a.existing_assignments = ex.sym("existing", "list")

  def result(self, ex, a, h0):
    return ex.fresh("free", Bool)

  def ensures(self, ex, a, h0, r):
    x = ex.named(ex.lift(a.new_assignment))
    y = ex.named(ex.lift(ex.to_tuple(a.existing_assignments)))
    e = z3.Const("e!mf", V)
    t = ex.as_bool(ex.truth(r))
    return [("free exactly when no axis is shared", And(
        Implies(t, forall([e], Not(And(lset(x)[e], lset(y)[e])), lset(x)[e], lset(y)[e])),
        Implies(Not(t), exists([e], And(lset(x)[e], lset(y)[e]), lset(x)[e], lset(y)[e]))))]


def names_ok(ex, t):
  i = z3.Int("i!no")
  return And(V.is_TV(t), clsof(t) == C("tuple"), forall([i], Implies(And(0 <= i, i < tlen(t)), Or(V.is_NoneV(tget(t, i)), V.is_SV(tget(t, i)))), tget(t, i)))


def is_mesh(x):
  i = z3.Int("i!ms")
  return Or(V.is_NoneV(x), V.is_SV(x), And(V.is_TV(x), forall([i], Implies(And(0 <= i, i < tlen(x)), V.is_SV(tget(x, i))), tget(x, i))))


def rules_ok(t):
  i = z3.Int("i!ro")
  p = tget(t, i)
  return forall([i], Implies(And(0 <= i, i < tlen(t)), And(V.is_TV(p), clsof(p) == C("tuple"), tlen(p) == 2, V.is_SV(tget(p, 0)),
                                                           is_mesh(tget(p, 1)))), p)


def overlap(x, y, e):
  return And(lset(x)[e], lset(y)[e])


def disjoint(x, y):
  e = z3.Const("e!dj", V)
  return forall([e], Not(overlap(x, y, e)), lset(x)[e], lset(y)[e])


class ToMesh(Contract):
  props = ("C17",)
  target = M + "_logical_to_mesh_axes"
  params = ("array_dim_names", "rules")

  def config(self, ex):
    spmd_config(ex)
    ex.KLASS_CANDIDATES = ["str", "tuple"]   # the only kinds worth asking for here
    ex.query_classes = []

  def setup(self, ex, a):
    a.array_dim_names = ex.sym("names")
    a.rules = ex.sym("rules")
    n, r = a.array_dim_names, a.rules
    if ex.branch(V.is_NoneV(n)):
      a.array_dim_names = None
    else:
      ex.assume(And(V.is_TV(n), clsof(n) == C("tuple")))
      ex.hint(n, "tuple")
    self.kind = "explicit"
    if ex.branch(V.is_NoneV(r)):
      a.rules = None
    elif ex.branch(And(V.is_TV(r), clsof(r) == C("tuple"))):
      ex.hint(r, "tuple")
    elif ex.branch(And(V.is_RV(r), clsof(r) == C("list"))):
      ex.hint(r, "list")
    else:
      ex.assume(Not(Or(V.is_TV(r), And(V.is_RV(r), subc(clsof(r), C("list"))))))

  def rules(self, ex, a, h):
    """the rules in force, as a tuple (None: not a rule list)."""
    r = a.rules
    if r is None or isV(r) and ex.entails(V.is_NoneV(r)):
      r = cd(h, rules_obj(ex))[S("rules")]
      ex.assume(Or(And(V.is_TV(r), clsof(r) == C("tuple"))), "the ambient rules are a tuple")
      ex.hint(r, "tuple")
      return r
    if isinstance(r, tuple):
      return ex.lift(r)
    k = ex.klass(r)
    if k == "tuple":
      return r
    if k == "list":
      return h.L(ex.did(r))
    return None

  def requires(self, ex, a):
    n = a.array_dim_names
    a._none = n is None or isV(n) and ex.entails(V.is_NoneV(n))
    if a._none:
      return []
    a._N = ex.named(ex.lift(n))
    out = [("names are strings or None", names_ok(ex, a._N))]
    r = self.rules(ex, a, ex.heap)
    a._R = r
    if r is not None:
      a._R = r = ex.named(r)
      out.append(("rules are pairs of a name and mesh axes", And(V.is_TV(r), rules_ok(r))))
    return out

  def raises(self, ex, a):
    if a._none:
      return []
    i, j = z3.Ints("i!rs j!rs")
    N = a._N
    dup = exists([i, j], And(0 <= i, i < j, j < tlen(N), tget(N, i) == tget(N, j), Not(V.is_NoneV(tget(N, i)))), [tget(N, i), tget(N, j)])
    return [("ValueError", dup), ("ValueError", z3.BoolVal(a._R is None))]

  # ghost: c(t, p) the rule given to dimension p by the first t rules, -1 for none
  def ghost(self, ex, a):
    if not hasattr(a, "_c"):
      a._c = ex.fresh_fn("chosen", Int, Int, Int)
      a._fr = ex.fresh_fn("free", Int, Bool)
      a._wq = ex.fresh_fn("blockdim", Int, Int)
      a._we = ex.fresh_fn("blockaxis", Int, V)
    return a._c, a._fr, a._wq, a._we

  def mesh(self, a, t):
    return tget(tget(a._R, t), 1)

  def name(self, a, t):
    return tget(tget(a._R, t), 0)

  def unfold(self, ex, a, t):
    """definition of the ghost functions at step t."""
    c, fr, wq, we = self.ghost(ex, a)
    N = a._N
    p, q = z3.Ints("p!gh q!gh")
    e = z3.Const("e!gh", V)
    rng = lambda x: And(0 <= x, x < tlen(N))
    ex.assume(forall([p], c(0, p) == -1, c(0, p)))
    ex.assume(Implies(fr(t), forall([q, e], Implies(And(rng(q), c(t, q) >= 0), Not(overlap(self.mesh(a, t), self.mesh(a, c(t, q)), e))),
                                    [c(t, q), lset(self.mesh(a, t))[e]])))
    ex.assume(Implies(Not(fr(t)), And(rng(wq(t)), c(t, wq(t)) >= 0, overlap(self.mesh(a, t), self.mesh(a, c(t, wq(t))), we(t)))))
    ex.assume(forall([p], c(t + 1, p) == If(And(c(t, p) < 0, tget(N, p) == self.name(a, t), fr(t)), t, c(t, p)), c(t + 1, p)))

  def facts(self, ex, a, c, upto):
    """what the choice means, after the first upto rules."""
    N = a._N
    _, _, wq, we = self.ghost(ex, a)
    p, q, t = z3.Ints("p!fc q!fc t!fc")
    e = z3.Const("e!fc", V)
    rng = lambda x: And(0 <= x, x < tlen(N))
    return [("a dimension gets a rule with its name", forall([p], Implies(rng(p), And(-1 <= c(p), c(p) < upto, Implies(
                c(p) >= 0, self.name(a, c(p)) == tget(N, p)))), c(p))),
            ("no mesh axis is used twice", forall([p, q, e], Implies(And(rng(p), rng(q), p != q, c(p) >= 0, c(q) >= 0),
                                                                     Not(overlap(self.mesh(a, c(p)), self.mesh(a, c(q)), e))),
                                                  [c(p), c(q), lset(self.mesh(a, c(p)))[e]])),
            ("an earlier rule for the dimension was blocked by an axis in use at that point",
             forall([p, t], Implies(And(rng(p), 0 <= t, t < upto, self.name(a, t) == tget(N, p), Or(c(p) < 0, t < c(p))),
                                    And(rng(wq(t)), 0 <= c(wq(t)), c(wq(t)) < t, overlap(self.mesh(a, t), self.mesh(a, c(wq(t))), we(t)))),
                    [c(p), tget(a._R, t)]))]

  def loops(self, ex):
    def inv(L):
      a = ex.spec_args
      self.unfold(ex, a, L.i)
      ls = L.fresh_objs("list")
      if len(ls) != 1:
        raise Unsupported("one new list expected")
      c = lambda p: self.ghost(ex, a)[0](L.i, p)
      res = ex.named(ex.lift(ex.to_tuple(ls[0])))
      a._U = unassigned(ex)
      return self.shape(ex, a, res, c, a._U) + self.facts(ex, a, c, L.i)
    return [LoopSpec(inv)]

  def shape(self, ex, a, res, c, none):
    p = z3.Int("p!sh")
    N = a._N
    return [("one entry per dimension", And(V.is_TV(res), tlen(res) == tlen(N))),
            ("the mesh axes of the chosen rule", forall([p], Implies(And(0 <= p, p < tlen(N)),
                                                                     tget(res, p) == If(c(p) < 0, none, self.mesh(a, c(p)))),
                                                        tget(res, p), c(p)))]

  def result(self, ex, a, h0):
    if a._none:
      return None
    r = ex.fresh("axes")
    ex.hint(r, "list")
    return r

  def ensures(self, ex, a, h0, r):
    if a._none:
      return [("no names give None", V.is_NoneV(ex.lift(r)))]
    r = ex.lift(r)
    n = tlen(a._R)
    if ex.spec_args is a:
      g = self.ghost(ex, a)[0]
      c = lambda p: g(n, p)
    else:
      c = ex.fresh_fn("rulefor", Int, Int)
    a._final = c
    res = ex.named(ex.heap.L(V.rval(r)))
    return [("a new list", And(V.is_RV(r), clsof(r) == C("list"), V.rval(r) >= h0.alloc))] + \
        self.shape(ex, a, res, c, unassigned(ex)) + self.facts(ex, a, c, n)


class LogicalToMesh(ToMesh):
  """the public function: PartitionSpec of the chosen mesh axes, None where there is none."""
  target = M + "logical_to_mesh_axes"
  loops = ()

  def run(self, ex):
    self._hook = None
    super().run(ex)

  def ensures(self, ex, a, h0, r):
    if a._none:
      return [("no names give None", V.is_NoneV(ex.lift(r)))]
    r = ex.lift(r)
    callee = ex.last_call.get(M + "_logical_to_mesh_axes")
    if ex.spec_args is a and callee is not None:
      # the witness: the choice of the callee
      c = callee._final
      a._c, a._fr, a._wq, a._we = callee._c, callee._fr, callee._wq, callee._we
    else:
      c = ex.fresh_fn("rulefor", Int, Int)
    t = z3.Const("spec!t", V)
    seq = r.arg(0) if r.decl().name() == "pspec" else None
    if seq is None:
      if ex.spec_args is a:
        return [("a PartitionSpec", z3.BoolVal(False))]
      seq = ex.fresh("seq")
      ex.assume(r == pspec(seq))
    return self.shape(ex, a, ex.named(seq), c, NoneV) + self.facts(ex, a, c, tlen(a._R))


def scope(ex):
  """leaving a rules scope, normally or by an exception, restores the rules in force on entry."""
  o = rules_obj(ex)
  new = ex.sym("rules")
  h0 = ex.heap
  old = cd(h0, o)[S("rules")]
  exc = ex.choose(2) == 1
  fi, _ = ex.func(M + "logical_axis_rules")
  cm = ex.call_func(PyFunc(fi), [new], {})
  n = []

  def body(val):
    n.append(1)
    ex.prove("the given rules are in force inside", cd(ex.heap, o)[S("rules")] == new)
    ex.havoc_heap("block", lambda i: z3.BoolVal(True))
    if exc:
      ex.raise_exc("ValueError")
  try:
    ex.run_generator_cm(cm, body)
    ex.prove("a normal exit stays normal", z3.BoolVal(not exc))
  except Raised as e:
    ex.prove("the exception of the block comes out", z3.BoolVal(exc and ex.exc_matches(e.exc, "ValueError")))
  ex.prove("the block runs exactly once", z3.BoolVal(len(n) == 1))
  ex.prove("the rules in force on entry are back", cd(ex.heap, o)[S("rules")] == old)


def getset(ex):
  o = rules_obj(ex)
  new = ex.sym("rules")
  ex.prove("the rules in force", ex.lift(ex.call_func(PyFunc(ex.func(M + "get_logical_axis_rules")[0]), [], {})) == cd(ex.heap, o)[S("rules")])
  ex.call_func(PyFunc(ex.func(M + "set_logical_axis_rules")[0]), [new], {})
  ex.prove("the rules set are in force", cd(ex.heap, o)[S("rules")] == new)


# ------------------------------------------------------------------ C18
def captured(ex, fname, index, params):
  """the per-entry function add_axis / remove_axis hand to jax.tree_map, and the checks around it."""
  state = ex.sym("state", "nnx.state.State")
  calls = []

  def tmap(ex, a, k):
    calls.append((a, k))
    return ex.fresh("mapped")
  for p in ("jax.tree_map", "jax.tree_util.tree_map", "jax.tree.map"):
    ex.ext_handlers[p] = tmap
  fi, _ = ex.func(M + fname)
  key = S("partition_name")
  absent = ex.heap.D(idof(params))[key] == Abs
  h0 = ex.heap
  ex.writes = []
  try:
    r = ex.call_func(PyFunc(fi), [state, index, params], {})
  except Raised as e:
    ex.prove("raises only without a partition name, a ValueError", And(absent, z3.BoolVal(ex.exc_matches(e.exc, "ValueError"))))
    raise Abort()
  ex.prove("a missing partition name raises", Not(absent))
  ex.prove("the state is mapped entry by entry, once", z3.BoolVal(len(calls) == 1))
  if len(calls) != 1:
    raise Abort()
  a, k = calls[0]
  ex.prove("the result is the mapped state", And(ex.lift(a[1]) == state, z3.BoolVal(len(a) == 2)))
  for w in ex.writes:
    ex.prove("nothing is changed", z3.BoolVal(w[0] != "havoc") if w[0] == "havoc" else w[1] >= h0.alloc)
  return a[0], k.get("is_leaf"), ex.heap.D(idof(params))[key]


def entry(ex, is_leaf):
  x = ex.sym("entry")
  node = isc(ex, x, "nnx.containers.Node")
  if is_leaf is None:
    ex.prove("containers are leaves", z3.BoolVal(False))
  else:
    ex.prove("exactly the containers are leaves", ex.as_bool(ex.truth(ex.call(is_leaf, [x], {}))) == node)
  ex.assume(x != Abs)
  if not ex.branch(node):
    return x, None
  ex.hint(x, "nnx:nnx.containers.Node")
  ex.assume(wf_container(ex, x))
  sh = ex.named(cd(ex.heap, x)[S(SHARD)])
  ex.assume(Or(sh == Abs, V.is_NoneV(sh), And(V.is_TV(sh), clsof(sh) == C("tuple"))), "sharding is a tuple or None")
  if not ex.branch(V.is_TV(sh)):
    return x, None
  ex.hint(sh, "tuple")
  return x, sh


def changed(ex, x, r, sh, h0, what, seq, nt):
  """r is x with the sharding of length nt given by seq(p), nothing else changed."""
  r = ex.lift(r)
  D, A = ex.content(r), cd(h0, x)
  k = z3.Const("k!ch", V)
  p = z3.Int("p!ch")
  ex.prove(what + ": a new container of the same class", And(V.is_RV(r), V.rval(r) >= h0.alloc, clsof(r) == clsof(x)))
  ex.prove(what + ": value and other metadata are kept", forall([k], Implies(k != S(SHARD), D[k] == A[k]), D[k]))
  new = ex.named(D[S(SHARD)])
  ex.prove(what + ": the sharding is a tuple", And(V.is_TV(new), clsof(new) == C("tuple")))
  ex.prove(what + ": its length", tlen(new) == nt)
  ex.prove(what + ": its entries", forall([p], Implies(And(0 <= p, p < nt), tget(new, p) == seq(p)), tget(new, p)))


def axis_setup(ex):
  index = ex.fresh("index", Int)
  ex.assume(index >= 0)
  params = ex.sym("params", "dict")
  return index, params


def add_lemma(ex):
  """every entry with a sharding gets the name at the index, padded with None; nothing else changes."""
  index, params = axis_setup(ex)
  f, is_leaf, name = captured(ex, "add_axis", index, params)
  ex.assume(name != Abs)
  x, sh = entry(ex, is_leaf)
  ex.ghost_sh = (sh, index)
  h0 = ex.heap
  r = ex.call(f, [x], {})
  if sh is None:
    ex.prove("an entry without sharding is kept", ex.lift(r) == x)
    return
  n = tlen(sh)
  changed(ex, x, r, sh, h0, "add", lambda p: If(p == index, name, If(
      p < index, If(p < n, tget(sh, p), NoneV), tget(sh, p - 1))), If(index <= n, n, index) + 1)


def add_loops(ex):
  def inv(L):
    ls = L.fresh_objs("list")
    if len(ls) != 1:
      raise Unsupported("one new list expected")
    sh, index = ex.ghost_sh
    n = tlen(sh)
    t = ex.named(ex.lift(ex.to_tuple(ls[0])))
    p = z3.Int("p!al")
    return [("the list grows up to the index", And(V.is_TV(t), n <= tlen(t), tlen(t) <= If(index <= n, n, index))),
            ("the sharding, padded with None", forall([p], Implies(And(0 <= p, p < tlen(t)), tget(t, p) == If(
                p < n, tget(sh, p), NoneV)), tget(t, p)))]
  return [LoopSpec(inv)]


def remove_lemma(ex):
  """every entry with a sharding loses exactly the name at the index, which must be the given one."""
  index, params = axis_setup(ex)
  f, is_leaf, name = captured(ex, "remove_axis", index, params)
  ex.assume(name != Abs)
  ex.assume(Or(V.is_SV(name), V.is_NoneV(name)), "the axis name is a string or None")
  x, sh = entry(ex, is_leaf)
  h0 = ex.heap
  if sh is not None:
    p = z3.Int("p!rl")
    ex.assume(forall([p], Implies(And(0 <= p, p < tlen(sh)), Or(V.is_SV(tget(sh, p)), V.is_NoneV(tget(sh, p)))), tget(sh, p)),
              "axis names are strings or None")
  ex.writes = []
  try:
    r = ex.call(f, [x], {})
  except Raised as e:
    ex.prove("refused only when there is no such axis or it has another name",
             z3.BoolVal(False) if sh is None else Or(index >= tlen(sh), tget(sh, index) != name))
    for w in ex.writes:
      ex.prove("a refused removal changes nothing", z3.BoolVal(False) if w[0] == "havoc" else w[1] >= h0.alloc)
    return
  if sh is None:
    ex.prove("an entry without sharding is kept", ex.lift(r) == x)
    return
  ex.prove("the name removed is the given one", And(index < tlen(sh), tget(sh, index) == name))
  changed(ex, x, r, sh, h0, "remove", lambda p: If(p < index, tget(sh, p), tget(sh, p + 1)), tlen(sh) - 1)


def inverse_lemma(ex):
  """the two characterisations compose to the identity where the index lies within the sharding."""
  sh, a, b = ex.fresh("sh"), ex.fresh("added"), ex.fresh("removed")
  name = ex.fresh("name")
  n, index = tlen(sh), ex.fresh("index", Int)
  p = z3.Int("p!iv")
  for t in (sh, a, b):
    ex.assume(And(V.is_TV(t), clsof(t) == C("tuple")))
  ex.assume(And(0 <= index, index <= n))
  ex.assume(tlen(a) == n + 1)
  ex.assume(forall([p], Implies(And(0 <= p, p < n + 1), tget(a, p) == If(p == index, name, If(p < index, tget(sh, p), tget(sh, p - 1)))), tget(a, p)))
  ex.assume(tlen(b) == tlen(a) - 1)
  ex.assume(forall([p], Implies(And(0 <= p, p < tlen(b)), tget(b, p) == If(p < index, tget(a, p), tget(a, p + 1))), tget(b, p)))
  ex.prove("removal is accepted", And(index < tlen(a), tget(a, index) == name))
  ex.prove("the original length", tlen(b) == n)
  ex.prove("the original entries", forall([p], Implies(And(0 <= p, p < n), tget(b, p) == tget(sh, p)), tget(b, p)))






SPECS = [MeshFree(), ToMesh(), LogicalToMesh(),
         Lemma(M + "logical_axis_rules", scope, spmd_config, props=("C17",)),
         Lemma(M + "get_logical_axis_rules#set_logical_axis_rules", getset, spmd_config, props=("C17",)),
         Lemma(M + "add_axis", add_lemma, spmd_config, loops=add_loops, props=("C18",)),
         Lemma(M + "remove_axis", remove_lemma, spmd_config, props=("C18",)),
         Lemma("remove_axis after add_axis", inverse_lemma, spmd_config, props=("C18",))]
REGISTRY = CSPECS + SPECS
AXIOMS = lset_axioms
