"""Iteration: comprehensions as element-wise summaries, loops by invariants."""
import ast
import z3
from .calls import *
from .calls import Calls, Star
from .heap import Heap, SORTS, _Base, _Split, older, bound_of, set_bound

kmark = F("kmark", Map, Int, Bool)     # (contents, order) has been enumerated


def key_axioms():
  c = z3.Const("c", Map)
  o, i, j = z3.Ints("o i j")
  k = z3.Const("k", V)
  return [
      forall([c, o, i], Implies(And(0 <= i, i < dlen(c)), And(c[kseq(c, o, i)] != Abs, kseq(c, o, i) != Abs,
                                                              kpos(c, o, kseq(c, o, i)) == i)), kseq(c, o, i)),
      forall([c, o, k], Implies(And(kmark(c, o), c[k] != Abs), And(0 <= kpos(c, o, k), kpos(c, o, k) < dlen(c),
                                                                   kseq(c, o, kpos(c, o, k)) == k)),
             [c[k], kmark(c, o)], kpos(c, o, k)),
  ]


class IterEffect:
  pass


class LoopCtx:
  def __init__(self, ex, fr, i, n, elem, h0, env0, env1, node):
    self.ex, self.fr, self.i, self.n, self.elem, self.h0, self.env0, self.env1, self.node = (
        ex, fr, i, n, elem, h0, env0, env1, node)

  def at(self, i):
    l = LoopCtx(self.ex, self.fr, i, self.n, self.elem, self.h0, self.env0, self.env1, self.node)
    return l

  def fresh_objs(self, kind):
    """objects of that builtin kind held by locals at loop entry, by local."""
    out = []
    for k, v in self.env0.items():
      if isV(v) and v.decl().name() == "RV" and self.ex.klass(v) == kind:
        out.append(v)
    return out

  def carried(self, pred=None):
    return [k for k in self.env1 if k in self.env0 and (pred is None or pred(self.env0[k]))]


ALLKINDS = ("D", "L", "S", "O")


def comp_of(kind):
  """heap component of a recorded write."""
  return kind if kind in ALLKINDS else "?"


class LoopSpec:
  def __init__(self, inv, modifies=None, kinds=None, comps=ALLKINDS):
    """comps: the heap components (D attributes and dictionaries, L lists, S sets, O key
    order) of existing objects that an iteration may change."""
    self.inv, self.modifies, self.kinds, self.comps = inv, modifies, kinds or {}, comps


def assigned_names(stmts):
  out = set()

  def go(n):
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
      if isinstance(n, ast.FunctionDef):
        out.add(n.name)
      return
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
      for m in ast.walk(n):
        if isinstance(m, (ast.Yield, ast.YieldFrom)):
          out.add("$yield")
      return
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
      out.add(n.id)
    if isinstance(n, (ast.Yield, ast.YieldFrom)):
      out.add("$yield")
    for c in ast.iter_child_nodes(n):
      go(c)
  for s in stmts:
    go(s)
  return out


class Loops(Calls):
  loop_specs = ()
  loop_ord = None

  # ------------------------------------------------------------ iteration
  def concrete_keys(self, c):
    """keys of contents that are literal stores over the empty dict."""
    c = z3.simplify(c)
    chain, t = [], c
    while t.decl().kind() == z3.Z3_OP_STORE:
      k = self.lower(t.arg(1))
      if not isinstance(k, (str, int)) or isinstance(k, bool):
        return None
      chain.append((k, t.arg(2)))
      t = t.arg(0)
    if not t.eq(EMPTY):
      return None
    vals, order = {}, []
    for k, v in reversed(chain):
      if v.eq(Abs):
        if k in vals:
          del vals[k]
          order.remove(k)
        continue
      if v.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) and not self.entails(v != Abs):
        return None
      if k not in vals:
        order.append(k)
      vals[k] = v
    return [(k, vals[k]) for k in order]

  def iter_spec(self, v):
    """(length, element function) of an iterable value."""
    if isinstance(v, tuple):
      return len(v), lambda i: self.t_get(v, i)
    if isinstance(v, DView):
      c, o = self.heap.D(v.did), self.heap.O(v.did)
      ck = self.concrete_keys(c)
      if ck is not None:
        pick = {"keys": lambda kv: kv[0], "values": lambda kv: self.lower(kv[1]),
                "items": lambda kv: (kv[0], self.lower(kv[1]))}[v.kind]
        return len(ck), lambda i: pick(ck[i])
      o = self.name_order(o)
      c = self.name_map(c)
      self.assume(kmark(c, o))
      self.assume(dlen(c) >= 0)

      def elem(i):
        it = self.iterm(i)
        k = kseq(c, o, it)
        val = c[k]
        self.assume(Implies(And(0 <= it, it < dlen(c)), And(age(val) <= self.heap.alloc, k != Abs, val != Abs)))
        self.key_fact(v, k)
        if v.kind == "keys":
          return self.lower(k)
        if v.kind == "values":
          return self.lower(val)
        return (self.lower(k), self.lower(val))
      return dlen(c), elem
    if isinstance(v, RangeV):
      lo, hi = v.lo, v.hi
      if isinstance(lo, int) and isinstance(hi, int):
        return max(0, hi - lo), lambda i: (lo + i) if isinstance(i, int) else z3.simplify(lo + i)
      n = z3.simplify(self.iterm(hi) - self.iterm(lo))
      n = z3.simplify(If(n < 0, 0, n)) if not self.entails(n >= 0) else n
      return n, lambda i: z3.simplify(self.iterm(lo) + self.iterm(i))
    if isinstance(v, EnumV):
      n, e = self.iter_spec(v.it)
      st = v.start
      return n, lambda i: ((i + st) if isinstance(i, int) and isinstance(st, int)
                           else z3.simplify(self.iterm(i) + self.iterm(st)), e(i))
    if isinstance(v, ZipV):
      specs = [self.iter_spec(x) for x in v.its]
      if not specs:
        return 0, lambda i: ()
      n = specs[0][0]
      for m, _ in specs[1:]:
        if isinstance(n, int) and isinstance(m, int):
          n = min(n, m)
        else:
          a, b = self.iterm(n), self.iterm(m)
          if not z3.simplify(a == b).eq(z3.BoolVal(True)):
            if self.entails(a == b):
              n = a
            elif self.entails(a <= b):
              n = a
            elif self.entails(b <= a):
              n = b
            else:
              n = z3.simplify(If(a <= b, a, b))
      return n, lambda i: tuple(e(i) for _, e in specs)
    if isinstance(v, (GenV, MapV)):
      return self.iter_spec(self.to_tuple(v))
    if isinstance(v, SortedV):
      return self.sorted_spec(v)
    if isV(v):
      k = self.klass(v)
      if k == "tuple" or self.is_tuple_class(k):
        return self.t_len(v), lambda i: self.t_get(v, i)
      if k == "list":
        t = self.lower(self.heap.L(self.did(v)))
        if isV(t):
          return self.t_len(t), lambda i: self.t_get(t, i)
        return self.iter_spec(t)
      if k in ("dict", "mappingproxy"):
        return self.iter_spec(DView("keys", self.did(v)))
      if k == "set":
        return self.iter_spec(self.set_seq(v))
      if isinstance(k, ClassInfo):
        m, _ = k.lookup("__iter__")
        if m is not None:
          return self.iter_spec(self.call_method(v, "__iter__"))
        m, _ = k.lookup("__getitem__")
        if m is None:
          self.raise_exc("TypeError")
      t = F("iter", V, V)(v)
      self.assume(And(V.is_TV(t), age(t) <= self.heap.alloc))
      self.hint(t, "tuple")
      self.externals.add("iteration over a library value")
      return tlen(t), lambda i: self.t_get(t, i)
    raise Unsupported(f"iteration over {v!r}")

  def name_map(self, c):
    """a constant equal to dictionary contents given by a compound term."""
    c = z3.simplify(c)
    if c.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and c.decl().name() not in ("over", "minus"):
      return c
    if c.get_id() in self.map_names:
      return self.map_names[c.get_id()][1]
    N = self.fresh("map", Map)
    self.map_names[c.get_id()] = (c, N)
    self.assume(N == c)
    b = bound_of(c)
    if b is not None:
      set_bound(N, b)
    bases, st = {}, [c]
    while st:
      t = st.pop()
      if t.decl().kind() == z3.Z3_OP_STORE:
        st.append(t.arg(0))
      elif t.decl().kind() == z3.Z3_OP_ITE:
        st += [t.arg(1), t.arg(2)]
      elif t.decl().name() in ("over", "minus"):
        st += [t.arg(0), t.arg(1)]
      elif t.decl().kind() != z3.Z3_OP_CONST_ARRAY and pat_ok(t):
        bases[t.get_id()] = t
    k = z3.Const("k!nm", V)
    for t in bases.values():
      self.assume(forall([k], N[k] == c[k], t[k]))
    return N

  def name_order(self, o):
    o = z3.simplify(self.iterm(o))
    if pat_ok(o):
      return o
    if o.get_id() not in self.map_names:
      n = self.fresh("ord", Int)
      self.assume(n == o)
      self.map_names[o.get_id()] = (o, n)
    return self.map_names[o.get_id()][1]

  def key_fact(self, view, k):
    pass

  def set_seq(self, v):
    s = self.heap.S(self.did(v))
    t = F("setseq", VSet, V)(s)
    i = z3.Int("i!ss")
    x = z3.Const("x!ss", V)
    w = F("setpos", VSet, V, Int)
    self.assume(V.is_TV(t))
    self.hint(t, "tuple")
    self.assume(forall([i], Implies(And(0 <= i, i < tlen(t)), And(s[tget(t, i)], w(s, tget(t, i)) == i)), tget(t, i)))
    self.assume(forall([x], Implies(s[x], And(0 <= w(s, x), w(s, x) < tlen(t), tget(t, w(s, x)) == x)), s[x]))
    return t

  def sorted_spec(self, sv):
    if getattr(sv, "spec", None) is not None:
      return sv.spec
    n, elem = self.iter_spec(sv.it)
    if isinstance(n, int) and n <= 1:
      return n, elem
    if isinstance(n, int):
      es = [elem(i) for i in range(n)]
      ks = [self.call(sv.key, [e], {}) if sv.key is not None else e for e in es]
      if all(isinstance(k, (str, int)) for k in ks):
        idx = sorted(range(n), key=lambda i: ks[i])
        return n, lambda i: es[idx[i]]
    cache = getattr(sv, "cache", None)
    if cache is None:
      tag = self.fresh_n
      perm = self.fresh_fn("perm", Int, Int)
      inv = self.fresh_fn("pinv", Int, Int)
      i, j = z3.Ints("i!so j!so")
      nt = self.iterm(n)
      rng = lambda x: And(0 <= x, x < nt)
      self.assume(forall([i], Implies(rng(i), And(rng(perm(i)), inv(perm(i)) == i)), perm(i)))
      self.assume(forall([i], Implies(rng(i), And(rng(inv(i)), perm(inv(i)) == i)), inv(i)))
      src = [p for p in self.elem_terms(elem)(i) if self.good_pattern(p, i)]
      if src:
        self.assume(forall([i], Implies(rng(i), And(rng(inv(i)), perm(inv(i)) == i)), *src))

      def keyat(x):
        e = elem(x)
        return self.lift(self.call(sv.key, [e], {}) if sv.key is not None else e)
      c = self.fresh("i", Int)
      self.solver.push()
      n0 = len(self.pc)
      self.assume(rng(c))
      kt = keyat(c)
      extra = self.pc[n0 + 1:]
      del self.pc[n0:]
      self.solver.pop()
      KF = lambda x: z3.substitute(kt, (c, x))
      for f in extra:
        if z3.is_quantifier(f):
          continue
        self.assume(forall([i], Implies(rng(i), z3.substitute(f, (c, perm(i)))), perm(i)))
      self.assume(forall([i, j], Implies(And(rng(i), rng(j), i < j), Not(slt(KF(perm(j)), KF(perm(i))))),
                         [perm(i), perm(j)]))
      # stability
      self.assume(forall([i, j], Implies(And(rng(i), rng(j), i < j, KF(perm(i)) == KF(perm(j))), perm(i) < perm(j)),
                         [perm(i), perm(j)]))
      sv.cache = cache = (perm, inv, KF, nt)
    perm, inv, KF, nt = cache
    spec = (n, lambda i: elem(perm(self.iterm(i))))
    return spec

  # ------------------------------------------------------------ sequences
  def to_tuple(self, v):
    if isinstance(v, tuple):
      return v
    if isinstance(v, GenV):
      return self.comp_seq(v.node, v.frame, getattr(v, "first", None))
    if isinstance(v, MapV):
      return self.map_seq(v)
    if isV(v):
      k = self.klass(v)
      if k == "tuple" or self.is_tuple_class(k):
        if v.decl().name() == "tnew":
          return self.lower(v.arg(1))
        return v
      if k == "list":
        c = self.lower(self.heap.L(self.did(v)))
        if isV(c):
          self.hint(c, "tuple")
        return c
    n, elem = self.iter_spec(v)
    if isinstance(n, int):
      return tuple(elem(i) for i in range(n))
    return self.seq_of(n, lambda i: self.lift(elem(i)))

  def seq_of(self, n, elem):
    """tuple value of symbolic length n with the given elements (pure elem)."""
    r = self.fresh("seq")
    self.assume(And(V.is_TV(r), tlen(r) == n, age(r) <= self.heap.alloc, clsof(r) == C("tuple")))
    self.hint(r, "tuple")
    c = self.fresh("i", Int)
    n0 = len(self.pc)
    self.solver.push()
    t = elem(c)
    extra = self.pc[n0:]
    del self.pc[n0:]
    self.solver.pop()
    i = z3.Int("i!sq")
    body = [z3.substitute(f, (c, i)) for f in extra] + [tget(r, i) == z3.substitute(t, (c, i))]
    pats = [tget(r, i)]
    st = z3.substitute(t, (c, i))
    if self.good_pattern(st, i):
      pats.append(st)
      todo = [st]
      while todo:
        e = todo.pop()
        if e.decl().name() == "kseq" and self.good_pattern(e, i) and e.arg(2).eq(i):
          pats.append(e)
        todo.extend(c for c in e.children() if z3.is_app(c))
    self.assume(forall([i], Implies(And(0 <= i, i < n), And(*body)), *pats))
    return r

  def good_pattern(self, t, i):
    """t can serve as a trigger for i: an application of an uninterpreted symbol."""
    if not z3.is_app(t) or t.num_args() == 0:
      return False
    if t.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT):
      return False
    has = [False]

    def go(e):
      if z3.is_quantifier(e) or z3.is_var(e):
        return False
      if e.eq(i):
        has[0] = True
        return True
      if e.num_args() and e.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_DT_CONSTRUCTOR,
                                                  z3.Z3_OP_DT_ACCESSOR):
        return False
      return all(go(c) for c in e.children())
    return go(t) and has[0]

  # skolemisation: symbols created while evaluating one iteration become
  # functions of the iteration index
  def skolemize(self, e, i, fresh0, memo):
    def sym_no(name):
      p = name.rfind("!")
      if p < 0:
        return -1
      try:
        return int(name[p + 1:])
      except ValueError:
        return -1
    cache = memo.setdefault("cache", {})

    def go(t):
      k = t.get_id()
      if k in cache:
        return cache[k][1]
      if z3.is_quantifier(t):
        body = go(t.body())
        if body.eq(t.body()):
          r = t
        else:
          vs = [z3.Const(t.var_name(x), t.var_sort(x)) for x in range(t.num_vars())]
          inst = z3.substitute_vars(body, *reversed(vs))
          pats = []
          for x in range(t.num_patterns()):
            p = t.pattern(x)
            pats.append(z3.MultiPattern(*[z3.substitute_vars(go(q), *reversed(vs)) for q in p.children()]))
          r = z3.ForAll(vs, inst, patterns=pats) if t.is_forall() else z3.Exists(vs, inst)
        cache[k] = (t, r)
        return r
      if z3.is_var(t) or not z3.is_app(t):
        cache[k] = (t, t)
        return t
      ch = [go(c) for c in t.children()]
      d = t.decl()
      nm = d.name()
      if d.kind() == z3.Z3_OP_UNINTERPRETED and sym_no(nm) > fresh0 and not t.eq(i) and nm not in memo.get("keep", ()):
        key = ("f", nm)
        if key not in memo:
          memo[key] = z3.Function(nm + "$i", *([d.domain(x) for x in range(d.arity())] + [Int, d.range()]))
        r = memo[key](*(ch + [i]))
      elif ch and any(not a.eq(b) for a, b in zip(ch, t.children())):
        r = d(*ch)
      else:
        r = t
      cache[k] = (t, r)
      return r
    return go(e)

  def summarize(self, n, body, sorts, elem_pat=None):
    """element-wise summary of `body(i)` for 0<=i<n (n symbolic): functions
    O_k of the index with the facts established by every path of the body."""
    nt = self.iterm(n)
    i = self.fresh("i", Int)
    fresh0 = self.fresh_n
    A = self.heap.alloc
    al = self.fresh_fn("al", Int, Int)       # allocation counter before iteration i
    ale = self.fresh_fn("ale", Int, Int)     # and after it
    heap0 = self.heap

    eff = None            # effect of one iteration on an existing object

    def thunk():
      self.assume(And(0 <= i, i < nt))
      self.assume(al(i) >= A)
      if eff is None:
        self.heap = self.heap.with_alloc(al(i))
      else:
        self.assume(eff.winv(eff.t(i)) == i)
        self.fresh_n += 1
        self.heap = self.heap.havoc(f"pre!{self.fresh_n}", lambda x: Not(eff.before(x, i)), al(i), eff.kinds)
      self.writes = []
      try:
        out = body(i)
        kind = "ok"
      except Raised as e:
        out, kind = e, "raise"
      except (BreakX, ContinueX, ReturnX):
        raise Unsupported("control flow in a comprehension")
      return kind, out, self.heap, self.writes

    def run():
      paths = self.sub_explore(thunk)
      ok = [(pc, o[1], o[2], o[3]) for pc, o in paths if o[0] == "ok"]
      bad = [(pc, o[1], o[2], o[3]) for pc, o in paths if o[0] == "raise"]
      ext = []
      for pc, o, h, ws in ok + bad:
        for w in ws:
          if w[0] == "havoc":
            x = self.fresh("x", Int)
            if not self.entails_under(pc, Implies(x < al(i), Not(w[1](x)))):
              raise Unsupported("callee effect on existing objects in a comprehension")
          elif not self.entails_under(pc, w[1] >= al(i)):
            ext.append((w[0], z3.simplify(w[1])))
      return ok, bad, ext
    ok, bad, ext = run()
    if ext:
      eff = self.iteration_effect(ext, i, nt, fresh0, elem_pat)
      ok, bad, ext2 = run()
      for k, t in ext2:
        if k not in eff.kinds or not t.eq(z3.simplify(eff.t(i))):
          raise Unsupported("comprehension writes to several existing objects")
    if bad:
      if self.choose(2) == 1:
        # the first iteration that raises
        i0 = self.fresh("iraise", Int)
        self.assume(And(0 <= i0, i0 < nt))
        if eff is not None:
          self.fresh_n += 1
          self.assume(eff.winv(eff.t(i0)) == i0)
          self.heap = self.heap.havoc(f"pre!{self.fresh_n}", lambda x: Not(eff.before(x, i0)), A, eff.kinds)
          if self.writes is not None:
            self.writes.append(("havoc", lambda x: eff.before(x, i0)))
        if self.check() == z3.unsat:
          raise Abort()
        body(i0)
        raise Abort()
    memo = {}
    outs = [self.fresh_fn("out", Int, s) for s in sorts]
    x = z3.Int("x!h")
    allocs = any(not z3.simplify(h.alloc == al(i)).eq(z3.BoolVal(True)) for _, _, h, _ in ok)
    newf = {}
    if allocs:
      newf = {k: self.fresh_fn("H" + k, Int, s) for k, s in SORTS.items()}
    disj = []
    memo["keep"] = {g.name() for g in [al, ale] + outs + list(newf.values())}
    for pc, o, h, ws in ok:
      fs = [f for f in pc]
      for k, t in enumerate(o):
        fs.append(outs[k](i) == t)
      if eff is not None:
        for k in eff.kinds:
          fs.append(eff.final(k)(eff.t(i)) == h.rd(k, eff.t(i)))
      if allocs:
        fs.append(ale(i) == h.alloc)
        d = z3.simplify(h.alloc - al(i))
        if z3.is_int_value(d):
          for off in range(d.as_long()):
            idt = z3.simplify(al(i) + off)
            for k in SORTS:
              fs.append(newf[k](idt) == h.rd(k, idt))
        else:
          for k in SORTS:
            fs.append(forall([x], Implies(And(al(i) <= x, x < ale(i)), newf[k](x) == h.rd(k, x)), newf[k](x)))
      disj.append(self.skolemize(And(*fs), i, fresh0, memo))
    if disj:
      f = Implies(And(0 <= i, i < nt), Or(*disj) if len(disj) > 1 else disj[0])
    else:
      f = Not(And(0 <= i, i < nt))
    b = z3.Int("i!b")
    f = z3.substitute(f, (i, b))
    pats = [o(b) for o in outs]
    if eff is not None:
      heap0 = heap0.havoc(eff.tag, lambda x: Not(eff.done(x)), heap0.alloc, eff.kinds)
      self.heap = heap0
      if self.writes is not None:
        self.writes.append(("havoc", eff.done))
      if self.good_pattern(eff.t(b), b):
        pats.append(eff.t(b))
    if allocs:
      pats.append(al(b))
    if elem_pat is not None:
      for p in elem_pat(b):
        if self.good_pattern(p, b):
          pats.append(p)
    self.assume(z3.ForAll([b], f, patterns=pats))
    if allocs:
      c = z3.Int("c!b")
      end = self.fresh_alloc("alend", A)
      self.assume(z3.ForAll([b], Implies(And(0 <= b, b < nt), And(A <= al(b), al(b) <= ale(b), ale(b) <= end)),
                            patterns=[al(b), ale(b)]))
      self.assume(z3.ForAll([b, c], Implies(And(0 <= b, b < c, c < nt), ale(b) <= al(c)),
                            patterns=[z3.MultiPattern(al(b), al(c))]))
      comp = {}
      for k in SORTS:
        comp[k] = _Split(heap0.comp[k], (lambda q: z3.BoolVal(True) if older(q, A) else q < A), newf[k])
      self.heap = Heap(comp, end)
    return outs

  def iteration_effect(self, ext, i, nt, fresh0, elem_pat):
    """iterations write one existing object each, a different one every time."""
    ts = []
    for k, t in ext:
      if self.mentions_fresh(z3.substitute(t, (i, z3.IntVal(0))), fresh0):
        raise Unsupported("comprehension writes to an existing object")
      if not any(t.eq(u) for u in ts):
        ts.append(t)
    if len(ts) != 1:
      raise Unsupported("comprehension writes to several existing objects")
    t0 = ts[0]
    i1, i2 = self.fresh("i1", Int), self.fresh("i2", Int)
    sub = lambda x: z3.substitute(t0, (i, x))
    if not self.entails_under([And(0 <= i1, i1 < i2, i2 < nt)], sub(i1) != sub(i2)):
      raise Unsupported("iterations of a comprehension may write to the same object")
    e = IterEffect()
    e.kinds = tuple(sorted({k for k, _ in ext}))
    e.t = sub
    e.winv = self.fresh_fn("winv", Int, Int)
    self.fresh_n += 1
    e.tag = f"eff_{self.fresh_n}"

    def before(x, j):
      f = And(0 <= e.winv(x), e.winv(x) < j, sub(e.winv(x)) == x)
      return z3.BoolVal(False) if self.entails(Not(f), 60) else f
    e.before = before
    e.done = lambda x: e.before(x, nt)
    e.final = lambda k: F(f"{k}{e.tag}", Int, SORTS[k])
    b = z3.Int("b!we")
    pats = [p for p in (elem_pat(b) if elem_pat is not None else []) if self.good_pattern(p, b)]
    if self.good_pattern(sub(b), b):
      pats.append(sub(b))
    self.assume(z3.ForAll([b], Implies(And(0 <= b, b < nt), e.winv(sub(b)) == b), patterns=pats))
    return e

  def entails_under(self, pc, f):
    self.solver.push()
    try:
      for p in pc:
        self.solver.add(p)
      return self.entails(f, 1000)
    finally:
      self.solver.pop()

  # ------------------------------------------------------------ comprehensions
  def comp_iter(self, gens, fr, first=None):
    g = gens[0]
    it = first if first is not None else self.eval(g.iter, fr)
    return self.iter_spec(it)

  def comp_frame(self, fr):
    f = Frame(fr.fi, fr, fr.mod)
    return f

  def elem_terms(self, elem):
    def pats(b):
      snap = len(self.pc)
      self.solver.push()
      try:
        e = elem(b)
        ts = list(e) if isinstance(e, tuple) else [e]
        out = []
        for t in ts:
          try:
            out.append(self.lift(t))
          except Unsupported:
            pass
        return out
      finally:
        del self.pc[snap:]
        self.solver.pop()
    return pats

  def comp_values(self, gens, parts, fr, first=None):
    """concrete: list of tuples of part values; symbolic: ('sym', n, keep, outs).
    parts: function(frame) -> tuple of values"""
    if len(gens) > 1:
      n, elem = self.comp_iter(gens, fr, first)
      if not isinstance(n, int):
        raise Unsupported("nested comprehension over a symbolic sequence")
      res = []
      for i in range(n):
        f = self.comp_frame(fr)
        self.assign(gens[0].target, elem(i), f)
        if all(self.branch(self.truth(self.eval(c, f))) for c in gens[0].ifs):
          sub = self.comp_values(gens[1:], parts, f)
          if isinstance(sub, tuple):
            raise Unsupported("nested comprehension over a symbolic sequence")
          res.extend(sub)
      return res
    g = gens[0]
    n, elem = self.comp_iter(gens, fr, first)
    if isinstance(n, int):
      res = []
      for i in range(n):
        f = self.comp_frame(fr)
        self.assign(g.target, elem(i), f)
        ok = True
        for c in g.ifs:
          if not self.branch(self.truth(self.eval(c, f))):
            ok = False
            break
        if ok:
          res.append(parts(f))
      return res
    nparts = [None]

    def body(i):
      f = self.comp_frame(fr)
      self.assign(g.target, elem(i), f)
      for c in g.ifs:
        if not self.branch(self.truth(self.eval(c, f))):
          return [z3.BoolVal(False)] + [Abs] * len(parts.sorts)
      vs = parts(f)
      out = [z3.BoolVal(True)]
      for v, s in zip(vs, parts.sorts):
        if s == Bool:
          t = self.truth(v)
          out.append(z3.BoolVal(t) if isinstance(t, bool) else t)
        else:
          out.append(self.lift(v))
      return out

    def body2(i):
      o = body(i)
      return [z3.BoolVal(False) if (x.sort() != s and s == Bool) else x
              for x, s in zip(o, [Bool] + list(parts.sorts))]
    outs = self.summarize(n, body2, [Bool] + list(parts.sorts), self.elem_terms(elem))
    return ("sym", n, outs[0] if g.ifs else None, outs[1:], elem)

  def mkparts(self, nodes, sorts=None):
    def parts(f):
      return tuple(self.eval(x, f) for x in nodes)
    parts.sorts = sorts or [V] * len(nodes)
    return parts

  def comp_seq(self, node, fr, first=None):
    r = self.comp_values(node.generators, self.mkparts([node.elt]), fr, first)
    if isinstance(r, list):
      return tuple(x[0] for x in r)
    return self.seq_from(r[1], r[2], r[3][0])

  filtered = {}     # kept elements of a filtered sequence, for other triggers

  def seq_from(self, n, keep, out):
    nt = self.iterm(n)
    s = self.fresh("seq")
    self.hint(s, "tuple")
    i, j = z3.Ints("i!f j!f")
    self.assume(And(V.is_TV(s), clsof(s) == C("tuple"), age(s) <= self.heap.alloc))
    if keep is None:
      self.assume(tlen(s) == nt)
      self.assume(z3.ForAll([i], Implies(And(0 <= i, i < nt), tget(s, i) == out(i)), patterns=[tget(s, i), out(i)]))
      return s
    e = self.fresh_fn("emb", Int, Int)
    q = self.fresh_fn("embinv", Int, Int)
    m = tlen(s)
    self.assume(m <= nt)
    self.assume(forall([j], Implies(And(0 <= j, j < m), And(0 <= e(j), e(j) < nt, keep(e(j)), tget(s, j) == out(e(j)),
                                                            q(e(j)) == j)), tget(s, j), e(j)))
    every = lambda *pats: z3.ForAll([i], Implies(And(0 <= i, i < nt, keep(i)), And(0 <= q(i), q(i) < m, e(q(i)) == i)), patterns=list(pats))
    self.assume(every(keep(i), out(i)))
    self.filtered[s.decl().name()] = lambda pat: every(pat(i))
    self.assume(forall([i, j], Implies(And(0 <= i, i < j, j < m), e(i) < e(j)), [e(i), e(j)]))
    return s

  def ev_ListComp(self, n, fr):
    return self.alloc_list(self.comp_seq(n, fr))

  def ev_GeneratorExp(self, n, fr):
    g = GenV(n, fr)
    g.first = self.eval(n.generators[0].iter, fr)
    return g

  def ev_SetComp(self, n, fr):
    return self.alloc_set(self.seq_set(self.comp_seq(n, fr)))

  def ev_DictComp(self, n, fr):
    first = self.eval(n.generators[0].iter, fr)
    parts, keyed = self.keyed_parts(n.generators, [n.key, n.value], first)
    r = self.comp_values(n.generators, parts, fr, first)
    if isinstance(r, list):
      c = EMPTY
      for k, v in r:
        c = z3.Store(c, self.key(k), self.lift(v))
      return self.alloc_dict(c)
    return self.dict_from(r[1], r[2], lambda i: r[3][0](i), lambda i: r[3][1](i), keyed=keyed())

  def keyed_parts(self, gens, nodes, it):
    """parts of a dict comprehension; keyed() tells (contents, order) of the
    dictionary iterated over when every produced key is the iteration key."""
    parts = self.mkparts(nodes)
    src = self.dict_source(it)
    if src is None or len(gens) != 1:
      return parts, lambda: None
    flag = [True]

    def kparts(f):
      vs = parts(f)
      try:
        k = self.lift(vs[0])
        if not (k.decl().name() == "kseq" and k.arg(0).eq(src[0]) and k.arg(1).eq(src[1])):
          flag[0] = False
      except Unsupported:
        flag[0] = False
      return vs
    kparts.sorts = parts.sorts
    return kparts, lambda: src if flag[0] else None

  def dict_source(self, it):
    if isinstance(it, DView) and it.kind in ("keys", "items"):
      i = it.did
    elif isV(it) and self.klass(it) in ("dict", "mappingproxy"):
      i = self.did(it)
    else:
      return None
    return self.name_map(self.heap.D(i)), self.name_order(self.heap.O(i))

  def dict_from(self, n, keep, key, val, key_pats=(), keyed=None):
    """dict built by storing key(i): val(i) for i in 0..n (last one wins)."""
    nt = self.iterm(n)
    M = self.fresh("dict", Map)
    w = self.fresh_fn("lastw", V, Int)
    f1 = self.fresh_fn("firstw", V, Int)
    o = self.fresh("ord", Int)
    i, j = z3.Ints("i!d j!d")
    x = z3.Const("x!d", V)
    kp = (lambda t: z3.BoolVal(True)) if keep is None else keep
    if keyed is not None:
      c, co = keyed
      self.assume(kmark(c, co))
      self.assume(kmark(M, o))
      at = kpos(c, co, x)
      pc = [M[x]] + ([c[x]] if pat_ok(c[x]) else [])
      self.assume(forall([x], M[x] == If(c[x] == Abs, Abs, If(kp(at), val(at), Abs)), *pc))
      self.assume(forall([x], Implies(c[x] != Abs, And(kseq(c, co, at) == x, val(at) != Abs)), *pc))
      self.assume(dlen(M) <= nt)
      if keep is None:
        self.assume(dlen(M) == nt)
        self.assume(forall([i], Implies(And(0 <= i, i < nt), kseq(M, o, i) == kseq(c, co, i)), kseq(M, o, i), kseq(c, co, i)))
      else:
        self.assume(forall([i, j], Implies(And(0 <= i, i < j, j < dlen(M)), kpos(c, co, kseq(M, o, i)) < kpos(c, co, kseq(M, o, j))),
                           [kseq(M, o, i), kseq(M, o, j)]))
      return self.alloc_dict(M, o)
    rng = lambda t: And(0 <= t, t < nt, kp(t))
    pats = [key(i)] if self.good_pattern(key(i), i) else []
    for p in (val(i),):
      if self.good_pattern(p, i):
        pats.append(p)
    if keep is not None and self.good_pattern(kp(i), i):
      pats.append(kp(i))
    self.assume(z3.ForAll([i], Implies(rng(i), And(M[key(i)] != Abs, f1(key(i)) <= i, i <= w(key(i)))), patterns=pats))
    self.assume(forall([x], Implies(M[x] != Abs, And(rng(w(x)), key(w(x)) == x, M[x] == val(w(x)), rng(f1(x)),
                                                     key(f1(x)) == x)), M[x]))
    # insertion order: by first occurrence
    self.assume(kmark(M, o))
    self.assume(forall([i, j], Implies(And(0 <= i, i < j, j < dlen(M)), f1(kseq(M, o, i)) < f1(kseq(M, o, j))),
                       [kseq(M, o, i), kseq(M, o, j)]))
    self.assume(dlen(M) <= nt)
    # without repeated keys and filters the order is the iteration order
    dist = self.fresh("distinct", Bool)
    a, b = z3.Ints("a!d b!d")
    sa, sb = self.fresh("sa", Int), self.fresh("sb", Int)
    self.assume(Implies(Not(dist), And(0 <= sa, sa < sb, sb < nt, key(sa) == key(sb))))
    if keep is None:
      self.assume(Implies(dist, And(dlen(M) == nt)))
      self.assume(Implies(dist, forall([i], Implies(And(0 <= i, i < nt), kseq(M, o, i) == key(i)),
                                       *([kseq(M, o, i)] + pats))))
    return self.alloc_dict(M, o)

  def dict_of_pairs(self, it):
    if isinstance(it, GenV) and isinstance(it.node.elt, ast.Tuple) and len(it.node.elt.elts) == 2:
      parts, keyed = self.keyed_parts(it.node.generators, it.node.elt.elts, it.first)
      r = self.comp_values(it.node.generators, parts, it.frame, it.first)
      if isinstance(r, list):
        c = EMPTY
        for k, v in r:
          c = z3.Store(c, self.key(k), self.lift(v))
        return self.alloc_dict(c)
      return self.dict_from(r[1], r[2], r[3][0], r[3][1], keyed=keyed())
    if isinstance(it, SortedV) and isinstance(it.it, DView) and it.it.kind == "items":
      n, elem = self.iter_spec(it)
      if not isinstance(n, int):
        # the entries of a dictionary, in another order
        c, co = self.dict_source(it.it)
        o = self.fresh("ord", Int)
        i = z3.Int("i!ds")
        perm, inv = it.cache[0], it.cache[1]
        self.assume(And(kmark(c, co), kmark(c, o)))
        self.assume(forall([i], Implies(And(0 <= i, i < dlen(c)), And(kseq(c, o, i) == kseq(c, co, perm(i)), 0 <= perm(i), perm(i) < dlen(c))),
                           kseq(c, o, i)))
        return self.alloc_dict(c, o)
    n, elem = self.iter_spec(it)
    if isinstance(n, int):
      c = EMPTY
      for i in range(n):
        p = self.to_tuple(elem(i))
        ln = self.t_len(p)
        if isinstance(ln, int):
          if ln != 2:
            self.raise_exc("ValueError")
        elif not self.branch(ln == 2):
          self.raise_exc("ValueError")
        c = z3.Store(c, self.key(self.t_get(p, 0)), self.lift(self.t_get(p, 1)))
      return self.alloc_dict(c)

    def body(i):
      p = self.to_tuple(elem(i))
      ln = self.t_len(p)
      if isinstance(ln, int):
        if ln != 2:
          self.raise_exc("ValueError")
      elif not self.branch(ln == 2):
        self.raise_exc("ValueError")
      return [self.key(self.t_get(p, 0)), self.lift(self.t_get(p, 1))]
    outs = self.summarize(n, body, [V, V], self.elem_terms(elem))
    return self.dict_from(n, None, outs[0], outs[1])

  def map_seq(self, mv):
    specs = [self.iter_spec(x) for x in mv.its]
    n, elem = specs[0] if len(specs) == 1 else self.iter_spec(ZipV(mv.its))

    def at(i):
      e = elem(i)
      return self.call(mv.fn, list(e) if len(specs) > 1 else [e], {})
    if isinstance(n, int):
      return tuple(at(i) for i in range(n))
    outs = self.summarize(n, lambda i: [self.lift(at(i))], [V], self.elem_terms(elem))
    return self.seq_from(n, None, outs[0])

  def any_all(self, it, isany):
    def conc(vals):
      for v in vals:
        t = self.truth(v)
        if self.branch(t) == isany:
          return isany
      return not isany
    if isinstance(it, GenV):
      parts = self.mkparts([it.node.elt], [Bool])
      n, elem = self.comp_iter(it.node.generators, it.frame, it.first)
      if isinstance(n, int) and len(it.node.generators) == 1:
        g = it.node.generators[0]
        for i in range(n):
          f = self.comp_frame(it.frame)
          self.assign(g.target, elem(i), f)
          if all(self.branch(self.truth(self.eval(c, f))) for c in g.ifs):
            if self.branch(self.truth(self.eval(it.node.elt, f))) == isany:
              return isany
        return not isany
      r = self.comp_values(it.node.generators, parts, it.frame, it.first)
      if isinstance(r, list):
        return conc([x[0] for x in r])
      n, keep, T = r[1], r[2], r[3][0]
      elem = r[4]
    else:
      n, elem = self.iter_spec(it)
      if isinstance(n, int):
        return conc([elem(i) for i in range(n)])
      outs = self.summarize(n, lambda i: [self.as_bool(self.truth(elem(i)))], [Bool], self.elem_terms(elem))
      keep, T = None, outs[0]
    nt = self.iterm(n)
    b = self.fresh("any", Bool)
    w = self.fresh("anyw", Int)
    i = z3.Int("i!an")
    kp = (lambda t: z3.BoolVal(True)) if keep is None else keep
    pats = [T(i)] + ([keep(i)] if keep is not None else [])
    for p in self.elem_terms(elem)(i):
      if self.good_pattern(p, i):
        pats.append(p)
    if isany:
      self.assume(Implies(b, And(0 <= w, w < nt, kp(w), T(w))))
      self.assume(Implies(Not(b), z3.ForAll([i], Implies(And(0 <= i, i < nt, kp(i)), Not(T(i))), patterns=pats)))
    else:
      self.assume(Implies(Not(b), And(0 <= w, w < nt, kp(w), Not(T(w)))))
      self.assume(Implies(b, z3.ForAll([i], Implies(And(0 <= i, i < nt, kp(i)), T(i)), patterns=pats)))
    return b

  def as_bool(self, t):
    return z3.BoolVal(t) if isinstance(t, bool) else t

  # ------------------------------------------------------------ statements
  def st_For(self, s, fr):
    it = self.eval(s.iter, fr)
    n, elem = self.iter_spec(it)
    if isinstance(n, int):
      self.cur_it = it
      for i in range(n):
        self.assign(s.target, elem(i), fr)
        try:
          self.exec_block(s.body, fr)
        except ContinueX:
          continue
        except BreakX:
          return
      self.exec_block(s.orelse, fr)
      return
    self.sym_loop(s, fr, n, elem, it)

  def loop_key(self, s, fr):
    return (fr.mod.name, s.lineno, s.col_offset)

  def loop_spec(self, s, fr):
    if self.loop_ord is None:
      self.loop_ord = {}
    k = self.loop_key(s, fr)
    if k not in self.loop_ord:
      self.loop_ord[k] = len(self.loop_ord)
    i = self.loop_ord[k]
    if i < len(self.loop_specs):
      return self.loop_specs[i]
    raise Unsupported(f"no invariant for loop #{i} at {fr.mod.path}:{s.lineno}")

  def classify(self, s, fr, nt, elem):
    """paths of one arbitrary iteration without invariant knowledge."""
    i = self.fresh("i", Int)
    fresh0 = self.fresh_n
    env0 = dict(fr.env)
    heap0 = self.heap
    obl0 = self.obligations
    self.obligations = []

    def thunk():
      self.assume(And(0 <= i, i < nt))
      self.writes = []
      kind, out = "fall", None
      try:
        self.assign(s.target, elem(i), fr)
        self.exec_block(s.body, fr)
      except ContinueX:
        pass
      except BreakX:
        kind = "break"
      except ReturnX as e:
        kind = "return"
      except Raised as e:
        kind = "raise"
      return kind, self.heap, list(self.writes), dict(fr.env)
    try:
      paths = self.sub_explore(thunk)
      return i, fresh0, paths, self.obligations
    finally:
      self.obligations = obl0
      fr.env = env0

  def sym_loop(self, s, fr, n, elem, it):
    nt = self.iterm(n)
    names = assigned_names([s.target] + s.body)
    env0 = dict(fr.env)
    tgt = assigned_names([s.target])
    carried = [x for x in names if x in env0 and x not in tgt]
    simple = not carried or not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in s.body for x in ast.walk(b))
    i, fresh0, paths, obls = self.classify(s, fr, nt, elem)
    pure = True
    wset = []
    for pc, (kind, h, ws, env) in paths:
      for w in ws:
        wset.append((kind, pc, w))
      if kind == "fall":
        if ws and any(not self.iter_fresh(w, pc) for w in ws):
          pure = False
        if any(env.get(x) is not env0.get(x) and not self.same(env.get(x), env0.get(x)) for x in carried):
          pure = False
    if pure:
      return self.search_loop(s, fr, nt, elem, i, fresh0, paths, obls, tgt)
    self.inv_loop(s, fr, nt, elem, it, i, fresh0, paths, carried, tgt)

  def same(self, a, b):
    return isV(a) and isV(b) and a.eq(b) or (not isV(a) and not isV(b) and type(a) == type(b) and
                                             isinstance(a, (int, str, bool, type(None))) and a == b)

  def iter_fresh(self, w, pc):
    if w[0] == "havoc":
      return False
    return self.entails_under(pc, w[1] >= self.heap.alloc)

  def search_loop(self, s, fr, nt, elem, i, fresh0, paths, obls, tgt):
    self.obligations.extend(obls)
    falls = [pc for pc, o in paths if o[0] == "fall"]
    exits = [pc for pc, o in paths if o[0] != "fall"]
    memo = {}
    b = z3.Int("j!sl")
    pats = []
    for p in self.elem_terms(elem)(b):
      if self.good_pattern(p, b) and pat_ok(p):
        pats.append(p)

    def passed(upto):
      if not falls:
        return upto <= 0
      ds = [self.skolemize(And(*pc), i, fresh0, memo) for pc in falls]
      f = Or(*ds) if len(ds) > 1 else ds[0]
      f = z3.substitute(f, (i, b))
      q = Implies(And(0 <= b, b < upto), f)
      return z3.ForAll([b], q, patterns=pats) if pats else z3.ForAll([b], q)
    if not exits or self.choose(2) == 0:
      self.assume(passed(nt))
      if self.check() == z3.unsat:
        raise Abort()
      for x in assigned_names([s.target] + s.body):
        if x not in fr.env or x in tgt:
          fr.env.pop(x, None)
      self.exec_block(s.orelse, fr)
      return
    i0 = self.fresh("ihit", Int)
    self.assume(And(0 <= i0, i0 < nt))
    self.assume(passed(i0))
    if self.check() == z3.unsat:
      raise Abort()
    self.assign(s.target, elem(i0), fr)
    try:
      self.exec_block(s.body, fr)
    except ContinueX:
      raise Abort()
    except BreakX:
      return
    raise Abort()

  def havoc_var(self, v, name):
    """arbitrary value of the kind of a loop-carried variable."""
    if isinstance(v, bool):
      return self.fresh(name, Bool)
    if isinstance(v, int) or has_sort(v, Int):
      return self.fresh(name, Int)
    if has_sort(v, Bool):
      return self.fresh(name, Bool)
    if isinstance(v, tuple) or (isV(v) and self.klass(v) == "tuple"):
      r = self.fresh(name)
      self.assume(And(V.is_TV(r), clsof(r) == C("tuple")))
      self.hint(r, "tuple")
      return r
    return self.fresh(name)

  def inv_loop(self, s, fr, nt, elem, it, ic, fresh0, paths, carried, tgt, test=None):
    spec = self.loop_spec(s, fr)
    h0 = self.heap
    env0 = dict(fr.env)
    a0 = h0.alloc

    def ctx(i):
      L = LoopCtx(self, fr, i, nt, elem, h0, env0, fr.env, s)
      L.it = it
      return L
    where = f"loop at {fr.fi.name if fr.fi else '?'}"
    L = ctx(z3.IntVal(0))
    for nm, f in spec.inv(L):
      self.prove(f"{where}: invariant {nm} holds on entry", f, kind="inv-entry")
    # what one iteration may modify
    ids = []
    general = spec.modifies
    for pc, (kind, h, ws, env) in paths:
      for w in ws:
        if w[0] == "havoc":
          if general is None:
            raise Unsupported("loop body has an unbounded effect and no modifies clause")
          continue
        t = z3.simplify(w[1])
        if self.mentions_fresh(t, fresh0 - 1):
          if self.entails_under(pc, t >= a0):
            continue
          if general is None:
            raise Unsupported("loop writes to objects that need a modifies clause")
        elif not any(t.eq(x) for x in ids):
          ids.append(t)

    def mod(x):
      fs = [x == t for t in ids] + [x >= a0]
      if general is not None:
        fs.append(general(L, x))
      return Or(*fs)
    self.havoc_heap("loop", lambda x: Or(*([x == t for t in ids] + ([general(L, x)] if general is not None else [z3.BoolVal(False)]))), spec.comps)
    for x in carried:
      fr.env[x] = self.havoc_var(env0[x], x)
    for x in assigned_names([s.target] + s.body if test is None else s.body):
      if x not in env0:
        fr.env.pop(x, None)
    i = self.fresh("it", Int)
    L = ctx(i)
    which = self.choose(2)
    if which == 0:
      # after the loop
      if test is None:
        self.assume(i == nt)
        self.assume(nt >= 0)
      for nm, f in spec.inv(L):
        self.assume(f)
      if test is not None:
        if self.branch(self.truth(self.eval(test, fr))):
          raise Abort()
      for x in tgt:
        if x not in env0:
          fr.env.pop(x, None)
      if self.check() == z3.unsat:
        raise Abort()
      self.exec_block(s.orelse, fr)
      return
    self.assume(0 <= i)
    if test is None:
      self.assume(i < nt)
    for nm, f in spec.inv(L):
      self.assume(f)
    if test is not None:
      if not self.branch(self.truth(self.eval(test, fr))):
        raise Abort()
    if self.check() == z3.unsat:
      raise Abort()
    h1 = self.heap
    saved = self.writes
    self.writes = []
    try:
      if test is None:
        self.assign(s.target, elem(i), fr)
      try:
        self.exec_block(s.body, fr)
      except ContinueX:
        pass
      except BreakX:
        return
      for w in self.writes:
        if w[0] == "havoc":
          x = z3.Int("x!fr")
          out = len(w) > 2 and not set(w[2]) <= set(spec.comps) or len(w) < 3 and spec.comps != ALLKINDS
          self.prove(f"{where}: effect inside the loop frame", forall([x], Implies(And(x < a0, w[1](x)), z3.BoolVal(False) if out else mod(x))), kind="frame")
        else:
          self.prove(f"{where}: write inside the loop frame", mod(w[1]) if comp_of(w[0]) in spec.comps else w[1] >= a0, kind="frame")
      L = ctx(z3.simplify(i + 1))
      for nm, f in spec.inv(L):
        self.prove(f"{where}: invariant {nm} is preserved", f, kind="inv-step")
      raise Abort()
    finally:
      if saved is not None:
        saved.extend(self.writes)
      self.writes = saved

  def mentions_fresh(self, t, fresh0):
    st = [t]
    while st:
      e = st.pop()
      if z3.is_app(e):
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
          nm = e.decl().name()
          p = nm.rfind("!")
          if p >= 0 and nm[p + 1:].isdigit() and int(nm[p + 1:]) > fresh0:
            return True
        st.extend(e.children())
    return False

  def st_While(self, s, fr):
    # unroll while the test is decided
    env0 = dict(fr.env)
    snap_fresh = self.fresh_n
    t = self.eval(s.test, fr)
    t = self.truth(t)
    count = 0
    while t is True or t is False or z3.is_true(z3.simplify(t)) or z3.is_false(z3.simplify(t)):
      if t is False or (not isinstance(t, bool) and z3.is_false(z3.simplify(t))):
        self.exec_block(s.orelse, fr)
        return
      count += 1
      if count > 50:
        raise Unsupported("while loop")
      try:
        self.exec_block(s.body, fr)
      except ContinueX:
        pass
      except BreakX:
        return
      t = self.truth(self.eval(s.test, fr))
    names = assigned_names(s.body)
    carried = [x for x in names if x in fr.env]
    fresh0 = self.fresh_n + 1
    env1 = dict(fr.env)
    obl0 = self.obligations
    self.obligations = []

    def thunk():
      self.writes = []
      kind = "fall"
      try:
        self.exec_block(s.body, fr)
      except ContinueX:
        pass
      except (BreakX, ReturnX, Raised):
        kind = "exit"
      return kind, self.heap, list(self.writes), dict(fr.env)
    try:
      paths = self.sub_explore(thunk)
    finally:
      self.obligations = obl0
      fr.env = env1
    self.inv_loop(s, fr, z3.IntVal(0), None, None, None, fresh0, paths, carried, set(), test=s.test)
