"""Calls: binding, instantiation, builtins, contracts of callees."""
import ast
import z3
from .interp import *
from .heap import lower_of, older, LOWER, PARENT, set_bound
from .interp import Interp, CtxMgrCall, OpaqueMember, UNBOUND, tset, ordadd, peq, map_eq


class Star:
  """*seq at the end of an argument list whose length is symbolic."""

  def __init__(self, seq):
    self.seq = seq


def SymDict(content):
  return SymKw(content)


class Calls(Interp):
  contracts = {}
  ext_handlers = {}

  # ------------------------------------------------------------ call syntax
  def ev_Starred(self, n, fr):
    raise Unsupported("starred")

  def ev_NamedExpr(self, n, fr):
    v = self.eval(n.value, fr)
    self.set_name(fr, n.target.id, v)
    return v

  def ev_Call(self, n, fr):
    if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
      return self.make_super(fr)
    f = self.eval(n.func, fr)
    args, kwargs = self.call_args(n, fr)
    self.cur_loc = (fr.mod.path, n.lineno)
    return self.call(f, args, kwargs)

  def make_super(self, fr):
    f = fr
    while f is not None and f.owner is None:
      f = f.parent
    if f is None:
      raise Unsupported("super() outside a class")
    sv = SuperV(f.owner, f.self_)
    if isinstance(f.self_, ClassV):
      # classmethod or metaclass method
      if any(c is f.owner for c in f.self_.ci.mro()):
        sv.obj_cls = f.self_.ci
      else:
        sv.obj_cls = f.self_.ci.find_metaclass()
    elif isV(f.self_) and self.klass(f.self_) == "type":
      ub = self.class_upper(f.self_)
      sv.obj_cls = ub if any(c is f.owner for c in ub.mro()) else ub.find_metaclass()
    else:
      sv.obj_cls = self.klass(f.self_)
    return sv

  def call_args(self, n, fr):
    args, star = [], None
    for a in n.args:
      if isinstance(a, ast.Starred):
        s = self.to_tuple(self.eval(a.value, fr))
        if star is not None:
          star = self.t_cat(star, s)
        elif isinstance(s, tuple):
          args.extend(s)
        else:
          star = s
      else:
        v = self.eval(a, fr)
        if star is not None:
          star = self.t_cat(star, (v,))
        else:
          args.append(v)
    if star is not None:
      args.append(Star(star))
    kwargs = {}
    for k in n.keywords:
      if k.arg is None:
        m = self.eval(k.value, fr)
        c, _ = self.mapping_content(m)
        self.add_symkw(kwargs, c)
      else:
        if k.arg in kwargs:
          self.raise_exc("TypeError")
        kwargs[k.arg] = self.eval(k.value, fr)
    return args, kwargs

  def add_symkw(self, kwargs, c):
    c = z3.simplify(c)
    # peel concrete stores over EMPTY
    conc = {}
    t = c
    ok = True
    while t.decl().kind() == z3.Z3_OP_STORE:
      k, v = t.arg(1), t.arg(2)
      lk = self.lower(k)
      if not isinstance(lk, str):
        ok = False
        break
      conc.setdefault(lk, v)
      t = t.arg(0)
    if ok and t.eq(EMPTY):
      for k, v in conc.items():
        if v.eq(Abs):
          continue
        if k in kwargs:
          self.raise_exc("TypeError")
        kwargs[k] = self.lower(v)
      return
    if "**" in kwargs:
      raise Unsupported("two symbolic ** arguments")
    for k in kwargs:
      if self.branch(c[S(k)] != Abs):
        self.raise_exc("TypeError")
    kwargs["**"] = SymKw(c)

  def kw_content(self, kwargs):
    """contents of a dict made of all the keyword arguments."""
    c = kwargs["**"].content if "**" in kwargs else EMPTY
    for k, v in kwargs.items():
      if k != "**":
        c = z3.Store(c, S(k), self.lift(v))
    return c

  # ------------------------------------------------------------ dispatch
  def call(self, f, args, kwargs):
    if isinstance(f, PyFunc):
      return self.call_func(f, args, kwargs)
    if isinstance(f, Prim):
      return f.fn(self, args, kwargs)
    if isinstance(f, PartialV):
      kw = dict(f.kwargs)
      for k in kwargs:
        kw[k] = kwargs[k]
      return self.call(f.fn, list(f.args) + list(args), kw)
    if isinstance(f, ClassV):
      return self.instantiate(f, args, kwargs)
    if isinstance(f, ExtClass):
      return self.call_extclass(f.name, args, kwargs)
    if isinstance(f, ExtV):
      return self.call_ext(f.name, args, kwargs)
    if isinstance(f, BoundExt):
      return self.call_bound(f.obj, f.name, args, kwargs)
    if isinstance(f, OpaqueMember):
      return self.call_opaque_method(f.obj, f.name, args, kwargs)
    if isV(f):
      lo = self.lower(f)
      if not isV(lo):
        return self.call(lo, args, kwargs)
      k = self.klass(f)
      if isinstance(k, ClassInfo):
        m, owner = k.lookup("__call__")
        if m is not None:
          return self.call_func(self.method_val(m, owner, f), args, kwargs)
      if k == "type":
        ub = self.class_upper(f)
        return self.instantiate_sym(f, ub, args, kwargs)
      return self.call_opaque(f, args, kwargs)
    if isinstance(f, SuperV):
      raise Unsupported("call of super object")
    raise Unsupported(f"call of {f!r}")

  def call_method(self, obj, name, args=(), kwargs=None):
    return self.call(self._getattr(obj, name), list(args), kwargs or {})

  def call_method_raw(self, obj, name, args=(), kwargs=None):
    """special method lookup on the class."""
    k = self.klass(obj)
    m, owner = k.lookup(name)
    return self.call_func(self.method_val(m, owner, obj), list(args), kwargs or {})

  # user callables: deterministic, total functions of their arguments unless a
  # contract installs a different model
  opaque_call = None

  def call_opaque(self, f, args, kwargs):
    if self.opaque_call is not None:
      r = self.opaque_call(self, f, args, kwargs)
      if r is not NotImplemented:
        return r
    if not self.branch(callable_(f)):
      self.raise_exc("TypeError")
    ts = [self.lift(a) for a in args if not isinstance(a, Star)]
    if any(isinstance(a, Star) for a in args) or kwargs:
      st = [a.seq for a in args if isinstance(a, Star)]
      full = self.lift(self.t_cat(tuple(args[:-1]), st[0])) if st else mk(*ts)
      kd = self.alloc_dict(self.kw_content(kwargs))
      return self.lower(F("apply*", V, V, Map, V)(f, full, self.heap.D(kd.arg(0))))
    r = F(f"apply{len(ts)}", *([V] * (len(ts) + 1)), V)(f, *ts)
    self.assume(And(age(r) <= self.heap.alloc, r != Abs))
    self.assumptions.add("callables given by the caller are deterministic total functions without side effects")
    return self.lower(r)

  def call_opaque_method(self, obj, name, args, kwargs):
    h = self.ext_handlers.get("." + name)
    if h is not None:
      return h(self, [obj] + list(args), kwargs)
    return self.opaque_call_named("." + name, [obj] + list(args), kwargs)

  def opaque_call_named(self, name, args, kwargs):
    """external function: deterministic in its arguments, no effect on the heap."""
    self.externals.add(name)
    ts = []
    for a in args:
      if isinstance(a, Star):
        ts.append(self.lift(a.seq))
        name += "*"
      else:
        ts.append(self.val_of(a))
    ks = sorted(k for k in kwargs if k != "**")
    for k in ks:
      ts.append(self.val_of(kwargs[k]))
    nm = f"ext:{name}({len(args)}{''.join(',' + k for k in ks)})"
    if "**" in kwargs:
      r = F(nm + "**", *([V] * len(ts)), Map, V)(*ts, kwargs["**"].content)
    elif not ts:
      r = z3.Const(nm, V)
    else:
      r = F(nm, *([V] * len(ts)), V)(*ts)
    self.assume(age(r) <= self.heap.alloc)
    return self.lower(r)

  def val_of(self, a):
    """value of an argument for an uninterpreted external: containers by content."""
    if isV(a) and self.klass(a) == "list":
      return self.heap.L(self.did(a))
    if isV(a) and self.klass(a) == "dict":
      return F("asdict", Map, V)(self.heap.D(self.did(a)))
    if isinstance(a, tuple):
      return mk(*[self.val_of(x) for x in a])
    return self.lift(a)

  # ------------------------------------------------------------ functions
  def call_func(self, pf, args, kwargs):
    fi = pf.fi
    c = self.contracts.get(fi.full)
    if pf.frame is None and c is not None and not (self.top_call is fi) and fi.full not in self.call_hooks:
      return self.call_contract(c, pf, args, kwargs)
    self.top_call = None
    ca = self.call_hooks.get(fi.full)
    if ca is not None:
      r = ca(self, pf, args, kwargs)
      if r is not NotImplemented:
        return r
    decs = fi.decorators
    if any("contextmanager" in d for d in decs) and not isinstance(fi.node, ast.Lambda):
      return CtxMgrCall(pf, args, kwargs)
    return self.run_func(pf, args, kwargs)

  top_call = None
  call_hooks = {}
  max_depth = 40

  def run_func(self, pf, args, kwargs):
    fi = pf.fi
    self.call_depth += 1
    if self.call_depth > self.max_depth:
      raise Unsupported(f"recursion without contract in {fi.full}")
    self.inlined.add(fi.full)
    fr = self.bind_frame(pf, args, kwargs)
    loc = self.cur_loc
    try:
      if isinstance(fi.node, ast.Lambda):
        return self.eval(fi.node.body, fr)
      if fi.is_generator():
        fr.gen = True
        fr.env["$yield"] = ()
        try:
          self.exec_block(self.body_of(fi), fr)
        except ReturnX:
          pass
        return self.gen_result(fr.env["$yield"])
      try:
        self.exec_block(self.body_of(fi), fr)
      except ReturnX as r:
        return r.value
      return None
    finally:
      self.frames.remove(fr)
      self.call_depth -= 1
      self.cur_loc = loc

  def gen_result(self, seq):
    return seq

  def ev_Yield(self, n, fr):
    v = None if n.value is None else self.eval(n.value, fr)
    oy = getattr(fr, "on_yield", None)
    if oy is not None:
      return oy(v)
    fr.env["$yield"] = self.t_cat(fr.env["$yield"], (v,))
    return None

  def ev_YieldFrom(self, n, fr):
    v = self.to_tuple(self.eval(n.value, fr))
    fr.env["$yield"] = self.t_cat(fr.env["$yield"], v)
    return None

  def bind_frame(self, pf, args, kwargs):
    fi = pf.fi
    a = fi.node.args
    args = list(args)
    kwargs = dict(kwargs)
    if pf.bound is not None:
      args = list(pf.bound) + args
    fr = self.new_frame(fi, pf.frame, fi.mod)
    fr.owner = pf.owner
    star = None
    if args and isinstance(args[-1], Star):
      star = args.pop().seq
    env = fr.env
    pos = a.posonlyargs + a.args
    ponly = {p.arg for p in a.posonlyargs}
    defaults = {}
    if pf.defaults is not None:
      defaults = pf.defaults
    else:
      dn = a.defaults
      for p, d in zip(pos[len(pos) - len(dn):], dn):
        defaults[p.arg] = d
      for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
          defaults[p.arg] = d
    sym = kwargs.pop("**", None)

    def symtake(name):
      """value of name in the symbolic keyword arguments, or None."""
      nonlocal sym
      if sym is None:
        return False, None
      v = z3.simplify(sym.content[S(name)])
      if self.branch(v != Abs):
        sym = SymKw(z3.Store(sym.content, S(name), Abs))
        self.assume(age(v) <= self.heap.alloc)
        return True, self.lower(v)
      return False, None

    def default(name):
      d = defaults[name]
      if isinstance(d, ast.AST):
        return self.eval(d, Frame(None, None, fi.mod))
      return d

    for i, p in enumerate(pos):
      nm = p.arg
      if args:
        env[nm] = args.pop(0)
        if nm in kwargs and nm not in ponly:
          self.raise_exc("TypeError")
        continue
      if star is not None:
        if self.branch(self.iterm(self.t_len(star)) > 0):
          env[nm] = self.t_get(star, 0)
          n = self.iterm(self.t_len(star))
          star = tslice(self.lift(star), z3.IntVal(1), n)
          continue
        star = None
      if nm in kwargs and nm not in ponly:
        env[nm] = kwargs.pop(nm)
        continue
      ok, v = symtake(nm) if nm not in ponly else (False, None)
      if ok:
        env[nm] = v
      elif nm in defaults:
        env[nm] = default(nm)
      else:
        self.raise_exc("TypeError")
    if a.vararg is not None:
      v = tuple(args)
      if star is not None:
        v = self.t_cat(v, star) if v else star
      env[a.vararg.arg] = v
    elif args:
      self.raise_exc("TypeError")
    elif star is not None and self.branch(self.iterm(self.t_len(star)) > 0):
      self.raise_exc("TypeError")
    for p in a.kwonlyargs:
      nm = p.arg
      if nm in kwargs:
        env[nm] = kwargs.pop(nm)
        continue
      ok, v = symtake(nm)
      if ok:
        env[nm] = v
      elif nm in defaults:
        env[nm] = default(nm)
      else:
        self.raise_exc("TypeError")
    if a.kwarg is not None:
      if sym is not None:
        kwargs["**"] = sym
      env[a.kwarg.arg] = self.alloc_dict(self.kw_content(kwargs))
    else:
      if kwargs:
        self.raise_exc("TypeError")
      if sym is not None and self.branch(sym.content != EMPTY):
        self.raise_exc("TypeError")
    if pos:
      fr.self_ = env[pos[0].arg]
    return fr

  # ------------------------------------------------------------ contracts
  def call_contract(self, c, pf, args, kwargs):
    a = c.bind(self, pf, args, kwargs)
    self.used_contracts.add(c.target)
    self.last_call[c.target] = a
    for name, f in c.requires(self, a):
      self.prove(f"call {c.target}: requires {name}", f, kind="requires")
    due = False
    for exc, cond in c.raises(self, a):
      if exc.startswith("~"):
        if self.branch(cond):
          due = True
          if self.choose(2) == 0:
            self.raise_exc(exc[1:])
        continue
      if self.branch(cond):
        self.raise_exc(exc)
    if due:
      raise Abort()
    return c.effect(self, a)

  def fresh_alloc(self, name, a0):
    """a later value of the allocation counter."""
    a1 = self.fresh(name, Int)
    self.assume(a1 >= a0)
    lb = lower_of(a0)
    LOWER[a1.decl().name()] = lb
    PARENT[a1.decl().name()] = a0
    return a1

  def havoc_heap(self, tag, mod, kinds=("D", "L", "S", "O"), alloc=True):
    """objects satisfying mod get arbitrary contents; others keep theirs."""
    self.fresh_n += 1
    t = f"{tag}!{self.fresh_n}"
    a0 = self.heap.alloc
    a1 = a0
    if alloc:
      a1 = self.fresh_alloc("alloc", a0)
    keep = (lambda i: Not(mod(i)) if older(i, a0) else And(i < a0, Not(mod(i)))) if alloc else (lambda i: Not(mod(i)))
    if self.writes is not None:
      self.writes.append(("havoc", mod, tuple(kinds)))
    self.heap = self.heap.havoc(t, keep, a1, kinds)
    return a0, a1

  # ------------------------------------------------------------ instantiation
  def instantiate(self, cv, args, kwargs):
    ci = cv.ci
    meta = ci.find_metaclass()
    if meta is not None:
      m, owner = meta.lookup("__call__")
      if m is not None:
        return self.call_func(self.method_val(m, owner, cv), args, kwargs)
    return self.type_call(cv, args, kwargs)

  def instantiate_sym(self, cterm, ub, args, kwargs):
    """call of a symbolic class whose upper bound is ub."""
    if isinstance(ub, ClassInfo):
      meta = ub.find_metaclass()
      if meta is not None:
        m, owner = meta.lookup("__call__")
        if m is not None:
          return self.call_func(self.method_val(m, owner, cterm), args, kwargs)
      return self.type_call(cterm, args, kwargs)
    raise Unsupported("instantiation of an unknown class")

  def type_call(self, cls, args, kwargs):
    """type.__call__: __new__ then __init__."""
    if isV(cls):
      ci = self.class_upper(cls)
    else:
      ci = cls.ci
    if self.is_tuple_class(ci):
      # tuple subclasses: one iterable argument
      seq = self.to_tuple(args[0]) if args else ()
      code = self.ccode(ci) if not isV(cls) else V.cval(cls)
      r = tnew(code, self.lift(seq))
      self.hint(r, self.class_code_name(ci))
      self.assume(subc(code, self.ccode(ci)))
      return r
    obj = self.object_new(cls)
    self.run_init(obj, ci, cls, args, kwargs)
    return obj

  def object_new(self, cls):
    if isV(cls):
      ci = self.class_upper(cls)
      if ci is None:
        raise Unsupported("object.__new__ of an unknown class")
      r = self.alloc(V.cval(cls))
      self.assume(subc(V.cval(cls), self.ccode(ci)))
    else:
      ci = cls.ci
      r = self.alloc(self.ccode(ci))
    self.hint(r, self.class_code_name(ci))
    return r

  def run_init(self, obj, ci, cls, args, kwargs):
    m, owner = ci.lookup("__init__")
    if m is not None:
      self.call_func(self.method_val(m, owner, obj), args, kwargs)
      return
    if ci.is_dataclass():
      self.dataclass_init(obj, ci, args, kwargs)
      return
    if args or [k for k in kwargs if k != "**"]:
      self.raise_exc("TypeError")

  def dataclass_fields(self, ci):
    out = {}
    for c in reversed(ci.mro()):
      if isinstance(c, ClassInfo) and c.is_dataclass():
        for n in c.annotations:
          out[n] = (c, c.attrs.get(n))
    return out

  def dataclass_init(self, obj, ci, args, kwargs):
    args = list(args)
    kwargs = dict(kwargs)
    if any(isinstance(x, Star) for x in args):
      raise Unsupported("star args to a dataclass")
    for n, (c, dflt) in self.dataclass_fields(ci).items():
      if args:
        v = args.pop(0)
      elif n in kwargs:
        v = kwargs.pop(n)
      elif dflt is not None:
        v = self.eval(dflt, Frame(None, None, c.mod))
        if isinstance(v, tuple) and v and v[0] == "dataclass_factory":
          v = self.call(v[1], [], {})
      else:
        self.raise_exc("TypeError")
      self.setattr_(obj, n, v)
    if args or kwargs:
      self.raise_exc("TypeError")
    m, owner = ci.lookup("__post_init__")
    if m is not None:
      self.call_func(self.method_val(m, owner, obj), [], {})

  # ------------------------------------------------------------ external calls
  def call_ext(self, name, args, kwargs):
    h = self.ext_handlers.get(name)
    if h is not None:
      return h(self, args, kwargs)
    if name.startswith("builtins."):
      m = getattr(self, "bi_" + name[9:], None)
      if m is not None:
        return m(args, kwargs)
    m = getattr(self, "ex_" + name.replace(".", "_"), None)
    if m is not None:
      return m(args, kwargs)
    return self.opaque_call_named(name, args, kwargs)

  def call_extclass(self, name, args, kwargs):
    m = getattr(self, "cl_" + name, None)
    if m is not None:
      return m(args, kwargs)
    if name in BUILTIN_EXC:
      return ExcV(name, tuple(args))
    return self.opaque_call_named(name, args, kwargs)

  def ex_object___getattribute__(self, a, k):
    return self.obj_getattr(a[0], a[1])

  def ex_object___new__(self, a, k):
    return self.object_new(a[0])

  def ex_object___setattr__(self, a, k):
    return self.obj_setattr(a[0], a[1], a[2])

  def ex_object___delattr__(self, a, k):
    return self.obj_delattr(a[0], a[1])

  # -- builtins
  def bi_isinstance(self, a, k):
    return self.is_instance(a[0], a[1])

  def bi_issubclass(self, a, k):
    return subc(V.cval(self.lift(a[0])), V.cval(self.lift(a[1])))

  def bi_len(self, a, k):
    v = a[0]
    if isinstance(v, (tuple, str)):
      return len(v)
    kv = self.klass(v)
    if isinstance(v, DView):
      return dlen(self.heap.D(v.did))
    if isV(v):
      if kv == "tuple" or self.is_tuple_class(kv):
        return self.t_len(v)
      if kv == "list":
        return self.t_len(self.lower(self.heap.L(self.did(v))))
      if kv in ("dict", "mappingproxy"):
        c = self.heap.D(self.did(v))
        return self.dict_len(c)
      if isinstance(kv, ClassInfo):
        return self.call_method(v, "__len__")
      if kv == "str":
        return slen(v)
      return self.iterm(self.opaque_call_named("len", [v], {})) if kv is None else 0
    n, _ = self.iter_spec(v)
    return n

  def dict_len(self, c):
    c = z3.simplify(c)
    n, t = 0, c
    seen = set()
    while t.decl().kind() == z3.Z3_OP_STORE:
      k = self.lower(t.arg(1))
      if not isinstance(k, (str, int)):
        return dlen(c)
      if k not in seen:
        seen.add(k)
        if t.arg(2).eq(Abs):
          pass
        elif self.entails(t.arg(2) != Abs):
          n += 1
        else:
          return dlen(c)
      t = t.arg(0)
    return n if t.eq(EMPTY) else dlen(c)

  def cl_tuple(self, a, k):
    return self.to_tuple(a[0]) if a else ()

  def cl_list(self, a, k):
    return self.alloc_list(self.to_tuple(a[0]) if a else ())

  def cl_set(self, a, k):
    if not a:
      return self.alloc_set(NOSET)
    kv = self.klass(a[0])
    if kv == "set":
      return self.alloc_set(self.heap.S(self.did(a[0])))
    if self.is_mapping(a[0]):
      c, _ = self.mapping_content(a[0])
      s = self.fresh("keys", VSet)
      x = z3.Const("x!ks", V)
      self.assume(forall([x], s[x] == (c[x] != Abs), *([s[x], c[x]] if pat_ok(c) else [s[x]])))
      return self.alloc_set(s)
    return self.alloc_set(self.seq_set(self.to_tuple(a[0])))

  def seq_set(self, seq):
    if isinstance(seq, tuple):
      s = NOSET
      for e in seq:
        s = z3.Store(s, self.key(e), z3.BoolVal(True))
      return s
    s = self.fresh("set", VSet)
    x = z3.Const("x!sq", V)
    i = z3.Int("i!sq")
    w = self.fresh_fn("setw", V, Int)
    sv = self.lift(seq)
    self.assume(forall([i], Implies(And(0 <= i, i < tlen(sv)), s[tget(sv, i)]), tget(sv, i)))
    self.assume(forall([x], Implies(s[x], And(0 <= w(x), w(x) < tlen(sv), tget(sv, w(x)) == x)), s[x]))
    return s

  def is_mapping(self, v):
    k = self.klass(v)
    return k in ("dict", "mappingproxy", "Mapping") or (isinstance(k, ClassInfo) and "Mapping" in k.mro())

  def cl_dict(self, a, k):
    if a:
      if self.is_mapping(a[0]):
        c, did = self.mapping_content(a[0])
        o = self.heap.O(did) if did is not None else None
        if not k:
          return self.alloc_dict(c, o)
      else:
        r = self.dict_of_pairs(a[0])
        if not k:
          return r
        c = self.heap.D(r.arg(0))
      kc = self.kw_content(k)
      return self.alloc_dict(kc if c.eq(EMPTY) else over(c, kc))
    return self.alloc_dict(self.kw_content(k))

  def cl_str(self, a, k):
    return self.str_of(a[0]) if a else ""

  def cl_bool(self, a, k):
    return self.truth(a[0])

  def cl_int(self, a, k):
    v = a[0]
    if isinstance(v, int) or has_sort(v, Int):
      return v
    if isV(v) and self.klass(v) in ("int", "bool"):
      return self.as_int(v)
    r = self.opaque_call_named("int", [v], {})
    self.assume(V.is_IV(self.lift(r)))
    return self.lower(r)

  def cl_float(self, a, k):
    v = a[0]
    return float(v) if isinstance(v, (int, str)) else self.opaque_call_named("float", [v], {})

  def cl_type(self, a, k):
    return self.type_of(a[0])

  def cl_object(self, a, k):
    r = self.alloc(C("object"))
    return r

  def bi_type(self, a, k):
    return self.type_of(a[0])

  def bi_vars(self, a, k):
    v = a[0]
    if isV(v):
      nm = v.decl().name()
      return VD(v.arg(0)) if nm == "RV" else VD(V.rval(v))
    raise Unsupported("vars()")

  def bi_hasattr(self, a, k):
    try:
      self.getattr_(a[0], self.lower(a[1]) if isV(a[1]) else a[1])
      return True
    except Raised as e:
      if self.exc_matches(e.exc, "AttributeError"):
        return False
      raise

  def bi_getattr(self, a, k):
    if len(a) > 2:
      return self.getattr_(a[0], a[1], a[2], True)
    return self.getattr_(a[0], a[1])

  def bi_setattr(self, a, k):
    self.setattr_(a[0], a[1], a[2])

  def bi_delattr(self, a, k):
    self.delattr_(a[0], a[1])

  def bi_callable(self, a, k):
    v = a[0]
    if isinstance(v, (PyFunc, Prim, PartialV, ClassV, ExtClass, ExtV, BoundExt)):
      return True
    if not isV(v):
      return False
    kv = self.klass(v)
    if isinstance(kv, ClassInfo):
      if kv.lookup("__call__")[0] is not None:
        return True
      if self.is_tuple_class(kv):
        return False
    return callable_(v)

  def bi_iter(self, a, k):
    v = a[0]
    kv = self.klass(v)
    if isinstance(kv, ClassInfo) and kv.lookup("__iter__")[0] is not None:
      return self.call_method(v, "__iter__")
    return v if not isV(v) or kv != "dict" else DView("keys", self.did(v))

  def bi_range(self, a, k):
    if len(a) == 1:
      return RangeV(0, a[0])
    if len(a) == 2:
      return RangeV(a[0], a[1])
    raise Unsupported("range step")

  def bi_enumerate(self, a, k):
    return EnumV(a[0], a[1] if len(a) > 1 else k.get("start", 0))

  def bi_zip(self, a, k):
    if any(isinstance(x, Star) for x in a):
      raise Unsupported("zip(*)")
    return ZipV(list(a))

  def bi_map(self, a, k):
    return MapV(a[0], list(a[1:]))

  def bi_sorted(self, a, k):
    sv = SortedV(a[0], k.get("key"))
    sv.spec = self.sorted_spec(sv)      # sorted() reads its argument now
    return sv

  def bi_hash(self, a, k):
    v = a[0]
    kv = self.klass(v)
    if isinstance(kv, ClassInfo) and not self.is_tuple_class(kv):
      m, _ = kv.lookup("__hash__")
      if m is not None:
        return self.call_method(v, "__hash__")
    if kv == "int":
      return F("hash", V, Int)(self.lift(v))
    return F("hash", V, Int)(self.lift(v))

  def bi_id(self, a, k):
    return F("id", V, Int)(self.lift(a[0]))

  def bi_repr(self, a, k):
    return self.str_of(a[0], 114)

  def bi_print(self, a, k):
    return None

  def bi_min(self, a, k):
    if len(a) == 2 and self.is_num(a[0]) and self.is_num(a[1]):
      x, y = self.iterm(a[0]), self.iterm(a[1])
      return z3.simplify(If(x <= y, x, y))
    return self.opaque_call_named("min", a, k)

  def bi_max(self, a, k):
    if len(a) == 2 and self.is_num(a[0]) and self.is_num(a[1]):
      x, y = self.iterm(a[0]), self.iterm(a[1])
      return z3.simplify(If(x >= y, x, y))
    return self.opaque_call_named("max", a, k)

  def bi_any(self, a, k):
    return self.any_all(a[0], True)

  def bi_all(self, a, k):
    return self.any_all(a[0], False)

  def bi_sum(self, a, k):
    seq = self.to_tuple(a[0])
    if isinstance(seq, tuple):
      r = 0
      for x in seq:
        r = self.binop(ast.Add(), r, x)
      return r
    # sum(1 for ...) counts
    n = self.t_len(seq)
    i = z3.Int("i!sum")
    if self.entails(forall([i], Implies(And(0 <= i, i < n), tget(seq, i) == IV(z3.IntVal(1))), tget(seq, i))):
      return n
    return self.iterm(self.opaque_call_named("sum", [seq], {}))

  # -- functools / dataclasses / typing
  def ex_functools_partial(self, a, k):
    return PartialV(a[0], list(a[1:]), dict(k))

  def ex_functools_wraps(self, a, k):
    return Prim("wraps", lambda ex, aa, kk: aa[0])

  def ex_typing_cast(self, a, k):
    return a[1]

  def ex_dataclasses_field(self, a, k):
    if "default_factory" in k:
      return ("dataclass_factory", k["default_factory"])
    return k.get("default")

  def ex_dataclasses_is_dataclass(self, a, k):
    kv = self.klass(a[0])
    if isinstance(kv, ClassInfo) and kv.is_dataclass():
      return True
    return F("is_dataclass", Int, Bool)(clsof(self.lift(a[0])))

  def ex_contextlib_contextmanager(self, a, k):
    f = a[0]
    return Prim("contextmanager", lambda ex, aa, kk: CtxMgrCall(f, aa, kk))

  # -- methods of builtin values
  def call_bound(self, obj, name, args, kwargs):
    k = self.klass(obj)
    if k in ("dict", "mappingproxy", "Mapping") or (isinstance(k, ClassInfo) and "Mapping" in k.mro()):
      m = getattr(self, "dm_" + name, None)
      if m is not None:
        return m(obj, args, kwargs)
    if k == "list":
      m = getattr(self, "lm_" + name, None)
      if m is not None:
        return m(obj, args, kwargs)
    if k == "set":
      m = getattr(self, "sm_" + name, None)
      if m is not None:
        return m(obj, args, kwargs)
    if k == "str":
      m = getattr(self, "str_" + name, None)
      if m is not None:
        return m(obj, args, kwargs)
    if k == "tuple" or self.is_tuple_class(k):
      m = getattr(self, "tm_" + name, None)
      if m is not None:
        return m(obj, args, kwargs)
    raise Unsupported(f"method {name} of {k} ({str(obj)[:80]})")

  def dview(self, obj, kind):
    _, i = self.mapping_content(obj)
    return DView(kind, i)

  def dm_items(self, obj, a, k):
    return self.dview(obj, "items")

  def dm_keys(self, obj, a, k):
    return self.dview(obj, "keys")

  def dm_values(self, obj, a, k):
    return self.dview(obj, "values")

  def dm_get(self, obj, a, k):
    c, _ = self.mapping_content(obj)
    v = c[self.key(a[0])]
    if self.branch(v != Abs):
      self.assume(age(v) <= self.heap.alloc)
      return self.lower(z3.simplify(v))
    return a[1] if len(a) > 1 else k.get("default")

  def dm_pop(self, obj, a, k):
    i = self.did(obj)
    c = self.heap.D(i)
    kk = self.key(a[0])
    v = z3.simplify(c[kk])
    if self.branch(v != Abs):
      self.write("D", i, z3.Store(c, kk, Abs))
      self.write("O", i, self.fresh("ord", Int))
      self.assume(age(v) <= self.heap.alloc)
      return self.lower(v)
    if len(a) > 1:
      return a[1]
    self.raise_exc("KeyError")

  def dm_setdefault(self, obj, a, k):
    i = self.did(obj)
    kk = self.key(a[0])
    v = z3.simplify(self.heap.D(i)[kk])
    if self.branch(v != Abs):
      return self.lower(v)
    d = a[1] if len(a) > 1 else None
    self.dict_store(i, kk, self.lift(d))
    return d

  def dm_copy(self, obj, a, k):
    c, i = self.mapping_content(obj)
    return self.alloc_dict(c, self.heap.O(i) if i is not None else None)

  def dm_update(self, obj, a, k):
    i = self.did(obj)
    c = self.heap.D(i)
    if a:
      if self.is_mapping(a[0]):
        c2, _ = self.mapping_content(a[0])
      else:
        r = self.dict_of_pairs(a[0])
        c2 = self.heap.D(r.arg(0))
      c = c2 if c.eq(EMPTY) else over(c, c2)
    if k:
      if "**" in k:
        sc = k["**"].content
        c = sc if c.eq(EMPTY) else over(c, sc)
      for kk, v in k.items():
        if kk != "**":
          c = z3.Store(c, S(kk), self.lift(v))
    self.write("D", i, c)
    self.write("O", i, self.fresh("ord", Int))

  def dm_clear(self, obj, a, k):
    self.write("D", self.did(obj), EMPTY)

  def lm_append(self, obj, a, k):
    i = self.did(obj)
    self.write("L", i, self.lift(self.t_cat(self.lower(self.heap.L(i)), (a[0],))))

  def lm_extend(self, obj, a, k):
    i = self.did(obj)
    self.write("L", i, self.lift(self.t_cat(self.lower(self.heap.L(i)), self.to_tuple(a[0]))))

  def lm_pop(self, obj, a, k):
    i = self.did(obj)
    seq = self.lower(self.heap.L(i))
    n = self.t_len(seq)
    j = a[0] if a else -1
    if isinstance(seq, tuple) and isinstance(j, int):
      if not (-len(seq) <= j < len(seq)):
        self.raise_exc("IndexError")
      l = list(seq)
      v = l.pop(j)
      self.write("L", i, self.lift(tuple(l)))
      return v
    nt, jt = self.iterm(n), self.iterm(j)
    if not self.branch(And(-nt <= jt, jt < nt)):
      self.raise_exc("IndexError")
    jt = z3.simplify(If(jt < 0, jt + nt, jt))
    if not z3.is_int_value(jt) and z3.is_app(jt) and jt.decl().kind() == z3.Z3_OP_ITE:
      if self.entails(self.iterm(j) >= 0):
        jt = self.iterm(j)
      elif self.entails(self.iterm(j) < 0):
        jt = z3.simplify(self.iterm(j) + nt)
    s = self.lift(seq)
    v = self.t_get(s, jt)
    self.write("L", i, tcat(tslice(s, z3.IntVal(0), jt), tslice(s, jt + 1, nt)))
    return v

  def lm_insert(self, obj, a, k):
    i = self.did(obj)
    seq = self.lower(self.heap.L(i))
    j, x = a
    n = self.t_len(seq)
    if isinstance(seq, tuple) and isinstance(j, int):
      l = list(seq)
      l.insert(j, x)
      self.write("L", i, self.lift(tuple(l)))
      return
    nt, jt = self.iterm(n), self.iterm(j)
    if self.entails(And(0 <= jt, jt <= nt)):
      pass
    else:
      jt = If(jt < 0, If(jt + nt < 0, 0, jt + nt), If(jt > nt, nt, jt))
    s = self.lift(seq)
    self.write("L", i, tcat(tsnoc(tslice(s, z3.IntVal(0), jt), self.lift(x)), tslice(s, jt, nt)))

  def lm_index(self, obj, a, k):
    return self.seq_index(self.lower(self.heap.L(self.did(obj))), a[0])

  def tm_index(self, obj, a, k):
    return self.seq_index(obj, a[0])

  def seq_index(self, seq, x):
    s, xv = self.lift(seq), self.lift(x)
    if not self.branch(tin(xv, s)):
      self.raise_exc("ValueError")
    p = self.fresh("pos", Int)
    j = z3.Int("j!ix")
    self.assume(And(0 <= p, p < tlen(s), tget(s, p) == xv))
    self.assume(forall([j], Implies(And(0 <= j, j < p), tget(s, j) != xv), tget(s, j)))
    return p

  def sm_add(self, obj, a, k):
    i = self.did(obj)
    self.write("S", i, z3.Store(self.heap.S(i), self.key(a[0]), z3.BoolVal(True)))

  def sm_intersection(self, obj, a, k):
    return self.set_op(obj, a[0], lambda p, q: And(p, q))

  def sm_union(self, obj, a, k):
    return self.set_op(obj, a[0], lambda p, q: Or(p, q))

  def sm_difference(self, obj, a, k):
    return self.set_op(obj, a[0], lambda p, q: And(p, Not(q)))

  def set_op(self, x, y, op):
    s, t = self.heap.S(self.did(x)), self.heap.S(self.did(y))
    r = self.fresh("set", VSet)
    e = z3.Const("x!so", V)
    self.assume(forall([e], r[e] == op(s[e], t[e]), r[e]))
    self.assume(forall([e], r[e] == op(s[e], t[e]), s[e]))
    return self.alloc_set(r)

  def sm_isdisjoint(self, obj, a, k):
    r = self.sm_intersection(obj, a, k)
    return self.heap.S(r.arg(0)) == NOSET

  def str_join(self, obj, a, k):
    seq = self.to_tuple(a[0])
    if isinstance(obj, str) and isinstance(seq, tuple) and all(isinstance(x, str) for x in seq):
      return obj.join(seq)
    r = sjoin(self.lift(obj), self.lift(seq))
    self.assume(V.is_SV(r))
    self.hint(r, "str")
    return r

  def str_split(self, obj, a, k):
    if isinstance(obj, str) and all(isinstance(x, str) for x in a):
      return self.alloc_list(tuple(obj.split(*a)))
    r = ssplit(self.lift(obj), self.lift(a[0]) if a else NoneV)
    self.assume(And(V.is_TV(r), tlen(r) >= 1))
    self.hint(r, "tuple")
    i = z3.Int("i!sp")
    self.assume(forall([i], Implies(And(0 <= i, i < tlen(r)), V.is_SV(tget(r, i))), tget(r, i)))
    return self.alloc_list(r)

  def str_startswith(self, obj, a, k):
    if isinstance(obj, str) and isinstance(a[0], str):
      return obj.startswith(a[0])
    return sprefix(self.lift(a[0]), self.lift(obj))

  def str_encode(self, obj, a, k):
    return self.lower(F("str.encode", V, V)(self.lift(obj)))

  def str_format(self, obj, a, k):
    return self.str_of(obj, 114)
