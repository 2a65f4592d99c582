"""Symbolic interpretation of the Python subset used by /repo/nnx."""
import ast
import z3
from .core import *
from .core import Core


class _Unbound:
  pass


UNBOUND = _Unbound()


class CtxMgrCall:
  """call of a @contextlib.contextmanager function, run by `with`."""

  def __init__(self, fn, args, kwargs):
    self.fn, self.args, self.kwargs = fn, args, kwargs


class OpaqueMember:
  def __init__(self, obj, name):
    self.obj, self.name = obj, name


tset = F("tset", V, Int, V, V)
ordadd = F("ordadd", Int, V, Int)      # order token after appending a new key
clsattr = F("clsattr", Int, V, Bool)   # the class defines an attribute of that name


peqf = F("peq", V, V, Bool)            # CPython container equality of elements: identical or ==
meq = F("meq", Map, Map, V, Bool)      # equal dictionary contents, except at one key (Abs: none)
mwit = F("mwit", Map, Map, V, V)


def peq(x, y):
  return peqf(x, y)


def map_eq(ca, cb):
  return meq(ca, cb, Abs)


def interp_axioms():
  v, x = z3.Consts("v x", V)
  i, j = z3.Ints("i j")
  y, k = z3.Consts("y k", V)
  A, B = z3.Consts("A B", Map)
  w = mwit(A, B, x)
  diff = lambda z: Or((A[z] == Abs) != (B[z] == Abs), And(A[z] != Abs, Not(peqf(A[z], B[z]))))
  same = lambda z: And((A[z] == Abs) == (B[z] == Abs), Or(A[z] == Abs, peqf(A[z], B[z])))
  return [
      forall([v, y], peqf(v, y) == Or(v == y, And(Not(V.is_NoneV(v)), Not(V.is_NoneV(y)), Not(And(V.is_SV(v), V.is_SV(y))),
                                                  Not(And(V.is_CV(v), V.is_CV(y))), pyeq(v, y))), peqf(v, y)),
      forall([A, B, x, k], Implies(And(meq(A, B, x), k != x, k != Abs), same(k)), [meq(A, B, x), A[k]], [meq(A, B, x), B[k]]),
      forall([A, B, x], Or(meq(A, B, x), And(w != x, w != Abs, diff(w))), meq(A, B, x)),
      forall([v, i, x], Implies(And(0 <= i, i < tlen(v)), And(V.is_TV(tset(v, i, x)), tlen(tset(v, i, x)) == tlen(v))), tset(v, i, x)),
      forall([v, i, x, j], Implies(And(0 <= i, i < tlen(v)), tget(tset(v, i, x), j) == If(i == j, x, tget(v, j))), tget(tset(v, i, x), j)),
  ]



class Interp(Core):
  # ------------------------------------------------------------ frames/names
  def new_frame(self, fi, parent, mod):
    f = Frame(fi, parent, mod)
    self.frames.append(f)
    return f

  def lookup_name(self, fr, name):
    f = fr
    while f is not None:
      if name in f.env:
        v = f.env[name]
        if v is UNBOUND:
          self.raise_exc("UnboundLocalError")
        return v
      f = f.parent
    return self.global_name(fr.mod, name)

  def global_name(self, mod, name):
    key = f"{mod.name}.{name}"
    if key in self.global_over:
      return self.global_over[key](self)
    r = self.w.resolve(mod, name)
    if r is None:
      return self.builtin_name(name)
    return self.resolved(r, key)

  def resolved(self, r, key=""):
    if r[0] == "func":
      return PyFunc(r[1])
    if r[0] == "class":
      return ClassV(r[1])
    if r[0] == "mod":
      return ModV(r[1])
    if r[0] == "ext":
      return self.ext_value(r[1])
    if r[0] == "assign":
      k2 = key
      if k2 in self.global_over:
        return self.global_over[k2](self)
      node = r[2]
      if isinstance(node, ast.Constant):
        return node.value
      fr = Frame(None, None, r[1])
      d = self.w.resolve_dotted(r[1], node) if isinstance(node, (ast.Name, ast.Attribute)) else None
      if isinstance(node, ast.Subscript) or isinstance(node, (ast.Name, ast.Attribute)):
        d = self.w.resolve_dotted(r[1], node)
        if d and d[0] in ("class", "ext", "func"):
          return self.resolved(d)
      if isinstance(node, ast.Tuple):
        return self.eval(node, fr)
      # other module level values: one opaque constant per global
      return self.lower(z3.Const(f"global:{key}", V))
    raise Unsupported(f"global {r}")

  def ext_value(self, dotted):
    c = canon_ext(dotted)
    if c in self.ext_classes or c in EXT_BASES:
      return ExtClass(c)
    if dotted in ("typing.TYPE_CHECKING",):
      return False
    if dotted in self.ext_modules:
      return ModV(dotted)
    return ExtV(dotted)

  ext_classes = {"str", "int", "bool", "tuple", "dict", "list", "set", "type", "object", "float", "Mapping",
                 "Sequence_abc", "Iterable", "jax.Array", "numpy.ndarray"} | set(BUILTIN_EXC)
  ext_modules = {"jax", "jax.tree_util", "jax.numpy", "jax.random", "jax.lax", "jax.core", "jax.sharding", "numpy",
                 "typing", "dataclasses", "functools", "builtins", "hashlib", "jax.nn", "collections", "inspect",
                 "optax", "importlib", "flax", "flax.serialization", "contextlib", "copy", "types", "jax.experimental",
                 "jax.experimental.maps", "threading", "importlib.util"}

  def builtin_name(self, name):
    if name in self.ext_classes:
      return ExtClass(name)
    if name in BUILTIN_EXC:
      return ExtClass(name)
    if name == "Ellipsis":
      return Ellipsis
    return ExtV("builtins." + name)

  def raise_exc(self, cls, *args):
    raise Raised(ExcV(cls, args))

  def exc_matches(self, exc, cls):
    """exc.cls: str or ClassInfo; cls: ClassInfo or a name."""
    if isinstance(exc.cls, str) and exc.cls not in BUILTIN_EXC:
      cis = [c for c in self.w.class_by_full.values() if c.name == exc.cls]
      if len(cis) == 1:
        exc = ExcV(cis[0], exc.args)
    if isinstance(cls, str) and cls not in BUILTIN_EXC:
      cis = [c for c in self.w.class_by_full.values() if c.name == cls]
      if len(cis) == 1:
        cls = cis[0]
    if isinstance(cls, ClassInfo) or isinstance(exc.cls, ClassInfo):
      a = exc.cls
      if a is cls:
        return True
      if isinstance(a, ClassInfo):
        return any(x is cls or x == cls for x in a.mro()) or cls in ("Exception", "BaseException")
      return False
    st = [exc.cls]
    while st:
      x = st.pop()
      if x == cls:
        return True
      st.extend(BUILTIN_EXC.get(x, ["Exception"]))
    return False

  # ------------------------------------------------------------ statements
  def exec_block(self, stmts, fr):
    for s in stmts:
      self.exec_stmt(s, fr)

  def exec_stmt(self, s, fr):
    self.last_loc = (fr.mod.path, s.lineno)
    self.cur_loc = (fr.mod.path, s.lineno)
    m = getattr(self, "st_" + type(s).__name__, None)
    if m is None:
      raise Unsupported(f"statement {type(s).__name__} at {fr.mod.path}:{s.lineno}")
    m(s, fr)

  def st_Expr(self, s, fr):
    if isinstance(s.value, ast.Constant):
      return
    self.eval(s.value, fr)

  def st_Pass(self, s, fr):
    pass

  def st_Return(self, s, fr):
    raise ReturnX(None if s.value is None else self.eval(s.value, fr))

  def st_Break(self, s, fr):
    raise BreakX()

  def st_Continue(self, s, fr):
    raise ContinueX()

  def st_Global(self, s, fr):
    fr.globals.update(s.names)

  def st_Nonlocal(self, s, fr):
    fr.nonlocals.update(s.names)

  def st_Import(self, s, fr):
    for a in s.names:
      fr.env[a.asname or a.name.split(".")[0]] = ModV(a.name if a.asname else a.name.split(".")[0])

  def st_ImportFrom(self, s, fr):
    for a in s.names:
      fr.env[a.asname or a.name] = self.ext_value(f"{s.module}.{a.name}")

  def st_Assert(self, s, fr):
    if not self.branch(self.truth(self.eval(s.test, fr))):
      self.raise_exc("AssertionError")

  def st_If(self, s, fr):
    if self.branch(self.truth(self.eval(s.test, fr))):
      self.exec_block(s.body, fr)
    else:
      self.exec_block(s.orelse, fr)

  def st_FunctionDef(self, s, fr):
    fi = FuncInfo(fr.mod, s, (fr.fi.qual + ".<locals>." if fr.fi else "") + s.name, None)
    f = self.make_closure(fi, fr)
    f = self.apply_decorators(s.decorator_list, f, fr)
    self.set_name(fr, s.name, f)

  def make_closure(self, fi, fr):
    a = fi.node.args
    defaults = {}
    pos = a.posonlyargs + a.args
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
      defaults[p.arg] = self.eval(d, fr)
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
      if d is not None:
        defaults[p.arg] = self.eval(d, fr)
    pf = PyFunc(fi, fr, None, defaults)
    pf.owner = fr.owner
    return pf

  def apply_decorators(self, decs, f, fr):
    for d in reversed(decs):
      dv = self.eval(d, fr)
      f = self.call(dv, [f], {})
    return f

  def st_Raise(self, s, fr):
    if s.exc is None:
      raise Unsupported("bare raise")
    node = s.exc
    args = ()
    if isinstance(node, ast.Call):
      cv = self.eval(node.func, fr)
      # evaluate the message: it may itself raise
      for a in node.args:
        self.eval(a, fr)
    else:
      cv = self.eval(node, fr)
    if isinstance(cv, ClassV):
      raise Raised(ExcV(cv.ci, args))
    if isinstance(cv, (ExtClass, ExtV)):
      raise Raised(ExcV(cv.name.replace("builtins.", ""), args))
    raise Unsupported(f"raise {ast.unparse(s)}")

  def st_Assign(self, s, fr):
    v = self.eval(s.value, fr)
    for t in s.targets:
      self.assign(t, v, fr)

  def st_AnnAssign(self, s, fr):
    if s.value is not None:
      self.assign(s.target, self.eval(s.value, fr), fr)

  def st_AugAssign(self, s, fr):
    t = s.target
    if isinstance(t, ast.Name):
      cur = self.lookup_name(fr, t.id)
      r = self.binop(s.op, cur, self.eval(s.value, fr), inplace=True)
      if fr is not None and t.id in fr.globals:
        self.global_write(fr.mod, t.id, r)
      else:
        self.set_name(fr, t.id, r)
    elif isinstance(t, ast.Attribute):
      obj = self.eval(t.value, fr)
      cur = self.getattr_(obj, t.attr)
      r = self.binop(s.op, cur, self.eval(s.value, fr), inplace=True)
      self.setattr_(obj, t.attr, r)
    elif isinstance(t, ast.Subscript):
      obj = self.eval(t.value, fr)
      k = self.eval(t.slice, fr)
      r = self.binop(s.op, self.getitem(obj, k), self.eval(s.value, fr), inplace=True)
      self.setitem(obj, k, r)
    else:
      raise Unsupported("augassign")

  def global_write(self, mod, name, v):
    raise Unsupported(f"write to global {name}")

  def set_name(self, fr, name, v):
    if name in fr.globals:
      return self.global_write(fr.mod, name, v)
    if name in fr.nonlocals:
      f = fr.parent
      while f is not None:
        if name in f.env:
          f.env[name] = v
          return
        f = f.parent
    fr.env[name] = v

  def assign(self, t, v, fr):
    if isinstance(t, ast.Name):
      self.set_name(fr, t.id, v)
    elif isinstance(t, ast.Attribute):
      self.setattr_(self.eval(t.value, fr), t.attr, v)
    elif isinstance(t, ast.Subscript):
      obj = self.eval(t.value, fr)
      self.setitem(obj, self.eval(t.slice, fr), v)
    elif isinstance(t, (ast.Tuple, ast.List)):
      self.unpack(t.elts, v, fr)
    else:
      raise Unsupported(f"assign to {ast.unparse(t)}")

  def unpack(self, elts, v, fr):
    seq = self.to_tuple(v)
    star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
    n = self.t_len(seq)
    if not star:
      if isinstance(n, int):
        if n != len(elts):
          self.raise_exc("ValueError")
      elif not self.branch(n == len(elts)):
        self.raise_exc("ValueError")
      for i, e in enumerate(elts):
        self.assign(e, self.t_get(seq, i), fr)
      return
    si = star[0]
    after = len(elts) - si - 1
    if isinstance(n, int):
      if n < len(elts) - 1:
        self.raise_exc("ValueError")
      if isinstance(seq, tuple):
        for i in range(si):
          self.assign(elts[i], seq[i], fr)
        self.assign(elts[si].value, self.alloc_list(seq[si:n - after]), fr)
        for j in range(after):
          self.assign(elts[si + 1 + j], seq[n - after + j], fr)
        return
    if not self.branch(self.iterm(n) >= len(elts) - 1):
      self.raise_exc("ValueError")
    sv = self.lift(seq)
    for i in range(si):
      self.assign(elts[i], self.t_get(sv, i), fr)
    mid = tslice(sv, z3.IntVal(si), n - after)
    self.assign(elts[si].value, self.alloc_list(mid), fr)
    for j in range(after):
      self.assign(elts[si + 1 + j], self.t_get(sv, z3.simplify(n - after + j)), fr)

  def st_Delete(self, s, fr):
    for t in s.targets:
      if isinstance(t, ast.Name):
        fr.env.pop(t.id, None)
      elif isinstance(t, ast.Subscript):
        self.delitem(self.eval(t.value, fr), self.eval(t.slice, fr))
      elif isinstance(t, ast.Attribute):
        self.delattr_(self.eval(t.value, fr), t.attr)
      else:
        raise Unsupported("del")

  def st_Try(self, s, fr):
    try:
      try:
        self.exec_block(s.body, fr)
      except Raised as e:
        for h in s.handlers:
          ok = True
          if h.type is not None:
            types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            ok = False
            for t in types:
              tv = self.eval(t, fr)
              nm = tv.ci if isinstance(tv, ClassV) else tv.name.replace("builtins.", "")
              if self.exc_matches(e.exc, nm):
                ok = True
          if ok:
            if h.name:
              fr.env[h.name] = e.exc
            self.exec_block(h.body, fr)
            break
        else:
          raise
      else:
        self.exec_block(s.orelse, fr)
    except (Raised, ReturnX, BreakX, ContinueX):
      self.exec_block(s.finalbody, fr)
      raise
    self.exec_block(s.finalbody, fr)

  def st_With(self, s, fr):
    self.with_items(s.items, s.body, fr)

  def with_items(self, items, body, fr):
    if not items:
      self.exec_block(body, fr)
      return
    it = items[0]
    cm = self.eval(it.context_expr, fr)
    if isinstance(cm, CtxMgrCall):
      pending = []

      def on_yield(val):
        if it.optional_vars is not None:
          self.assign(it.optional_vars, val, fr)
        try:
          self.with_items(items[1:], body, fr)
        except (ReturnX, BreakX, ContinueX) as e:
          pending.append(e)
        return None
      self.run_generator_cm(cm, on_yield)
      if pending:
        raise pending[0]
      return
    if isV(cm) or isinstance(cm, ExtV):
      # a library context manager (a lock): assumed to have no effect of its own
      # and to let exceptions through
      k = self.klass(cm)
      if isinstance(k, ClassInfo) and k.lookup("__enter__")[0] is not None:
        v = self.call_method(cm, "__enter__", [])
        if it.optional_vars is not None:
          self.assign(it.optional_vars, v, fr)
        try:
          self.with_items(items[1:], body, fr)
        except Raised as e:
          if self.branch(self.truth(self.call_method(cm, "__exit__", [ClassV(e.exc.cls) if isinstance(e.exc.cls, ClassInfo) else ExtClass(str(e.exc.cls)), e.exc, None]))):
            return
          raise
        except (ReturnX, BreakX, ContinueX):
          self.call_method(cm, "__exit__", [None, None, None])
          raise
        self.call_method(cm, "__exit__", [None, None, None])
        return
      if self.with_hook is None:
        self.externals.add("context manager " + ast.unparse(it.context_expr))
      else:
        self.with_hook(self, cm, "enter")
      try:
        self.with_items(items[1:], body, fr)
      finally:
        if self.with_hook is not None:
          self.with_hook(self, cm, "exit")
      return
    raise Unsupported(f"with {ast.unparse(it.context_expr)}")

  with_hook = None

  def run_generator_cm(self, cm, on_yield):
    fi = cm.fn.fi
    fr2 = self.bind_frame(cm.fn, cm.args, cm.kwargs)
    fr2.on_yield = on_yield
    try:
      self.exec_block(self.body_of(fi), fr2)
    except ReturnX:
      pass

  def body_of(self, fi):
    from .world import strip_type_checking
    return fi.node.body

  # ------------------------------------------------------------ expressions
  def eval(self, n, fr):
    m = getattr(self, "ev_" + type(n).__name__, None)
    if m is None:
      raise Unsupported(f"expression {type(n).__name__}: {ast.unparse(n)}")
    return m(n, fr)

  def ev_Constant(self, n, fr):
    return n.value

  def ev_Name(self, n, fr):
    return self.lookup_name(fr, n.id)

  def ev_Tuple(self, n, fr):
    return self.seq_display(n.elts, fr)

  def seq_display(self, elts, fr):
    parts, cur = [], []
    for e in elts:
      if isinstance(e, ast.Starred):
        v = self.to_tuple(self.eval(e.value, fr))
        if isinstance(v, tuple):
          cur.extend(v)
        else:
          if cur:
            parts.append(tuple(cur))
            cur = []
          parts.append(v)
      else:
        cur.append(self.eval(e, fr))
    if not parts:
      return tuple(cur)
    if cur:
      parts.append(tuple(cur))
    r = parts[0]
    for p in parts[1:]:
      r = self.t_cat(r, p)
    return r

  def t_cat(self, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
      return a + b
    if isinstance(b, tuple) and len(b) == 0:
      return a
    if isinstance(a, tuple) and len(a) == 0:
      return b
    if isinstance(b, tuple) and len(b) <= 3 and not isinstance(a, tuple):
      r = a
      for x in b:
        r = tsnoc(r, self.lift(x))
      return r
    return tcat(self.lift(a), self.lift(b))

  def ev_List(self, n, fr):
    return self.alloc_list(self.seq_display(n.elts, fr))

  def ev_Set(self, n, fr):
    c = NOSET
    for e in n.elts:
      c = z3.Store(c, self.key(self.eval(e, fr)), z3.BoolVal(True))
    return self.alloc_set(c)

  def ev_Dict(self, n, fr):
    c = EMPTY
    order = None
    for k, v in zip(n.keys, n.values):
      if k is None:
        m = self.eval(v, fr)
        mc, _ = self.mapping_content(m)
        c = mc if z3.is_const_array(c) else over(c, mc)
      else:
        kv = self.eval(k, fr)
        vv = self.eval(v, fr)
        c = z3.Store(c, self.key(kv), self.lift(vv))
    return self.alloc_dict(c)

  def ev_JoinedStr(self, n, fr):
    parts = []
    for v in n.values:
      if isinstance(v, ast.Constant):
        parts.append(v.value)
      else:
        x = self.eval(v.value, fr)
        if v.format_spec is not None:
          spec = self.eval(v.format_spec, fr)
          if not (isinstance(x, (int, float, str)) and spec == ""):
            if isinstance(x, (int, float)):
              parts.append(S("<fmt>"))
              continue
            # object.__format__ rejects any non-empty format spec (TypeError /
            # ValueError): the f-string does not complete normally
            self.raise_exc("ValueError")
        if isinstance(x, str) and v.conversion == -1:
          parts.append(x)
        elif isinstance(x, int) and not isinstance(x, bool) and v.conversion in (-1, 114, 115):
          parts.append(str(x))
        else:
          parts.append(self.str_of(x, v.conversion))
    if all(isinstance(p, str) for p in parts):
      return "".join(parts)
    r = None
    for p in parts:
      p = self.lift(p)
      r = p if r is None else sconcat(r, p)
    self.assume(V.is_SV(r))
    self.hint(r, "str")
    return r

  def str_of(self, x, conv=-1):
    try:
      t = self.lift(x)
    except Unsupported:
      t = z3.Const("text", V)
    k = self.klass(x) if not isinstance(x, (ExcV, DView)) else None
    if k == "str" and conv == -1:
      return t
    r = sstr(t)
    self.assume(V.is_SV(r))
    self.hint(r, "str")
    return r

  def ev_Lambda(self, n, fr):
    fi = FuncInfo(fr.mod, n, (fr.fi.qual + "." if fr.fi else "") + "<lambda>", None)
    return self.make_closure(fi, fr)

  def ev_IfExp(self, n, fr):
    if self.branch(self.truth(self.eval(n.test, fr))):
      return self.eval(n.body, fr)
    return self.eval(n.orelse, fr)

  def ev_BoolOp(self, n, fr):
    isand = isinstance(n.op, ast.And)
    for i, e in enumerate(n.values):
      v = self.eval(e, fr)
      if i == len(n.values) - 1:
        return v
      t = self.truth(v)
      if isand:
        if not self.branch(t):
          return False if has_sort(v, Bool) else v
      else:
        if self.branch(t):
          return True if has_sort(v, Bool) else v

  def ev_UnaryOp(self, n, fr):
    v = self.eval(n.operand, fr)
    if isinstance(n.op, ast.Not):
      t = self.truth(v)
      return (not t) if isinstance(t, bool) else Not(t)
    if isinstance(n.op, ast.USub):
      if isinstance(v, (int, float)):
        return -v
      return -self.as_int(v)
    raise Unsupported("unary")

  def ev_BinOp(self, n, fr):
    return self.binop(n.op, self.eval(n.left, fr), self.eval(n.right, fr))

  DUNDER = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.BitOr: "__or__",
            ast.BitAnd: "__and__", ast.Div: "__truediv__", ast.FloorDiv: "__floordiv__", ast.Mod: "__mod__",
            ast.Pow: "__pow__", ast.MatMult: "__matmul__"}

  def is_num(self, v):
    return (isinstance(v, (int, float)) or has_sort(v, Int)) or (isV(v) and self.klass(v) in ("int", "bool"))

  def binop(self, op, a, b, inplace=False):
    ka, kb = self.klass(a), self.klass(b)
    if isinstance(ka, ClassInfo) and not self.is_tuple_class(ka):
      m, _ = ka.lookup(self.DUNDER[type(op)])
      if m is not None:
        return self.call_method(a, m.name, [b])
    if isinstance(op, ast.Add):
      if ka == "tuple" or self.is_tuple_class(ka):
        if kb == "tuple" or self.is_tuple_class(kb):
          return self.t_cat(a, b)
        self.raise_exc("TypeError")
      if ka == "str" and kb == "str":
        if isinstance(a, str) and isinstance(b, str):
          return a + b
        r = sconcat(self.lift(a), self.lift(b))
        self.assume(V.is_SV(r))
        self.hint(r, "str")
        return r
      if ka == "list":
        bl = self.to_tuple(b)
        al = self.lower(self.heap.L(self.did(a)))
        r = self.t_cat(al if isinstance(al, tuple) else al, bl)
        if inplace:
          self.write("L", self.did(a), self.lift(r))
          return a
        return self.alloc_list(r)
    if self.is_num(a) and self.is_num(b):
      if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        import operator
        f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
             ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod}.get(type(op))
        if f:
          return f(a, b)
      if not isinstance(a, float) and not isinstance(b, float):
        x, y = self.iterm(a), self.iterm(b)
        if isinstance(op, ast.Add):
          return z3.simplify(x + y)
        if isinstance(op, ast.Sub):
          return z3.simplify(x - y)
        if isinstance(op, ast.Mult):
          return z3.simplify(x * y)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
          # z3 div/mod agree with Python's floor division for positive divisors
          if self.branch(y > 0):
            return x / y if isinstance(op, ast.FloorDiv) else x % y
          if self.branch(y == 0):
            self.raise_exc("ZeroDivisionError")
          q, r = self.fresh("q", Int), self.fresh("r", Int)
          self.assume(And(x == q * y + r, r <= 0, r > y))
          return q if isinstance(op, ast.FloorDiv) else r
    if isinstance(op, ast.Mult):
      for s, n in ((a, b), (b, a)):
        ks = self.klass(s)
        if ks in ("tuple", "list") and self.is_num(n):
          seq = s if ks == "tuple" else self.lower(self.heap.L(self.did(s)))
          if isinstance(seq, tuple) and isinstance(n, int):
            r = seq * n
          elif isinstance(seq, tuple) and len(seq) == 1:
            ni = self.iterm(n)
            ni = z3.simplify(If(ni < 0, 0, ni))
            r = trep(self.lift(seq[0]), ni)
          else:
            raise Unsupported("sequence repetition")
          return r if ks == "tuple" else self.alloc_list(r)
    if isinstance(op, ast.Sub) and ka == "set":
      i = self.did(a)
      x = z3.Const("x!sd", V)
      other = self.heap.S(self.did(b))
      r = self.fresh("setdiff", VSet)
      mine = self.heap.S(i)
      self.assume(forall([x], r[x] == And(mine[x], Not(other[x])), *([r[x], mine[x]] if pat_ok(mine) else [r[x]])))
      return self.alloc_set(r)
    # opaque operands (arrays, floats): deterministic uninterpreted operation
    nm = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.BitOr: "or", ast.BitAnd: "and",
          ast.FloorDiv: "fdiv", ast.Mod: "mod", ast.Pow: "pow", ast.MatMult: "matmul"}[type(op)]
    return self.opaque_op("op." + nm, [a, b])

  def opaque_op(self, name, args):
    ts = [self.lift(a) for a in args]
    self.externals.add(name)
    f = F(name, *([V] * len(ts)), V)
    r = f(*ts)
    self.assume(age(r) <= self.heap.alloc)
    return r

  def ev_Compare(self, n, fr):
    left = self.eval(n.left, fr)
    res = []
    for op, rn in zip(n.ops, n.comparators):
      right = self.eval(rn, fr)
      c = self.compare(op, left, right)
      if len(n.ops) == 1:
        return c
      c = self.truth(c)
      if c is False:
        return False
      res.append(c)
      left = right
    res = [r for r in res if r is not True]
    return True if not res else And(*res)

  def compare(self, op, a, b):
    if isinstance(op, (ast.Is, ast.IsNot)):
      r = self.identical(a, b)
      if isinstance(op, ast.IsNot):
        r = (not r) if isinstance(r, bool) else Not(r)
      return r
    if isinstance(op, (ast.Eq, ast.NotEq)):
      if isinstance(op, ast.NotEq):
        r = self.py_eq(a, b)
        return (not r) if isinstance(r, bool) else Not(r)
      return self.py_eq(a, b)
    if isinstance(op, (ast.In, ast.NotIn)):
      r = self.contains(b, a)
      if isinstance(op, ast.NotIn):
        r = (not r) if isinstance(r, bool) else Not(r)
      return r
    if self.is_num(a) and self.is_num(b):
      if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
      x, y = self.iterm(a), self.iterm(b)
      return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y,
              ast.GtE: lambda: x >= y}[type(op)]()
    if self.klass(a) == "str" and self.klass(b) == "str":
      x, y = self.lift(a), self.lift(b)
      return {ast.Lt: lambda: slt(x, y), ast.Gt: lambda: slt(y, x), ast.LtE: lambda: Not(slt(y, x)),
              ast.GtE: lambda: Not(slt(x, y))}[type(op)]()
    if isV(a) or isV(b):
      # only integers can be ordered here otherwise it is opaque
      ka, kb = self.klass(a), self.klass(b)
      if (ka in ("int", None)) and (kb in ("int", None)) and (ka == "int" or kb == "int" or self.is_num(a) or self.is_num(b)):
        x, y = self.iterm(a), self.iterm(b)
        ok = And(V.is_IV(self.lift(a)), V.is_IV(self.lift(b)))
        if self.entails(ok):
          return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y,
                  ast.GtE: lambda: x >= y}[type(op)]()
      nm = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}[type(op)]
      return self.opaque_op("op." + nm, [a, b])
    raise Unsupported("ordering")

  def identical(self, a, b):
    if a is b:
      return True
    conc = (type(None), bool, type(Ellipsis))
    if isinstance(a, conc) and isinstance(b, conc):
      return a is b
    if isinstance(a, (ClassV, ExtClass)) and isinstance(b, (ClassV, ExtClass)):
      return a == b
    try:
      x, y = self.lift(a), self.lift(b)
    except Unsupported:
      return False
    r = z3.simplify(x == y)
    return True if z3.is_true(r) else False if z3.is_false(r) else r

  def py_eq(self, a, b):
    ka, kb = self.klass(a), self.klass(b)
    for x, y, k in ((a, b, ka), (b, a, kb)):
      if isinstance(k, ClassInfo) and not self.is_tuple_class(k):
        m, _ = k.lookup("__eq__")
        if m is not None:
          return self.truth(self.call_method(x, "__eq__", [y]))
        if "Mapping" in k.mro():
          return self.mapping_eq(x, y)
    prim = ("NoneType", "bool", "int", "str", "ellipsis", "type", "function")
    if (isinstance(a, (int, str, bool, type(None), type(Ellipsis))) and
        isinstance(b, (int, str, bool, type(None), type(Ellipsis)))):
      return a == b
    if ka in ("bool", "int") and kb in ("bool", "int"):
      return self.iterm(a) == self.iterm(b)
    if ka in prim or kb in prim:
      # identity-like equality: fine unless the other side is opaque
      for x, k in ((a, ka), (b, kb)):
        if k is None or k in ("float", "external") or (isinstance(k, str) and "." in k):
          if not (ka in ("NoneType", "ellipsis") or kb in ("NoneType", "ellipsis")):
            x, y = self.lift(a), self.lift(b)
            r = z3.simplify(x == y)
            if z3.is_true(r):
              return True
            return Or(x == y, And(Or(V.is_XV(x), V.is_XV(y), V.is_RV(x), V.is_RV(y)), pyeq(x, y)))
      x, y = self.lift(a), self.lift(b)
      r = z3.simplify(x == y)
      return True if z3.is_true(r) else False if z3.is_false(r) else r
    if ka == "dict" and kb == "dict":
      return self.mapping_eq(a, b)
    if (ka == "tuple" or self.is_tuple_class(ka)) and (kb == "tuple" or self.is_tuple_class(kb)):
      if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
          return False
        rs = []
        for x, y in zip(a, b):
          r = self.py_eq(x, y)
          if r is False:
            return False
          if r is not True:
            rs.append(r)
        return True if not rs else And(*rs)
      x, y = self.lift(a), self.lift(b)
      return self.veq(x, y)
    x, y = self.lift(a), self.lift(b)
    return self.veq(x, y)

  def veq(self, x, y):
    """== of two V terms of unknown kind (identity or opaque equality)."""
    r = z3.simplify(x == y)
    if z3.is_true(r):
      return True
    return peq(x, y)

  def mapping_eq(self, a, b):
    ca, _ = self.mapping_content(a)
    cb, _ = self.mapping_content(b)
    return map_eq(ca, cb)

  def contains(self, cont, x):
    k = self.klass(cont)
    if isinstance(cont, tuple):
      rs = []
      for e in cont:
        r = self.py_eq(e, x)
        if r is True:
          return True
        if r is not False:
          rs.append(r)
      return False if not rs else Or(*rs)
    if isinstance(k, ClassInfo) and not self.is_tuple_class(k):
      m, _ = k.lookup("__contains__")
      if m is not None:
        return self.truth(self.call_method(cont, "__contains__", [x]))
      if "Mapping" in k.mro():
        c, _ = self.mapping_content(cont)
        return c[self.key(x)] != Abs
    if isinstance(cont, DView):
      if cont.kind == "keys":
        return self.heap.D(cont.did)[self.key(x)] != Abs
    if k == "dict" or k == "mappingproxy":
      return self.heap.D(self.did(cont))[self.key(x)] != Abs
    if k == "set":
      return self.heap.S(self.did(cont))[self.key(x)]
    if k == "list":
      return self.contains_seq(self.lower(self.heap.L(self.did(cont))), x)
    if k == "tuple" or self.is_tuple_class(k):
      return self.contains_seq(cont, x)
    if k == "str":
      return shas(self.lift(x), self.lift(cont))
    if isV(cont):
      return self.truth(self.opaque_op("op.in", [x, cont]))
    raise Unsupported(f"in {cont!r}")

  def contains_seq(self, seq, x):
    if isinstance(seq, tuple):
      return self.contains(seq, x)
    return tin(self.lift(x), seq)

  # ------------------------------------------------------------ keys/mappings
  def key(self, v):
    k = self.klass(v)
    if isinstance(k, ClassInfo) and k.full == "nnx.ids.UUID":
      return ukey(self.iterm(self.getattr_(v, "id")))
    return self.lift(v)

  def mapping_content(self, m):
    """(content, id-or-None) of a mapping value."""
    k = self.klass(m)
    if k in ("dict", "mappingproxy"):
      i = self.did(m)
      return self.heap.D(i), i
    if isinstance(k, ClassInfo) and k.full == "nnx.state.State":
      inner = self.obj_getattr(m, "_mapping")
      i = self.did(inner)
      return self.heap.D(i), i
    if isV(m) and k == "Mapping":
      # an arbitrary mapping object: its contents
      i = self.did(m)
      return self.heap.D(i), i
    raise Unsupported(f"mapping expected, got {m!r} ({k})")

  # ------------------------------------------------------------ subscripts
  def ev_Subscript(self, n, fr):
    v = self.eval(n.value, fr)
    if isinstance(v, (ClassV, ExtClass, ExtV)) and not isV(v):
      return v  # generic alias
    if isinstance(n.slice, ast.Slice):
      lo = self.eval(n.slice.lower, fr) if n.slice.lower else None
      hi = self.eval(n.slice.upper, fr) if n.slice.upper else None
      if n.slice.step is not None:
        raise Unsupported("slice step")
      return self.getslice(v, lo, hi)
    return self.getitem(v, self.eval(n.slice, fr))

  def getslice(self, v, lo, hi):
    k = self.klass(v)
    if k == "list":
      c = self.lower(self.heap.L(self.did(v)))
      if isV(c):
        self.hint(c, "tuple")
      return self.alloc_list(self.getslice(c, lo, hi))
    if k == "tuple" or self.is_tuple_class(k):
      if isinstance(v, tuple) and (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
        return v[lo:hi]
      n = self.iterm(self.t_len(v))

      def norm(x, d):
        if x is None:
          return d
        x = self.iterm(x)
        x = If(x < 0, If(x + n < 0, 0, x + n), If(x > n, n, x))
        return z3.simplify(x)
      a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
      b = z3.simplify(If(b < a, a, b))
      r = tslice(self.lift(v), a, b)
      self.hint(r, "tuple")
      return r
    if isV(v):
      return self.opaque_op("op.slice", [v, NoneV if lo is None else lo, NoneV if hi is None else hi])
    raise Unsupported("slice")

  def getitem(self, v, k):
    kv = self.klass(v)
    if isinstance(kv, ClassInfo) and not self.is_tuple_class(kv):
      m, _ = kv.lookup("__getitem__")
      if m is not None:
        return self.call_method(v, "__getitem__", [k])
    if kv == "dict" or kv == "mappingproxy" or kv == "Mapping":
      c = self.heap.D(self.did(v))
      r = z3.simplify(c[self.key(k)])
      if not self.branch(r != Abs):
        self.raise_exc("KeyError")
      self.assume(age(r) <= self.heap.alloc)
      return self.lower(r)
    seq = None
    if kv == "tuple" or self.is_tuple_class(kv):
      seq = v
    elif kv == "list":
      seq = self.lower(self.heap.L(self.did(v)))
    if seq is not None:
      n = self.t_len(seq)
      i = self.as_int(k)
      if isinstance(i, int) and isinstance(n, int):
        if not (-n <= i < n):
          self.raise_exc("IndexError")
        return self.t_get(seq, i % n if n else 0)
      it, nt = self.iterm(i), self.iterm(n)
      if not self.branch(And(-nt <= it, it < nt)):
        self.raise_exc("IndexError")
      if self.branch(it < 0):
        it = z3.simplify(it + nt)
        if z3.is_int_value(it):
          it = it.as_long()
        return self.t_get(seq, it)
      return self.t_get(seq, i if isinstance(i, int) else it)
    if isV(v):
      return self.opaque_op("op.getitem", [v, k])
    raise Unsupported(f"getitem {v!r}")

  def setitem(self, v, k, x):
    kv = self.klass(v)
    if isinstance(kv, ClassInfo) and not self.is_tuple_class(kv):
      m, _ = kv.lookup("__setitem__")
      if m is not None:
        self.call_method(v, "__setitem__", [k, x])
        return
    if kv == "dict":
      self.dict_store(self.did(v), self.key(k), self.lift(x))
      return
    if kv == "list":
      i = self.did(v)
      seq = self.lower(self.heap.L(i))
      n = self.t_len(seq)
      j = self.as_int(k)
      if isinstance(seq, tuple) and isinstance(j, int):
        if not (-len(seq) <= j < len(seq)):
          self.raise_exc("IndexError")
        l = list(seq)
        l[j] = x
        self.write("L", i, self.lift(tuple(l)))
        return
      jt, nt = self.iterm(j), self.iterm(n)
      if not self.branch(And(-nt <= jt, jt < nt)):
        self.raise_exc("IndexError")
      jt = z3.simplify(If(jt < 0, jt + nt, jt))
      self.write("L", i, tset(self.lift(seq), jt, self.lift(x)))
      return
    raise Unsupported(f"setitem on {kv}")

  def dict_store(self, i, k, x):
    c = self.heap.D(i)
    c2 = z3.Store(c, k, x)
    self.assume(dlen(c2) == If(c[k] == Abs, dlen(c) + 1, dlen(c)))
    self.write("D", i, c2)
    o = self.heap.O(i)
    self.write("O", i, If(c[k] == Abs, ordadd(o, k), o))

  def delitem(self, v, k):
    kv = self.klass(v)
    if kv == "dict":
      i = self.did(v)
      c = self.heap.D(i)
      kk = self.key(k)
      if not self.branch(c[kk] != Abs):
        self.raise_exc("KeyError")
      self.write("D", i, z3.Store(c, kk, Abs))
      return
    raise Unsupported("delitem")

  # ------------------------------------------------------------ attributes
  def ev_Attribute(self, n, fr):
    v = self.eval(n.value, fr)
    return self.getattr_(v, n.attr)

  def is_frozen(self, ci, name):
    for c in ci.mro():
      if isinstance(c, ClassInfo) and name in self.frozen.get(c.full, ()):
        return c
    return None

  def fld(self, ci, name):
    return F(f"fld.{ci.full}.{name}", Int, V)

  def getattr_(self, obj, name, default=None, has_default=False):
    try:
      return self._getattr(obj, name)
    except Raised as e:
      if has_default and self.exc_matches(e.exc, "AttributeError"):
        return default
      raise

  def _getattr(self, obj, name):
    if isinstance(obj, ModV):
      full = f"{obj.name}.{name}"
      if obj.name in self.w.mods:
        key = full
        if key in self.global_over:
          return self.global_over[key](self)
        r = self.w.resolve(self.w.mods[obj.name], name)
        if r is not None:
          return self.resolved(r, key)
        if full in self.w.mods:
          return ModV(full)
        raise Unsupported(f"no {full}")
      return self.ext_value(full)
    if isinstance(obj, SuperV):
      return self.super_attr(obj, name)
    if isinstance(obj, ClassV):
      return self.class_attr(obj, name)
    if isinstance(obj, ExtV):
      return self.ext_value(f"{obj.name}.{name}")
    if isinstance(obj, ExtClass):
      return ExtV(f"{obj.name}.{name}")
    if isinstance(obj, PyFunc):
      if name == "__name__":
        return obj.fi.name
      if name == "fn_attr":
        pass
    if isinstance(obj, PropertyV) and name == "setter":
      return Prim("setter", lambda ex, a, k: a[0])
    k = self.klass(obj)
    if isinstance(k, ClassInfo):
      if isinstance(obj, tuple):
        raise Unsupported("attr of tuple")
      m, owner = k.lookup("__getattribute__")
      if m is not None:
        ga, _ = k.lookup("__getattr__")
        if ga is not None:
          try:
            return self.call_func(self.method_val(m, owner, obj), [name], {})
          except Raised as e:
            if not self.exc_matches(e.exc, "AttributeError"):
              raise
            return self.call_func(self.method_val(ga, owner, obj), [name], {})
        return self.call_func(self.method_val(m, owner, obj), [name], {})
      ga, gow = k.lookup("__getattr__")
      if ga is not None:
        try:
          return self.obj_getattr(obj, name)
        except Raised as e:
          if not self.exc_matches(e.exc, "AttributeError"):
            raise
          return self.call_func(self.method_val(ga, gow, obj), [name], {})
      return self.obj_getattr(obj, name)
    if isinstance(obj, (PyFunc, Prim, PartialV)) :
      raise Unsupported(f"attribute {name} of function")
    if isinstance(obj, ExcV):
      raise Unsupported("exception attribute")
    if k in ("dict", "list", "set", "tuple", "str", "mappingproxy", "Mapping", "dictview", "int") or isinstance(obj, (tuple, str, DView)):
      if isinstance(name, str):
        return BoundExt(obj, name)
    if k == "type" and isV(obj):
      return self.symclass_attr(obj, name)
    if k is None and isV(obj) and isinstance(name, str) and name not in self.opaque_attrs and self.klass_retry(obj, name):
      return self._getattr(obj, name)
    return self.opaque_attr(obj, name)

  METHODS_OF = {"dict": ("items", "keys", "values", "get", "pop", "update", "setdefault", "copy"),
                "list": ("append", "extend", "insert", "pop", "sort"), "str": ("split", "join", "startswith", "endswith"),
                "set": ("add",)}

  def klass_retry(self, obj, name):
    """before treating obj as an opaque library value: try harder to find its class."""
    h = self.hints.get(obj.get_id())
    if h is not None and h[1] == "opaque":
      return False
    cand = [k for k, ms in self.METHODS_OF.items() if name in ms]
    for full in self.query_classes:
      ci = self.w.class_by_full.get(full)
      if ci is not None and ((full, name) in self.field_inv or ci.lookup(name)[0] is not None):
        cand.append(ci)
    for k in cand:
      if self.entails(self.isinst_term(obj, k), 8 * self.feas_ms):
        self.hint(obj, k if isinstance(k, str) else self.class_code_name(k))
        return True
    return False

  def opaque_attr(self, obj, name):
    if not isinstance(name, str):
      return self.opaque_op("getattr", [obj, name])
    h = self.opaque_attrs.get(name)
    t = self.lift(obj)
    if h is not None:
      r = h(self, t)
      if r is not NotImplemented:
        return r
    return OpaqueMember(t, name) if name in self.opaque_methods else self._attr_term(t, name)

  def _attr_term(self, t, name):
    r = F(f"attr.{name}", V, V)(t)
    self.externals.add(f"attribute .{name} of library values")
    self.assume(age(r) <= self.heap.alloc)
    return self.lower(r)

  opaque_attrs = {}
  opaque_methods = set()

  def method_val(self, fi, owner, obj):
    pf = PyFunc(fi, None, (obj,))
    pf.owner = owner
    return pf

  def wrap_method(self, fi, owner, obj, cls):
    decs = fi.decorators
    if any(d == "staticmethod" for d in decs):
      pf = PyFunc(fi)
      pf.owner = owner
      return pf
    if any(d == "classmethod" for d in decs):
      return self.method_val(fi, owner, cls)
    if any(d == "property" for d in decs):
      return self.call_func(self.method_val(fi, owner, obj), [], {})
    return self.method_val(fi, owner, obj)

  def class_attr(self, cv, name):
    if name == "__name__":
      return cv.ci.name
    m, owner = cv.ci.lookup(name)
    if m is not None:
      if any(d == "classmethod" for d in m.decorators):
        return self.method_val(m, owner, cv)
      pf = PyFunc(m)
      pf.owner = owner
      return pf
    meta = cv.ci.find_metaclass()
    if meta is not None:
      m, owner = meta.lookup(name)
      if m is not None:
        return self.method_val(m, owner, cv)
    if name == "__new__":
      return Prim("object.__new__", lambda ex, a, k: ex.object_new(a[0]))
    a, owner = cv.ci.lookup_attr(name)
    if a is not None:
      return self.eval(a, Frame(None, None, owner.mod))
    if name in ("__init__",):
      return Prim("object.__init__", lambda ex, a, k: None)
    key = f"{cv.ci.full}.{name}"
    if key in self.global_over:
      return self.global_over[key](self)
    raise Unsupported(f"class attribute {cv.ci.name}.{name}")

  def symclass_attr(self, obj, name):
    if name == "__name__":
      r = F("attr.__name__", V, V)(obj)
      self.assume(V.is_SV(r))
      return r
    ub = self.class_upper(obj)
    if isinstance(ub, ClassInfo):
      m, owner = ub.lookup(name)
      if m is not None and any(d == "classmethod" for d in m.decorators):
        return self.method_val(m, owner, obj)
      if m is None:
        meta = ub.find_metaclass()
        if meta is not None:
          m, owner = meta.lookup(name)
          if m is not None:
            return self.method_val(m, owner, obj)
        if name == "__new__":
          return Prim("object.__new__", lambda ex, a, k: ex.object_new(a[0]))
        key = f"{ub.full}.{name}"
        if key in self.global_over:
          return self.global_over[key](self)
    raise Unsupported(f"attribute {name} of a symbolic class")

  def class_upper(self, cterm):
    """ClassInfo upper bound of a symbolic class value."""
    h = self.hints.get(("cls", cterm.get_id()))
    if h is not None:
      return self.cls_by_code(h[1])
    best = None
    for full in self.query_classes:
      ci = self.w.class_by_full.get(full)
      if ci is not None and (best is None or ci.has_base(best)):
        if self.entails(subc(V.cval(cterm), self.ccode(ci))):
          best = ci
    if best is not None:
      self.hints[("cls", cterm.get_id())] = (cterm, self.class_code_name(best))
    return best

  def super_attr(self, sv, name):
    k = sv.obj_cls
    mro = k.mro()
    i = mro.index(sv.ci)
    for c in mro[i + 1:]:
      if isinstance(c, ClassInfo) and name in c.methods:
        return self.wrap_method(c.methods[name], c, sv.obj, ClassV(k))
    if name == "__init__":
      return Prim("object.__init__", lambda ex, a, kw: None)
    if name == "__init_subclass__":
      return Prim("object.__init_subclass__", lambda ex, a, kw: None)
    if name == "__getattribute__":
      return Prim("object.__getattribute__", lambda ex, a, kw: ex.obj_getattr(sv.obj, a[0]))
    if name == "__setattr__":
      return Prim("object.__setattr__", lambda ex, a, kw: ex.obj_setattr(sv.obj, a[0], a[1]))
    if name == "__call__":   # metaclass super().__call__ == type.__call__
      return Prim("type.__call__", lambda ex, a, kw: ex.type_call(sv.obj, a, kw))
    raise Unsupported(f"super().{name}")

  def obj_getattr(self, obj, name):
    """object.__getattribute__"""
    k = self.klass(obj)
    if isinstance(name, str) and name == "__class__":
      return self.type_of(obj)
    if isinstance(obj, tuple):
      raise Unsupported("attribute of tuple")
    if not isinstance(k, ClassInfo):
      if isinstance(name, str):
        return self._getattr(obj, name)
      raise Unsupported(f"obj_getattr {obj!r} {name}")
    if isinstance(name, str):
      m, owner = k.lookup(name)
      if m is not None and any(d == "property" for d in m.decorators):
        return self.wrap_method(m, owner, obj, None)
      if name == "__dict__":
        return VD(V.rval(obj)) if obj.decl().name() != "RV" else VD(obj.arg(0))
      fc = self.is_frozen(k, name)
      if fc is not None:
        r = self.fld(fc, name)(self.oid(obj))
        self.assume(age(r) <= self.heap.alloc)
        self.field_invariant(k, name, obj, r)
        return self.lower(r)
      if self.is_tuple_class(k):
        if m is not None:
          return self.wrap_method(m, owner, obj, ClassV(k))
        if name in ("count", "index"):
          return BoundExt(obj, name)
        self.raise_exc("AttributeError")
      i = self.oid(obj)
      if m is not None and not self.may_shadow(obj, name):
        return self.wrap_method(m, owner, obj, ClassV(k))
      r = z3.simplify(self.heap.D(i)[S(name)])
      self.field_invariant(k, name, obj, r)
      if self.branch(r != Abs):
        self.assume(age(r) <= self.heap.alloc)
        return self.lower(r)
      if m is not None:
        return self.wrap_method(m, owner, obj, ClassV(k))
      a, aowner = k.lookup_attr(name)
      key = f"{k.full}.{name}"
      for c in k.mro():
        if isinstance(c, ClassInfo) and f"{c.full}.{name}" in self.global_over:
          return self.global_over[f"{c.full}.{name}"](self, obj)
      if a is not None:
        return self.eval(a, Frame(None, None, aowner.mod))
      if "Mapping" in k.mro() and name in ("items", "keys", "values", "get"):
        return BoundExt(obj, name)
      self.raise_exc("AttributeError")
    # symbolic attribute name
    i = self.oid(obj)
    nt = self.lift(name)
    r = z3.simplify(self.heap.D(i)[nt])
    if self.branch(r != Abs):
      self.assume(age(r) <= self.heap.alloc)
      return self.lower(r)
    if self.branch(clsattr(clsof(obj), nt)):
      return self.lower(F("classattr", V, V, V)(obj, nt))
    self.raise_exc("AttributeError")

  def may_shadow(self, obj, name):
    return False

  def field_invariant(self, ci, name, obj, val):
    for c in ci.mro():
      if isinstance(c, ClassInfo):
        f = self.field_inv.get((c.full, name))
        if f is not None:
          f(self, obj, val)
          return

  field_inv = {}

  def oid(self, obj):
    nm = obj.decl().name()
    if nm in ("RV", "VD"):
      return obj.arg(0)
    return V.rval(obj)

  class_store = None     # handler of assignments to attributes of a (symbolic) class

  def setattr_(self, obj, name, val):
    if isinstance(obj, (ModV, ClassV, ExtV)):
      raise Unsupported(f"assignment to attribute of {obj!r}")
    k = self.klass(obj)
    if self.class_store is not None and isV(obj) and k == "type":
      self.class_store(obj, name, val)
      return
    if isinstance(k, ClassInfo):
      m, owner = k.lookup("__setattr__")
      if m is not None:
        self.call_func(self.method_val(m, owner, obj), [name, val], {})
        return
      return self.obj_setattr(obj, name, val)
    raise Unsupported(f"setattr on {obj!r} ({k})")

  def obj_setattr(self, obj, name, val):
    k = self.klass(obj)
    if isinstance(name, str):
      m, owner = k.lookup(name)
      if m is not None and any(d == "property" for d in m.decorators):
        st, so = k.lookup(name + ".setter")
        if st is None:
          self.raise_exc("AttributeError")
        self.call_func(self.method_val(st, so, obj), [val], {})
        return
      fc = self.is_frozen(k, name)
      if fc is not None:
        # first assignment inside the constructor of a fresh object
        if not self.is_fresh(obj):
          raise Unsupported(f"write to frozen field {name} of a non-fresh object")
        key = ("frozen", self.oid(obj).get_id(), name)
        if key in self.hints:
          raise Unsupported(f"second write to frozen field {name}")
        self.hints[key] = (obj, name)
        self.assume(self.fld(fc, name)(self.oid(obj)) == self.lift(val))
        return
    self.dict_store(self.oid(obj), self.lift(name), self.lift(val))

  def is_fresh(self, obj):
    i = z3.simplify(self.oid(obj))
    return z3.is_int_value(i) and i.as_long() >= 0 or self.entails(i >= self.entry_alloc)

  entry_alloc = z3.IntVal(0)

  def delattr_(self, obj, name):
    k = self.klass(obj)
    if isinstance(k, ClassInfo):
      m, owner = k.lookup("__delattr__")
      if m is not None:
        self.call_func(self.method_val(m, owner, obj), [name], {})
        return
      return self.obj_delattr(obj, name)
    raise Unsupported("delattr")

  def obj_delattr(self, obj, name):
    i = self.oid(obj)
    nt = self.lift(name)
    c = self.heap.D(i)
    if not self.branch(c[nt] != Abs):
      self.raise_exc("AttributeError")
    self.write("D", i, z3.Store(c, nt, Abs))

  def type_of(self, v):
    k = self.klass(v)
    if isV(v):
      if isinstance(k, ClassInfo) or k is None or k == "Mapping":
        t = CV(clsof(v))
        s = z3.simplify(clsof(v))
        lo = self.exact_class(v)
        if lo is not None:
          return lo
        if isinstance(k, ClassInfo):
          self.hints[("cls", t.get_id())] = (t, self.class_code_name(k))
          self.hint(t, "type")
        return t
    if isinstance(k, str):
      return ExtClass(k)
    if isinstance(k, ClassInfo):
      return ClassV(k)
    raise Unsupported("type()")

  def exact_class(self, v):
    return None
