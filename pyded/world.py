"""Loads the real source of /repo/nnx on every run and indexes it.

Nothing is rewritten: the executor interprets the parsed AST of the files as
they are.  What the extraction drops is listed in DROPPED (type annotations,
docstrings, @overload stubs, TYPE_CHECKING branches).
"""
import ast
import hashlib
import os

REPO = os.environ.get("PYDED_REPO", "/repo")

DROPPED = [
    "type annotations and typing.cast (no run-time effect in CPython here)",
    "docstrings and comments",
    "@typing.overload stubs (rebound by the implementation that follows)",
    "`if tp.TYPE_CHECKING` branches (false at run time; `if not` branches are kept)",
]


class FuncInfo:
  def __init__(self, mod, node, qual, cls=None):
    self.mod, self.node, self.qual, self.cls = mod, node, qual, cls
    self.name = getattr(node, "name", "<lambda>")
    self.decorators = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]

  @property
  def full(self):
    return f"{self.mod.name}.{self.qual}"

  def is_generator(self):
    if not hasattr(self, "_gen"):
      self._gen = False
      stack = list(self.node.body) if isinstance(self.node.body, list) else [self.node.body]
      while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
          self._gen = True
          break
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
          continue
        stack.extend(ast.iter_child_nodes(n))
    return self._gen

  def sha(self):
    return hashlib.sha256(ast.dump(self.node, include_attributes=False).encode()).hexdigest()[:12]

  def __repr__(self):
    return f"<fn {self.full}>"


class ClassInfo:
  def __init__(self, mod, node, name):
    self.mod, self.node, self.name = mod, node, name
    self.bases = []       # ClassInfo or str (external base)
    self.methods = {}     # name -> FuncInfo
    self.attrs = {}       # class level assignments name -> ast expr
    self.annotations = {}  # dataclass-style fields in order
    self.metaclass = None
    self.decorators = [ast.unparse(d) for d in node.decorator_list]

  @property
  def full(self):
    return f"{self.mod.name}.{self.name}"

  def mro(self):
    """C3 is overkill here: depth-first, repo classes before externals."""
    out, seen = [], set()

    def lin(c):
      if isinstance(c, str):
        seqs = [[c]]
        return [c]
      ls = [lin(b) for b in c.bases] + [list(c.bases)]
      res = [c]
      ls = [list(l) for l in ls if l]
      while any(ls):
        for l in ls:
          if not l:
            continue
          h = l[0]
          if not any(h in m[1:] for m in ls):
            break
        else:
          h = next(l[0] for l in ls if l)
        res.append(h)
        for m in ls:
          if h in m:
            m.remove(h)
      return res
    if not hasattr(self, "_mro"):
      self._mro = lin(self)
    return self._mro

  def lookup(self, name):
    for c in self.mro():
      if isinstance(c, ClassInfo) and name in c.methods:
        return c.methods[name], c
    return None, None

  def lookup_attr(self, name):
    for c in self.mro():
      if isinstance(c, ClassInfo) and name in c.attrs:
        return c.attrs[name], c
    return None, None

  def has_base(self, other):
    return any((x is other) or (isinstance(x, ClassInfo) and x.name == other) or x == other
               for x in self.mro())

  def is_dataclass(self):
    return any("dataclass" in d for d in self.decorators)

  def slots(self):
    n = self.attrs.get("__slots__")
    if n is not None:
      try:
        return list(ast.literal_eval(n))
      except Exception:
        return None
    return None

  def find_metaclass(self):
    for c in self.mro():
      if isinstance(c, ClassInfo) and c.metaclass is not None:
        return c.metaclass
    return None

  def __repr__(self):
    return f"<class {self.full}>"


class ModInfo:
  def __init__(self, name, path):
    self.name, self.path = name, path
    self.src = open(path).read()
    self.tree = ast.parse(self.src)
    self.globals = {}   # name -> ('func',FuncInfo)|('class',ClassInfo)|('mod',dotted)|('ext',dotted)|('assign',ast)
    self.toplevel_calls = []


def _is_type_checking(test):
  t = ast.unparse(test)
  if t in ("tp.TYPE_CHECKING", "typing.TYPE_CHECKING", "TYPE_CHECKING"):
    return True
  if t in ("not tp.TYPE_CHECKING", "not typing.TYPE_CHECKING", "not TYPE_CHECKING"):
    return False
  return None


def strip_type_checking(stmts):
  out = []
  for s in stmts:
    if isinstance(s, ast.If):
      r = _is_type_checking(s.test)
      if r is True:
        out.extend(strip_type_checking(s.orelse))
        continue
      if r is False:
        out.extend(strip_type_checking(s.body))
        continue
    out.append(s)
  return out


class World:
  def __init__(self, repo=None):
    self.repo = repo or REPO
    self.mods = {}
    self.classes = {}   # short name -> ClassInfo (repo classes; qualified on clash)
    self.class_by_full = {}
    self.funcs = {}     # full qualname -> FuncInfo
    pkg = os.path.join(self.repo, "nnx")
    for d, _, files in sorted(os.walk(pkg)):
      for f in sorted(files):
        if not f.endswith(".py"):
          continue
        rel = os.path.relpath(os.path.join(d, f), self.repo)[:-3].replace("/", ".")
        if rel.endswith(".__init__"):
          rel = rel[: -len(".__init__")]
        self.mods[rel] = ModInfo(rel, os.path.join(d, f))
    for m in self.mods.values():
      self._index(m)
    for c in list(self.class_by_full.values()):
      self._bases(c)

  def _index(self, m):
    for s in strip_type_checking(m.tree.body):
      self._index_stmt(m, s)

  def _index_stmt(self, m, s):
    if isinstance(s, ast.FunctionDef):
      if any("overload" in ast.unparse(d) for d in s.decorator_list):
        return
      fi = FuncInfo(m, s, s.name)
      m.globals[s.name] = ("func", fi)
      self.funcs[fi.full] = fi
    elif isinstance(s, ast.ClassDef):
      ci = ClassInfo(m, s, s.name)
      m.globals[s.name] = ("class", ci)
      self.class_by_full[ci.full] = ci
      if s.name not in self.classes:
        self.classes[s.name] = ci
      for b in strip_type_checking(s.body):
        if isinstance(b, ast.FunctionDef):
          if any("overload" in ast.unparse(d) for d in b.decorator_list):
            continue
          fi = FuncInfo(m, b, f"{s.name}.{b.name}", ci)
          if any(ast.unparse(d).endswith(".setter") for d in b.decorator_list):
            ci.methods[b.name + ".setter"] = fi
            continue
          ci.methods[b.name] = fi
          self.funcs[fi.full] = fi
        elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name):
          ci.attrs[b.targets[0].id] = b.value
        elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
          ci.annotations[b.target.id] = b.value
          if b.value is not None:
            ci.attrs[b.target.id] = b.value
    elif isinstance(s, ast.Import):
      for a in s.names:
        if a.asname:
          m.globals[a.asname] = ("mod", a.name)
        else:
          m.globals[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
    elif isinstance(s, ast.ImportFrom):
      base = s.module or ""
      if s.level:
        parts = m.name.split(".")
        if not m.path.endswith("__init__.py"):
          parts = parts[:-1]
        parts = parts[: len(parts) - (s.level - 1)]
        base = ".".join(parts + ([base] if base else []))
      for a in s.names:
        m.globals[a.asname or a.name] = ("from", base, a.name)
    elif isinstance(s, ast.Assign):
      for t in s.targets:
        if isinstance(t, ast.Name):
          m.globals[t.id] = ("assign", s.value)
    elif isinstance(s, ast.AnnAssign):
      if isinstance(s.target, ast.Name) and s.value is not None:
        m.globals[s.target.id] = ("assign", s.value)
    elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
      m.toplevel_calls.append(s.value)
    elif isinstance(s, (ast.If, ast.Try)):
      for b in strip_type_checking(getattr(s, "body", [])):
        self._index_stmt(m, b)

  def resolve(self, m, name, depth=0):
    """-> ('func',FuncInfo)|('class',ClassInfo)|('mod',dotted)|('ext',dotted)|('assign',mod,ast)|None"""
    g = m.globals.get(name)
    if g is None:
      return None
    if g[0] == "from":
      base, nm = g[1], g[2]
      full = f"{base}.{nm}" if base else nm
      if full in self.mods:
        return ("mod", full)
      if base in self.mods and depth < 10:
        r = self.resolve(self.mods[base], nm, depth + 1)
        if r is not None:
          return r
      return ("ext", full)
    if g[0] == "assign":
      return ("assign", m, g[1])
    return g

  def resolve_dotted(self, m, node):
    """Resolve an ast Name/Attribute/Subscript chain to a class or dotted name."""
    if isinstance(node, ast.Subscript):
      return self.resolve_dotted(m, node.value)
    if isinstance(node, ast.Name):
      r = self.resolve(m, node.id)
      if r is None:
        return ("ext", f"builtins.{node.id}")
      if r[0] == "mod":
        return r
      return r
    if isinstance(node, ast.Attribute):
      b = self.resolve_dotted(m, node.value)
      if b and b[0] == "mod":
        if b[1] in self.mods:
          r = self.resolve(self.mods[b[1]], node.attr)
          if r is not None:
            return r
          if f"{b[1]}.{node.attr}" in self.mods:
            return ("mod", f"{b[1]}.{node.attr}")
        return ("ext", f"{b[1]}.{node.attr}")
      if b and b[0] == "ext":
        return ("ext", f"{b[1]}.{node.attr}")
    return ("ext", ast.unparse(node))

  def _bases(self, c):
    for b in c.node.bases:
      r = self.resolve_dotted(c.mod, b)
      if r and r[0] == "class":
        c.bases.append(r[1])
      elif r:
        nm = r[1] if isinstance(r[1], str) else ast.unparse(b)
        c.bases.append(canon_ext(nm))
    for kw in c.node.keywords:
      if kw.arg == "metaclass":
        r = self.resolve_dotted(c.mod, kw.value)
        c.metaclass = r[1] if r and r[0] == "class" else None


_EXT = {
    "typing.Tuple": "tuple", "typing.Mapping": "Mapping", "collections.abc.Mapping": "Mapping",
    "typing.Generic": "Generic", "typing.Protocol": "Protocol", "typing.Sequence": "Sequence_abc",
    "typing.Dict": "dict", "typing.List": "list", "typing.Set": "set", "typing.Iterable": "Iterable",
    "builtins.object": "object", "typing.NamedTuple": "NamedTuple",
}


def canon_ext(nm):
  nm = nm.replace("tp.", "typing.") if nm.startswith("tp.") else nm
  if nm in _EXT:
    return _EXT[nm]
  if nm.startswith("builtins."):
    return nm[len("builtins."):]
  return nm
