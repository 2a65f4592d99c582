"""Python-level values the executor keeps concrete (functions, classes, views)."""


class PyFunc:
  def __init__(self, fi, frame=None, bound=None, defaults=None, owner=None):
    self.fi, self.frame, self.bound, self.defaults, self.owner = fi, frame, bound, defaults, owner

  def bind(self, obj):
    return PyFunc(self.fi, self.frame, (obj,), self.defaults, self.owner)

  def __repr__(self):
    return f"PyFunc({self.fi.full})"


class ClassV:
  def __init__(self, ci):
    self.ci = ci

  def __eq__(self, o):
    return isinstance(o, ClassV) and o.ci is self.ci

  def __hash__(self):
    return hash(id(self.ci))

  def __repr__(self):
    return f"ClassV({self.ci.name})"


class ExtClass:
  def __init__(self, name):
    self.name = name

  def __eq__(self, o):
    return isinstance(o, ExtClass) and o.name == self.name

  def __hash__(self):
    return hash(self.name)

  def __repr__(self):
    return f"ExtClass({self.name})"


class ModV:
  def __init__(self, name):
    self.name = name


class ExtV:
  """External function or object known by its dotted name."""

  def __init__(self, name):
    self.name = name

  def __eq__(self, o):
    return isinstance(o, ExtV) and o.name == self.name

  def __hash__(self):
    return hash(("ext", self.name))

  def __repr__(self):
    return f"ExtV({self.name})"


class BoundExt:
  def __init__(self, obj, name):
    self.obj, self.name = obj, name


class PartialV:
  def __init__(self, fn, args, kwargs):
    self.fn, self.args, self.kwargs = fn, args, kwargs


class SuperV:
  def __init__(self, ci, obj):
    self.ci, self.obj = ci, obj


class DView:
  def __init__(self, kind, did):
    self.kind, self.did = kind, did


class GenV:
  def __init__(self, node, frame):
    self.node, self.frame = node, frame


class RangeV:
  def __init__(self, lo, hi):
    self.lo, self.hi = lo, hi


class EnumV:
  def __init__(self, it, start=0):
    self.it, self.start = it, start


class ZipV:
  def __init__(self, its):
    self.its = its


class MapV:
  def __init__(self, fn, its):
    self.fn, self.its = fn, its


class SortedV:
  """sorted(it, key=...): same elements, some order fixed by the key."""

  def __init__(self, it, key):
    self.it, self.key = it, key


class SymKw:
  """**kwargs with symbolic content: Map term."""

  def __init__(self, content):
    self.content = content


class Prim:
  def __init__(self, name, fn):
    self.name, self.fn = name, fn

  def __repr__(self):
    return f"Prim({self.name})"


class ExcV:
  def __init__(self, cls, args=()):
    self.cls, self.args = cls, args

  def __repr__(self):
    return f"ExcV({self.cls})"


class PropertyV:
  def __init__(self, fn):
    self.fn = fn


class Frame:
  def __init__(self, fi, parent, mod):
    self.fi, self.parent, self.mod = fi, parent, mod
    self.env = {}
    self.nonlocals = set()
    self.globals = set()
    self.owner = None
    self.self_ = None
    self.gen = False

  def snapshot(self):
    return dict(self.env)


class Raised(Exception):
  def __init__(self, exc):
    self.exc = exc


class ReturnX(Exception):
  def __init__(self, value):
    self.value = value


class BreakX(Exception):
  pass


class ContinueX(Exception):
  pass


class Abort(Exception):
  """The current path ends here (infeasible, or cut at a loop back edge)."""


class Unsupported(Exception):
  """Construct outside the verified subset: the obligation stays undischarged."""
