"""Helpers shared by the contract modules."""
import ast
from pyded.spec import *
from pyded.vals import Frame

REGS = ("register_pytree_node", "register_pytree_with_keys", "register_pytree_node_class", "register_pytree_with_keys_class")


def registrations(ex, modname):
  """what the module registers with JAX when it is imported: the top-level
  statements are executed, [(kind, args, kwargs)]."""
  out = []

  def rec(kind):
    def h(ex, a, k):
      out.append((kind, list(a), dict(k)))
      return None
    return h
  old = {}
  for r in REGS:
    for q in ("jax.tree_util.",):
      old[q + r] = ex.ext_handlers.get(q + r)
      ex.ext_handlers[q + r] = rec(r)
  mod = ex.w.mods[modname]
  fr = Frame(None, None, mod)
  try:
    for st in mod.tree.body:
      if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and not isinstance(st.value.func, ast.Constant):
        try:
          ex.eval(st.value, fr)
        except Unsupported as e:
          if "write to global" not in str(e):
            raise
  finally:
    for k, v in old.items():
      if v is None:
        ex.ext_handlers.pop(k, None)
      else:
        ex.ext_handlers[k] = v
  return out


def node_functions(ex, modname, full):
  """(flatten, unflatten, flatten with keys) registered for the class."""
  for kind, a, k in registrations(ex, modname):
    c = a[0] if a else k.get("nodetype")
    if isinstance(c, ClassV) and c.ci.full == full:
      if kind == "register_pytree_node":
        return a[1] if len(a) > 1 else k["flatten_func"], a[2] if len(a) > 2 else k["unflatten_func"], None
      if kind == "register_pytree_with_keys":
        fk = a[1] if len(a) > 1 else k["flatten_with_keys"]
        un = a[2] if len(a) > 2 else k["unflatten_func"]
        fl = a[3] if len(a) > 3 else k.get("flatten_func")
        return fl, un, fk
  return None


def registered_node_types(ex):
  """what the library itself registers as node types when it is imported: the
  top-level `register_node_type(...)` calls of its modules."""
  if getattr(ex, "_node_types", None) is None:
    out = []
    for name, mod in sorted(ex.w.mods.items()):
      for st in mod.tree.body:
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and len(st.value.args) == 1:
          f = st.value.func
          nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
          if nm == "register_node_type":
            out.append(ex.eval(st.value.args[0], Frame(None, None, mod)))
    ex._node_types = out
  return ex._node_types


def nodes_config(ex):
  """nodes.is_node: an instance of a type registered by the library (a user may register more; nothing depends on which)."""
  ex.global_over["nnx.nodes.node_types"] = lambda ex: tuple(registered_node_types(ex))


def isnode(ex, v):
  return ex.as_bool(ex.is_instance(v, tuple(registered_node_types(ex))))
