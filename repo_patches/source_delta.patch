From 93854c89cfe3f2a0cb73e82a088a149106a21f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 01/17] fix: invalid state filters raise TypeError instead of a
 format error

---
 nnx/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/partitioning.py b/nnx/partitioning.py
index 89ed81d..f92a86e 100644
--- a/nnx/partitioning.py
+++ b/nnx/partitioning.py
@@ -32,7 +32,7 @@ def to_predicate(filter: Filter) -> Predicate:
   elif isinstance(filter, tp.Tuple):
     return Any(*filter)
   else:
-    raise TypeError(f"Invalid collection filter: {filter:!r}. ")
+    raise TypeError(f"Invalid collection filter: {filter!r}. ")
 
 
 @dataclasses.dataclass
-- 
2.43.0


From 76503815eddd65a96570edd00a2ebc46c8e0e393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 02/17] fix: Pure.update_state lets the updates override the
 current state

---
 nnx/module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 6c7b113..22f7c41 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -354,9 +354,9 @@ class Pure(tp.Tuple[S, ModuleDef[M]]):
       )
 
     if isinstance(self.states, tuple):
-      states += self.states
+      states = (*self.states, *states)
     else:
-      states += (self.states,)
+      states = (self.states, *states)
 
     state = State.merge(*states)
     return Pure.new(state, self.moduledef)
-- 
2.43.0


From 75637c78115bed807f08b54b77be74c3264a701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 03/17] fix: DelayedAccessor composes nested attribute and item
 accesses

---
 nnx/module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 22f7c41..656721e 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -54,10 +54,10 @@ class DelayedAccessor:
     return self.accessor(x)
 
   def __getattr__(self, name):
-    return DelayedAccessor(lambda x: getattr(x, name))
+    return DelayedAccessor(lambda x: getattr(self.accessor(x), name))
 
   def __getitem__(self, key):
-    return DelayedAccessor(lambda x: x[key])
+    return DelayedAccessor(lambda x: self.accessor(x)[key])
 
 
 class ApplyCaller(tp.Protocol, tp.Generic[A]):
-- 
2.43.0


From e28027bd660bc1f9c65d20b4ff6452c1bcaf2dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 04/17] fix: pop_state visits each module once, in the order
 used by partition

---
 nnx/module.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 656721e..3d7c7ed 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -904,7 +904,9 @@ def _pop_recursive(
   if module._module__state.id in module_index:
     return
 
-  for name, value in list(vars(module).items()):
+  module_index[module._module__state.id] = len(module_index)
+
+  for name, value in sorted(vars(module).items(), key=lambda x: x[0]):
     if isinstance(value, Module):
       _pop_recursive(value, module_index, (*path_parts, name), states, predicates)
       continue
@@ -918,8 +920,6 @@ def _pop_recursive(
         delattr(module, name)
         break
 
-  module_index[module._module__state.id] = len(module_index)
-
 
 def _update_module(
     module: Module, current_state: State, updates: tp.Union[State, tp.Tuple[State, ...]]
-- 
2.43.0


From 3dd8b6a7123650720acda8ce81fc90d7938a0503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 05/17] fix: deleting a Module attribute checks the trace level

---
 nnx/module.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index 3d7c7ed..c3c263e 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -455,6 +455,9 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
     def __setattr__(self, name: str, value: Any) -> None:
       self._setattr(name, value)
 
+    def __delattr__(self, name: str) -> None:
+      self._delattr(name)
+
   def _setattr(self, name: str, value: Any) -> None:
     if not self._module__state.trace_state.is_valid():
       raise errors.TraceContextError("Cannot mutate Module from different trace level")
@@ -467,6 +470,12 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
         value = value.copy()
       vars_dict[name] = value
 
+  def _delattr(self, name: str) -> None:
+    if not self._module__state.trace_state.is_valid():
+      raise errors.TraceContextError("Cannot mutate Module from different trace level")
+
+    object.__delattr__(self, name)
+
   def __hash__(self) -> int:
     return hash(self._module__state.id)
 
-- 
2.43.0


From f5d557cc70c8a76ee583df4aabb961325cc3bd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 06/17] fix: an empty Sequence has length zero

---
 nnx/helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index 25187c5..e6d2250 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -49,10 +49,11 @@ class Dict(Module, tp.Mapping[str, A]):
 class Sequence(Module, tp.Generic[A]):
 
   def __init__(self, iterable: tp.Iterable[A]):
-    i = 0
+    length = 0
     for i, value in enumerate(iterable):
       setattr(self, str(i), value)
-    self._length = i + 1
+      length = i + 1
+    self._length = length
 
   def __getitem__(self, key: int) -> A:
     if key >= len(self):
-- 
2.43.0


From 4c0c0e85adc9c1fa6ec21f75eaecfc8a45dd237d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 07/17] fix: Dict iterates over its items only, not over the
 Module bookkeeping

---
 nnx/helpers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index e6d2250..653f91e 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -40,10 +40,16 @@ class Dict(Module, tp.Mapping[str, A]):
     super().__setattr__(key, value)
 
   def __iter__(self) -> tp.Iterator[str]:
-    return iter(vars(self))
+    return (name for name in vars(self) if not name.startswith("_module__"))
 
   def __len__(self) -> int:
-    return len(vars(self))
+    return sum(1 for _ in self)
+
+  # like all Modules, Dicts are compared and hashed by identity
+  def __eq__(self, other: object) -> bool:
+    return self is other
+
+  __hash__ = Module.__hash__
 
 
 class Sequence(Module, tp.Generic[A]):
-- 
2.43.0


From 879bbdf6125d2839431e33b95199c544330b632d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 08/17] fix: ContextDef is a static pytree node, so a
 PureContext can enter jit

---
 nnx/contextlib.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nnx/contextlib.py b/nnx/contextlib.py
index ff07918..1ee4299 100644
--- a/nnx/contextlib.py
+++ b/nnx/contextlib.py
@@ -39,6 +39,17 @@ class ContextDef:
     return Context(rngs=rngs, flags=dict(self._flags))
 
 
+def _contextdef_flatten(contextdef: ContextDef):
+  return (), (contextdef._rng_counts, contextdef._flags)
+
+
+def _contextdef_unflatten(metadata, _) -> ContextDef:
+  return ContextDef(*metadata)
+
+
+jtu.register_pytree_node(ContextDef, _contextdef_flatten, _contextdef_unflatten)
+
+
 class PureContext(tp.Tuple[tp.Dict[str, KeyArray], ContextDef]):
 
   @classmethod
-- 
2.43.0


From c889a36c510e7354139e4024bb3d5c3a2930aa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 09/17] fix: restore boxed Pytree fields from their unboxed
 value

---
 nnx/pytreelib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index e33cc14..77a53e9 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -220,7 +220,9 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
             f" at path {serialization.current_path()}"
         )
       value_state = state.pop(name)
-      updates[name] = serialization.from_state_dict(value, value_state, name=name)
+      updates[name] = serialization.from_state_dict(
+          getattr(pytree, name), value_state, name=name
+      )
     if state:
       names = ",".join(state.keys())
       raise ValueError(
-- 
2.43.0


From c9e983cc2637750d23fdaf51fbaaf3ba02181761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 10/17] fix: reversed scan starts from the last slice when the
 body adds carry state

---
 nnx/transforms.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index fe22bed..4e15d88 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -640,8 +640,11 @@ def scan_apply(
   has_new_carry_state = len(jax.tree_util.tree_leaves(carry_state_new)) > 0
 
   if has_new_carry_state:
-    # run scan for 1 step
-    axes1 = jax.tree_map(lambda x: x[:1], axes)
+    # run scan for 1 step, in reverse the first step is the last slice
+    first, rest = slice(None, 1), slice(1, None)
+    if options.reverse:
+      first, rest = slice(-1, None), slice(None, -1)
+    axes1 = jax.tree_map(lambda x: x[first], axes)
     carry, scan_out = scan_partial(1, 1)(carry, axes1)
     carry_state, carry_arg = carry
     axes_states1, broadcast_state_new, carry_state_new, out1 = scan_out
@@ -657,14 +660,14 @@ def scan_apply(
     carry = (carry_state, carry_arg)
 
     # run scan for the rest of the steps
-    axes_rest = jax.tree_map(lambda x: x[1:], axes)
+    axes_rest = jax.tree_map(lambda x: x[rest], axes)
     carry, scan_out = scan_partial(length - 1, options.unroll)(carry, axes_rest)
     carry_state, carry_out = carry
     axes_states_rest, broadcast_state_new, carry_state_new, out_rest = scan_out
 
     # concatenate outputs
     axes_states, out = jax.tree_map(
-        lambda x, y: jnp.concatenate((x, y), axis=0),
+        lambda x, y: jnp.concatenate((y, x) if options.reverse else (x, y), axis=0),
         (axes_states1, out1),
         (axes_states_rest, out_rest),
     )
-- 
2.43.0


From 670336fad55eea2801f5e1476e75f44f9b31e756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 11/17] fix: add_axis places negative axis indices like
 remove_axis expects them

---
 nnx/spmd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nnx/spmd.py b/nnx/spmd.py
index 981494c..93f8eb9 100644
--- a/nnx/spmd.py
+++ b/nnx/spmd.py
@@ -45,7 +45,9 @@ def add_axis(state: State, index: int, params: tp.Mapping[tp.Any, tp.Any]) -> St
       sharding = list(x.sharding)
       while len(sharding) < index:
         sharding.append(None)
-      sharding.insert(index, axis_name)
+      # a negative index counts from the end of the resulting sharding
+      position = index if index >= 0 else index + len(sharding) + 1
+      sharding.insert(position, axis_name)
       return x.replace(sharding=tuple(sharding))
     return x
 
-- 
2.43.0


From 020ae670fafaf7d7f469bfdbb3ff91ebada1563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 12/17] fix: ModuleDef equality and hash take the module state
 into account

---
 nnx/module.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nnx/module.py b/nnx/module.py
index c3c263e..91e683d 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -109,7 +109,9 @@ class ModuleDef(tp.Generic[M], reprlib.Representable):
     yield reprlib.Attr("static_fields", self._static_fields)
 
   def __hash__(self) -> int:
-    return hash((self._type, self._submodules, self._static_fields))
+    return hash(
+        (self._type, self._submodules, self._static_fields, self._module_state)
+    )
 
   def __eq__(self, other: tp.Any) -> bool:
     if not isinstance(other, ModuleDef):
@@ -118,6 +120,7 @@ class ModuleDef(tp.Generic[M], reprlib.Representable):
         self._type == other._type
         and self._submodules == other._submodules
         and self._static_fields == other._static_fields
+        and self._module_state == other._module_state
     )
 
   @property
-- 
2.43.0


From a5375d958550f6d8ea822769ddff06de4f8c40de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 13/17] fix: jit merges the context inside the trace scope it
 is used in

---
 nnx/transforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index 4e15d88..71eddce 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -42,11 +42,11 @@ class JitTransform(jax.stages.Wrapped):
   ):
     @functools.partial(jax.jit, **jit_kwargs)
     def jitted_fn(pure_module: PureModule[Module], *args, **kwargs):
-      if "ctx" in kwargs and isinstance(kwargs["ctx"], contextlib.PureContext):
-        kwargs["ctx"] = kwargs["ctx"].merge()
-
       nnx_trace = tracers.get_top_trace((args, kwargs))
       with tracers.nnx_trace(nnx_trace):
+        if "ctx" in kwargs and isinstance(kwargs["ctx"], contextlib.PureContext):
+          kwargs["ctx"] = kwargs["ctx"].merge()
+
         module = pure_module.merge()
         out = fun(module, *args, **kwargs)
 
-- 
2.43.0


From 5a48e56fa3b11c36e138f09afbd4abf25a213d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 14/17] fix: sow raises ValueError, not KeyError, when the name
 is a class attribute

---
 nnx/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/module.py b/nnx/module.py
index 91e683d..224f0e4 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -670,7 +670,7 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
       value: tp.Any,
   ) -> None:
     if hasattr(self, name):
-      variable = vars(self)[name]
+      variable = object.__getattribute__(self, name)
       if not isinstance(variable, containers.Variable):
         raise ValueError(
             f"Expected '{name}' to be a Variable, got {type(variable).__name__}"
-- 
2.43.0


From 8d64e0567244a92e66dcb403efa4a21e00bf9625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 15/17] fix: replacing a dataclass pytree keeps the containers
 of undeclared fields

---
 nnx/pytreelib.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index 77a53e9..24eebdf 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -240,6 +240,17 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
     type as the original object.
     """
     if dataclasses.is_dataclass(self):
+      # fields without a declared kind keep the container they hold
+      for field in dataclasses.fields(self):
+        current = vars(self).get(field.name)
+        if (
+            field.init
+            and "nnx_container_fn" not in field.metadata
+            and isinstance(current, containers.Container)
+        ):
+          kwargs[field.name] = current.replace(
+              value=kwargs.get(field.name, current.value)
+          )
       return dataclasses.replace(self, **kwargs)
 
     unknown_keys = set(kwargs) - set(vars(self))
-- 
2.43.0


From d3db0fda1c9838c4872ae3714a2fb73b37ca9320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 16/17] fix: Dict item access raises KeyError for absent keys

---
 nnx/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index 653f91e..c01c9cf 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -28,6 +28,9 @@ class Dict(Module, tp.Mapping[str, A]):
       setattr(self, name, value)
 
   def __getitem__(self, key) -> A:
+    # only the items themselves, not methods or bookkeeping attributes
+    if key not in vars(self) or key.startswith("_module__"):
+      raise KeyError(key)
     return getattr(self, key)
 
   def __setitem__(self, key, value):
-- 
2.43.0


From 5ffbc1c90d9dda9b2c717739f7cd0db3cfdc0526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 17/17] fix: declared dataclass fields with init=False and a
 class-level default get their container

---
 nnx/module.py    | 2 +-
 nnx/pytreelib.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 224f0e4..defcf5c 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -429,7 +429,7 @@ class ModuleMeta(ABCMeta):
           continue
 
         container_fn = field.metadata["nnx_container_fn"]
-        value = vars(module)[field.name]
+        value = object.__getattribute__(module, field.name)
         value = container_fn(value)
         vars(module)[field.name] = value
 
diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index 24eebdf..f86e8b5 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -58,7 +58,7 @@ class PytreeMeta(ABCMeta):
           continue
 
         container_fn = field.metadata["nnx_container_fn"]
-        value = vars(obj)[field.name]
+        value = object.__getattribute__(obj, field.name)
         value = container_fn(value)
         vars(obj)[field.name] = value
 
-- 
2.43.0

