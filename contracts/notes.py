"""Texts for the evidence files: what is proved, what is bounded, what is trusted."""
COMMON_TRUSTED = [
    "pyded (this verifier): its symbolic semantics of the Python subset (tools/selftest.py compares it with CPython)",
    "z3 and cvc5 answering unsat",
    "CPython executes the source that pyded parsed (no monkey patching of nnx)",
]
NA_DEFAULT = "no contract for the functions behind this property has been discharged yet; a bounded exploration alone would be another technique"
NOTES = {
    "C02": dict(
        proved="_split_state, State.filter and State.partition, for every state, every number of filters and every filter: one part per filter, each entry (path and value) in the part of the first filter that accepts it, nothing else; ValueError exactly for an ellipsis before the end and (partition) for an entry no filter accepts, TypeError exactly for a non-filter.",
        bounded="filtering and partitioning of states and modules on generated inputs (harness/c02.py).",
        trusted=["predicates are deterministic and total"],
    ),
    "C03": dict(
        proved="to_predicate and the combinators any/all/not, for every filter of every nesting depth and every entry.",
        bounded="the same statement on generated filters over real states (harness/c03.py).",
        trusted=["predicates are deterministic and total, their truth value a function of (path, value)"],
    ),
    "C04": dict(
        proved="State.__init__ from any mapping or any tuple of pairs (last value wins, sorted order), __getitem__, __iter__, __len__, merge (last operand that has the path), | and -, the registered flatten/unflatten functions (round trip, leaf replacement, structure = paths in order), and that equal entries give the same path sequence.",
        bounded="the same on generated states through jax.tree_util and the Mapping mixin (harness/c04.py).",
        trusted=["collections.abc.Mapping's items/keys/values/__eq__/__contains__ are derived from __getitem__, __iter__ and __len__", "the order of strings is total"],
    ),
    "C06": dict(
        proved="the current JAX / nnx trace, TraceState creation and validity, the nnx_trace scope (pushes a new trace, restores the stack on normal exit and on every exception), ModuleState creation, attribute assignment and deletion of modules (Module._setattr, __setattr__, __delattr__, __getattribute__), Context.make_rng and Context.partition: refused exactly when the recorded traces are not the innermost ones, with no effect, for every trace stack and object.",
        bounded="the same on real modules and contexts under nested jit/grad/nnx traces (harness/c06.py).",
        trusted=["jax.core.find_top_trace of no values returns the innermost JAX trace (jax 0.4.18: jax.grad without an nnx trace is not a separate innermost trace)"],
    ),
    "C07": dict(
        proved="_stable_hash is computed from an injective text of the whole position sequence; make_rng returns fold_in(key, hash(path + (count,))) and advances exactly that stream by one; partition records path + (count,) per stream and advances every stream by one; merge restarts at count 0 on the recorded path; the inductive invariant over histories: live streams own disjoint regions of position sequences, every draw is new.",
        bounded="position sequences over generated histories of draws, forks and merges on the real code (harness/c07.py).",
        trusted=["jax.random.fold_in and hashlib.blake2s are deterministic functions", "streams under different names of one context are distinct objects", "one fork is merged at most once (merging the same pure context twice replays it by design)"],
    ),
    "C08": dict(
        proved="context(): exactly the given streams (integers seed, arrays are keys, 'params' from the positional argument) and flags; has_rng, has_flag, get_flag, copy; ContextDef.merge; partition then merge keeps names, base keys and flags; tree registration of ContextDef and PureContext is faithful; to_rng_predicate accepts exactly what the filter means, for filters of every depth.",
        bounded="the same on generated contexts through jax.tree_util (harness/c08.py).",
        trusted=["jax.random.PRNGKey is deterministic", "mapping filters are dicts, sequence filters tuples or lists"],
    ),
    "C09": dict(
        proved="container construction (the metaclass call, for every container class), Container.replace, copy, is_equivalent and __eq__, and attribute assignment, deletion and reading on modules: exact value/metadata effect and exact exception condition, for every value and metadata mapping.",
        bounded="holder isolation through modules on generated operation sequences (harness/c09.py).",
        trusted=["metadata and value equality (==) is total and deterministic", "user container classes do not override the framework's methods"],
    ),
    "C10": dict(
        proved="the flatten, flatten-with-keys and unflatten functions every NodeBase subclass registers (identity and leaf replacement, whole metadata as structure), Static flatten/unflatten, with_metadata, construction.",
        bounded="jax.tree_util on real containers, structure equality of statics (harness/c10.py).",
        trusted=["jax.tree_util calls the registered functions and compares aux data with ==", "user container classes do not override the framework's methods"],
    ),
    "C11": dict(
        proved="field assignment (Pytree._setattr, __setattr__) for every object, field and value: refused exactly when the object is constructed and the field is new or the class is not mutable, and then without effect; otherwise exactly the stated field changes; __getattribute__; construction (PytreeMeta.call, whatever the user's __init__ does to the fields): both construction flags are gone and all field names are recorded in order; replace of ordinary objects (new object, same class, fields given hold those values in their container, others unchanged, unknown names refused, original untouched) and what replace of a dataclass object hands to dataclasses.replace; what a class registers and its mutability flag.",
        bounded="immutability and replace on generated classes, dataclasses included (harness/c11.py).",
        trusted=["copy.copy of a Pytree copies class and attribute dictionary", "the user's __init__ leaves the _pytree__ attributes alone", "dataclasses.replace constructs a new object from the current field values and the keywords", "dataclass fields have distinct names"],
    ),
    "C12": dict(
        proved="the flatten functions every Pytree class registers (children are exactly the node fields, in sorted order, with their names; everything else is structure), unflatten (every leaf under its name, structure restored, nothing else), their composition (identity; with new leaves only those fields differ), _to_flax_state_dict and _from_flax_state_dict (exactly the node fields are written and restored; missing and unknown names raise ValueError; the state dict given is not changed), for every object.",
        bounded="the same through jax.tree_util and flax.serialization on generated objects, leaves of other kinds, nesting (harness/c12.py).",
        trusted=["jax.tree_util calls the registered functions", "flax.serialization.to_state_dict/from_state_dict are deterministic functions of the value (and state, name)", "the order of strings is total", "importlib and inspect only select which registration function of JAX is used (every outcome is covered)"],
    ),
    "C17": dict(
        proved="_mesh_assignment_free (free exactly when no mesh axis is shared), _logical_to_mesh_axes and logical_to_mesh_axes for every tuple of distinct dimension names and every rule list: each dimension holds the mesh axes of a rule with its name, no mesh axis is used by two dimensions, and every earlier rule for a dimension was blocked by an axis already in use when it was considered (this determines the result); ValueError exactly for a repeated name or rules that are no list or tuple; None for no names; the logical_axis_rules scope restores the rules in force on normal exit and on exceptions.",
        bounded="the same against an independent implementation on generated rules, partition specs of modules and sharding constraints (harness/c17.py).",
        trusted=["jax.tree_util.tree_leaves gives the leaves of a tree of strings, None and tuples", "collections.Counter counts", "the sentinel of an unassigned axis equals no name"],
    ),
    "C18": dict(
        proved="the function add_axis applies to every entry (name inserted at the index, padded with None, value and other metadata kept, entries without sharding kept), the function remove_axis applies (the inverse; refused exactly when there is no such axis or it has another name, without effect), both for every sharding and every non-negative index; ValueError exactly without a partition name; their composition is the identity.",
        bounded="whole states through jax.tree_map, negative indices, get_partition_spec (harness/c18.py).",
        trusted=["jax.tree_map applies the function to every entry of a state and rebuilds the state (State's registered flatten/unflatten are proved under C04)", "sharding is a tuple of strings and None, or None"],
    ),
    "C21": dict(
        proved="Sequence.__init__ (items in order under their positions, the length, nothing else), __len__, __getitem__ (IndexError exactly at or past the end), __iter__, and __call__ for every number of items and every outputs: each item is called exactly once, in order, with the previous output as positional arguments (tuple), keywords (dict) or single argument, the context added exactly for the items that accept it, the output being the last one's, TypeError exactly when an item cannot be called; has_keyword_arg (exactly when the signature has a parameter of that name that can be given by keyword); Dict.__init__ from nothing, a mapping and keywords (exactly the given keys and values), __getitem__ (KeyError exactly for absent and bookkeeping names), __setitem__, __setattr__ and __getattr__ (the same as attribute access of a module), __iter__ and __len__ (exactly the items, each once).",
        bounded="real modules, iterables of every kind, pairs given to Dict, mixin methods of Mapping (harness/c21.py).",
        trusted=["a finite iterable is the sequence of its items", "the items called do not change the sequence they are in", "inspect.signature is a function of the callable", "str of different integers differs"],
    ),
    "C22": dict(
        proved="TrainState.apply_gradients for every train state, gradients and keywords: a new object of the same class whose params, opt_state and step hold (in their containers, metadata kept) apply_updates(params, u), the new optimizer state and step + 1, where u is the optimizer's update of exactly (grads, opt_state, params); given fields as given, all others unchanged, the original untouched, and exactly when it is refused; apply: the stored definition is applied to exactly the given states, in order, names replaced by the fields' values; __init__ (exactly the stated fields, optimizer state initialized from the parameters). Rests on the proved contracts of Pytree._setattr, Pytree.replace and container construction.",
        bounded="real optimizers, models and steps against a hand-computed step (harness/c22.py).",
        trusted=["an optimizer's init and update and optax.apply_updates are deterministic functions returning no nnx containers", "arithmetic of arrays gives arrays"],
    ),
    "C23": dict(
        proved="ModuleDef.__eq__ (exactly class, sub-module tuple, static tuple and flags), hash agrees with equality, registered flatten/unflatten (no leaves, identical fields); UUIDManager.__call__ under interference by other threads (the id lies above the counter when the lock is taken and at most at the counter when it is released, nothing is written outside the lock), UUID.__copy__ and __deepcopy__ draw new ids, UUID equality and hash.",
        bounded="equality of definitions against an independent isomorphism test on generated module graphs, merge of equal definitions, jit cache reuse, ids under threads (harness/c23.py).",
        trusted=["== and hash of static values are lawful", "a threading.Lock excludes other threads"],
    ),
    "C24": dict(
        proved="field, node_field, static_field, var_field and param_field: every option reaches dataclasses.field, metadata is kept, the recorded function makes a container of exactly the declared class with the declared sharding and the value; a kind declared twice is refused; dataclass passes its options; construction of modules and pytrees (ModuleMeta._meta_call, PytreeMeta.call): every declared field holds what its declared function makes of the value __init__ left, every other attribute what __init__ left; replace of dataclass pytrees keeps the container of undeclared fields.",
        bounded="generated dataclass modules and pytrees, defaults, default factories, inheritance (harness/c24.py).",
        trusted=["dataclasses.dataclass generates an __init__ that stores each argument or default", "dataclass fields have distinct names, none of a framework attribute", "the user's __init__/__post_init__ leaves the framework's attributes alone"],
    ),
    "C19": dict(
        proved="first_from for every argument tuple; Dropout.__call__ for every layer, input and context: mode = first given of call argument, setting and flag (ValueError exactly when none is given), unchanged input when deterministic or at rate zero, zeros at rate one, without a draw, otherwise one mask drawn with the keep probability from the key of the layer's stream at its position, that stream advanced by exactly one, every element zero or divided by the keep probability; BatchNorm.__call__: the same mode rule, in running-average mode no write at all and normalization with the running statistics, otherwise normalization with the statistics of the batch over exactly the non-feature axes, each running statistic replaced (same variable class and metadata) by momentum * old + (1 - momentum) * batch, nothing else written, refused at another trace level without effect; _compute_stats, _abs_sq, _canonicalize_axes and _normalize (shapes the statistics, scale and bias are laid out in, formula of the result).",
        bounded='numeric agreement with an independent computation on generated layers and inputs, the share of dropped elements, construction of the layers (harness/c19.py).',
        trusted=['jax array functions are deterministic functions of their arguments with the stated element laws (select, zeros_like, division); addition, multiplication and maximum commute; pmean of a concatenation is the concatenation of the pmeans', 'machine arithmetic is treated as uninterpreted: rounding is not modelled'],
    ),
    "C13": dict(
        proved='Module._on_all and for_each (the function is called exactly once on every instance reachable, for every module graph, sharing and cycles included); Module.init (every reachable module is marked before the call and unmarked after it, on every way out, nothing else changed; the call is the selected one with the given arguments); Module.apply, ModuleDef.apply, Pure.call and Pure.apply (one copy from exactly the given states, the callable selected from the copy, called once with the given arguments; the output, with the copy or its partition; the original not written); DelayedAccessor and CallableProxy for every path of attributes and items (one step more of any path).',
        bounded='whole calls on generated module graphs, nested paths, exceptions during init, isolation of the original from the copy (harness/c13.py).',
        trusted=['Module.clone and ModuleDef.merge build fresh copies (C01)', 'the method called does not touch the original through references outside the graph', 'module ids are unique (C23)'],
    ),
    "C05": dict(
        proved="_set_value_at_path (for every path of every depth: exactly the attribute named is assigned, as Module._setattr's contract says, on the module the path leads to, and nothing else changes; a refused assignment changes nothing), _update_module (every path of the current state and of the updates is assigned exactly once, with the value of the last of them that has it, for any number of updates), Module.update_state (reads its own state first, then updates itself with exactly the states given; a module of another class is refused before anything is assigned), State.merge, Pure.update_state (the new pure module holds the merge of its own states followed by the updates' and the same definition; TypeError exactly for other kinds; nothing existing is written).",
        bounded='the whole operation on generated module graphs and update lists, shared modules included (harness/c05.py).',
        trusted=["_get_module_state returns the module's own state (bounded in harness/c05.py and c01.py)", "'/'.join(s.split('/')) is s"],
    ),
    "C14": dict(
        proved='Module.sow, for every module, variable class, name and value: a name not in use gets a new variable of the requested class holding a one-element tuple; a variable of that class holding a tuple gets the value appended in order, its metadata kept; anything else is refused with ValueError and nothing changes; a module of another trace level is refused.',
        bounded='pop_state on generated module graphs (sharing, cycles, several filters), pure modules, wide shared graphs, and sequences of sows (harness/c14.py). _pop_recursive is under contract only in draft: its obligations about the graph traversal were not all discharged, so it is not counted.',
        trusted=['class attributes of modules are no containers'],
    ),
    "C20": dict(
        proved="canonicalize_padding (for every padding of every kind and every rank: a name kept, an integer or a sequence of rank integers and pairs gives one pair per axis, anything else ValueError), _conv_dimension_numbers for every rank, and for Linear, Conv and Embed which array functions are called, once, on what: Linear.__call__ (promotion, contraction of the last axis with the first kernel axis, bias along the last axis), Conv.__call__ (every rank, number of batch axes, kind of strides and padding: flattening and restoring of the batch axes, circular and causal padding amounts, one convolution with the declared strides, dilations, groups, padding and precision, mask, bias), Embed.__call__ (ValueError exactly for indices that are no integers; rows selected along axis 0) and attend, and the three __init__ (one key drawn from 'params' per parameter created, declared shape and dtype, every field holds its argument).",
        bounded='values, shapes and dtypes of the layers against numpy computations on generated configurations (harness/c20.py).',
        trusted=['the array functions of JAX compute what their documentation says', 'promote_dtype returns None for None and an array for an array (harness/c20.py checks dtypes)', 'the parameters of a layer have no unboxing function'],
    ),
}
