# Regenerates /verif/properties.jsonl (run by hand; the checks never run it).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,
                   **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),hook_needed=None)))
p("C01","Partition then merge rebuilds an isomorphic module graph",
  "For every module graph (attribute names without '/'), including shared sub-modules and cycles, partitioning it with no filter, or with any list of filters that together cover its state, and merging the result gives a new object graph isomorphic to the original: same classes, same sub-module sharing and cycles, same static attributes, same node attributes (variable type, value and metadata) and the same initialization flag, with every new module a distinct fresh object usable at the current trace level. Each node attribute appears in the state exactly once, at the '/'-joined path of the first visit in alphabetical depth-first order, and the original graph is left unchanged. Cloning is the same operation and has the same result.",
  ["inputs","programs"],"every finite module graph (any classes, any attribute dictionaries, sharing, self-references), every exhaustive filter list",
  "tests build about six fixed graphs (one shared, one cyclic); nothing covers sharing at different depths, cycles through several modules combined with filters, or metadata of every variable",
  ["nnx/module.py","nnx/state.py"],[("recursive definition/state/build functions threading one first-visit index","nnx/module.py _make_module_def_recursive,_iter_state_recursive,_build_module_recursive,_update_module")],
  ["Module.partition","Module.clone","ModuleDef.merge","Pure.merge"])
p("C02","State filters select by first match into disjoint, complete parts",
  "For every state and every list of filters, filtering gives one part per filter, part i holding exactly the entries (path and value unchanged) that filter i accepts and no earlier filter accepts; entries accepted by none are omitted. Partitioning returns the same parts but raises ValueError when any entry is accepted by no filter, so its parts are disjoint and their union is the state; an ellipsis anywhere but last raises ValueError, and one filter gives a bare state, several a tuple in filter order. The same holds when filtering or partitioning a module or a pure module, and the input is unchanged.",
  ["inputs"],"every state mapping, every list of filters of any length, arbitrary predicates",
  "tests use two or three type filters on two or three entries, never overlapping filters with three or more parts or arbitrary predicates",
  ["nnx/state.py","nnx/module.py"],[("first-match split loop","nnx/state.py _split_state"),("exhaustiveness check","nnx/state.py State.partition")],
  ["State.partition","State.filter","Module.filter","Module.partition","Pure.filter","Pure.partition","Pure.pop_state"])
p("C03","State filter language has its documented meaning",
  "As a state filter, a class accepts exactly the values that are instances of it, ellipsis accepts everything, None accepts nothing, any other callable is used as given, a tuple accepts what any member accepts, and any other object, strings included, raises TypeError. The combinators 'any', 'all' and 'not' accept exactly the disjunction, conjunction and negation of what their arguments accept, for any number and nesting of arguments, empty lists included. Predicates receive the entry's path and value, in that order.",
  ["inputs"],"every filter expression of any depth and width, every path and value",
  "tests check a handful of flat filters; nesting, empty combinators, order-sensitive cases and rejected filter kinds are not sampled",
  ["nnx/partitioning.py"],[("filter compilation by case analysis","nnx/partitioning.py to_predicate"),("combinators","nnx/partitioning.py Any, All, Not, OfType")],
  ["partitioning.to_predicate","nnx.All","nnx.Not"])
p("C04","State is a canonical mapping with lawful merge and difference",
  "A state built from any mapping or any iterator of pairs behaves as the mapping with the same entries (the last of duplicate paths wins), always iterates in sorted path order, and two states with equal entries are equal and have the same tree structure. Merging states (or '|') has every path of any operand with the value from the last operand that has it; '-' keeps exactly the left entries whose path is not in the right operand; neither changes its operands. Flattening a state as a JAX tree lists its values in sorted path order and unflattening restores paths and values exactly.",
  ["inputs"],"every state, any number of operands, any paths and values",
  "tests only exercise construction and item access on tiny states",
  ["nnx/state.py"],[("sorting constructor","nnx/state.py State.__init__"),("merge/difference","nnx/state.py State.merge, State.__or__, State.__sub__"),("tree registration","nnx/state.py _state_flatten_with_keys, _state_unflatten")],
  ["State(...)","State.merge","State | State","State - State","jax.tree_util on State"])
p("C05","State updates change exactly the updated paths, last update wins",
  "Updating a module in place with a state, a tuple of states, a pure module or a module of the same class leaves it with, at every path in the updates, the value from the last update naming it, and at every other path the value it had; sub-module identities, static attributes and the updates themselves are unchanged. Updating a pure module returns a new pure module whose state is its own state overridden path by path by the updates, with its definition unchanged, and leaves the original alone. Any other kind of update raises and changes nothing.",
  ["inputs","histories"],"every module graph and every list of updates, including overlapping and partial ones",
  "tests update one path of one module with one state; precedence, several overlapping updates, shared modules and the frame are never observed",
  ["nnx/module.py"],[("merge in order then set each path","nnx/module.py _update_module, _set_value_at_path"),("pure update","nnx/module.py Pure.update_state")],
  ["Module.update_state","Pure.update_state"])
p("C06","Mutation and random keys are refused at a different trace level",
  "A module accepts attribute assignment and deletion only while both the innermost JAX trace and the innermost nnx trace are the very ones under which it was created; otherwise it raises the trace-context error and keeps all attributes. The same rule guards drawing a key from a context and partitioning (forking) a context, which then also leave its counters unchanged. Leaving an nnx trace scope, normally or by an exception, restores the trace that was current when it was entered, at any nesting depth.",
  ["inputs","schedules","programs"],"every nesting and interleaving of JAX and nnx traces, every operation sequence",
  "tests check jit and grad once each; deletion, context forking, nested scopes and exceptional exits are not covered",
  ["nnx/module.py","nnx/tracers.py","nnx/contextlib.py"],[("trace snapshot comparison","nnx/tracers.py TraceState.is_valid"),("guards","nnx/module.py Module._setattr; nnx/contextlib.py Context.make_rng, Context.partition"),("trace stack scope","nnx/tracers.py nnx_trace")],
  ["Module.__setattr__","Module.__delattr__","Module.pop_state","Context.make_rng","Context.partition","tracers.nnx_trace"])
p("C07","A context never hands out the same random key position twice",
  "Each key drawn from a named stream is a deterministic function of the stream's base key and of the sequence of draw and fork positions leading to it, and over any history of draws, forks (partition) and merges no two draws reachable from one root stream use the same sequence of positions. A draw or fork advances only the streams it touches, by exactly one, and merging a forked context restarts its counter at zero under a position path distinct from every other fork and draw. Asking for an unknown stream raises ValueError and advances nothing.",
  ["histories","inputs"],"every history of draws, forks and merges over any number of streams",
  "tests check two or three fixed draw/fork sequences",
  ["nnx/contextlib.py"],[("count path and counter folded into the key","nnx/contextlib.py Context.make_rng, _stable_hash"),("fork","nnx/contextlib.py Context.partition, ContextDef.merge")],
  ["Context.make_rng","Context.partition","PureContext.merge"],[("stream counter and count path","position in the fork/draw tree","nnx/contextlib.py RngStream")])
p("C08","Contexts carry exactly their streams and flags, rng filters select by name",
  "A context has exactly the streams it was given (a positional first argument being the 'params' stream, integers seeding new keys) and exactly the given flags; partitioning it and merging back preserves the stream names, base keys and flags, and a partitioned context survives tree flattening. An absent flag reads as None. As an rng filter, None selects no stream, ellipsis all, a string exactly its own name, a callable as given, a sequence the union of its members, a mapping the union of the keys mapped to true, and anything else raises TypeError.",
  ["inputs"],"every set of stream names, keys and flags, every rng filter expression",
  "tests use one or two streams, one flag and flat filters",
  ["nnx/contextlib.py"],[("context construction and (de)composition","nnx/contextlib.py context, Context.partition, ContextDef.merge"),("rng filter compilation","nnx/contextlib.py to_rng_predicate")],
  ["nnx.context","Context.partition","PureContext.merge","scan split_rngs"])
p("C09","Assigning to a variable attribute replaces its value, never its kind",
  "Assigning a plain value to an attribute holding a container keeps the container's class and all metadata and changes only the value; assigning a container succeeds only if it has the same class and equal metadata, otherwise ValueError and no change. Assigning a container to a new or plain attribute stores a copy, so later assignments through one module never change another holder or the container originally given. Reading such an attribute gives the contained value (through the unboxing function if the container has one), and creating or replacing a container applies the same compatibility rule and rejects unknown metadata keys.",
  ["inputs","histories"],"every container class, metadata set, value and assignment sequence",
  "tests assign a few plain values to Params; metadata equality, aliasing and incompatible classes are barely sampled",
  ["nnx/containers.py","nnx/module.py"],[("attribute write","nnx/module.py Module._setattr"),("replace/copy/is_equivalent","nnx/containers.py Container"),("construction from a container","nnx/containers.py ContainerMetaclass.__call__")],
  ["module attribute get/set","Container.replace","Container.copy","Param(...)"])
p("C10","Variables and statics are faithful JAX tree nodes",
  "Flattening a variable (any node container class, user subclasses included) yields exactly its value as the only child with class and all metadata in the structure; unflattening with a new value gives the same class and metadata holding that value, and flatten-unflatten is the identity. A static container has no children, so its value takes part in the structure only: two have equal structure exactly when their values are equal. With-metadata initializers produce variables with the initializer's value and exactly the declared metadata added.",
  ["inputs"],"every container class, value, metadata mapping",
  "tests map one function over a few states",
  ["nnx/containers.py"],[("per-class registration","nnx/containers.py NodeBase.__init_subclass__"),("static registration","nnx/containers.py _static_flatten, _static_unflatten"),("metadata wrapper","nnx/containers.py with_metadata, Container.__init__")],
  ["jax.tree_util on Node/Variable/Static","with_metadata"])
p("C11","Pytree objects are immutable after construction except through replace",
  "Once constructed, an object of a Pytree class not declared mutable rejects every attribute assignment with AttributeError and keeps its fields; no Pytree object, mutable or not, can gain a field after construction. Replace returns a new object of the same class with exactly the given fields changed, container class and metadata kept, and leaves the original unchanged and both objects as immutable as before, even when it raises; unknown fields raise ValueError unless the class is mutable.",
  ["inputs","histories"],"every Pytree class, field set and sequence of assignments and replaces, failing ones included",
  "tests check one assignment and one replace on two classes",
  ["nnx/pytreelib.py"],[("guarded attribute write","nnx/pytreelib.py Pytree._setattr"),("temporary mutability scopes","nnx/pytreelib.py _mutable, _initializing, PytreeMeta.call"),("replace","nnx/pytreelib.py Pytree.replace")],
  ["Pytree attribute set","Pytree.replace"])
p("C12","Pytree flatten/unflatten and state dicts restore the object",
  "Flattening a Pytree object lists exactly its node fields in sorted field order as children and keeps all other fields as structure; unflattening the result gives an object of the same class with identical fields, and with new leaves one differing only in those leaves. Saving to a flax state dict contains exactly the node fields, and restoring it into an object of the same shape yields those values with all other fields kept; missing or unknown field names raise ValueError.",
  ["inputs"],"every Pytree class, nested or not, every field set",
  "tests round-trip two or three small classes",
  ["nnx/pytreelib.py"],[("field partition","nnx/pytreelib.py Pytree._pytree__flatten, _pytree__unflatten"),("flax serialization","nnx/pytreelib.py _to_flax_state_dict, _from_flax_state_dict")],
  ["jax.tree_util on Pytree","flax.serialization"])
p("C13","Functional calls act on a copy; init flags are scoped",
  "Calling a method, possibly nested through attributes and items, via the functional 'apply' of a module, pure module or module definition runs it on a fresh copy built from the given states and returns the output together with the copy's resulting state, leaving the original module and states unchanged; the pure 'call' form returns only the output. The path of attributes and items before the call selects the same callable that ordinary access would. During an 'init' call every reachable module reports that it is initializing, and after it, normal or by exception, none does.",
  ["inputs","programs"],"every module, method, accessor path and argument list, raising calls included",
  "tests call apply directly on the root module only and never raise inside init",
  ["nnx/module.py"],[("delayed accessor and proxy","nnx/module.py DelayedAccessor, CallableProxy"),("clone-then-call","nnx/module.py Module.apply, ModuleDef.apply, Pure.call, Pure.apply"),("flag scope","nnx/module.py Module.init, for_each")],
  ["Module.apply","Pure.apply","Pure.call","ModuleDef.apply","Module.init","Module.is_initializing"])
p("C14","Popping state removes exactly what it returns; sow appends",
  "Popping state with filters from any module graph returns, per filter, exactly the node attributes that filter accepts and no earlier one accepts, each under the path partition would give it, and removes exactly those attributes from the graph, leaving everything else in place; it terminates on shared and cyclic graphs and visits each module once. Sowing a value under a name creates a one-element tuple variable of the requested class or appends to the existing tuple in order, and raises ValueError without any change if the existing attribute is not a variable of that class holding a tuple.",
  ["inputs","histories"],"every module graph, filter list and sequence of sows and pops",
  "tests pop one intermediate from one module",
  ["nnx/module.py"],[("first-match removal","nnx/module.py _pop, _pop_recursive"),("append","nnx/module.py Module.sow")],
  ["Module.pop_state","Module.sow"])
p("C15","Lifted jit, grad and remat equal the plain call, state included",
  "Calling a function through the lifted jit or remat on a module gives the output of the plain call, and afterwards every state path of the module holds what the plain call would have left there; non-stateful jit leaves the module unchanged. Lifted grad returns the gradients of the loss with respect to exactly the state entries selected by the filter, under their paths, plus the auxiliary output if requested, and when stateful propagates the state changes of the call exactly once. A context passed as 'ctx' is forked before it enters the lifted function, and non-module first arguments raise TypeError.",
  ["inputs","programs"],"every function body reading and writing module state, any module graph, any filter, all flag combinations",
  "tests lift one or two tiny functions; stateful/has_aux combinations, filters and contexts are sampled at a few points",
  ["nnx/transforms.py"],[("partition, call, merge updates","nnx/transforms.py JitTransform, GradTransform, remat_apply")],
  ["nnx.jit","nnx.grad","nnx.remat","nnx.Remat"])
p("C16","Lifted scan equals the loop over per-step modules",
  "Running a function through the lifted scan equals the sequential loop in which step i sees, for each mapped variable filter, the i-th slice of its variables along the declared axis, the shared broadcast variables, and the carry variables left by the previous step: the final carry, outputs stacked along the declared axis, the restacked mapped variables and the final carry variables all agree, in reversed order too. Streams selected for splitting give every step its own key, others the same key at each step. Inconsistent lengths raise ValueError.",
  ["inputs","programs"],"every step function, filter/axis assignment, length, direction and argument axes",
  "tests run a few fixed layers with axis 0 and forward direction",
  ["nnx/transforms.py"],[("split, move axes, scan, restack","nnx/transforms.py scan_apply, scan_init"),("prefix map","nnx/transforms.py tree_map_upto_left")],
  ["nnx.scan","nnx.Scan"])
p("C17","Logical axis rules assign each mesh axis at most once, by priority",
  "Translating logical dimension names by a rule list gives each named dimension the mesh axes of the first rule for it whose mesh axes are all still unused, considering rules in order, and leaves dimensions without such a rule, and unnamed ones, unsharded; hence no mesh axis is used twice and the result has one entry per dimension. Duplicate names raise ValueError, no names gives None, and explicit rules override the ambient ones. Leaving a rules scope, normally or by an exception, restores the rules in force on entry.",
  ["inputs"],"every tuple of dimension names and every rule list, including multi-axis and None targets",
  "tests check a few fixed rule lists",
  ["nnx/spmd.py"],[("priority assignment loop","nnx/spmd.py _logical_to_mesh_axes, _mesh_assignment_free"),("scope","nnx/spmd.py logical_axis_rules")],
  ["spmd.logical_to_mesh_axes","spmd.logical_to_mesh","spmd.logical_axis_rules"])
p("C18","Adding and removing an axis name are exact inverses on metadata",
  "Adding a named axis at a non-negative index to a state inserts that name at that index in the sharding of every variable that has one, padding with None when the index lies beyond the end, and changes nothing else: not values, not other metadata, not variables without sharding, not the input state. Removing it at the same index restores the original sharding whenever the index was within the original length. A missing axis-name parameter raises ValueError, and removing a different name than the one present is refused.",
  ["inputs"],"every state, sharding tuple and non-negative axis index",
  "tests use one two-dimensional kernel with index 0",
  ["nnx/spmd.py"],[("insertion/removal","nnx/spmd.py add_axis, remove_axis"),("spec extraction","nnx/spmd.py get_partition_spec")],
  ["spmd.add_axis","spmd.remove_axis","nnx.get_partition_spec"])
p("C19","BatchNorm and Dropout mode selection and running statistics",
  "The mode of batch normalization and dropout is the first given of: call argument, constructor setting, context flag; with none given the call raises ValueError. In running-average mode batch normalization leaves its statistics unchanged and normalizes with them; otherwise it normalizes with the batch statistics over all non-feature axes and replaces each running statistic by momentum * old + (1 - momentum) * batch. Dropout returns its input unchanged when deterministic or at rate zero, zeros at rate one, and otherwise draws exactly one key from its stream and returns each element either zero or divided by the keep probability.",
  ["inputs","histories"],"every combination of mode sources, momentum, axis, rate and call sequence",
  "tests run each layer once or twice with one configuration",
  ["nnx/nn/normalization.py","nnx/nn/stochastic.py","nnx/module.py"],[("mode precedence","nnx/module.py first_from"),("statistics update","nnx/nn/normalization.py BatchNorm.__call__"),("mask","nnx/nn/stochastic.py Dropout.__call__")],
  ["nnx.BatchNorm","nnx.LayerNorm","nnx.Dropout"])
p("C20","Linear, Conv and Embed compute their documented maps and shapes",
  "Linear contracts the last input axis with its kernel and adds the bias along the last axis, keeping all leading axes; Conv applies the declared strides, dilations, groups and padding (int, per-axis int or pair, or named) with any number of leading batch axes, zero included, flattened and restored; Embed selects rows by integer index and attends by inner product, rejecting non-integer indices. Parameters have the declared shapes and dtypes, with one key drawn from 'params' for each parameter created. Invalid padding specifications raise ValueError.",
  ["inputs","configurations"],"every rank, batch shape, kernel size, padding specification and option combination",
  "tests run one configuration of each layer",
  ["nnx/nn/linear.py","nnx/nn/dtypes.py"],[("padding canonicalization","nnx/nn/linear.py canonicalize_padding"),("layer calls","nnx/nn/linear.py Linear, Conv, Embed"),("dtype promotion","nnx/nn/dtypes.py")],
  ["nnx.Linear","nnx.Conv","nnx.Embed"])
p("C21","Module sequences and dicts behave as sequences and mappings of modules",
  "A module sequence built from any finite iterable has its length, iterates over and indexes the items in order (an index at or past the end raises IndexError), and calling it feeds each output to the next item: a tuple as positional arguments, a dict as keyword arguments, anything else as the single argument, passing the context to exactly the items that accept it. A module dict built like dict has exactly the given keys, in length, iteration and item access, with item and attribute access and assignment interchangeable.",
  ["inputs"],"every finite list of callables and argument kinds, every string-keyed mapping",
  "tests call one three-element sequence and read two dict items",
  ["nnx/helpers.py"],[("sequence","nnx/helpers.py Sequence"),("dict","nnx/helpers.py Dict"),("keyword detection","nnx/helpers.py has_keyword_arg")],
  ["nnx.Sequence","nnx.Dict"])
p("C22","Train state applies one optimizer step and keeps everything else",
  "Applying gradients returns a new train state whose parameters and optimizer state are what the optimizer gives for those gradients, the current optimizer state and the current parameters, whose step is one higher, and whose other fields are unchanged except those given by keyword; the original train state is unchanged. Applying the model runs the stored definition on exactly the given states, names standing for the train state's own fields, in order.",
  ["inputs","histories"],"every optimizer, parameter state, gradient and extra field, any number of steps",
  "tests do one step with one optimizer",
  ["nnx/helpers.py"],[("step","nnx/helpers.py TrainState.apply_gradients, TrainState.apply")],
  ["nnx.TrainState.apply_gradients","nnx.TrainState.apply"])
p("C23","Equal module definitions are interchangeable; ids never collide",
  "Two module definitions compare equal exactly when they agree on class, sub-module structure (sharing included), static fields (up to ==) and initialization flags throughout, and equal ones hash equal, so merging either with the same state gives isomorphic modules and a compiled function is reused only when that is sound. Definitions flatten to no JAX leaves and survive tree operations unchanged. Module ids are never reused: ids from distinct draws, copies and deep copies included, are unequal, and equality and hash of ids agree.",
  ["inputs","histories"],"every pair of module graphs, every history of id draws and copies",
  "tests never compare definitions and draw two ids",
  ["nnx/module.py","nnx/ids.py"],[("definition equality and hash","nnx/module.py ModuleDef.__eq__, __hash__, _moddef_flatten"),("counter under a lock","nnx/ids.py UUIDManager.__call__, UUID")],
  ["ModuleDef ==/hash","nnx.jit cache","ids.uuid"])
p("C24","Dataclass field kinds wrap each field exactly as declared",
  "After constructing a dataclass module or pytree, every field declared as a parameter, variable, node or static field holds a container of exactly that class (with the declared sharding) around the constructor's or default value, and every other field holds the value as given. Defaults, factories, init, repr, compare and user metadata behave as in a plain dataclass and caller-supplied metadata is never modified; declaring the reserved metadata key raises ValueError.",
  ["inputs","programs"],"every combination of field kinds, defaults, options and metadata",
  "tests build two or three dataclasses without options",
  ["nnx/dataclasses.py","nnx/module.py","nnx/pytreelib.py"],[("field specifiers","nnx/dataclasses.py"),("post-init wrapping","nnx/module.py ModuleMeta._meta_call; nnx/pytreelib.py PytreeMeta.call")],
  ["nnx.dataclass","nnx.param_field","nnx.var_field","nnx.node_field","nnx.static_field"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
