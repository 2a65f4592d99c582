"""C22: the train state: construction, one optimizer step, application of the stored definition."""
from pyded.spec import *
from pyded.loops import kpos, LoopSpec
from .containers import cd, isc, plain, eqv, wf_container, VAL, CONT
from . import pytrees as _p
from .pytrees import PT, MUT, INI, wf_done, wf_obj, wf_fields, attr_value, new_fields, contents_of, enumerated, framework, pyt_config, clsmut

USES = ("pytrees",)
TS = "nnx.helpers.TrainState"
upd = F("optimizer update", V, V, V, V, V)
oapply = F("optax.apply_updates", V, V, V)
oinit = F("optimizer init", V, V, V)
asarr = F("jnp.asarray", V, V)


def ts_config(ex):
  pyt_config(ex)
  ex.KLASS_CANDIDATES = ["str", "dict", "int", "tuple"]
  ex.query_classes = [CONT, PT, "nnx.state.State"]

  def val(r):
    ex.assume(And(r != Abs, age(r) <= ex.heap.alloc))
    return r

  def update(ex, a, k):
    if k or len(a) != 4:
      raise Unsupported("arguments of the optimizer's update")
    ex.externals.add("optimizer.update")
    r = upd(*[ex.lift(x) for x in a])
    ex.assume(And(V.is_TV(r), clsof(r) == C("tuple"), tlen(r) == 2, age(r) <= ex.heap.alloc))
    p = (tget(r, 0), tget(r, 1))
    for x in p:
      ex.assume(And(x != Abs, plain(ex, x)), "an optimizer returns no nnx containers")
    return p
  ex.ext_handlers[".update"] = update
  ex.opaque_methods = set(ex.opaque_methods) | {"update", "init"}

  def apply_updates(ex, a, k):
    if k or len(a) != 2:
      raise Unsupported("arguments of apply_updates")
    ex.externals.add("optax.apply_updates")
    r = oapply(ex.lift(a[0]), ex.lift(a[1]))
    ex.assume(plain(ex, r))
    return val(r)
  ex.ext_handlers["optax.apply_updates"] = apply_updates

  def init(ex, a, k):
    if k or len(a) != 2:
      raise Unsupported("arguments of the optimizer's init")
    ex.externals.add("optimizer.init")
    r = oinit(ex.lift(a[0]), ex.lift(a[1]))
    ex.assume(plain(ex, r), "an optimizer returns no nnx containers")
    return val(r)
  ex.ext_handlers[".init"] = init

  def asarray(ex, a, k):
    if k or len(a) != 1:
      raise Unsupported("arguments of asarray")
    r = asarr(ex.lift(a[0]))
    ex.assume(And(V.is_XV(r), plain(ex, r)))
    return val(r)
  ex.ext_handlers["jax.numpy.asarray"] = asarray


def arrays(ex):
  """arithmetic of arrays gives arrays."""
  old = ex.opaque_op

  def op(name, args):
    r = old(name, args)
    if name == "op.add":
      ex.assume(Implies(V.is_XV(ex.lift(args[0])), And(V.is_XV(r), r != Abs)), "arithmetic of arrays gives arrays")
    return r
  ex.opaque_op = op


def state(ex, h, a, n):
  """the value of a field held in a container."""
  return cd(h, cd(h, ex.lift(a.self))[S(n)])[S(VAL)]


NODES = ("params", "opt_state", "step")


def wf_ts(ex, h, v):
  """object invariant: what construction leaves and replace keeps."""
  D = cd(h, v)
  return [("a constructed object", wf_done(ex, h, v)), ("its fields are well formed", wf_fields(ex, h, v)),
          ("params, optimizer state and step are held in containers", And(*[And(isc(ex, D[S(n)], CONT), V.is_RV(D[S(n)]), D[S(n)] != Abs, wf_container(ex, D[S(n)])) for n in NODES])),
          ("whose values are library values or states", And(*[Or(V.is_XV(cd(h, D[S(n)])[S(VAL)]), isc(ex, cd(h, D[S(n)])[S(VAL)], "nnx.state.State")) for n in NODES])),
          ("the step is an array", V.is_XV(cd(h, D[S("step")])[S(VAL)])),
          ("the optimizer is a library value", V.is_XV(D[S("tx")])),
          ("the definition is a module definition", And(D[S("moduledef")] != Abs, V.is_RV(D[S("moduledef")]), isc(ex, D[S("moduledef")], "nnx.module.ModuleDef"), Not(isc(ex, D[S("moduledef")], CONT))))]


def hints(ex):
  for n in NODES:
    ex.field_inv[(PT, n)] = lambda ex, obj, val: ex.hint(val, "nnx:" + CONT)
  ex.field_inv[(PT, "tx")] = lambda ex, obj, val: ex.opaque(val)
  ex.field_inv[(PT, "moduledef")] = lambda ex, obj, val: ex.hint(val, "nnx:nnx.module.ModuleDef")


class ApplyGradients(Contract):
  """one optimizer step: exactly params, opt_state, step and the given fields change, in a new object."""
  props = ("C22",)
  target = TS + ".apply_gradients"
  params = ("self", "grads", "**kwargs")
  config = lambda self, ex: self.conf(ex)
  OWN = ("params", "opt_state", "step")

  def conf(self, ex):
    ts_config(ex)
    ex.ext_handlers["dataclasses.is_dataclass"] = lambda ex, a, k: False
    hints(ex)
    arrays(ex)

  def setup(self, ex, a):
    a.self = ex.sym("self", TS)
    a.grads = ex.sym("grads")
    a.kwargs = ex.sym_map("kwargs")

  def requires(self, ex, a):
    h = ex.heap
    K = a.kwargs
    k = z3.Const("k!tr", V)
    return wf_ts(ex, h, ex.lift(a.self)) + [
            ("keywords are field names", forall([k], Implies(K[k] != Abs, And(V.is_SV(k), k != S("self"), k != S("grads"), Not(framework(k)))), K[k])),
            ("values are plain or containers", forall([k], Implies(K[k] != Abs, Or(plain(ex, K[k]), wf_container(ex, K[k]))), K[k]))]

  def given(self, ex, a, h):
    """the fields given to replace."""
    D = cd(h, ex.lift(a.self))
    u = upd(D[S("tx")], ex.lift(a.grads), state(ex, h, a, "opt_state"), state(ex, h, a, "params"))
    s = state(ex, h, a, "step")
    K = a.kwargs
    K = z3.Store(K, S("params"), oapply(state(ex, h, a, "params"), tget(u, 0)))
    K = z3.Store(K, S("opt_state"), tget(u, 1))
    K = z3.Store(K, S("step"), F("op.add", V, V, V)(s, IV(1)))
    return ex.named(K)

  def raises(self, ex, a):
    h = ex.heap
    k = z3.Const("k!tx", V)
    D = cd(h, ex.lift(a.self))
    K = a.kwargs
    own = Or(*[K[S(n)] != Abs for n in self.OWN])
    unk = exists([k], And(K[k] != Abs, D[k] == Abs), K[k])
    m = clsmut(clsof(ex.lift(a.self)))
    bad = exists([k], And(K[k] != Abs, D[k] != Abs, isc(ex, D[k], CONT), isc(ex, K[k], CONT), Not(eqv(h, D[k], K[k]))), K[k])
    return [("TypeError", own), ("ValueError", And(Not(m), unk)), ("~ValueError", bad), ("AttributeError", And(m, unk))]

  def ensures(self, ex, a, h0, r):
    s, r = ex.lift(a.self), ex.lift(r)
    D, A = ex.named(cd(ex.heap, r)), cd(h0, s)
    k = z3.Const("k!te", V)
    K = self.given(ex, a, h0)
    N = contents_of(ex, D)
    return [("a new train state of the same class", And(V.is_RV(r), V.rval(r) >= h0.alloc, clsof(r) == clsof(s))),
            ("constructed", And(D[S(MUT)] == Abs, D[S(INI)] == Abs)),
            ("all other fields are unchanged", forall([k], Implies(K[k] == Abs, D[k] == A[k]), D[k]))] + \
        new_fields(ex, h0, N, A, K, D, lambda k: K[k] != Abs, "params, opt_state, step and the given fields")


class Apply(Contract):
  """the stored definition applied to the given states, names standing for fields, in order."""
  props = ("C22",)
  target = TS + ".apply"
  params = ("self", "state", "*states")

  def config(self, ex):
    ts_config(ex)
    hints(ex)

    def app(ex, pf, args, kw):
      ex.applied = (pf.bound if hasattr(pf, "bound") else None, list(args), dict(kw))
      r = ex.fresh("caller")
      ex.assume(And(r != Abs, age(r) <= ex.heap.alloc))
      ex.res_of = r
      return r
    ex.call_hooks["nnx.module.ModuleDef.apply"] = app

  def setup(self, ex, a):
    a.self = ex.sym("self", TS)
    a.state = ex.sym("state")
    a.states = ex.sym("states", "tuple")
    ex.applied = None

  def all(self, ex, a):
    return ex.named(ex.lift(ex.t_cat((a.state,), a.states)))

  def requires(self, ex, a):
    h = ex.heap
    D = cd(h, ex.lift(a.self))
    T = ex.lift(a.states)
    i = z3.Int("i!ar")
    return wf_ts(ex, h, ex.lift(a.self)) + [
        ("names are fields", And(tlen(T) >= 0, Implies(V.is_SV(ex.lift(a.state)), D[ex.lift(a.state)] != Abs),
                                 forall([i], Implies(And(0 <= i, i < tlen(T)), And(tget(T, i) != Abs, Implies(V.is_SV(tget(T, i)), D[tget(T, i)] != Abs))), tget(T, i))))]

  def meant(self, ex, a, h, s):
    return If(V.is_SV(s), attr_value(ex, h, cd(h, ex.lift(a.self))[s]), s)

  def ensures(self, ex, a, h0, r):
    if ex.applied is None:
      return [("the definition is applied", z3.BoolVal(False))]
    b, args, kw = ex.applied
    D = cd(h0, ex.lift(a.self))
    args = list(b or ()) + list(args)
    me, rest = args[0], args[1:]
    seq = ex.named(ex.lift(ex.to_tuple(rest[-1].seq if len(rest) == 1 and isinstance(rest[-1], Star) else tuple(rest))))
    T = ex.lift(a.states)
    i = z3.Int("i!ae")
    return [("the stored definition's apply makes the result", And(ex.lift(me) == D[S("moduledef")], ex.lift(r) == ex.res_of, z3.BoolVal(not kw))),
            ("on exactly as many states", tlen(seq) == tlen(T) + 1),
            ("the first one", tget(seq, 0) == self.meant(ex, a, h0, ex.lift(a.state))),
            ("and the others, in order", forall([i], Implies(And(0 <= i, i < tlen(T)), tget(seq, i + 1) == self.meant(ex, a, h0, tget(T, i))), tget(T, i)))]


class Init(Contract):
  """construction: the given definition and optimizer, its initial state, the step, and the further fields."""
  props = ("C22",)
  target = TS + ".__init__"
  params = ("self", "moduledef", "params", "tx", "step", "**kwargs")
  callable = False
  FIXED = ("moduledef", "params", "tx", "opt_state", "step")

  def config(self, ex):
    ts_config(ex)
    hints(ex)

  def setup(self, ex, a):
    a.self = ex.sym("self", TS)
    a.moduledef = ex.sym("moduledef", "nnx.module.ModuleDef")
    a.params = ex.sym("params")
    a.tx = ex.opaque(self.lib(ex, "tx"))
    a.step = self.lib(ex, "step")
    a.kwargs = ex.sym_map("kwargs")

  def lib(self, ex, n):
    t = ex.sym(n)
    ex.assume(V.is_XV(t))
    return t

  def requires(self, ex, a):
    h = ex.heap
    s = ex.lift(a.self)
    D, K = cd(h, s), a.kwargs
    k = z3.Const("k!ir", V)
    return [("an object under construction", And(wf_obj(ex, h, s), D[S(MUT)] != Abs, D[S(INI)] != Abs)),
            ("without fields", forall([k], Implies(And(k != S(MUT), k != S(INI)), D[k] == Abs), D[k])),
            ("a definition", Not(isc(ex, ex.lift(a.moduledef), CONT))),
            ("the parameters are a state", And(V.is_RV(ex.lift(a.params)), isc(ex, ex.lift(a.params), "nnx.state.State"), plain(ex, ex.lift(a.params)))),
            ("keywords are field names", forall([k], Implies(K[k] != Abs, And(V.is_SV(k), k != S("self"), Not(framework(k)), k != S(INI), *[k != S(n) for n in self.FIXED])), K[k])),
            ("values are plain or containers", forall([k], Implies(K[k] != Abs, Or(plain(ex, K[k]), wf_container(ex, K[k]))), K[k]))]

  def modifies(self, ex, a, h0, i):
    return i == V.rval(ex.lift(a.self))

  def fixed(self, ex, a, D, h):
    node = ex.ccode(ex.cls("nnx.pytreelib.TreeNode"))
    held = dict(params=ex.lift(a.params), opt_state=oinit(ex.lift(a.tx), ex.lift(a.params)), step=asarr(ex.lift(a.step)))
    return [("the definition and the optimizer as given", And(D[S("moduledef")] == ex.lift(a.moduledef), D[S("tx")] == ex.lift(a.tx)))] + \
        [(f"{n} in a node container", And(V.is_RV(D[S(n)]), V.rval(D[S(n)]) >= ex.h0.alloc, clsof(D[S(n)]) == node, cd(h, D[S(n)])[S(VAL)] == held[n])) for n in held]

  def others(self, ex, a, D, done, parts=None):
    k, q = z3.Consts("k!io q!io", V)
    K = a.kwargs
    N = contents_of(ex, D)
    vc = isc(ex, K[k], CONT)
    h0 = ex.h0
    return [("a plain value is stored as given", forall([k], Implies(And(done(k), Not(vc)), D[k] == K[k]), D[k], K[k])),
            ("a container is stored as a copy", forall([k], Implies(And(done(k), vc), And(V.is_RV(D[k]), V.rval(D[k]) >= h0.alloc, clsof(D[k]) == clsof(K[k]))), D[k], K[k])),
            ] + [(nm, forall([k, q], Implies(And(d(k), vc), N(k)[q] == cd(h0, K[k])[q]), N(k)[q], z3.simplify(cd(h0, K[k])[q]))) for nm, d in parts or (("with its contents", done),)]

  def loops(self, ex):
    def inv(L):
      a = ex.spec_args
      D = ex.named(cd(ex.heap, ex.lift(a.self)))
      K, O = enumerated(ex, L)
      k = z3.Const("k!il", V)
      done = lambda k: And(K[k] != Abs, kpos(K, O, k) < L.i)
      own = lambda k: Or(k == S(MUT), k == S(INI), *[k == S(n) for n in self.FIXED])
      return [("goes through the keywords", forall([k], K[k] == a.kwargs[k], K[k], a.kwargs[k])),
              ("still under construction", And(D[S(MUT)] != Abs, D[S(INI)] != Abs)),
              ("keys are strings", forall([k], Implies(D[k] != Abs, V.is_SV(k)), D[k])),
              ("fields refer to existing objects", forall([k], age(D[k]) <= ex.heap.alloc, D[k])),
              ("no field is the object itself", forall([k], Implies(And(D[k] != Abs, isc(ex, D[k], CONT)), V.rval(D[k]) != V.rval(ex.lift(a.self))), D[k])),
              ("nothing else", forall([k], Implies(And(Not(own(k)), Not(done(k))), D[k] == Abs), D[k]))] + self.fixed(ex, a, D, ex.heap) + self.others(ex, a, D, done, (("with its contents, of the last keyword", lambda k: And(K[k] != Abs, kpos(K, O, k) == L.i - 1)),
                                                                                   ("with its contents, of the keywords before", lambda k: And(K[k] != Abs, kpos(K, O, k) < L.i - 1))))
    return [LoopSpec(inv, modifies=lambda L, x: x == V.rval(ex.lift(ex.spec_args.self)))]

  def ensures(self, ex, a, h0, r):
    D = ex.named(cd(ex.heap, ex.lift(a.self)))
    k = z3.Const("k!ie", V)
    K = a.kwargs
    own = lambda k: Or(k == S(MUT), k == S(INI), *[k == S(n) for n in self.FIXED])
    return self.fixed(ex, a, D, ex.heap) + self.others(ex, a, D, lambda k: K[k] != Abs) + \
        [("and nothing else", forall([k], Implies(And(Not(own(k)), K[k] == Abs), D[k] == Abs), D[k]))]


SPECS = [ApplyGradients(), Apply(), Init()]
REGISTRY = _p.REGISTRY + SPECS
AXIOMS = list
