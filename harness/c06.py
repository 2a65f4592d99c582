from lib import *
from nnx import tracers
from nnx.errors import TraceContextError


def scopes():
  """contexts that change the innermost jax trace, the nnx trace, both, or none."""
  def jit_only(f):
    @jax.jit
    def g(x):
      f()
      return x
    g(1.0)

  def jit_synced(f):
    @jax.jit
    def g(x):
      with tracers.nnx_trace(tracers.get_top_trace((x,))):
        f()
      return x
    g(1.0)

  def nnx_only(f):
    @jax.jit
    def g(x):
      out.append(tracers.get_top_trace((x,)))
      return x
    out = []
    g(2.0)
    with tracers.nnx_trace(out[0]):
      f()

  def grad(f):
    def g(x):
      with tracers.nnx_trace(tracers.get_top_trace((x,))):
        f()
      return x
    jax.grad(g)(1.0)

  def grad_no_nnx(f):
    def g(x):
      f()
      return x
    jax.grad(g)(1.0)

  def vmap(f):
    def g(x):
      with tracers.nnx_trace(tracers.get_top_trace((x,))):
        f()
      return x
    jax.vmap(g)(jnp.ones(2))

  def plain(f):
    f()

  def same_level_again(f):
    with tracers.nnx_trace(tracers.current_nnx_trace()):
      f()

  def jit_in_grad(f):
    grad(lambda: jit_synced(f))
  return dict(jit_only=jit_only, jit_synced=jit_synced, nnx_only=nnx_only, grad=grad, grad_no_nnx=grad_no_nnx, vmap=vmap,
              plain=plain, same=same_level_again, jit_in_grad=jit_in_grad)


def current():
  return tracers.current_jax_trace(), tracers.current_nnx_trace()


def ctx_pic(c):
  return {k: (s.count, s.count_path) for k, s in c._rngs.items()}


def probe(m, c, born):
  """try every guarded operation; born = traces at creation."""
  j, n = current()
  valid = born[0] is j and born[1] is n
  before = dict(public(m))
  deep = {k: (dict(vars(v)) if isinstance(v, containers.Container) else None) for k, v in before.items()}

  def intact():
    now = public(m)
    assert list(now) == list(before) and all(now[k] is before[k] for k in before)
    for k, d in deep.items():
      if d is not None:
        assert all(vars(now[k])[q] is d[q] for q in d)
  if not valid:
    for k, v in [("p", 1), ("p", nnx.Param(5)), ("s", 3), ("brand_new", 3), ("sub", M0()), ("p", nnx.BatchStat(1)), ("b", 2)]:
      raised(TraceContextError, lambda: setattr(m, k, v))
      intact()
    for k in ("p", "s", "sub", "missing"):
      raised(TraceContextError, lambda: delattr(m, k))
      intact()
    raised(TraceContextError, lambda: m.pop_state(nnx.Param))
    intact()
    raised(TraceContextError, lambda: m.sow(nnx.Intermediate, "sown", 1))
    intact()
    raised(TraceContextError, lambda: m.update_state(State({"p": nnx.Param(3)})))
    intact()
    pic = ctx_pic(c)
    raised(TraceContextError, lambda: c.make_rng("params"))
    raised(TraceContextError, lambda: c.make_rng("other"))
    raised(TraceContextError, lambda: c.partition())
    assert ctx_pic(c) == pic
    # reading stays possible
    m.p, m.s, m.sub, c.get_flag("x"), c.has_rng("params")
  else:
    m.p = 41
    m.s = 42
    m.fresh = 1
    assert vars(m)["p"].value == 41 and m.s == 42
    del m.fresh
    pic = ctx_pic(c)
    c.make_rng("params")
    c.partition()
    now = ctx_pic(c)
    assert now["params"][0] == pic["params"][0] + 2 and now["other"][0] == pic["other"][0] + 1
    m.p = before["p"].value
  return valid


def make():
  m = M1(p=nnx.Param(1), s=2, b=nnx.BatchStat(0))
  m.sub = M0()
  return m, nnx.context(jax.random.PRNGKey(0), other=jax.random.PRNGKey(1), flags={}), current()


def levels(rng):
  """create at one scope, probe at others nested inside."""
  S = scopes()
  names = list(S)
  results = []
  outer = rng.choice(names)
  inner = [rng.choice(names) for _ in range(3)]

  def body():
    m, c, born = make()
    results.append(probe(m, c, born))
    for nm in inner:
      S[nm](lambda: results.append((nm, probe(m, c, born))))
    assert probe(m, c, born)
  S[outer](body)
  assert results[0] is True
  for nm, r in results[1:]:
    if nm in ("plain", "same", "grad_no_nnx"):
      assert r is True
    else:
      assert r is False, nm


def escape(rng):
  """objects that leave the scope they were created in are refused outside."""
  S = scopes()
  nm = rng.choice([k for k in S if k not in ("plain", "same", "grad_no_nnx")])
  keep = []
  S[nm](lambda: keep.append(make()))
  m, c, born = keep[0]
  assert probe(m, c, born) is False
  nm2 = rng.choice(list(S))
  S[nm2](lambda: probe(m, c, born))


def derived(rng):
  """clones, merges and forks belong to the trace where they are made."""
  S = scopes()
  m, c, born = make()

  def body():
    here = current()
    k = m.clone()
    vars(k)["s"] = 2
    c2 = c0.merge()
    k.p = 5
    k.fresh = 1
    c2.make_rng("params")
    raised(TraceContextError, lambda: setattr(m, "p", 1)) if not (here[0] is born[0] and here[1] is born[1]) else None
    keep.append((k, c2, here))
  c0 = c.partition()
  keep = []
  nm = rng.choice(list(S))
  S[nm](body)
  k, c2, here = keep[0]
  if nm not in ("plain", "same", "grad_no_nnx"):
    raised(TraceContextError, lambda: setattr(k, "p", 1))
    raised(TraceContextError, lambda: delattr(k, "s"))
    raised(TraceContextError, lambda: c2.make_rng("params"))
    raised(TraceContextError, lambda: c2.partition())


class Boom(Exception):
  pass


class Boom2(BaseException):
  pass


def scope_restore(rng):
  base = tracers.current_nnx_trace()
  stack0 = list(tracers.TRACE_CONTEXT.nnx_trace_stack)
  traces = []

  @jax.jit
  def g(x):
    traces.append(tracers.get_top_trace((x,)))
    return x
  g(1.0)
  g(jnp.ones(2))
  traces.append(base)

  def nest(depth):
    here = tracers.current_nnx_trace()
    for _ in range(rng.randrange(1, 3)):
      t = rng.choice(traces)
      mode = rng.randrange(4)
      try:
        with tracers.nnx_trace(t):
          assert tracers.current_nnx_trace() is t
          if depth:
            nest(depth - 1)
          assert tracers.current_nnx_trace() is t
          if mode == 0:
            raise Boom()
          if mode == 1:
            raise Boom2()
      except (Boom, Boom2):
        pass
      assert tracers.current_nnx_trace() is here
  nest(4)
  assert tracers.TRACE_CONTEXT.nnx_trace_stack == stack0
  # generators and early return leave the scope too

  def early():
    for i in range(3):
      with tracers.nnx_trace(traces[0]):
        if i == 1:
          return i
  early()
  assert tracers.current_nnx_trace() is base
  # an exception inside a lifted transform restores the trace
  class Mod(nnx.Module):
    def __call__(self, x):
      raise Boom()
  mm = Mod()
  for tr in (nnx.jit, nnx.remat, lambda f: nnx.grad(f)):
    try:
      tr(lambda m, x: m(x))(mm, 1.0)
    except Boom:
      pass
    except Exception:
      pass
    assert tracers.current_nnx_trace() is base and tracers.TRACE_CONTEXT.nnx_trace_stack == stack0
  mm.ok = 1
  # other threads have their own stack
  import threading
  seen = []

  def th():
    seen.append(tracers.current_nnx_trace())
    with tracers.nnx_trace(traces[0]):
      seen.append(tracers.current_nnx_trace())
  with tracers.nnx_trace(traces[1]):
    t = threading.Thread(target=th)
    t.start()
    t.join()
    assert tracers.current_nnx_trace() is traces[1]
  assert len(seen) == 2 and seen[1] is traces[0]


CHECKS = [("levels", levels, 40), ("escape", escape, 30), ("derived", derived, 30), ("scope_restore", scope_restore, 40)]
