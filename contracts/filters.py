"""C03: the filter language.  Specification functions:

acc(f, p, x)   filter f accepts the entry (path p, value x)
vfil(f)        f is a filter (no part of it raises TypeError)
"""
from pyded.spec import *

acc = F("acc", V, V, V, Bool)
vfil = F("vfil", V, Bool)
apply2 = F("apply2", V, V, V, V)


def acc_axioms():
  f, p, x = z3.Consts("f p x", V)
  j = z3.Int("j")
  app = truthy_of(apply2(f, p, x))
  return [
      forall([f, p, x], acc(f, p, x) == And(Not(V.is_SV(f)), Or(
          And(V.is_CV(f), subc(clsof(x), V.cval(f))),
          V.is_EllV(f),
          And(Not(V.is_CV(f)), callable_(f), app),
          And(Not(callable_(f)), V.is_TV(f), exists([j], And(0 <= j, j < tlen(f), acc(tget(f, j), p, x)))))),
             acc(f, p, x)),
      forall([f], vfil(f) == And(Not(V.is_SV(f)), Or(
          V.is_CV(f), V.is_EllV(f), V.is_NoneV(f), callable_(f),
          And(V.is_TV(f), forall([j], Implies(And(0 <= j, j < tlen(f)), vfil(tget(f, j))), tget(f, j))))), vfil(f)),
  ]


def truthy_of(v):
  """truth value of an arbitrary value (the engine's rule)."""
  return And(Not(V.is_NoneV(v)), Implies(V.is_BV(v), V.bval(v)), Implies(V.is_IV(v), V.ival(v) != 0),
             Implies(V.is_SV(v), v != S("")), Implies(V.is_TV(v), tlen(v) != 0),
             Implies(Or(V.is_XV(v), V.is_RV(v), V.is_VD(v)), truthy(v)))


class ToPredicate(Contract):
  props = ("C02", "C03")
  target = "nnx.partitioning.to_predicate"
  params = ("filter",)

  def setup(self, ex, a):
    a.filter = ex.sym("filter")

  def raises(self, ex, a):
    return [("TypeError", Not(vfil(ex.lift(a.filter))))]

  def result(self, ex, a, h0):
    r = ex.fresh("pred")
    ex.assume(callable_(r))
    ex.pred_src = r
    return r

  def ensures(self, ex, a, h0, r):
    f = ex.lift(a.filter)
    if isV(r) and r is getattr(ex, "pred_src", None):
      p, x = z3.Consts("p!tp x!tp", V)
      return [("meaning", forall([p, x], truthy_of(apply2(r, p, x)) == acc(f, p, x), apply2(r, p, x)))]
    # verification: apply the returned object to an arbitrary entry
    p, x = ex.fresh("path"), ex.fresh("value")
    ex.assume(And(p != Abs, x != Abs))
    res = ex.call(r, [p, x], {})
    t = ex.truth(res)
    t = z3.BoolVal(t) if isinstance(t, bool) else t
    return [("the predicate accepts exactly what the filter means", t == acc(f, p, x))]



def attempt(thunk):
  try:
    return True, thunk()
  except Raised as e:
    return False, e.exc


def combinator(name, kind):
  def run(ex):
    fs = ex.sym("filters", "tuple")
    i = z3.Int("i!cb")
    bad = exists([i], And(0 <= i, i < tlen(fs), Not(vfil(tget(fs, i)))))
    ex.prove("cover: arguments exist", z3.BoolVal(False), kind="cover")
    ok, r = attempt(lambda: ex.call(ClassV(ex.cls(name)), [Star(fs)], {}))
    if not ok:
      ex.prove_raise([("TypeError", bad)], r)
      return
    ex.prove("cover: construction succeeds", z3.BoolVal(False), kind="cover-any")
    ex.prove("invalid arguments are refused", Not(bad))
    p, x = ex.sym("path"), ex.sym("value")
    res = ex.truth(ex.call(r, [p, x], {}))
    res = z3.BoolVal(res) if isinstance(res, bool) else res
    if kind == "any":
      want = exists([i], And(0 <= i, i < tlen(fs), acc(tget(fs, i), p, x)))
    else:
      want = forall([i], Implies(And(0 <= i, i < tlen(fs)), acc(tget(fs, i), p, x)), tget(fs, i))
    ex.prove(f"accepts exactly the {'disjunction' if kind == 'any' else 'conjunction'} of its arguments", res == want)
    w = [w for w in ex.writes if w[0] != "havoc"]
    for x in w:
      ex.prove("calling and building change no existing object", x[1] >= 0, kind="frame")
  l = Lemma(f"{name} [combinator]", run)
  l.props = ("C03",)
  return l


def not_combinator():
  def run(ex):
    f = ex.sym("filter")
    ex.prove("cover: arguments exist", z3.BoolVal(False), kind="cover")
    ok, r = attempt(lambda: ex.call(ClassV(ex.cls("nnx.partitioning.Not")), [f], {}))
    if not ok:
      ex.prove_raise([("TypeError", Not(vfil(f)))], r)
      return
    ex.prove("invalid arguments are refused", vfil(f))
    p, x = ex.sym("path"), ex.sym("value")
    res = ex.truth(ex.call(r, [p, x], {}))
    res = z3.BoolVal(res) if isinstance(res, bool) else res
    ex.prove("accepts exactly the negation of its argument", res == Not(acc(f, p, x)))
  l = Lemma("nnx.partitioning.Not [combinator]", run)
  l.props = ("C03",)
  return l


SPECS = [ToPredicate(), combinator("nnx.partitioning.Any", "any"), combinator("nnx.partitioning.All", "all"),
         not_combinator()]
AXIOMS = acc_axioms
