"""Building blocks of the specifications: symbolic inputs with their preconditions."""
import z3
from ..core import *
from ..core import Engine, Unsupported, PathEnd, PyExc, XR, Pt, coord
from .. import arrays as A
from ..arrays import Arr, Cell
from ..interp import *
from ..interp import PList, SymList, Obj, PClass, PFunc, Builtin, Bound, PDict, simp
from ..loops import LoopSpec, fresh_arr


def unit(name, fn, **k):
    d = {"name": name, "fn": fn}
    d.update(k)
    return d


def sym_dim(E, name="d"):
    d = E.Int(name)
    E.assume(d >= 1)
    E.touch(d)
    return d


def vec(E, n, name, dtype="f"):
    return fresh_arr(E, (n,), dtype, False, name)


def mat(E, n, d, name, dtype="f", row=False):
    return fresh_arr(E, (n, d), dtype, row, name)


def rng(i, n):
    return b_and(ge(i, 0), lt(i, n))


def box(E, d, lbname="lb", ubname="ub"):
    lb, ub = vec(E, d, lbname), vec(E, d, ubname)
    E.assume_forall(("Int",), lambda j: b_imp(rng(j, d), lt(lb.at(j), ub.at(j))), "lb<ub")
    return lb, ub


def int_vars(E, d, name="iv", lb=None, ub=None, distinct=False):
    """Index array of integer variables: entries in [0,d); member predicate."""
    m = E.Int(name + "_n")
    E.assume(b_and(m >= 0, m <= d))
    a = fresh_arr(E, (m,), "i", False, name)
    E.assume_forall(("Int",), lambda k: b_imp(rng(k, m), rng(a.at(k), d)), "int_var range")
    if distinct:
        E.assume_forall(("Int", "Int"), lambda k, l: b_imp(b_and(k >= 0, lt(k, l), lt(l, m)), ne(a.at(k), a.at(l))), "int_var distinct")
    en = A.enum_of(a)
    if lb is not None:
        E.assume_forall(("Int",), lambda j: b_imp(b_and(rng(j, d), en.member(j)), b_and(is_integral(lb.at(j)), is_integral(ub.at(j)))), "integer bounds")
    return a


def post(E, name, goal, **k):
    return E.prove(name, goal, **k)


def sk_int(E, name, lo, hi):
    i = E.Int(name)
    E.touch(i)
    E.assume(b_and(ge(i, lo), lt(i, hi)))
    return i


def prove_same(E, name, a, b):
    """a and b are equal values (arrays elementwise, anything else identically)."""
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.cell is b.cell and a.dims is None and b.dims is None:
            return E.prove(name, True)
        if len(a.shape) != len(b.shape):
            return E.prove(name, False)
        E.prove(name, b_and(*[eq(x, y) for x, y in zip(a.shape, b.shape)]))
        ix = [E.Int("s") for _ in a.shape]
        for i in ix:
            E.touch(i)
        return E.prove(name, b_imp(b_and(*[rng(i, n) for i, n in zip(ix, a.shape)]), eq(a.at(*ix), b.at(*ix))))
    if is_scalar(a) and is_scalar(b) and not isinstance(a, bool) and not isinstance(b, bool):
        return E.prove(name, eq(a, b))
    return E.prove(name, a is b)


def prove_general(E, name, goal, terms, facts):
    """Prove goal from facts (each proved first) for arbitrary values of the terms: keeps nonlinear context out of linear arguments."""
    for k, f in enumerate(facts):
        E.lemma("%s (fact %d used)" % (name, k + 1), f)
    sub_ = [(t, z3.Const("gen!%d" % k, t.sort())) for k, t in enumerate(terms)]
    s = z3.Solver()
    s.set("rlimit", 20000000)
    f = z3.And(*[tobool(x) for x in facts], z3.Not(tobool(goal)))
    for x in sub_:
        f = z3.substitute(f, x)
    s.add(f)
    if s.check() == z3.unsat:
        E.count("z3")
        return E.prove(name, True)
    return E.prove(name, goal)
