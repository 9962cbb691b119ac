"""C20 validation of configurations: valid ones are accepted, each kind of invalid one is rejected."""
import numpy as np
from pySOT.experimental_design import LatinHypercube, SymmetricLatinHypercube
from pySOT.optimization_problems import OptimizationProblem
from pySOT.strategy import DYCORSStrategy, EIStrategy, LCBStrategy, RandomStrategy, SOPStrategy, SRBFStrategy
from pySOT.surrogate import CubicKernel, GPRegressor, LinearTail, PolyRegressor, RBFInterpolant
from pySOT.utils import check_opt_prob
from . import gen
from .common import Violation, case, require

CLS = {"SRBF": SRBFStrategy, "DYCORS": DYCORSStrategy, "EI": EIStrategy, "LCB": LCBStrategy, "SOP": SOPStrategy}


class Counting(gen.Prob):
    calls = 0

    def eval(self, x):
        self.calls += 1
        return 0.0


def valid(r, which):
    q = gen.problem(r, dmax=5)
    p = Counting(q.dim, q.lb, q.ub, q.int_var)
    n = 2 * (p.dim + 1)
    D = (LatinHypercube if r.rand() < 0.5 else SymmetricLatinHypercube)(p.dim, n) if not len(p.int_var) else gen.Design(r, p, n)
    if hasattr(D, "iterations"):
        D.iterations = 20
    s = gen.surrogate(p, gp=True) if which in ("EI", "LCB") else (gen.surrogate(p) if r.rand() < 0.5 else RBFInterpolant(dim=p.dim, lb=p.lb, ub=p.ub, kernel=CubicKernel(), tail=LinearTail(p.dim)))
    a = bool(r.rand() < 0.5)
    kw = dict(max_evals=int(n + r.randint(0, 50)), opt_prob=p, exp_design=D, surrogate=s, asynchronous=a, batch_size=int(r.randint(1, 5)))
    if a and r.rand() < 0.5:
        kw["batch_size"] = None
    if which == "SOP":
        kw["ncenters"] = int(r.randint(4, 9))
    if which in ("SRBF", "DYCORS") and r.rand() < 0.7:
        w = [float(v) for v in r.choice([0.0, 1.0, 0.25, 0.5, 0.999], size=r.randint(1, 5))]
        kw["weights"] = np.array(w) if r.rand() < 0.3 else w
    return kw, p


def build(which, kw):
    """-> (object, None) or (None, exception)"""
    try:
        return CLS[which](**kw), None
    except Exception as e:
        return None, e


@case("C20", n=120)
def accepted(ctx):
    r = ctx.rng
    which = str(r.choice(list(CLS)))
    kw, p = valid(r, which)
    ctx.note(which=which, **{k: repr(v)[:200] for k, v in kw.items()})
    s, e = build(which, kw)
    require(e is None, "a valid configuration is rejected: %s: %s" % (type(e).__name__, e))
    require(p.calls == 0, "evaluations during construction")
    n = kw["exp_design"].num_pts
    kw["max_evals"] = n
    s, e = build(which, kw)
    require(e is None, "a budget equal to the design size is rejected: %s: %s" % (type(e).__name__, e))


def corrupt(r, which, kw, p):
    """-> description of one invalid argument put into kw"""
    n = kw["exp_design"].num_pts
    k = r.randint(8)
    if k == 0:
        v = [0, -3, n - 1, float(n + 20), str(n + 20), None, n + 0.5, [n + 20], -(n + 20)][r.randint(9)]
        kw["max_evals"] = v
        return "max_evals=%r (design of %d points)" % (v, n)
    if k == 1:
        kw["asynchronous"], kw["batch_size"] = False, None
        return "synchronous without batch size"
    if k == 2:
        v = [None, object(), "rbf", np.zeros((3, p.dim)), p, kw["exp_design"]][r.randint(6)]
        kw["surrogate"] = v
        return "surrogate=%r" % type(v)
    if k == 3:
        class Fake:
            num_pts, dim = n, p.dim

            def generate_points(self, lb=None, ub=None, int_var=None):
                return gen.points(np.random.RandomState(0), p, n)
        kw["exp_design"] = [Fake(), p, kw["surrogate"]][r.randint(3)] if r.rand() < 0.7 else Fake()
        return "exp_design of type %r" % type(kw["exp_design"])
    if k == 4:
        class FakeP:
            dim, lb, ub, int_var, cont_var = p.dim, p.lb, p.ub, p.int_var, p.cont_var

            def eval(self, x):
                return 0.0
        kw["opt_prob"] = FakeP()
        return "problem of the wrong type"
    if k == 5:
        d = p.dim + [-1, 1, 2][r.randint(3)]
        if d < 1:
            d = p.dim + 1
        D = gen.Design(r, gen.problem(r, dim=d, ints=0), n)
        kw["exp_design"] = D
        return "design of dimension %d for a problem of dimension %d" % (d, p.dim)
    if which == "SOP":
        if r.rand() < 0.5:
            v = [3, 0, -1, 4.0, "5", None][r.randint(6)]
            kw["ncenters"] = v
            return "ncenters=%r" % (v,)
        kw["asynchronous"], kw["batch_size"] = False, kw["ncenters"] + int(r.randint(1, 4))
        return "batch of %d with %d centers" % (kw["batch_size"], kw["ncenters"])
    if which in ("SRBF", "DYCORS"):
        w = [float(v) for v in r.rand(r.randint(1, 5))]
        w[r.randint(len(w))] = [1.5, -0.25, float("nan"), float("inf"), 1.0 + 1e-9, -1e-9][r.randint(6)]
        kw["weights"] = np.array(w) if r.rand() < 0.4 else w
        return "weights %r" % (w,)
    kw["surrogate"] = [gen.surrogate(p), RBFInterpolant(dim=p.dim, lb=p.lb, ub=p.ub), PolyRegressor(dim=p.dim, lb=p.lb, ub=p.ub)][r.randint(3)]
    return "%s with a surrogate that is not a Gaussian process" % which


@case("C20", n=500)
def rejected(ctx):
    r = ctx.rng
    which = str(r.choice(list(CLS)))
    kw, p = valid(r, which)
    what = corrupt(r, which, kw, p)
    ctx.note(which=which, invalid=what)
    s, e = build(which, kw)
    require(e is not None, "%s accepts an invalid configuration: %s" % (which, what))
    require(p.calls == 0, "evaluations before the rejection")


@case("C20", n=60)
def random_strategy(ctx):
    r = ctx.rng
    p = gen.problem(r)
    RandomStrategy(int(r.randint(1, 20)), p)
    v = [0, -1, 3.0, "4", None][r.randint(5)]
    ctx.note(max_evals=v)
    try:
        RandomStrategy(v, p)
    except Exception:
        pass
    else:
        raise Violation("RandomStrategy accepts max_evals=%r" % (v,))
    bad, what = badproblem(r)
    ctx.note(problem=what)
    try:
        RandomStrategy(5, bad)
    except Exception:
        return
    raise Violation("RandomStrategy accepts a problem with %s" % what)


class P(OptimizationProblem):
    def eval(self, x):
        return 0.0


def good(r):
    q = gen.problem(r)
    p = P()
    p.dim, p.lb, p.ub, p.int_var, p.cont_var = q.dim, q.lb.copy(), q.ub.copy(), q.int_var, q.cont_var
    if r.rand() < 0.3:
        p.int_var, p.cont_var = r.permutation(p.int_var), r.permutation(p.cont_var)
    if len(p.int_var) == 0 and r.rand() < 0.5:
        p.int_var = [] if r.rand() < 0.5 else np.array([])
    if len(p.cont_var) == 0 and r.rand() < 0.5:
        p.cont_var = [] if r.rand() < 0.5 else np.array([])
    return p


def badproblem(r):
    p = good(r)
    d = p.dim
    k = r.randint(14)
    j = r.randint(d)
    if k == 0:
        v = [0, -1, float(d), None, str(d)][r.randint(5)]
        p.dim = v
        return p, "dim=%r" % (v,)
    if k == 1:
        p.lb = list(p.lb)
        return p, "a list of lower bounds"
    if k == 2:
        p.ub = tuple(p.ub)
        return p, "a tuple of upper bounds"
    if k == 3:
        p.lb = np.append(p.lb, -1e3) if r.rand() < 0.5 or d == 1 else p.lb[:-1]
        return p, "lower bounds of the wrong length"
    if k == 4:
        p.ub = np.append(p.ub, 1e3) if r.rand() < 0.5 or d == 1 else p.ub[:-1]
        return p, "upper bounds of the wrong length"
    if k == 5:
        p.lb[j] = p.ub[j]
        return p, "equal bounds in coordinate %d" % j
    if k == 6:
        p.lb[j], p.ub[j] = p.ub[j], p.lb[j]
        return p, "exchanged bounds in coordinate %d" % j
    if k == 7:
        (p.lb if r.rand() < 0.5 else p.ub)[j] = np.nan
        return p, "nan bound"
    iv, cv = np.asarray(p.int_var, dtype=int), np.asarray(p.cont_var, dtype=int)
    if k == 8:  # a variable in both
        p.int_var, p.cont_var = np.union1d(iv, [j]), np.union1d(cv, [j])
        return p, "variable %d integer and continuous" % j
    if k == 9:  # a variable in neither
        p.int_var, p.cont_var = np.setdiff1d(iv, [j]), np.setdiff1d(cv, [j])
        return p, "variable %d undeclared" % j
    if k == 10:  # same number of indices, one out of range
        v = [d, d + 3, -1][r.randint(3)]
        if len(iv) and (r.rand() < 0.5 or not len(cv)):
            p.int_var = iv.copy()
            p.int_var[r.randint(len(iv))] = v
        else:
            p.cont_var = cv.copy()
            p.cont_var[r.randint(len(cv))] = v
        return p, "index %d out of range" % v
    if k == 11:
        if len(iv) and (r.rand() < 0.5 or not len(cv)):
            p.int_var = [int(v) for v in iv]
        else:
            p.cont_var = [int(v) for v in cv]
        return p, "a list of variables"
    if k == 12 and d > 1:  # one repeated, another undeclared
        if len(cv) > 1:
            p.cont_var = cv.copy()
            p.cont_var[0] = cv[1]
            return p, "continuous variable repeated, another undeclared"
        if len(iv) > 1:
            p.int_var = iv.copy()
            p.int_var[0] = iv[1]
            return p, "integer variable repeated, another undeclared"
    if k == 13:  # an extra index, all variables declared
        if len(iv) and (r.rand() < 0.5 or not len(cv)):
            p.int_var = np.append(iv, [d, -1][r.randint(2)])
        else:
            p.cont_var = np.append(cv, [d, -1][r.randint(2)])
        return p, "additional index out of range"

    class Q:
        pass
    q = Q()
    q.__dict__.update(p.__dict__)
    return q, "the wrong type"


@case("C20", n=600)
def problems(ctx):
    r = ctx.rng
    p = good(r)
    ctx.note(good={k: repr(v) for k, v in p.__dict__.items()})
    try:
        check_opt_prob(p)
    except Exception as e:
        raise Violation("a valid problem is rejected: %s: %s" % (type(e).__name__, e))
    b, what = badproblem(r)
    ctx.note(bad={k: repr(v) for k, v in b.__dict__.items()}, what=what)
    try:
        check_opt_prob(b)
    except Exception:
        return
    raise Violation("a problem with %s is accepted" % what)
