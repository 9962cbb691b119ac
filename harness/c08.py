"""C08 expected improvement and lower confidence bound: values and selections."""
import sys
import numpy as np
import scipy.stats as st
from pySOT.auxiliary_problems import ei_ga, ei_merit, lcb_ga, lcb_merit
from . import gen
from .common import Inconclusive, case, close, require

EI = sys.modules["pySOT.auxiliary_problems.ei_ga"]
LCB = sys.modules["pySOT.auxiliary_problems.lcb_ga"]


def want_ei(mu, sig, best):
    g = (best - mu) / sig
    return sig * (g * st.norm.cdf(g) + st.norm.pdf(g))


def near(X, XX, dtol):
    d = np.sqrt(((X[:, None] - XX[None]) ** 2).sum(axis=2)).min(axis=1)
    return d, d < dtol * (1 - 1e-9), d >= dtol * (1 + 1e-9)


@case("C08", n=400)
def merits(ctx):
    r = ctx.rng
    p = gen.problem(r, dim=r.randint(1, 5))
    s = gen.surrogate(p, gp=True, k=float(r.rand()))
    n, m = r.randint(1, 8), r.randint(1, 8)
    X, XX, fX = gen.points(r, p, n), gen.points(r, p, m), r.randn(m, 1)
    if r.rand() < 0.6:
        X[r.randint(n)] = XX[r.randint(m)]
    if r.rand() < 0.5:
        X[r.randint(n)] = XX[r.randint(m)] + 0.02
    dtol = [0.0, 1e-3, 0.1, 1.0][r.randint(4)]
    kappa = [2.0, 0.5, 0.0, 3.0][r.randint(4)]
    ctx.note(X=X, XX=XX, fX=fX, dtol=dtol, kappa=kappa)
    X0, XX0, f0 = X.copy(), XX.copy(), fX.copy()
    mu, sig = s.predict(X), s.predict_std(X)
    kw = {} if dtol == 0 and r.rand() < 0.5 else {"XX": XX, "dtol": dtol}
    ei = ei_merit(X, s, fX, **kw)
    lcb = lcb_merit(X, s, fX, kappa=kappa, **kw)
    require(np.array_equal(X, X0) and np.array_equal(XX, XX0) and np.array_equal(fX, f0), "an argument was modified")
    require(np.size(ei) == n and np.size(lcb) == n, "shape of the acquisition values %s, %s" % (np.shape(ei), np.shape(lcb)))
    ei, lcb = np.ravel(ei), np.ravel(lcb)
    we, wl = want_ei(mu, sig, fX.min()).ravel(), (mu - kappa * sig).ravel()
    if dtol > 0:
        d, nr, fr = near(X, XX, dtol)
    else:
        nr, fr = np.zeros(n, bool), np.ones(n, bool)
    require(bool(np.all(ei[nr] == 0)) and bool(np.all(np.isposinf(lcb[nr]))), "points within the tolerance are not replaced by zero and infinity", ei=ei, lcb=lcb)
    require(close(ei[fr], we[fr], 1e-9), "expected improvement", got=ei, want=we)
    require(close(lcb[fr], wl[fr], 1e-9), "lower confidence bound", got=lcb, want=wl)


@case("C08", n=60)
def real_gp(ctx):
    """With the library's own Gaussian process."""
    from pySOT.surrogate import GPRegressor
    from sklearn.gaussian_process import GaussianProcessRegressor
    from sklearn.gaussian_process.kernels import RBF, WhiteKernel
    r = ctx.rng
    p = gen.problem(r, dim=r.randint(1, 4), ints=0)
    s = GPRegressor(dim=p.dim, lb=p.lb, ub=p.ub, gp=GaussianProcessRegressor(kernel=RBF(0.5) + WhiteKernel(1e-3), optimizer=None))
    Z, f = gen.points(r, p, 7, False), 5 * r.randn(7, 1)
    s.add_points(Z, f)
    X = gen.points(r, p, 4, False)
    mu, sig = s.predict(X).ravel(), s.predict_std(X).ravel()
    require(close(np.ravel(ei_merit(X, s, f)), want_ei(mu, sig, f.min()), 1e-7), "expected improvement with a Gaussian process")
    require(close(np.ravel(lcb_merit(X, s, f, kappa=1.5)), mu - 1.5 * sig, 1e-7), "lower confidence bound with a Gaussian process")


class FakeGA:
    """Records the objective and returns a scripted point with the objective value there."""
    plan = None

    def __init__(self, function, dim, lb, ub, int_var=None, pop_size=100, num_gen=100, start="SLHD"):
        self.function, self.dim, self.lb, self.ub, self.int_var = function, dim, lb, ub, int_var

    def optimize(self):
        x = FakeGA.plan.pop(0)
        FakeGA.seen.append(self)
        v = np.ravel(self.function(np.array(x, copy=True).reshape(1, -1)))[0]
        FakeGA.values.append(v)
        return x.copy(), v


@case("C08", n=300)
def selection(ctx):
    """ei_ga and lcb_ga with the optimizer replaced by a scripted one."""
    r = ctx.rng
    which = r.randint(2)
    mod = EI if which == 0 else LCB
    names = [n for n in ("GA", "GeneticAlgorithm") if hasattr(mod, n)]
    if not names:
        raise Inconclusive("the optimizer is not looked up in the module")
    p = gen.problem(r, dim=r.randint(1, 5))
    s = gen.surrogate(p, gp=True, k=float(r.rand()))
    n, k = r.randint(1, 7), r.randint(1, 5)
    X, fX = gen.points(r, p, n), r.randn(n, 1)
    Xp = [None, np.empty((0, p.dim)), gen.points(r, p, 2)][r.randint(3)]
    dtol = [1e-3, 0.2, 1.0][r.randint(3)]
    plan = gen.points(r, p, k)
    if r.rand() < 0.4:
        plan[r.randint(k)] = X[r.randint(n)]
    if k > 1 and r.rand() < 0.4:
        plan[r.randint(1, k)] = plan[0]
    tol = None
    Z = X if Xp is None else np.vstack([X, Xp])
    want, cur, stop = [], Z.copy(), None
    kappa = [2.0, 0.7][r.randint(2)]
    vals = []
    for i in range(k):
        x = plan[i][None]
        d, nr, fr = near(x, cur, dtol)
        if not nr[0] and not fr[0]:
            ctx.nontrivial = 0
            return
        mu, sig = s.predict(x)[0, 0], s.predict_std(x)[0, 0]
        v = (0.0 if nr[0] else want_ei(mu, sig, fX.min())) if which == 0 else (np.inf if nr[0] else mu - kappa * sig)
        vals.append(v)
        cur = np.vstack([cur, x])
    fin = [v for v in vals if np.isfinite(v)] or [0.0]
    j = r.randint(len(fin))
    tol = float(fin[j] + [1e-6, -1e-6, 0.3, -0.3][r.randint(4)])
    if which == 0:
        tol = max(tol, 1e-7)
        bad = [v < tol for v in vals]
    else:
        if r.rand() < 0.2:
            tol = None
        bad = [tol is not None and v > tol for v in vals]
    ctx.note(search=["ei_ga", "lcb_ga"][which], X=X, fX=fX, Xpend=Xp, plan=plan, dtol=dtol, threshold=tol, values=vals)
    FakeGA.plan, FakeGA.seen, FakeGA.values = [q.copy() for q in plan], [], []
    old = {q: getattr(mod, q) for q in names}
    X0 = X.copy()
    try:
        for q in names:
            setattr(mod, q, FakeGA)
        if which == 0:
            out = ei_ga(num_pts=k, opt_prob=p, surrogate=s, X=X, fX=fX, Xpend=Xp, dtol=dtol, ei_tol=tol)
        else:
            kw = {} if tol is None and r.rand() < 0.5 else {"lcb_target": tol}
            out = lcb_ga(num_pts=k, opt_prob=p, surrogate=s, X=X, fX=fX, Xpend=Xp, dtol=dtol, kappa=kappa, **kw)
    finally:
        for q in names:
            setattr(mod, q, old[q])
    require(np.array_equal(X, X0), "an argument was modified")
    for i, v in enumerate(FakeGA.values):
        w = -vals[i] if which == 0 else vals[i]
        require(v == w or abs(v - w) <= 1e-9 * (1 + abs(w)), "the objective of search %d gives %r at the point it returned, the acquisition function is %r" % (i, v, w))
    for g in FakeGA.seen:
        require(g.dim == p.dim and np.array_equal(g.lb, p.lb) and np.array_equal(g.ub, p.ub) and np.array_equal(g.int_var, p.int_var), "the optimizer is given another domain")
    if any(bad):
        require(out is None, "does not give up although search %d has the value %r beyond the threshold %r" % (bad.index(True), vals[bad.index(True)], tol), result=out)
    else:
        require(out is not None, "gives up although no value %s is beyond the threshold %r" % (vals, tol))
        require(out.shape == (k, p.dim) and np.array_equal(out, plan), "the points returned are not those the optimizer found, in order", got=out, want=plan)
    # the objective rounds the integer variables of any point and does not modify it
    if len(p.int_var):
        FakeGA.seen[0]
        Y = p.lb + (p.ub - p.lb) * r.rand(3, p.dim)
        Y0 = Y.copy()
        g = FakeGA.seen[0].function
        a = np.ravel(g(Y))
        require(np.array_equal(Y, Y0), "the objective modifies the population")


@case("C08", n=6, cpu=120)
def full_search(ctx):
    """With the real optimizer: feasible points, kept apart, best found value decides."""
    r = ctx.rng
    p = gen.problem(r, dim=r.randint(1, 4))
    s = gen.surrogate(p, gp=True, k=float(r.rand()))
    X, fX = gen.points(r, p, 5), r.randn(5, 1) + 1
    dtol = 0.02 * np.linalg.norm(p.ub - p.lb)
    k = 2
    for which in (0, 1):
        if which == 0:
            out = ei_ga(num_pts=k, opt_prob=p, surrogate=s, X=X, fX=fX, dtol=dtol, ei_tol=1e-12)
        else:
            out = lcb_ga(num_pts=k, opt_prob=p, surrogate=s, X=X, fX=fX, dtol=dtol)
        ctx.note(out=out)
        if out is None:
            continue
        gen.feasible(p, out, "new point", require)
        cur = X.copy()
        for x in out:
            d, nr, fr = near(x[None], cur, dtol)
            if np.prod(p.ub - p.lb + 1) > 40 or len(p.int_var) == 0:
                require(not nr[0], "new point %s within the tolerance of an earlier one" % x)
            cur = np.vstack([cur, x])
