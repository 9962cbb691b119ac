"""C16 surrogate container: random histories of adding, resetting, predicting."""
import sys
import types
import numpy as np


class Earth:
    """Stand-in for the regression package behind the MARS wrapper: remembers what it was fitted to."""

    def fit(self, X, y):
        self.X, self.y = np.array(X, copy=True), np.array(y, copy=True)
        return self

    def predict(self, X):
        d = np.linalg.norm(np.asarray(X)[:, None] - self.X[None], axis=2)
        w = np.exp(-3 * d)
        return (w @ self.y).ravel() / w.sum(axis=1)

    def predict_deriv(self, X, variables=None):
        h = 1e-6
        return np.array([[[(self.predict((x + h * e)[None])[0] - self.predict((x - h * e)[None])[0]) / (2 * h) for e in np.eye(len(x))] for x in X]])


if "pyearth" not in sys.modules:
    try:
        import pyearth  # noqa: F401
    except ImportError:
        mod = types.ModuleType("pyearth")
        mod.Earth = Earth
        sys.modules["pyearth"] = mod

from pySOT.surrogate import (ConstantTail, CubicKernel, GPRegressor, LinearKernel, LinearTail, MARSInterpolant, PolyRegressor, RBFInterpolant, TPSKernel,
                             identity, median_capping)
from . import gen
from .common import case, close, require

KINDS = ["rbf", "tps", "lin", "poly", "gp", "mars"]


def aff(x):
    return 3 * x + 1


def build(kind, p, ot):
    kw = dict(dim=p.dim, lb=p.lb, ub=p.ub, output_transformation=ot)
    if kind == "rbf":
        return RBFInterpolant(**kw)
    if kind == "tps":
        return RBFInterpolant(kernel=TPSKernel(), tail=LinearTail(p.dim), **kw)
    if kind == "lin":
        return RBFInterpolant(kernel=LinearKernel(), tail=ConstantTail(p.dim), **kw)
    if kind == "poly":
        return PolyRegressor(**kw)
    if kind == "gp":
        from sklearn.gaussian_process import GaussianProcessRegressor
        from sklearn.gaussian_process.kernels import RBF, WhiteKernel
        return GPRegressor(gp=GaussianProcessRegressor(kernel=RBF(0.4) + WhiteKernel(1e-4), optimizer=None), **kw)
    return MARSInterpolant(**kw)


def expected(kind, p, ot, X, f, q):
    """Prediction of the model family fitted from scratch to the data, independent of the container."""
    U, Q = (X - p.lb) / (p.ub - p.lb), (np.atleast_2d(q) - p.lb) / (p.ub - p.lb)
    v = np.asarray(ot(f.reshape(-1, 1).copy()) if ot else f.reshape(-1, 1), float)
    if ot is median_capping:
        v = f.reshape(-1, 1).copy()
        v[v > np.median(v)] = np.median(v)
    if kind in ("rbf", "tps", "lin"):
        phi = {"rbf": lambda r: r ** 3, "tps": lambda r: np.where(r > 0, r ** 2 * np.log(np.maximum(r, 1e-300)), 0), "lin": lambda r: r}[kind]
        n = len(U)
        P = np.ones((n, 1)) if kind == "lin" else np.hstack([np.ones((n, 1)), U])
        T = np.ones((len(Q), 1)) if kind == "lin" else np.hstack([np.ones((len(Q), 1)), Q])
        nt = P.shape[1]
        A = np.block([[np.zeros((nt, nt)), P.T], [P, phi(np.linalg.norm(U[:, None] - U[None], axis=2)) + 1e-6 * np.eye(n)]])
        if np.linalg.cond(A) > 1e9:
            return None
        c = np.linalg.solve(A, np.vstack([np.zeros((nt, 1)), v]))
        return phi(np.linalg.norm(Q[:, None] - U[None], axis=2)) @ c[nt:] + T @ c[:nt]
    if kind == "poly":
        from sklearn.linear_model import Ridge
        from sklearn.pipeline import make_pipeline
        from sklearn.preprocessing import PolynomialFeatures
        m = make_pipeline(PolynomialFeatures(2), Ridge()).fit(U, v)
        return np.asarray(m.predict(Q)).reshape(-1, 1)
    if kind == "gp":
        K = lambda A, B: np.exp(-0.5 * np.sum((A[:, None] - B[None]) ** 2, axis=2) / 0.16)
        mu, sd = v.mean(), max(v.std(), 1e-6)
        return mu + sd * K(Q, U) @ np.linalg.solve(K(U, U) + (1e-4 + 1e-10) * np.eye(len(U)), (v - mu) / sd)
    return Earth().fit(U, v).predict(Q).reshape(-1, 1)


def gp_std(p, X, f, ot, q):
    U, Q = (X - p.lb) / (p.ub - p.lb), (np.atleast_2d(q) - p.lb) / (p.ub - p.lb)
    v = np.asarray(ot(f.reshape(-1, 1).copy()) if ot else f.reshape(-1, 1), float)
    K = lambda A, B: np.exp(-0.5 * np.sum((A[:, None] - B[None]) ** 2, axis=2) / 0.16)
    k = K(Q, U)
    var = 1 + 1e-4 - np.sum(k * np.linalg.solve(K(U, U) + (1e-4 + 1e-10) * np.eye(len(U)), k.T).T, axis=1)
    return max(v.std(), 1e-6) * np.sqrt(np.maximum(var, 0)).reshape(-1, 1)


@case("C16", n=260)
def histories(ctx):
    r = ctx.rng
    kind = KINDS[r.randint(len(KINDS))]
    ot = [None, identity, median_capping, aff][r.randint(4)]
    p = gen.problem(r, dim=r.randint(1, 5), ints=0)
    ctx.note(kind=kind, transformation=getattr(ot, "__name__", None), dim=p.dim, lb=p.lb, ub=p.ub)
    m = build(kind, p, ot)
    X, f = np.empty((0, p.dim)), np.empty((0, 1))
    first = True
    for step in range(r.randint(2, 7)):
        if r.rand() < 0.15:
            m.reset()
            X, f = np.empty((0, p.dim)), np.empty((0, 1))
            ctx.event("reset")
            first = True
        k = p.dim + 3 + r.randint(0, 4) if first else r.randint(1, 4)
        first = False
        new = p.lb + (p.ub - p.lb) * r.rand(k, p.dim)
        val = gen.hashed((new - p.lb) / (p.ub - p.lb), 0.4).reshape(-1, 1) * 10.0 ** r.randint(-1, 4)
        form = r.randint(3) if k > 1 else r.randint(6)
        if k == 1:
            xx = new[0].copy() if r.rand() < 0.5 else new.copy()
            fx = [float(val[0, 0]), np.array(val[0, 0]), val[0].copy(), val.copy(), np.float64(val[0, 0]), val[:, 0].copy()][form]
        else:
            xx = new.copy()
            fx = [val.copy(), val[:, 0].copy(), val.copy()][form]
        x0, f0 = xx.copy(), np.array(fx, copy=True)
        m.add_points(xx, fx)
        X, f = np.vstack([X, new]), np.vstack([f, val])
        ctx.event("add", k, form)
        require(np.array_equal(xx, x0) and np.array_equal(np.asarray(fx), f0), "add_points modified its arguments")
        xx += 1.0  # what the caller does with his array afterwards must not matter
        if isinstance(fx, np.ndarray):
            fx += 1.0
        require(m.X.shape == X.shape and m.fX.shape == f.shape and m.num_pts == len(X), "wrong number of points: X %s, fX %s, num_pts %s, expected %d" % (m.X.shape, m.fX.shape, m.num_pts, len(X)))
        require(np.array_equal(m.X, X) and np.array_equal(m.fX, f), "data differ from the points and values added, in order", got=m.fX, want=f)
        if r.rand() < 0.7 and len(X):
            q = p.lb + (p.ub - p.lb) * r.rand(r.randint(1, 4), p.dim)
            q0 = q.copy()
            got = np.asarray(m.predict(q))
            ctx.event("predict")
            require(np.array_equal(q, q0), "predict modified its argument")
            require(np.array_equal(m.X, X) and np.array_equal(m.fX, f), "predict changed the stored data")
            require(got.shape == (len(q), 1), "%s: prediction of shape %s for %d points" % (kind, got.shape, len(q)))
            want = expected(kind, p, ot, X, f, q)
            s = np.abs(f).max() * 3 + 1
            if want is not None:
                require(bool(np.all(np.abs(got - want) <= 1e-5 * s)), "%s: prediction is not that of a model of the current data" % kind, got=got, want=want)
            one = np.asarray(m.predict(q[0]))
            require(one.shape == (1, 1) and abs(one.item() - got[0, 0]) <= 1e-8 * s, "prediction of a single point differs")
            if kind == "gp":
                sd = np.asarray(m.predict_std(q))
                require(sd.shape == (len(q), 1) and bool(np.all(np.abs(sd - gp_std(p, X, f, ot, q)) <= 1e-5 * s)), "predicted standard deviation is not that of the current data", got=sd, want=gp_std(p, X, f, ot, q))
            if kind in ("rbf", "tps", "lin"):
                m.predict_deriv(q)
                require(np.array_equal(q, q0), "predict_deriv modified its argument")
                require(np.array_equal(m.X, X) and np.array_equal(m.fX, f), "predict_deriv changed the stored data")
            if kind == "mars":
                g = np.asarray(m.predict_deriv(q))
                if g.shape == q.shape:
                    e = Earth().fit((X - p.lb) / (p.ub - p.lb), np.asarray(ot(f.copy()) if ot else f))
                    G = e.predict_deriv((q - p.lb) / (p.ub - p.lb))[0] / (p.ub - p.lb)
                    require(close(g, G, 1e-3, scale=np.abs(G).max() + 1e-9), "MARS gradient is not the gradient in the original variables", got=g, want=G)


@case("C16", n=60)
def gp_fit(ctx):
    """The Gaussian process with its default kernel is fitted to the standardized current data in the unit box."""
    r = ctx.rng
    p = gen.problem(r, dim=r.randint(1, 4), ints=0)

    seen = []
    from sklearn.gaussian_process import GaussianProcessRegressor
    from sklearn.gaussian_process.kernels import RBF

    class Spy(GaussianProcessRegressor):
        def fit(self, X, y):
            seen.append((np.array(X, copy=True), np.array(y, copy=True)))
            return super().fit(X, y)
    m = GPRegressor(dim=p.dim, lb=p.lb, ub=p.ub, gp=Spy(kernel=RBF(0.5), alpha=1e-6, optimizer=None), output_transformation=[None, median_capping][r.randint(2)])
    X, f = p.lb + (p.ub - p.lb) * r.rand(8, p.dim), 10 * r.randn(8, 1)
    for a, b in ((0, 5), (5, 6), (6, 8)):
        m.add_points(X[a:b], f[a:b])
        q = X[:3].copy()
        first = r.rand() < 0.5
        (m.predict if first else m.predict_std)(q)
        (m.predict_std if first else m.predict)(q)
        require(len(seen) > 0 and seen[-1][0].shape == (b, p.dim), "the Gaussian process was not fitted to the current data")
        require(close(seen[-1][0], (X[:b] - p.lb) / (p.ub - p.lb)), "fitted points are not the current points in the unit box")
    m.reset()
    m.add_points(X[:4], f[:4])
    m.predict(q)
    require(seen[-1][0].shape == (4, p.dim), "the Gaussian process still uses the data from before the reset")


@case("C16", n=150)
def capping(ctx):
    r = ctx.rng
    n = r.randint(1, 12)
    x = r.randn(n) if r.rand() < 0.5 else r.randint(-3, 4, size=n).astype(float)
    if r.rand() < 0.5:
        x = x.reshape(-1, 1)
    ctx.note(x=x)
    x0 = x.copy()
    y = median_capping(x)
    want = x0.copy()
    want[want > np.median(x0)] = np.median(x0)
    require(np.array_equal(x, x0), "median_capping modified its argument")
    require(y.shape == x0.shape and np.array_equal(y, want), "median capping wrong", got=y, want=want)
    require(np.array_equal(identity(x), x0) and np.array_equal(x, x0), "identity is not the identity")


@case("C16", n=60)
def kernels_do_not_modify(ctx):
    r = ctx.rng
    for k in (CubicKernel(), TPSKernel(), LinearKernel()):
        d = np.abs(r.randn(4, 3))
        d[0, 0] = 0.0
        d0 = d.copy()
        k.eval(d)
        k.deriv(d)
        require(np.array_equal(d, d0), "%s modified the distances passed to it" % type(k).__name__)
    for t in (LinearTail(3), ConstantTail(3)):
        x = r.randn(4, 3)
        x0 = x.copy()
        t.eval(x)
        t.deriv(x[0])
        require(np.array_equal(x, x0), "tail modified the points passed to it")
