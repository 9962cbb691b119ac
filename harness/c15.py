"""C15 derivatives: closed forms and high-order finite differences."""
import numpy as np
from pySOT.surrogate import ConstantTail, CubicKernel, LinearKernel, LinearTail, RBFInterpolant, TPSKernel
from . import gen
from .common import case, close, require

KERNELS = {"cubic": (CubicKernel, lambda r: r ** 3, lambda r: 3 * r ** 2), "linear": (LinearKernel, lambda r: r, lambda r: np.ones_like(r)),
           "tps": (TPSKernel, lambda r: r ** 2 * np.log(r), lambda r: r * (1 + 2 * np.log(r)))}


@case("C15", n=150)
def kernels(ctx):
    r = ctx.rng
    name = sorted(KERNELS)[r.randint(3)]
    cls, val, der = KERNELS[name]
    n, m = r.randint(1, 6), r.randint(1, 6)
    d = np.abs(r.randn(n, m)) * 10.0 ** r.randint(-4, 3) + 1e-8
    ctx.note(kernel=name, dists=d)
    k = cls()
    d0 = d.copy()
    e, g = k.eval(d), k.deriv(d)
    require(e.shape == d.shape and g.shape == d.shape, "shape of kernel values or derivatives")
    require(close(e, val(d0), 1e-10, scale=np.abs(val(d0)) + 1e-300), "%s kernel value" % name, got=e)
    require(close(g, der(d0), 1e-9, scale=np.abs(der(d0)) + 1e-12), "%s kernel derivative" % name, got=g)
    h = 1e-4 * d0
    num = (-k.eval(d0 + 2 * h) + 8 * k.eval(d0 + h) - 8 * k.eval(d0 - h) + k.eval(d0 - 2 * h)) / (12 * h)
    require(close(g, num, 1e-5, scale=np.abs(num) + np.abs(val(d0)) / d0 + 1e-12), "%s kernel derivative is not the derivative of its value" % name, got=g, numeric=num)
    require(np.array_equal(d, d0), "distances modified")


@case("C15", n=100)
def tails(ctx):
    r = ctx.rng
    dim, n = r.randint(1, 7), r.randint(1, 6)
    lin = r.rand() < 0.5
    t = LinearTail(dim) if lin else ConstantTail(dim)
    X = r.randn(n, dim) * 10
    ctx.note(dim=dim, X=X, tail=type(t).__name__)
    P = t.eval(X)
    want = np.hstack([np.ones((n, 1)), X]) if lin else np.ones((n, 1))
    require(close(P, want), "tail basis", got=P)
    require(P.shape[1] == t.dim_tail, "number of basis functions")
    x = X[0]
    J = t.deriv(x)
    require(J.shape == (dim, t.dim_tail), "shape of the tail derivative", got=J)
    for j in range(dim):
        e = np.zeros(dim)
        e[j] = 0.5
        num = t.eval(x + e) - t.eval(x - e)
        require(close(J[j], num.ravel(), 1e-8), "tail derivative is not the Jacobian of the basis", got=J)
    J2 = t.deriv(x.reshape(1, -1))
    require(np.array_equal(J, J2), "tail derivative differs for a row vector")


def fitted(r, kern, tail, dim, n, ctx):
    p = gen.problem(r, dim=dim, ints=0)
    X = p.lb + (p.ub - p.lb) * r.rand(n, dim)
    f = gen.hashed((X - p.lb) / (p.ub - p.lb), 0.3).reshape(-1, 1) * 10.0 ** r.randint(-1, 3)
    kw = {} if kern is None else {"kernel": KERNELS[kern][0](), "tail": LinearTail(dim) if tail == "linear" else ConstantTail(dim)}
    m = RBFInterpolant(dim=dim, lb=p.lb, ub=p.ub, eta=[1e-6, 1e-8][r.randint(2)], **kw)
    k = r.randint(dim + 1, n + 1)
    m.add_points(X[:k], f[:k])
    if r.rand() < 0.5:
        m.predict(X[:1])
    if k < n:
        m.add_points(X[k:], f[k:])
    ctx.note(X=X, fX=f, lb=p.lb, ub=p.ub, kernel=kern, tail=tail)
    return p, X, f, m


@case("C15", n=120)
def gradients(ctx):
    r = ctx.rng
    combos = [(None, None), ("cubic", "linear"), ("tps", "linear"), ("linear", "constant"), ("linear", "linear")]
    kern, tail = combos[r.randint(len(combos))]
    dim = r.randint(1, 5)
    n = r.randint(dim + 2, dim + 12)
    p, X, f, m = fitted(r, kern, tail, dim, n, ctx)
    q = r.randint(1, 5)
    xx = p.lb + (p.ub - p.lb) * r.rand(q, dim)
    w = p.ub - p.lb
    D = np.min(np.linalg.norm(((xx[:, None] - X[None]) / w), axis=2), axis=1)
    xx = xx[D > 0.02]
    if not len(xx):
        ctx.nontrivial = 0
        return
    x0 = xx.copy()
    G = m.predict_deriv(xx)
    require(G.shape == xx.shape, "shape of the gradient", got=G)
    require(np.array_equal(xx, x0), "query points modified")
    span = float(np.ptp(f)) + 1.0
    for i in range(len(xx)):
        for j in range(dim):
            h = 1e-4 * w[j]
            e = np.zeros(dim)
            e[j] = h
            v = [m.predict((xx[i] + s * e).reshape(1, -1)).item() for s in (-2, -1, 1, 2)]
            num = (v[0] - 8 * v[1] + 8 * v[2] - v[3]) / (12 * h)
            cs = float(np.abs(m.c).sum()) if hasattr(m, "c") and m.c is not None else span
            tol = (1e-4 * (abs(num) * w[j] + span) + 1e-9 * cs * 1e2) / w[j]
            require(abs(G[i, j] - num) <= tol, "predicted gradient %g, numerical derivative of the prediction %g (coordinate %d)" % (G[i, j], num, j), x=xx[i])
    g1 = m.predict_deriv(xx[0])
    require(close(np.asarray(g1).ravel(), G[0], 1e-8, scale=np.abs(G[0]).max() + 1e-12), "gradient of a single point differs")


@case("C15", n=60)
def gradients_near_data(ctx):
    """The gradient close to a data point against the derivative of the sum of kernels and tail, term by term."""
    r = ctx.rng
    combos = [(None, None), ("cubic", "linear"), ("tps", "linear"), ("linear", "constant"), ("linear", "linear")]
    kern, tail = combos[r.randint(len(combos))]
    dim = r.randint(1, 5)
    n = r.randint(dim + 2, dim + 12)
    p, X, f, m = fitted(r, kern, tail, dim, n, ctx)
    w = p.ub - p.lb
    U = (X - p.lb) / w
    v = r.randn(dim)
    u = U[r.randint(n)] + v / np.linalg.norm(v) * 10.0 ** r.uniform(-6, -1.5)
    x = p.lb + w * u
    u = (x - p.lb) / w
    G = np.asarray(m.predict_deriv(x.reshape(1, -1))).ravel()
    c = np.asarray(m.c).ravel()
    lin = tail != "constant"
    nt = dim + 1 if lin else 1
    D = np.linalg.norm(u - U, axis=1)
    T = (KERNELS[kern or "cubic"][2](D) * c[nt:] / D)[:, None] * (u - U)
    want, size = T.sum(axis=0), np.abs(T).sum(axis=0)
    if lin:
        want, size = want + c[1:nt], size + np.abs(c[1:nt])
    require(bool(np.all(np.abs(G * w - want) <= 1e-6 * size + 1e-9)), "gradient at distance %.1e from a data point" % D.min(), got=G, expected=want / w, x=x)
