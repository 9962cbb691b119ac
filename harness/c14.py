"""C14 the RBF system: residual of the documented saddle-point system after random histories."""
import numpy as np
from pySOT.surrogate import ConstantTail, CubicKernel, LinearKernel, LinearTail, RBFInterpolant, TPSKernel
from pySOT.surrogate import identity, median_capping
from . import gen
from .common import attr, case, close, require

COMBOS = [(None, None), (CubicKernel, LinearTail), (TPSKernel, LinearTail), (LinearKernel, ConstantTail), (LinearKernel, LinearTail)]
PHI = {"CubicKernel": lambda r: r ** 3, "LinearKernel": lambda r: r, "TPSKernel": lambda r: np.where(r > 0, r ** 2 * np.log(np.maximum(r, 1e-300)), 0.0), "NoneType": lambda r: r ** 3}


def spread(r, n, dim, old):
    """n points of the unit box, well separated from each other and from the rows of old."""
    pts = [o for o in old]
    for _ in range(n):
        best = max((r.rand(dim) for _ in range(20)), key=lambda q: min([np.linalg.norm(q - o) for o in pts] + [9]))
        pts.append(best)
    return np.array(pts[len(old):]).reshape(n, dim)


def check(m, p, kern, tail, U, f, eta, ot, ctx, r, ext):
    """The prediction equals that of the exact solution of the documented system."""
    dim, n = p.dim, len(U)
    phi = PHI[kern.__name__ if kern else "NoneType"]
    D = np.linalg.norm(U[:, None] - U[None], axis=2)
    P = np.hstack([np.ones((n, 1)), U]) if (tail is None or tail is LinearTail) else np.ones((n, 1))
    nt = P.shape[1]
    A = np.block([[np.zeros((nt, nt)), P.T], [P, phi(D) + eta * np.eye(n)]])
    v = f.reshape(-1, 1).copy()
    if ot == "cap":
        v[v > np.median(v)] = np.median(v)
    elif ot == "aff":
        v = 2 * v - 1
    rhs = np.vstack([np.zeros((nt, 1)), v])
    q = r.rand(6, dim)
    got = m.predict(p.lb + (p.ub - p.lb) * q)
    c = np.linalg.solve(A, rhs)
    cond = np.linalg.cond(A)
    ctx.note(cond=float(cond))
    if cond > 1e11:
        ctx.nontrivial = 0
        return
    mine = np.asarray(attr(m, "c"), float).reshape(-1, 1)
    require(mine.shape == c.shape, "number of coefficients: %s, expected %s" % (mine.shape, c.shape))
    size = np.abs(A) @ np.abs(mine) + np.abs(rhs)
    res = np.abs(A @ mine - rhs)
    tol = 1e-8 if ext else 1e-9
    require(bool(np.all(res <= tol * (size.max() + 1))), "coefficients do not solve the documented system: residual %g" % res.max())
    dq = np.linalg.norm(q[:, None] - U[None], axis=2)
    Q = np.hstack([np.ones((6, 1)), q]) if nt > 1 else np.ones((6, 1))
    want = phi(dq) @ c[nt:] + Q @ c[:nt]
    require(got.shape == (6, 1), "shape of the prediction")
    err = np.abs(got - want).max()
    require(err <= 1e-7 * (np.abs(want).max() + np.abs(v).max()) + 1e-13 * cond * np.abs(v).max(), "prediction differs from the solution of the documented system by %g" % err, got=got, want=want)
    at = m.predict(p.lb + (p.ub - p.lb) * U)
    lim = (2 * eta * np.abs(c[nt:]).max() + 1e-7 * (np.abs(v).max() + 1)) + 1e-13 * cond * np.abs(v).max()
    require(bool(np.all(np.abs(at - v) <= lim)), "the model misses its data by %g" % np.abs(at - v).max())


@case("C14", n=220)
def histories(ctx):
    r = ctx.rng
    kern, tail = COMBOS[r.randint(len(COMBOS))]
    dim = r.randint(1, 5)
    p = gen.problem(r, dim=dim, ints=0)
    ot = ["id", "cap", "aff"][r.randint(3)]
    eta = [1e-6, 1e-10, 1e-3, 0.5][r.randint(4)]
    tf = {"id": None, "cap": median_capping, "aff": lambda x: 2 * x - 1}[ot]
    kw = dict(dim=dim, lb=p.lb, ub=p.ub, eta=eta, output_transformation=tf)
    if kern:
        kw.update(kernel=kern(), tail=tail(dim))
    m = RBFInterpolant(**kw)
    U, f = np.empty((0, dim)), np.empty(0)
    ctx.note(kernel=kern.__name__ if kern else None, tail=tail.__name__ if tail else None, dim=dim, eta=eta, transformation=ot, lb=p.lb, ub=p.ub)
    ext = False
    for step in range(r.randint(2, 6)):
        if step and r.rand() < 0.12:
            m.reset()
            U, f = np.empty((0, dim)), np.empty(0)
            ctx.event("reset")
            ext = False
        k = r.randint(1, 4) if len(U) >= dim + 2 else r.randint(dim + 2, dim + 7)
        new = spread(r, k, dim, U)
        val = gen.hashed(new, 0.2) * 10.0 ** r.randint(-1, 3)
        parts = 1 if r.rand() < 0.5 else k
        for idx in np.array_split(np.arange(k), parts):
            m.add_points(p.lb + (p.ub - p.lb) * new[idx], val[idx].reshape(-1, 1))
        U, f = np.vstack([U, new]), np.concatenate([f, val])
        ctx.event("add", k)
        if r.rand() < 0.75:
            ctx.event("predict")
            check(m, p, kern, tail, U, f, eta, ot, ctx, r, ext)
            ext = True
    check(m, p, kern, tail, U, f, eta, ot, ctx, r, ext)
    m2 = RBFInterpolant(**kw)
    m2.add_points(p.lb + (p.ub - p.lb) * U, f.reshape(-1, 1))
    q = p.lb + (p.ub - p.lb) * r.rand(5, dim)
    a, b = m.predict(q), m2.predict(q)
    if ctx.nontrivial and ctx.notes.get("cond", 0) < 1e8:
        require(bool(np.all(np.abs(a - b) <= 1e-6 * (np.abs(b).max() + np.abs(f).max()))), "extended model and model fitted from scratch differ by %g" % np.abs(a - b).max(), extended=a, scratch=b)
