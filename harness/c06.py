"""C06 experimental designs."""
import itertools
import numpy as np
from pySOT.experimental_design import LatinHypercube, SymmetricLatinHypercube, TwoFactorial
from . import gen
from .common import case, close, require


def box_args(ctx, r, dim):
    if r.rand() < 0.35:
        return {}, None
    p = gen.problem(r, dim=dim)
    iv = [p.int_var, list(p.int_var), None if not len(p.int_var) else p.int_var][r.randint(3)]
    ctx.note(lb=p.lb, ub=p.ub, int_var=p.int_var)
    return {"lb": p.lb, "ub": p.ub, "int_var": iv}, p


def hyper(ctx, sym):
    r = ctx.rng
    dim = r.randint(1, 6)
    n = r.randint(max(2, dim), 2 * dim + 7) if r.rand() < 0.9 else r.randint(1, 4)
    if sym and n == 1:
        n = 2
    D = (SymmetricLatinHypercube if sym else LatinHypercube)(dim=dim, num_pts=int(n), iterations=int(r.choice([1, 2, 20])))
    kw, p = box_args(ctx, r, dim)
    ctx.note(dim=dim, num_pts=n)
    if p is not None:
        lb0, ub0, iv0 = p.lb.copy(), p.ub.copy(), np.array(p.int_var, copy=True)
    try:
        X = D.generate_points(**kw)
    except ValueError:
        ctx.nontrivial = 0
        return
    require(isinstance(X, np.ndarray) and X.shape == (n, dim), "shape %s instead of %s" % (getattr(X, "shape", None), (n, dim)))
    require(D.num_pts == n and D.dim == dim, "size attributes changed")
    if p is not None:
        require(np.array_equal(p.lb, lb0) and np.array_equal(p.ub, ub0) and np.array_equal(p.int_var, iv0), "bounds or index set modified")
        gen.feasible(p, X, "design", require)
    else:
        require(bool(np.all((X >= 0) & (X <= 1))), "not in the unit cube", X=X)
    require(len({tuple(x) for x in X}) == n, "points are not pairwise distinct", X=X)
    require(np.linalg.matrix_rank(X) == dim, "column rank %d instead of %d" % (np.linalg.matrix_rank(X), dim), X=X)
    if p is None:
        U = X
    elif len(p.int_var):
        return
    else:
        U = (X - p.lb) / (p.ub - p.lb)
    if sym:
        lev = np.arange(n) / (n - 1.0)
        for j in range(dim):
            require(close(np.sort(U[:, j]), lev, 1e-9), "column %d does not take every level exactly once" % j, column=U[:, j])
        require(close(U + U[::-1], np.ones((n, dim)), 1e-9), "not symmetric about the center", X=U)
    else:
        for j in range(dim):
            cells = np.floor(np.sort(U[:, j]) * n * (1 - 1e-12))
            require(np.array_equal(cells, np.arange(n)), "column %d of the Latin hypercube does not have one point per cell" % j, column=np.sort(U[:, j]))


@case("C06", n=160)
def latin(ctx):
    hyper(ctx, False)


@case("C06", n=220)
def symmetric(ctx):
    hyper(ctx, True)


@case("C06", n=60)
def symmetric_raw(ctx):
    """The generator of symmetric designs, on which the selection of the best design is built."""
    from .common import attr
    r = ctx.rng
    n, dim = r.randint(2, 16), r.randint(1, 7)
    D = SymmetricLatinHypercube(dim=dim, num_pts=int(n))
    X = attr(D, "_slhd")()
    ctx.note(n=n, dim=dim, X=X)
    lev = np.arange(n) / (n - 1.0)
    for j in range(dim):
        require(close(np.sort(X[:, j]), lev, 1e-9), "column %d does not take every level exactly once" % j)
    require(close(X + X[::-1], np.ones((n, dim)), 1e-9), "not symmetric about the center")


@case("C06", n=60)
def factorial(ctx):
    r = ctx.rng
    dim = r.randint(1, 9)
    D = TwoFactorial(dim=dim)
    kw, p = box_args(ctx, r, dim)
    ctx.note(dim=dim)
    X = D.generate_points(**kw)
    n = 2 ** dim
    require(D.num_pts == n and X.shape == (n, dim), "shape %s instead of %s" % (X.shape, (n, dim)))
    if p is None:
        require({tuple(x) for x in X} == set(itertools.product([0, 1], repeat=dim)), "not the corners of the unit cube")
    else:
        gen.feasible(p, X, "design", require)
        require({tuple(x) for x in X} == set(itertools.product(*zip(p.lb, p.ub))), "not the corners of the domain", X=X)


@case("C06", n=10)
def too_large(ctx):
    for d in (15, 20):
        try:
            TwoFactorial(dim=d)
        except ValueError:
            continue
        require(False, "a factorial design of dimension %d is not refused" % d)
    TwoFactorial(dim=14)
