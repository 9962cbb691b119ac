"""C13 scaling and rounding: exact oracles on random and adversarial inputs."""
import numpy as np
from pySOT.utils import from_unit_box, round_vars, to_unit_box, unit_rescale
from . import gen
from .common import case, close, require


@case("C13", n=300)
def unit_box(ctx):
    r = ctx.rng
    p = gen.problem(r, dmax=8)
    n = r.randint(1, 9)
    x = gen.points(r, p, n) if r.rand() < 0.7 else p.lb + (p.ub - p.lb) * r.uniform(-1, 2, size=(n, p.dim))
    ctx.note(x=x, lb=p.lb, ub=p.ub)
    x0, lb0, ub0 = x.copy(), p.lb.copy(), p.ub.copy()
    z = to_unit_box(x, p.lb, p.ub)
    y = from_unit_box(z, p.lb, p.ub)
    w = p.ub - p.lb
    require(z.shape == x.shape and y.shape == x.shape, "shape changed")
    require(close(z, (x - p.lb) / w), "to_unit_box is not (x-lb)/(ub-lb)")
    require(close(y, x, 1e-9), "from_unit_box(to_unit_box(x)) differs from x", got=y)
    u = r.uniform(-0.5, 1.5, size=x.shape)
    require(close(from_unit_box(u, p.lb, p.ub), p.lb + w * u, 1e-10), "from_unit_box is not lb+(ub-lb)*u")
    require(close(to_unit_box(from_unit_box(u, p.lb, p.ub), p.lb, p.ub), u, 1e-8), "to_unit_box(from_unit_box(u)) differs from u")
    require(close(to_unit_box(np.vstack([p.lb, p.ub]), p.lb, p.ub), np.vstack([np.zeros(p.dim), np.ones(p.dim)]), 1e-12), "bounds are not mapped to 0 and 1")
    require(close(from_unit_box(np.vstack([np.zeros(p.dim), np.ones(p.dim)]), p.lb, p.ub), np.vstack([p.lb, p.ub]), 1e-12), "0 and 1 are not mapped to the bounds")
    j = r.randint(p.dim)  # coordinates are independent
    x2 = x.copy()
    x2[:, j] += 0.1 * w[j]
    z2 = to_unit_box(x2, p.lb, p.ub)
    k = np.arange(p.dim) != j
    require(np.all(z2[:, k] == z[:, k]) and np.all(z2[:, j] > z[:, j]), "coordinates are not mapped independently and monotonically")
    require(np.array_equal(x, x0) and np.array_equal(p.lb, lb0) and np.array_equal(p.ub, ub0), "an argument was modified")
    v = to_unit_box(x[0], p.lb, p.ub)
    require(v.shape == (p.dim,) and np.all(v == z[0]), "single point mapped differently")
    require(close(from_unit_box(v, p.lb, p.ub), y[0], 1e-12), "single point mapped back differently")


@case("C13", n=300)
def rescale(ctx):
    r = ctx.rng
    n = r.randint(1, 12)
    kind = r.randint(5)
    x = r.randn(n)
    if kind == 1:
        x = np.full(n, float(r.randint(-3, 4)))
    elif kind == 2:
        x = r.randint(-2, 3, size=n).astype(float)
    elif kind == 3:
        x = -np.abs(x) * 10.0 ** r.randint(-3, 6)
    elif kind == 4:
        x = x * 1e-9
    if r.rand() < 0.5:
        x = x.reshape(-1, 1)
    ctx.note(x=x)
    x0 = x.copy()
    z = unit_rescale(x)
    require(z.shape == x.shape, "shape changed")
    require(np.array_equal(x, x0), "argument modified")
    if x.max() == x.min():
        require(np.all(z == 1.0), "equal entries are not mapped to ones", got=z)
        return
    require(close(z[x == x.min()], 0 * z[x == x.min()], 1e-12) and close(z[x == x.max()], 1 + 0 * z[x == x.max()], 1e-12), "smallest entry is not 0 or largest not 1", got=z)
    require(close(z, (x - x.min()) / (x.max() - x.min())), "not the linear rescaling", got=z)


@case("C13", n=400)
def rounding(ctx):
    r = ctx.rng
    p = gen.problem(r, dmax=8, ints=None)
    if r.rand() < 0.3:
        p.int_var = r.permutation(p.int_var)
    n = r.randint(1, 9)
    x = p.lb + (p.ub - p.lb) * r.uniform(-0.4, 1.4, size=(n, p.dim))
    if r.rand() < 0.3 and len(p.int_var):
        x[:, p.int_var] = np.floor(x[:, p.int_var]) + 0.5
    if r.rand() < 0.3:
        x = gen.points(r, p, n)
    ctx.note(x=x, lb=p.lb, ub=p.ub, int_var=p.int_var)
    x0, lb0, ub0, iv0 = x.copy(), p.lb.copy(), p.ub.copy(), p.int_var.copy()
    z = round_vars(x, p.int_var, p.lb, p.ub)
    require(z.shape == x0.shape, "shape changed")
    cont = np.setdiff1d(np.arange(p.dim), iv0)
    require(np.array_equal(z[:, cont], x0[:, cont]), "a continuous variable changed", got=z)
    for j in iv0:
        v = z[:, j]
        require(np.all(v == np.round(v)) and np.all(v >= lb0[j]) and np.all(v <= ub0[j]), "integer variable %d is not an integer in its bounds" % j, got=z)
        g = np.arange(lb0[j], ub0[j] + 1)
        best = np.min(np.abs(x0[:, [j]] - g[None, :]), axis=1)
        require(close(np.abs(v - x0[:, j]), best), "integer variable %d is not the nearest integer in the bounds" % j, got=z)
    feas = np.all((x0 >= lb0) & (x0 <= ub0), axis=1) & np.all(x0[:, iv0] == np.round(x0[:, iv0]), axis=1)
    require(np.array_equal(z[feas], x0[feas]), "a feasible point changed", got=z)
    require(np.array_equal(p.lb, lb0) and np.array_equal(p.ub, ub0) and np.array_equal(p.int_var, iv0), "bounds or index set modified")
    z2 = round_vars(x0.copy(), list(iv0), p.lb, p.ub)
    require(np.array_equal(z, z2), "a list of indices gives a different result")
