"""C09 genetic algorithm: everything it evaluates is recorded."""
import numpy as np
from pySOT.utils import GeneticAlgorithm
from . import gen
from .common import case, close, require


@case("C09", n=220)
def runs(ctx):
    r = ctx.rng
    p = gen.problem(r, dim=r.randint(1, 6))
    pop = int(r.choice([2, 3, 5, 8, 10, 21]))
    ng = int(r.choice([0, 1, 2, 5, 12]))
    npop = pop + pop % 2
    kind = r.randint(5)
    shape2 = r.rand() < 0.5
    evals = []
    k = float(r.rand())

    def f(X):
        X = np.asarray(X)
        if kind == 0:
            v = gen.hashed(X, k)
        elif kind == 1:
            v = np.round(gen.hashed(X, k), 0)
        elif kind == 2:
            v = ((X - p.lb) / (p.ub - p.lb)).sum(axis=1)
        elif kind == 3:
            v = -((X - p.lb) / (p.ub - p.lb)).sum(axis=1)
        else:
            v = np.full(len(X), 1.5)
        evals.append((np.array(X, copy=True), v.copy()))
        return v.reshape(-1, 1) if shape2 else v

    start = ["SLHD", "LHD", "Random", "array", "array2"][r.randint(5)]
    st = start
    if start.startswith("array"):
        st = gen.points(r, p, npop)
        if start == "array2" and len(p.int_var):  # not rounded
            st[:, p.int_var] = np.clip(st[:, p.int_var] + r.uniform(-0.4, 0.4, size=(npop, len(p.int_var))), p.lb[p.int_var], p.ub[p.int_var])
        s0 = st.copy()
    iv = [p.int_var, list(p.int_var)][r.randint(2)]
    if not len(p.int_var) and r.rand() < 0.5:
        iv = None
    ctx.note(lb=p.lb, ub=p.ub, int_var=p.int_var, pop_size=pop, num_gen=ng, start=start, function=kind)
    lb0, ub0 = p.lb.copy(), p.ub.copy()
    ga = GeneticAlgorithm(f, p.dim, p.lb, p.ub, int_var=iv, pop_size=pop, num_gen=ng, start=st)
    try:
        x, v = ga.optimize()
    except ValueError as e:
        if isinstance(st, str) and not evals and "design" in str(e):  # the population is too small for such a design
            ctx.nontrivial = 0
            return
        raise
    require(np.array_equal(p.lb, lb0) and np.array_equal(p.ub, ub0), "bounds modified")
    if start.startswith("array"):
        require(np.array_equal(st, s0), "the user's initial population was modified")
        U = s0.copy()
        require(len(evals) and evals[0][0].shape == U.shape, "the initial population is not evaluated")
        if len(p.int_var):
            U[:, p.int_var] = np.clip(np.round(U[:, p.int_var]), p.lb[p.int_var], p.ub[p.int_var])
        require(np.array_equal(evals[0][0], U), "the first population evaluated is not the initial population", got=evals[0][0], want=U)
    x, v = np.asarray(x, float).ravel(), float(np.asarray(v).ravel()[0])
    require(len(evals) == ng + 1, "%d populations evaluated instead of the initial one and %d generations" % (len(evals), ng))
    for i, (X, _) in enumerate(evals):
        require(X.shape == (npop, p.dim), "population %d has shape %s" % (i, X.shape))
        gen.feasible(p, X, "individual of population %d" % i, require)
    gen.feasible(p, x, "returned individual", require)
    allx, allv = np.vstack([e[0] for e in evals]), np.concatenate([e[1] for e in evals])
    same = np.where((allx == x).all(axis=1))[0]
    require(len(same) > 0, "the returned individual was never evaluated", x=x)
    require(v in allv[same], "returned value %r is not the value %r of the returned individual" % (v, allv[same[0]]), x=x)
    require(v <= allv.min(), "an evaluated individual has the smaller value %r < %r" % (allv.min(), v), x=x)
