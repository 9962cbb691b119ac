"""C21 coordinate perturbation: structure of the candidates and the probability handed on by the strategies."""
import numpy as np
import pySOT.strategy.dycors_strategy as ds
import pySOT.strategy.sop_strategy as ss
import scipy.stats as st
from pySOT.auxiliary_problems import candidate_dycors, candidate_srbf, candidate_uniform
from . import gen
from .common import Inconclusive, case, close, require


def run(ctx, kind, r, p, X, fX, subset, num_cand, radius, prob, xbest=None, spyon=True):
    s = gen.surrogate(p)
    seen, draws = [], []
    orig = s.predict

    def spy(x):
        seen.append(np.array(x, copy=True))
        return orig(x)
    s.predict = spy
    real = st.truncnorm.rvs

    def rvs(*a, **k):
        v = real(*a, **k)
        draws.append((a, {q: np.array(w, copy=True) for q, w in k.items()}, np.array(v, copy=True)))
        return v
    kw = dict(num_pts=1, opt_prob=p, surrogate=s, X=X, fX=fX, weights=[0.5], num_cand=num_cand, subset=subset)
    try:
        st.truncnorm.rvs = rvs
        if kind == "dycors":
            new = candidate_dycors(prob_perturb=prob, sampling_radius=radius, **dict(kw, **({} if xbest is None else {"xbest": xbest})))
        elif kind == "srbf":
            new = candidate_srbf(sampling_radius=radius, **kw)
        else:
            new = candidate_uniform(**kw)
    finally:
        st.truncnorm.rvs = real
    if len(seen) != 1:
        raise Inconclusive("the candidates are not presented to the surrogate at once")
    return seen[0], new, draws


def setup(ctx, dmax=8, ints=None):
    r = ctx.rng
    p = gen.problem(r, dim=r.randint(1, dmax + 1), ints=ints)
    n = r.randint(1, 9)
    X = gen.points(r, p, n)
    if r.rand() < 0.6:
        X = p.lb + (p.ub - p.lb) * (0.1 + 0.8 * r.rand(n, p.dim))
        if len(p.int_var):
            X[:, p.int_var] = np.clip(np.round(X[:, p.int_var]), p.lb[p.int_var], p.ub[p.int_var])
    fX = r.randn(n, 1)
    sub = None
    if r.rand() < 0.6:
        sub = np.sort(r.choice(p.dim, size=r.randint(1, p.dim + 1), replace=False))
        if r.rand() < 0.3:
            sub = r.permutation(sub)
    ctx.note(lb=p.lb, ub=p.ub, int_var=p.int_var, X=X, fX=fX, subset=sub)
    return r, p, X, fX, sub


@case("C21", n=400)
def subset_and_center(ctx):
    r, p, X, fX, sub = setup(ctx)
    kind = ["dycors", "srbf", "uniform"][r.randint(3)]
    xbest = gen.points(r, p, 1)[0] if kind == "dycors" and r.rand() < 0.4 else None
    center = X[np.argmin(fX)] if xbest is None else xbest
    prob = [0.0, 0.05, 0.3, 0.7, 1.0][r.randint(5)]
    radius = [0.2, 0.05, 0.003][r.randint(3)]
    nc = int(r.randint(1, 60))
    X0, f0, lb0, ub0 = X.copy(), fX.copy(), p.lb.copy(), p.ub.copy()
    c0 = center.copy()
    ctx.note(kind=kind, prob=prob, radius=radius, num_cand=nc, center=center)
    cand, new, draws = run(ctx, kind, r, p, X, fX, sub, nc, radius, prob, xbest)
    S = np.arange(p.dim) if sub is None else np.asarray(sub)
    out = np.setdiff1d(np.arange(p.dim), S)
    require(cand.shape == (nc, p.dim), "shape of the candidates %s" % (cand.shape,))
    require(np.all(cand[:, out] == c0[out]), "%s: coordinates outside the subset changed" % kind, cand=cand)
    require(np.all(new[:, out] == c0[out]), "%s: the new point changes coordinates outside the subset" % kind, new=new)
    require(np.array_equal(X, X0) and np.array_equal(fX, f0) and np.array_equal(p.lb, lb0) and np.array_equal(p.ub, ub0) and np.array_equal(center, c0), "an argument was modified")
    require(bool(np.all((cand >= p.lb) & (cand <= p.ub))), "%s: candidate outside the bounds" % kind, cand=cand)
    cont = np.setdiff1d(S, p.int_var)
    if len(cont) == len(S):
        moved = cand[:, S] != c0[S]
        require(bool(np.all(moved.any(axis=1))), "%s: a candidate in which no coordinate is perturbed" % kind, cand=cand)
        if kind != "dycors" or len(S) == 1 or prob == 1.0:
            require(bool(np.all(moved)), "%s: a coordinate of the subset is not perturbed" % kind, cand=cand)
        if prob == 0.0 and kind == "dycors":
            require(bool(np.all(moved.sum(axis=1) == 1)), "probability 0: more than the one selected coordinate is perturbed", cand=cand)


@case("C21", n=60)
def every_coordinate(ctx):
    """With probability 0 one coordinate per candidate is selected; each of the subset must come up."""
    r, p, X, fX, sub = setup(ctx, ints=0)
    S = np.arange(p.dim) if sub is None else np.asarray(sub)
    nc = 60 * len(S)
    cand, new, draws = run(ctx, "dycors", r, p, X, fX, sub, nc, 0.1, 0.0)
    center = X[np.argmin(fX)]
    cnt = (cand[:, S] != center[S]).sum(axis=0)
    require(bool(np.all(cnt > 0)), "coordinate %s of the subset is never selected in %d candidates" % (S[cnt == 0], nc), counts=cnt)
    require(bool(np.all(cnt < 60 * 2.2)), "one coordinate is selected far too often", counts=cnt) if len(S) > 1 else None


@case("C21", n=40)
def frequency(ctx):
    """Each coordinate is perturbed with about the requested probability."""
    r, p, X, fX, sub = setup(ctx, ints=0)
    S = np.arange(p.dim) if sub is None else np.asarray(sub)
    prob = float(r.choice([0.2, 0.5, 0.8]))
    nc = 3000
    cand, new, draws = run(ctx, "dycors", r, p, X, fX, sub, nc, 0.1, prob)
    center = X[np.argmin(fX)]
    k = len(S)
    if k == 1:
        return
    want = prob + (1 - prob) ** k / k
    got = (cand[:, S] != center[S]).mean(axis=0)
    require(bool(np.all(np.abs(got - want) < 0.06)), "coordinates are perturbed with frequency %s, expected %.3f" % (got, want))


@case("C21", n=60)
def spread(ctx):
    """Standard deviation of the perturbation: radius*(ub-lb), at least one for integer variables."""
    r, p, X, fX, sub = setup(ctx, dmax=5)
    X = np.tile((p.lb + p.ub) / 2, (1, 1))
    if len(p.int_var):
        X[:, p.int_var] = np.floor(X[:, p.int_var])
    fX = np.zeros((1, 1))
    radius = [0.2, 0.05, 0.01, 0.003125][r.randint(4)]
    kind = ["dycors", "srbf"][r.randint(2)]
    nc = 4000
    ctx.note(kind=kind, radius=radius)
    cand, new, draws = run(ctx, kind, r, p, X, fX, sub, nc, radius, 1.0)
    S = np.arange(p.dim) if sub is None else np.asarray(sub)
    x = X[0]
    for j in S:
        w = p.ub[j] - p.lb[j]
        sig = radius * w
        v = cand[:, j]
        if j in p.int_var:
            sig = max(sig, 1.0)
            a, b = (p.lb[j] - x[j]) / sig, (p.ub[j] - x[j]) / sig
            g = np.arange(p.lb[j], p.ub[j] + 1)
            lo, hi = np.maximum(g - 0.5, p.lb[j]), np.minimum(g + 0.5, p.ub[j])
            pr = st.truncnorm.cdf((hi - x[j]) / sig, a, b) - st.truncnorm.cdf((lo - x[j]) / sig, a, b)
            emp = np.array([(v == q).mean() for q in g])
            require(bool(np.all(np.abs(emp - pr) < 0.05)), "%s: distribution of integer variable %d: %s, expected %s" % (kind, j, emp, pr))
        else:
            a, b = (p.lb[j] - x[j]) / sig, (p.ub[j] - x[j]) / sig
            ks = np.abs(np.sort(st.truncnorm.cdf((v - x[j]) / sig, a, b)) - (np.arange(nc) + 0.5) / nc).max()
            require(ks < 0.045, "%s: perturbation of coordinate %d does not follow the normal distribution with deviation %g (statistic %.3f)" % (kind, j, sig, ks))


@case("C21", n=30)
def uniform_range(ctx):
    r, p, X, fX, sub = setup(ctx, dmax=5, ints=0)
    cand, new, draws = run(ctx, "uniform", r, p, X, fX, sub, 2000, 0.1, 1.0)
    S = np.arange(p.dim) if sub is None else np.asarray(sub)
    for j in S:
        u = np.sort((cand[:, j] - p.lb[j]) / (p.ub[j] - p.lb[j]))
        require(np.abs(u - (np.arange(2000) + 0.5) / 2000).max() < 0.06, "coordinate %d is not uniform over its range" % j)


class Stop(BaseException):
    pass


@case("C21", n=160)
def probability(ctx):
    """The probability handed to candidate_dycors by the two strategies."""
    from . import hist
    r = ctx.rng
    which = ["DYCORS", "SOP"][r.randint(2)]
    mod = ds if which == "DYCORS" else ss
    if not hasattr(mod, "candidate_dycors"):
        raise Inconclusive("candidate_dycors is not looked up in the strategy module")
    big = r.rand() < 0.35
    cfg = hist.config(ctx, which=which, dim=int(r.randint(21, 40)) if big else None)
    real = mod.candidate_dycors
    got = []
    h = [None]

    def spy(*a, **k):
        if "prob_perturb" in k and h[0] is not None:
            s = h[0].s
            got.append((float(k["prob_perturb"]), len(s.X) + h[0].n_out(), s.opt_prob.dim))
        return real(*a, **k)
    mod.candidate_dycors = spy
    try:
        h[0] = hist.History(ctx, cfg, checks=())
        h[0].run(r.randint(10, 80))
    finally:
        mod.candidate_dycors = real
    N, n0, d = cfg["max_evals"], cfg["num_pts"], cfg["prob"].dim
    for prob, done, dim in got:
        n = done - n0
        require(1.0 / d - 1e-12 <= prob <= 1 + 1e-12, "probability %r outside [1/d, 1]" % prob)
        B = N - n0
        if B >= 2 and n >= 0:
            want = max(min(20.0 / d, 1.0) * (1 - np.log(n + 1) / np.log(B)), 1.0 / d)
            require(abs(prob - want) <= 1e-9, "probability %r, the rule gives %r (n=%d, N=%d, d=%d)" % (prob, want, n, B, d))
    if not got:
        ctx.nontrivial = 0
