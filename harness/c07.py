"""C07 weighted-distance selection: greedy optimality of every selection."""
import sys
import numpy as np
from pySOT.auxiliary_problems import candidate_dycors, candidate_srbf, candidate_uniform
from . import gen

cs = sys.modules["pySOT.auxiliary_problems.candidate_srbf"]
from .common import attr, case, close, require


def rescale(v):
    a, b = v.min(), v.max()
    return np.ones(v.shape) if a == b else (v - a) / (b - a)


def dist(A, B):
    return np.sqrt(((A[:, None, :] - B[None, :, :]) ** 2).sum(axis=2))


def judge(cand, s, X, Xpend, weights, dtol, new, what):
    """new must be a sequence of selections as the property describes."""
    n = len(cand)
    Z = X if Xpend is None else np.vstack([X, Xpend])
    s = rescale(s.ravel())
    left = list(range(n))
    require(new.shape == (len(weights), cand.shape[1]), "%s: shape of the new points %s" % (what, new.shape))
    d = dist(cand, Z).min(axis=1)
    # several candidates can be equal: follow every consistent choice
    states = [(frozenset(left), d)]
    for i, w in enumerate(weights):
        nxt = []
        reasons = []
        for rem, d in states:
            idx = sorted(rem)
            free = [k for k in idx if d[k] >= dtol * (1 + 1e-9)]
            edge = [k for k in idx if dtol * (1 - 1e-9) <= d[k]]
            same = [k for k in idx if np.array_equal(cand[k], new[i])]
            if not same and not edge and any(np.array_equal(c, new[i]) for c in cand):  # nothing was available
                nxt.append((rem, np.minimum(d, dist(cand, new[i][None]).ravel())))
                continue
            if not same:
                reasons.append("the point is not one of the candidates not yet selected")
                continue
            merit = w * s + (1 - w) * (1 - rescale(d))
            for k in same:
                if d[k] < dtol * (1 - 1e-9):
                    if free:
                        reasons.append("candidate %d at distance %g below the tolerance %g although candidate %d is available" % (k, d[k], dtol, free[0]))
                        continue
                elif free and merit[k] > min(merit[j] for j in free) + 1e-9:
                    b = min(free, key=lambda j: merit[j])
                    reasons.append("candidate %d with merit %.12g although candidate %d has merit %.12g" % (k, merit[k], b, merit[b]))
                    continue
                nd = np.minimum(d, dist(cand, new[i][None]).ravel())
                nxt.append((rem - {k}, nd))
                break  # equal candidates are interchangeable
        if not nxt:
            require(False, "%s, selection %d (weight %g): %s" % (what, i, w, "; ".join(reasons[:3])), new_points=new, predictions=s)
        states = nxt


def data(ctx, r):
    p = gen.problem(r, dim=r.randint(1, 5))
    n = r.randint(1, 9)
    X = gen.points(r, p, n)
    fX = r.randn(n, 1)
    Xp = [None, np.empty((0, p.dim)), gen.points(r, p, r.randint(1, 5))][r.randint(3)]
    k = r.randint(1, 5)
    w = [float(v) for v in r.choice([0.0, 0.1, 0.3, 0.5, 0.8, 0.95, 1.0], size=k)]
    ctx.note(lb=p.lb, ub=p.ub, int_var=p.int_var, X=X, fX=fX, Xpend=Xp, weights=w)
    return p, X, fX, Xp, w


@case("C07", n=700)
def merit(ctx):
    r = ctx.rng
    p, X, fX, Xp, w = data(ctx, r)
    m = r.randint(len(w), 25)
    cand = gen.points(r, p, m)
    if r.rand() < 0.4:  # candidates on or very near known points
        for t in range(r.randint(1, m + 1)):
            k = r.randint(m)
            src = X if Xp is None or not len(Xp) or r.rand() < 0.5 else Xp
            cand[k] = src[r.randint(len(src))] + (0 if r.rand() < 0.5 else 1e-5)
    if r.rand() < 0.2:
        cand[r.randint(m)] = cand[r.randint(m)]
    s = gen.surrogate(p, k=float(r.rand()))
    if r.rand() < 0.2:
        s.predict = lambda x: np.full((len(x), 1), 2.0)
    dtol = [1e-3, 1e-3, 1e-8, 0.5, 2.0][r.randint(5)]
    weights = w if r.rand() < 0.5 else np.array(w)
    X0, c0 = X.copy(), cand.copy()
    pred = np.array(s.predict(cand), copy=True)
    f = attr(cs, "weighted_distance_merit")
    ctx.note(cand=cand, dtol=dtol, predictions=pred)
    new = f(num_pts=len(w), surrogate=s, X=X, fX=fX, cand=cand, weights=weights, Xpend=Xp, dtol=dtol)
    require(np.array_equal(X, X0) and np.array_equal(cand, c0), "an argument was modified")
    judge(cand, pred, X, Xp, w, dtol, new, "weighted_distance_merit")


@case("C07", n=250)
def searches(ctx):
    """The candidate searches select from the candidates they present to the surrogate."""
    r = ctx.rng
    p, X, fX, Xp, w = data(ctx, r)
    s = gen.surrogate(p, k=float(r.rand()))
    seen = []
    orig = s.predict

    def spy(x):
        v = orig(x)
        seen.append((np.array(x, copy=True), np.array(v, copy=True)))
        return v
    s.predict = spy
    kind = r.randint(3)
    kw = dict(num_pts=len(w), opt_prob=p, surrogate=s, X=X, fX=fX, weights=w, Xpend=Xp, dtol=[1e-3, 1e-2, 0.3][r.randint(3)])
    if r.rand() < 0.6:
        kw["num_cand"] = int(r.randint(len(w), 40))
    if r.rand() < 0.4:
        kw["subset"] = np.sort(r.choice(p.dim, size=r.randint(1, p.dim + 1), replace=False))
    if kind == 0:
        new, name = candidate_srbf(sampling_radius=0.2, **kw), "candidate_srbf"
    elif kind == 1:
        new, name = candidate_dycors(prob_perturb=0.5, sampling_radius=0.1, **kw), "candidate_dycors"
    else:
        new, name = candidate_uniform(**kw), "candidate_uniform"
    if len(seen) != 1:
        ctx.nontrivial = 0
        return
    cand, pred = seen[0]
    require(len(cand) == kw.get("num_cand", 100 * p.dim), "%s: %d candidates instead of %d" % (name, len(cand), kw.get("num_cand", 100 * p.dim)))
    ctx.note(search=name, cand=cand, dtol=kw["dtol"])
    judge(cand, pred, X, Xp, w, kw["dtol"], new, name)
