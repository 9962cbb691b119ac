"""C11 Pareto center selection, against an independent model of the published rules."""
import numpy as np
import pySOT.strategy.sop_strategy as ss
from pySOT.utils import check_radius_rule
from . import gen, hist
from .common import Inconclusive, attr, case, require


def ranks(f, d, nmax=100):
    n = len(f)
    left, out, k, count = list(range(n)), [np.inf] * n, 1, 0
    f, d = np.asarray(f), np.asarray(d)
    while left and count < nmax:
        F, D = f[left], d[left]
        dominated = ((F[None, :] < F[:, None]) & (D[None, :] < D[:, None])).any(axis=1)
        front = [i for i, q in zip(left, dominated) if not q]
        for i in front:
            out[i] = k
        count += len(front)
        left = [i for i, q in zip(left, dominated) if q]
        k += 1
    return out


class Pt:
    def __init__(self, x, f):
        self.x, self.f, self.sigma, self.nfail, self.ntabu, self.rank = x, f, 0.2, 0, 0, np.inf


class Center:
    def __init__(self, i):
        self.i, self.point, self.new = i, None, None


class Model:
    def __init__(self, h):
        self.h, self.pts, self.centers = h, [], []
        self.p, self.c = h.p, h.c
        self.tabus = self.released = 0

    def unit(self):
        return np.array([(q.x - self.p.lb) / (self.p.ub - self.p.lb) for q in self.pts])

    def rank(self):
        U = self.unit()
        D = np.sqrt(((U[:, None, :] - U[None, :, :]) ** 2).sum(axis=2))
        D[D == 0] = np.inf
        for q, r in zip(self.pts, ranks([q.f for q in self.pts], -D.min(axis=1))):
            q.rank = r

    def update(self, cs):
        self.rank()
        for c in cs:
            if self.pts[c.new].rank != 1:
                self.pts[c.i].nfail += 1
                self.pts[c.i].sigma /= 2
        for q in self.pts:
            if q.ntabu >= 5:
                q.ntabu = q.nfail = 0
                q.sigma = 0.2
                self.released += 1
            elif q.ntabu > 0:
                q.ntabu += 1
        for c in cs:
            q = self.pts[c.i]
            if q.nfail > 3:
                q.nfail, q.ntabu, q.sigma = 0, 1, 0.2
                self.tabus += 1

    def select(self):
        self.rank()
        n, n0, N = len(self.pts), self.c["num_pts"], self.c["max_evals"]
        thresh = 1.0 - (n - n0) / float(N - n0) if N > n0 else 1.0
        self.centers = [c for c in self.centers if c.new is None]
        tabu = [q.ntabu for q in self.pts]
        for c in self.centers:
            tabu[c.i] = np.inf
        order = sorted(range(n), key=lambda i: (tabu[i], self.pts[i].rank, self.pts[i].f))
        best = int(np.argmin([q.f for q in self.pts]))
        if tabu[best] != np.inf:
            order.remove(best)
            order.insert(0, best)
        need = self.c["ncenters"] - len(self.centers)
        if need <= 0:
            return []
        U = self.unit()
        new = []
        for i in order:
            if len(new) == need:
                break
            if not any(np.linalg.norm(U[i] - U[j]) < 0.2 * 0.5 ** self.pts[j].nfail * thresh / np.sqrt(self.p.dim) for j in new):
                new.append(i)
        k = len(new)
        while len(new) < need:
            new.append(new[len(new) % k])
        self.centers += [Center(i) for i in new]
        return new


@case("C11", n=220)
def histories(ctx):
    if not hasattr(ss, "candidate_dycors"):
        raise Inconclusive("candidate_dycors is not looked up in the strategy module")
    r = ctx.rng
    cfg = hist.config(ctx, which="SOP", num_cand=int(r.choice([3, 8])))
    cfg["max_evals"] = cfg["num_pts"] + int(r.choice([5, 30, 60, 130], p=[0.2, 0.4, 0.3, 0.1]))
    cfg["values"] = int(r.choice([0, 0, 1, 3, 4, 4, 5]))
    h = hist.History(ctx, cfg, checks=())
    m = Model(h)
    s = h.s
    real_gen, real_cand = s.generate_evals, ss.candidate_dycors
    fresh = [False]

    def generate(num_pts):
        if num_pts <= 0:
            return real_gen(num_pts)
        fresh[0] = True
        return real_gen(num_pts)

    def cand(*a, **k):
        if "xbest" not in k or "sampling_radius" not in k:
            raise Inconclusive("call of candidate_dycors in an unexpected form")
        if fresh[0]:
            fresh[0] = False
            new = m.select()
            got = [int(c.index) for c in attr(s, "centers")]
            require(len(got) == cfg["ncenters"], "%d centers instead of %d" % (len(got), cfg["ncenters"]))
            require(got == [c.i for c in m.centers], "centers %s, the rules give %s (new: %s)" % (got, [c.i for c in m.centers], new), values=[q.f for q in m.pts], tabu=[q.ntabu for q in m.pts], ranks=[q.rank for q in m.pts], nfail=[q.nfail for q in m.pts])
        free = [c for c in m.centers if c.point is None]
        fit = [c for c in free if np.array_equal(m.pts[c.i].x, np.ravel(k["xbest"]))]
        require(bool(fit), "candidates are generated around a point that is not a free center", center=k["xbest"], free=[m.pts[c.i].x for c in free])
        require(k["sampling_radius"] == m.pts[fit[0].i].sigma, "radius %r used around a center with radius %r" % (k["sampling_radius"], m.pts[fit[0].i].sigma))
        out = real_cand(*a, **k)
        fit[0].point = np.array(out, copy=True).ravel()
        return out
    s.generate_evals = generate

    def release(x):
        for c in m.centers:
            if c.new is None and c.point is not None and np.array_equal(c.point, x):
                c.point = None
                break

    def batch_end():
        done = [c for c in m.centers if c.new is not None]
        if not cfg["asynchronous"] and not h.out and len(attr(s, "batch_queue")) == 0 and done:
            m.update(done)

    def obs(kind, o):
        if kind == "complete":
            o, v = o
            m.pts.append(Pt(o.x.copy(), v))
            if o.phase == 2:
                c = next((c for c in m.centers if c.new is None and c.point is not None and np.array_equal(c.point, o.x)), None)
                if c is not None:
                    c.new = len(m.pts) - 1
                    if cfg["asynchronous"]:
                        m.update([c])
                batch_end()
        elif kind == "abort" and o.phase == 2:
            release(o.x)
            batch_end()
        elif kind == "reject" and o.phase == 2 and cfg["asynchronous"]:
            release(o.x)
        if kind in ("complete", "abort"):
            ev = attr(s, "evals")
            require(len(ev) == len(m.pts), "%d records for %d evaluations" % (len(ev), len(m.pts)))
            for a, b in zip(ev, m.pts):
                require(a.nfail == b.nfail and a.ntabu == b.ntabu and a.sigma == b.sigma, "failure count %r, tabu count %r, radius %r of an evaluated point; the rules give %r, %r, %r" % (a.nfail, a.ntabu, a.sigma, b.nfail, b.ntabu, b.sigma), point=b.x)
    h.observers.append(obs)
    ss.candidate_dycors = cand
    try:
        h.run(60)
        h.to_the_end()
    finally:
        ss.candidate_dycors = real_cand
    if not any(c.point is not None or c.new is not None for c in m.centers):
        ctx.nontrivial = 0


@case("C11", n=300)
def radius_rule(ctx):
    r = ctx.rng
    d, n = r.randint(1, 6), r.randint(1, 7)
    X, C = r.rand(d), np.hstack((r.rand(n, d), r.rand(n, 4), r.randint(0, 6, size=(n, 1)).astype(float)))
    if r.rand() < 0.5:
        C[:, :d] = X + 0.1 * r.randn(n, d)
    nc, sg, th = r.randint(0, n + 1), [0.2, 0.5, 1.0][r.randint(3)], r.rand()
    ctx.note(X=X, C=C, nc=nc, sigma=sg, d_thresh=th)
    want = not any(np.linalg.norm(X - C[i, :d]) < sg * 0.5 ** C[i, d + 4] * th / np.sqrt(d) for i in range(nc))
    require(bool(check_radius_rule(X, C, sg, d, nc, th)) == want, "radius rule decides the wrong way")
