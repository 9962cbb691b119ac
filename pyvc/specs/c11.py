"""C11: Pareto center selection (SOP)."""
from .common import *
from ..heap import Heap
from .cand import feasible

MOD = "pySOT.strategy.sop_strategy:"
SOP = MOD + "SOPStrategy"
REC = {"x": "row", "fx": "num", "rank": "num", "_nfail": "num", "_ntabu": "num", "_sigma": "num"}
CEN = {"xc": "row", "index": "num", "_new_point": "optrow", "_new_index": "optnum"}
ZI = z3.IntSort()


class Sop(object):
    """A strategy with any archive of evaluated points and any list of centers."""

    def __init__(self, I, ranked=True):
        E = self.E = I.E
        self.I = I
        self.d = d = sym_dim(E)
        self.n = n = E.Int("n")
        E.assume(n >= 2)
        E.touch(n), E.touch(0)
        p = Obj(I.get("pySOT.optimization_problems:OptimizationProblem"))
        self.lb, self.ub = box(E, d)
        p.attrs.update(dim=d, lb=self.lb, ub=self.ub)
        f = {"x": E.Func("ex", ZI, Pt), "fx": E.Func("fx", ZI, z3.RealSort()), "_nfail": E.Func("nfail", ZI, ZI), "_ntabu": E.Func("ntabu", ZI, ZI), "_sigma": E.Func("sigma", ZI, z3.RealSort())}
        rv, ri = E.Func("rank", ZI, z3.RealSort()), E.Func("rank_inf", ZI, z3.BoolSort())
        f["rank"] = lambda i: XR(rv(i), ri(i), False)
        self.evals = Heap(I.get(MOD + "_SopRecord"), n, d, REC, f)
        E.assume_forall(("Int",), lambda i: b_imp(rng(i, n), b_and(f["_nfail"](i) >= 0, f["_ntabu"](i) >= 0, f["_sigma"](i) > 0)), "counters")
        c = self.c = E.Int("c")
        E.assume(c >= 0)
        E.touch(c)
        g = {"xc": E.Func("cx", ZI, Pt), "index": E.Func("ci", ZI, ZI), "_new_point": (E.Func("cp_has", ZI, z3.BoolSort()), E.Func("cp", ZI, Pt)),
             "_new_index": (E.Func("cn_has", ZI, z3.BoolSort()), E.Func("cn", ZI, ZI))}
        self.centers = Heap(I.get(MOD + "_SopCenter"), c, d, CEN, g)
        E.assume_forall(("Int",), lambda k: b_imp(rng(k, c), b_and(rng(g["index"](k), n), b_imp(g["_new_index"][0](k), b_and(g["_new_point"][0](k), rng(g["_new_index"][1](k), n))))), "centers")
        self.radius = E.Real("radius")
        E.assume(self.radius > 0)
        self.o = Obj(I.get(SOP))
        self.o.attrs.update(opt_prob=p, evals=self.evals, centers=self.centers, num_evals=n, sampling_radius=self.radius, F_ranked=None, asynchronous=E.Bool("asynchronous"),
                            ncenters=E.Int("ncenters"), num_exp=E.Int("num_exp"), max_evals=E.Int("max_evals"), d_thresh=E.Real("d_thresh"))
        E.assume(self.o.attrs["ncenters"] >= 4)

    def snap(self):
        return {"evals": (self.evals.n, dict(self.evals.f)), "centers": (self.centers.n, dict(self.centers.f))}

    def unchanged(self, heap, names, old, tag):
        """The attributes of all elements are what they were."""
        for nm in names:
            if heap.f[nm] is old[nm]:
                continue
            i = sk_int(self.E, "el", 0, heap.n)
            a, b = heap.f[nm], old[nm]
            if isinstance(a, tuple):
                self.E.prove("%s: %s" % (tag, nm), b_and(b_iff(a[0](i), b[0](i)), b_imp(a[0](i), eq(a[1](i), b[1](i)))))
            else:
                self.E.prove("%s: %s" % (tag, nm), eq(a(i), b(i)))

    def normed(self, f, i, j):
        """Coordinate j of point i in the unit box."""
        return div(sub(coord(f["x"](integer(i)), integer(j)), self.lb.at(j)), sub(self.ub.at(j), self.lb.at(j)))

    def matrix(self, F, f, tag, dist=None, rank=None):
        """The archive F describes the records."""
        E, n, d = self.E, self.n, self.d
        E.prove("%s: size of the archive" % tag, isinstance(F, Arr) and len(F.shape) == 2 and b_and(eq(F.shape[0], n), eq(F.shape[1], add(d, 5))))
        i, j = sk_int(E, "row", 0, n), sk_int(E, "col", 0, d)
        E.prove("%s: points in the unit box" % tag, eq(F.at(i, j), self.normed(f, i, j)))
        col = lambda k: F.at(i, simp(add(d, k)))
        for k, nm in ((0, "fx"), (2, "_ntabu"), (3, "rank"), (4, "_nfail")):
            v = f[nm](i) if nm != "rank" or rank is None else rank(i)
            E.prove("%s: column %d holds %s" % (tag, k, nm), xeq(col(k), v))
        if dist is not None:
            E.prove("%s: column 1 holds minus the distance to the nearest other point" % tag, eq(col(1), dist(i)))


def sk_int(E, name, lo, hi):
    """Any index; if there is none (no centers) an arbitrary number, about which the same is proved."""
    v = E.Int(name)
    if E.branch(lt(lo, hi)):
        E.assume(b_and(ge(v, lo), lt(v, hi)))
    E.touch(v)
    return v


# ------------------------------------------------------------ small methods
def records(I):
    E = I.E
    d = sym_dim(E)
    x, fx, s, s2 = vec(E, d, "x"), E.Real("fx"), E.Real("sigma"), E.Real("sigma2")
    r = I.call(I.get(MOD + "_SopRecord"), [x, fx, s])
    at = r.attrs
    E.prove("a new record has no failures, is not tabu and has the radius given", b_and(at["x"] is x, eq(at["fx"], fx), eq(I.getattr(r, "nfail"), 0), eq(I.getattr(r, "ntabu"), 0), eq(I.getattr(r, "sigma"), s), xr(at["rank"]).inf))
    nf, nt, sg = E.Int("nf"), E.Int("nt"), E.Real("sg")

    def state(a, b, c):
        return b_and(at["x"] is x, eq(at["fx"], fx), xr(at["rank"]).inf, eq(I.getattr(r, "nfail"), a), eq(I.getattr(r, "ntabu"), b), eq(I.getattr(r, "sigma"), c))
    for name, args, want in (("reduce_sigma", [], (nf, nt, div(sg, 2))), ("increment_failure_count", [], (add(nf, 1), nt, sg)), ("make_tabu", [s2], (0, 1, s2)),
                             ("increment_tabu_tenure", [], (nf, add(nt, 1), sg)), ("reset", [s2], (0, 0, s2))):
        at["_nfail"], at["_ntabu"], at["_sigma"] = nf, nt, sg
        I.call(I.getattr(r, name), args)
        E.prove("%s: effect on failures, tenure and radius" % name, state(*want))
    xc, idx = vec(E, d, "xc"), E.Int("index")
    c = I.call(I.get(MOD + "_SopCenter"), [xc, idx])
    E.prove("a new center is free", b_and(c.attrs["xc"] is xc, eq(c.attrs["index"], idx), I.getattr(c, "new_point") is None, I.getattr(c, "new_index") is None))
    m = E.Int("m")
    E.assume(m >= 0)
    v = vec(E, m, "v")
    try:
        I.setattr(c, "new_point", v)
        E.prove("a new point has the dimension of the center", eq(m, d))
        E.prove("the new point is remembered", I.getattr(c, "new_point") is v)
    except PyExc as e:
        E.prove("only a point of another dimension is refused", b_and(e.args[0] == "ValueError", ne(m, d)))
    k = E.Int("k")
    I.setattr(c, "new_index", k)
    E.prove("the index of the new point is remembered", eq(I.getattr(c, "new_index"), k))
    I.call(I.getattr(c, "release"), [])
    E.prove("a released center has no new point", I.getattr(c, "new_point") is None)


def radius_rule(I):
    """1 exactly if the point keeps its distance from all centers chosen."""
    E = I.E
    d, nc, m = sym_dim(E), E.Int("nc"), E.Int("m")
    E.assume(b_and(nc >= 0, nc <= m))
    E.touch(nc)
    x, C, s, th = vec(E, d, "x"), mat(E, m, simp(add(d, 5)), "centers"), E.Real("sigma"), E.Real("thresh")
    E.assume(b_and(s > 0, th >= 0))
    E.assume_forall(("Int",), lambda k: b_imp(rng(k, m), b_and(ge(C.at(k, simp(add(d, 4))), 0), is_integral(C.at(k, simp(add(d, 4)))))), "failure counts")
    half = lambda k: power(Fraction(1, 2), C.at(k, simp(add(d, 4))))
    E.assume_forall(("Int",), lambda k: b_imp(rng(k, m), b_imp(eq(C.at(k, simp(add(d, 4))), 0), eq(half(k), 1))), "zeroth power")
    sub_ = A.getitem(C, (slice(None), slice(0, d, None)))
    px, rows = A.reify_point(x), I.np.points_of(sub_)
    root = ufun("sqrt", d)

    def euclidean(a, b):
        """Points with equal coordinates are equal: stated for the rows in question."""
        pa, pb = A.reify_point(a), A.reify_point(b)
        for q in (pa, pb):
            for k in loop_indices(E):
                A.pt_eq(q, rows(k), d)
            A.pt_eq(q, px, d)
        return I.np.D(pa, pb)
    I.np.extra["scipy.spatial.distance.euclidean"] = euclidean

    def ok(k):
        return ge(I.np.D(px, rows(k)), div(mul(mul(half(k), s), th), root))
    I.loopspecs = {("pySOT.utils:check_radius_rule", 0): LoopSpec(lambda ctx: [("all centers so far are far enough", (("Int",), lambda k: b_imp(rng(k, ctx.t), ok(k)))), ("flag is up", eq(ctx["flag"], 1))],
                                                                    lambda ctx: None)}
    r = I.call(I.get("pySOT.utils:check_radius_rule"), [x, C, s, d, nc], {"d_thresh": th})
    k = E.Int("k")
    E.touch(k)
    E.prove("accepted only if it keeps its distance from every center", b_imp(b_and(rng(k, nc), eq(r, 1)), ok(k)))
    E.prove("the answer is 0 or 1", b_or(eq(r, 0), eq(r, 1)))
    E.prove("refused only if it is too close to a center", b_imp(eq(r, 0), b_or(b_not(ok(k)), *[b_and(rng(v, nc), b_not(ok(v))) for v in loop_indices(E)])))


def loop_indices(E):
    """Indices of the iteration that was left by break."""
    r = []
    for t, _ in list(E.pool.get("Int", {}).values()):
        if is_z3(t) and z3.is_const(t) and str(t).startswith("it!"):
            r.append(t)
    return r


# ------------------------------------------------------------------ archive
def update_F(I):
    S = Sop(I)
    E, o = I.E, S.o
    old = S.snap()
    I.call(I.getattr(o, "update_F"), [])
    S.matrix(o.attrs["F_ranked"], old["evals"][1], "update_F")
    S.unchanged(S.evals, REC, old["evals"][1], "update_F does not change the records")
    S.unchanged(S.centers, CEN, old["centers"][1], "update_F does not change the centers")


def nearest(S, f):
    """Distance of record i to the nearest record at another place (in the unit box); 0 distances are the point itself or a duplicate."""
    I, E, n = S.I, S.E, S.n
    P = E.Func("unit_point", ZI, Pt)
    E.assume_forall(("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, n), rng(j, S.d)), eq(coord(P(i), j), S.normed(f, i, j))), "points in the unit box")
    m, w = E.Func("nearest", ZI, z3.RealSort()), E.Func("nearest_at", ZI, ZI)
    D = lambda i, k: I.np.D(P(integer(i)), P(integer(k)))
    # definition of the minimum; that there is a point at another place is a precondition
    E.assume_forall(("Int",), lambda i: b_imp(rng(i, n), b_and(rng(w(i), n), ne(D(i, w(i)), 0), eq(m(i), D(i, w(i))))), "nearest: attained")
    E.assume_forall(("Int", "Int"), lambda i, k: b_imp(b_and(rng(i, n), rng(k, n), ne(D(i, k), 0)), le(m(i), D(i, k))), "nearest: minimal")
    return m, P, w


def update_ranks(I):
    S = Sop(I)
    E, o, n, d = I.E, S.o, S.n, S.d
    old = S.snap()
    f0 = old["evals"][1]
    m, P, wit = nearest(S, f0)
    seen = {}

    def cdist(a, b, metric="euclidean"):
        E.prove("distances between all pairs of points", b_and(eq(a.shape[0], n), eq(b.shape[0], n), eq(a.shape[1], d), eq(b.shape[1], d)))
        i, j = sk_int(E, "row", 0, n), sk_int(E, "col", 0, d)
        for x in (a, b):
            E.prove("distances are measured in the unit box", eq(x.at(i, j), S.normed(f0, i, j)))
        return A.new((n, n), lambda ix: I.np.D(P(integer(ix[0])), P(integer(ix[1]))))
    I.np.extra["scipy.spatial.distance.cdist"] = cdist

    def dists(ctx):
        F, t = ctx["F"], ctx.t
        E.hint(m(integer(t)), wit(integer(t)))
        E.touch(wit(integer(t)))
        f = ctx.pre_state[id(F.cell)][1]
        return [("size of the archive", len(F.shape) == 2 and b_and(eq(F.shape[0], n), eq(F.shape[1], add(d, 5)))),
                ("distances so far", (("Int",), lambda i: b_imp(rng(i, t), eq(F.at(i, simp(add(d, 1))), neg(m(integer(i))))))),
                ("rest of the archive is kept", (("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, n), rng(j, add(d, 5)), b_or(ge(i, t), ne(j, add(d, 1)))), xeq(F.at(i, j), f((i, j))))))]
    I.loopspecs = {(SOP + ".update_ranks", lambda src: "dists" in src): LoopSpec(dists, lambda ctx: ctx.havoc_cell(ctx["F"], "F"))}
    rv, ri = E.Func("new_rank", ZI, z3.RealSort()), E.Func("new_rank_inf", ZI, z3.BoolSort())

    def sorting(I_, func, a):
        F, nmax = a["F"], a["nmax"]
        E.prove("points are ranked by value and distance", len(F.shape) == 2 and b_and(eq(F.shape[0], 2), eq(F.shape[1], n), eq(nmax, 100)))
        i = sk_int(E, "point", 0, n)
        E.prove("first objective: the value", eq(F.at(0, i), f0["fx"](i)))
        E.prove("second objective: minus the distance to the nearest other point", eq(F.at(1, i), neg(m(i))))
        seen["r"] = True
        return A.new((n,), lambda ix: XR(rv(integer(ix[0])), ri(integer(ix[0])), False))
    I.contracts["pySOT.utils:nd_sorting"] = sorting

    def ranks(ctx):
        f, g = S.evals.f["rank"], f0["rank"]
        return [("ranks so far", (("Int",), lambda i: b_imp(rng(i, n), xeq(f(integer(i)), xite(lt(i, ctx.t), XR(rv(integer(i)), ri(integer(i)), False), g(integer(i)))))))]

    def mod(ctx):
        a, b = E.Func("rank", ZI, z3.RealSort()), E.Func("rank_inf", ZI, z3.BoolSort())
        S.evals.f = dict(S.evals.f, rank=lambda i: XR(a(integer(i)), b(integer(i)), False))
        ctx.may_change(S.evals)
    I.loopspecs[(SOP + ".update_ranks", lambda src: "zip" in src)] = LoopSpec(ranks, mod)
    I.call(I.getattr(o, "update_ranks"), [])
    E.cover("the archive is ranked")
    E.prove("the points are ranked", bool(seen))
    new = lambda i: XR(rv(integer(i)), ri(integer(i)), False)
    S.matrix(o.attrs["F_ranked"], f0, "update_ranks", dist=lambda i: neg(m(i)), rank=new)
    i = sk_int(E, "rec", 0, n)
    E.prove("every record remembers its rank", xeq(S.evals.f["rank"](i), new(i)))
    S.unchanged(S.evals, [k for k in REC if k != "rank"], f0, "update_ranks changes nothing but the rank")
    S.unchanged(S.centers, CEN, old["centers"][1], "update_ranks does not change the centers")


def archive(S, f, m, new):
    """The matrix that update_ranks leaves behind (its contract)."""
    E, d = S.E, S.d

    def at(ix):
        i, j = integer(ix[0]), ix[1]
        r = ite(eq(j, add(d, 4)), f["_nfail"](i), S.normed(f, i, j))
        r = ite(eq(j, add(d, 2)), f["_ntabu"](i), r)
        r = ite(eq(j, add(d, 1)), neg(m(i)), r)
        r = ite(eq(j, d), f["fx"](i), r)
        return ite(eq(j, add(d, 3)), xr(new(i)), xr(r))
    return A.new((S.n, add(d, 5)), at, "f")


def ranks_contract(S, calls):
    """Contract of update_ranks: new ranks, in the records and in the archive; nothing else changes."""
    E = S.E

    def handler(I, func, a):
        E.prove("update_ranks is applied to this strategy", a["self"] is S.o)
        rv, ri = E.Func("new_rank", ZI, z3.RealSort()), E.Func("new_rank_inf", ZI, z3.BoolSort())
        m = E.Func("nearest", ZI, z3.RealSort())
        new = lambda i: XR(rv(integer(i)), ri(integer(i)), False)
        S.evals.f = dict(S.evals.f, rank=new)
        S.o.attrs["F_ranked"] = archive(S, dict(S.evals.f), m, new)
        calls.append(new)
        return None
    S.I.contracts[SOP + ".update_ranks"] = handler


FIELDS = ("_nfail", "_ntabu", "_sigma")


def adjust(I, batch):
    S = Sop(I)
    E, o, n, d, ev, ce = I.E, S.o, S.n, S.d, S.evals, S.centers
    old = S.snap()
    f0, g0 = old["evals"][1], old["centers"][1]
    calls = []
    ranks_contract(S, calls)
    K, Sg, T = E.Func("fails", ZI, ZI, ZI), E.Func("halved", ZI, ZI, z3.RealSort()), E.Func("processed", ZI, ZI, z3.BoolSort())
    size = [None]

    def proc(ctx):
        l = ctx["indices"]
        if not isinstance(l, SymList):
            raise Unsupported("indices")
        size[0] = l.n
        return lambda t: l.get(integer(t))

    def failed(k):
        r = xr(calls[-1](g0["_new_index"][1](integer(k))))
        return b_not(b_and(b_not(r.inf), eq(r.v, 1)))

    def fresh(ctx, names):
        for nm in names:
            f = E.Func(nm, ZI, z3.RealSort() if nm == "_sigma" else ZI)
            ev.f = dict(ev.f, **{nm: lambda i, f=f: f(integer(i))})
        ctx.may_change(ev)

    def define(ctx, rec):
        """Recursive definitions of the ghost functions, at the index needed."""
        t = integer(ctx.t)
        if ctx.stage == "init":
            E.assume_forall(("Int",), lambda e: rec(None, e), "definition")
        elif ctx.stage == "head":
            E.assume_forall(("Int",), lambda e: rec(t, e), "definition")

    def fails(ctx):
        at = proc(ctx)

        def rec(t, e):
            if t is None:
                return b_and(K(0, e) == 0, eq(Sg(0, e), f0["_sigma"](e)))
            hit = b_and(eq(g0["index"](integer(at(t))), e), failed(at(t)))
            return b_and(eq(K(simp(t + 1), e), add(K(t, e), ite(hit, 1, 0))), eq(Sg(simp(t + 1), e), ite(hit, div(Sg(t, e), 2), Sg(t, e))))
        define(ctx, rec)
        t = integer(ctx.t)
        f = ev.f
        return [("failures counted and radii halved so far", (("Int",), lambda e: b_imp(rng(e, n), b_and(eq(f["_nfail"](e), add(f0["_nfail"](e), K(t, e))), eq(f["_sigma"](e), Sg(t, e)), K(t, e) >= 0)))),
                ("tenure not changed yet", (("Int",), lambda e: b_imp(rng(e, n), eq(f["_ntabu"](e), f0["_ntabu"](e)))))]

    def aged(f, e):
        """One update of the tabu tenure."""
        tab, last = gt(f["_ntabu"](e), 0), ge(f["_ntabu"](e), 5)
        out = b_and(tab, last)
        return {"_nfail": ite(out, 0, f["_nfail"](e)), "_ntabu": ite(tab, ite(last, 0, add(f["_ntabu"](e), 1)), f["_ntabu"](e)), "_sigma": ite(out, S.radius, f["_sigma"](e))}

    def tenure(ctx):
        f2, f, t = ctx.pre_state[id(ev)][1][1], ev.f, ctx.t
        return [("tenure updated so far: %s" % nm, (("Int",), lambda e, nm=nm: b_imp(rng(e, n), eq(f[nm](e), ite(lt(e, t), aged(f2, e)[nm], f2[nm](e)))))) for nm in FIELDS]

    def tabu(ctx):
        at = proc(ctx)
        define(ctx, lambda t, e: b_not(T(0, e)) if t is None else b_iff(T(simp(t + 1), e), b_or(T(t, e), eq(g0["index"](integer(at(t))), e))))
        f3, f, t = ctx.pre_state[id(ev)][1][1], ev.f, integer(ctx.t)
        return [("tabu list so far", (("Int",), lambda e: b_imp(rng(e, n), same_rec(f, e, made(f3, e, T(t, e))))))]

    def made(f3, e, processed):
        if not isinstance(f3, dict):
            f3 = f3(e)
        v = {nm: f3[nm](e) if callable(f3[nm]) else f3[nm] for nm in FIELDS}
        c = b_and(processed, gt(v["_nfail"], 3))
        return {"_nfail": ite(c, 0, v["_nfail"]), "_ntabu": ite(c, 1, v["_ntabu"]), "_sigma": ite(c, S.radius, v["_sigma"])}

    def same_rec(f, e, v):
        return b_and(*[eq(f[nm](e), v[nm]) for nm in FIELDS])
    q = SOP + ".adjust_memory"
    I.loopspecs = {(q, lambda src: "increment_failure_count" in src): LoopSpec(fails, lambda ctx: fresh(ctx, ("_nfail", "_sigma"))),
                   (q, lambda src: "increment_tabu_tenure" in src): LoopSpec(tenure, lambda ctx: fresh(ctx, FIELDS)),
                   (q, lambda src: "make_tabu" in src): LoopSpec(tabu, lambda ctx: fresh(ctx, FIELDS))}
    if batch:
        I.call(I.getattr(o, "adjust_memory"), [])
    else:
        E.assume(S.c > 0)
        k = sk_int(E, "center", 0, S.c)
        E.assume(g0["_new_index"][0](k))
        I.call(I.getattr(o, "adjust_memory"), [k])
    E.cover("the memory is adjusted")
    E.prove("the ranks are updated first, once", len(calls) == 1)
    e = sk_int(E, "rec", 0, n)
    if batch:
        m = integer(size[0])
        cnt, sig, hit = K(m, e), Sg(m, e), T(m, e)
    else:
        mine = eq(g0["index"](k), e)
        c = b_and(mine, failed(k))
        cnt, sig, hit = ite(c, 1, 0), ite(c, div(f0["_sigma"](e), 2), f0["_sigma"](e)), mine
    f2 = {"_nfail": lambda e: add(f0["_nfail"](e), cnt), "_sigma": lambda e: sig, "_ntabu": f0["_ntabu"]}
    want = made(aged(f2, e), e, hit)
    for nm, what in (("_nfail", "failures: one more for each new point off the first front, none after a tabu change"), ("_ntabu", "tenure: tabu after more than three failures, released after five updates"),
                     ("_sigma", "radius: halved for each failure, reset with a tabu change")):
        E.prove(what, eq(ev.f[nm](e), want[nm]))
    E.prove("every record remembers its new rank", xeq(ev.f["rank"](e), calls[-1](e)))
    S.unchanged(ev, ("x", "fx"), f0, "points and values are not changed")
    S.unchanged(ce, CEN, g0, "the centers are not changed")
    E.prove("the lists keep their lengths", b_and(eq(ev.n, n), eq(ce.n, S.c)))
    S.matrix(o.attrs["F_ranked"], dict(ev.f), "the archive is current")


# ------------------------------------------------------------------- events
BASE = "pySOT.strategy.surrogate_strategy:SurrogateBaseStrategy."


def point(E, name, d):
    p = z3.Const(E.fresh_name(name), Pt)
    E.touch(p)
    return p, A.pt_arr(p, d)


def waiting(g, k, p):
    """Center k proposed p and has not heard of it."""
    k = integer(k)
    return b_and(b_not(g["_new_index"][0](k)), g["_new_point"][0](k), g["_new_point"][1](k) == p)


def same_center(f, g, k, names=CEN):
    r = []
    for nm in names:
        a, b = f[nm], g[nm]
        if isinstance(a, tuple):
            r += [b_iff(a[0](k), b[0](k)), b_imp(a[0](k), eq(a[1](k), b[1](k)))]
        else:
            r.append(eq(a(k), b(k)))
    return b_and(*r)


def no_earlier(S, p):
    """Loop invariant: the centers looked at so far do not wait for p."""
    E = S.E
    g0 = S.centers.f

    def inv(ctx):
        out = [("no center so far waits for the point", (("Int",), lambda k: b_imp(rng(k, ctx.t), b_not(waiting(g0, k, p)))))]
        if ctx.has("center_index"):
            out.append(("no center is found yet", ctx["center_index"] is None))
        return out
    return LoopSpec(inv, lambda ctx: None)


def release(I):
    S = Sop(I)
    E, o, ce = I.E, S.o, S.centers
    old = S.snap()
    g0 = old["centers"][1]
    p, x = point(E, "x", S.d)
    I.loopspecs = {(SOP + ".release_center", 0): no_earlier(S, p)}
    I.call(I.getattr(o, "release_center"), [x])
    E.cover("a center is released")
    g = ce.f
    k, l = sk_int(E, "k", 0, S.c), sk_int(E, "l", 0, S.c)
    freed = lambda k: b_and(g0["_new_point"][0](k), b_not(g["_new_point"][0](k)))
    E.prove("the number of centers is kept", eq(ce.n, S.c))
    E.prove("only a center that waits for the point is released", b_imp(freed(k), waiting(g0, k, p)))
    E.prove("at most one center is released", b_imp(b_and(freed(k), freed(l)), eq(k, l)))
    E.prove("a center that waits for the point is found", b_imp(b_and(rng(k, S.c), waiting(g0, k, p)), b_or(*[b_and(rng(v, S.c), freed(v)) for v in loop_indices(E)])))
    E.prove("all other centers are kept", b_or(freed(k), same_center(g, g0, k)))
    E.prove("a released center stays where it is", same_center(g, g0, k, ("xc", "index", "_new_index")))
    S.unchanged(S.evals, REC, old["evals"][1], "release_center does not change the records")


def completed(I, asynchronous):
    """An evaluation of the adaptive phase is completed."""
    S = Sop(I)
    E, o, n, d, ev, ce = I.E, S.o, S.n, S.d, S.evals, S.centers
    old = S.snap()
    f0, g0 = old["evals"][1], old["centers"][1]
    p, x = point(E, "x", d)
    v, ev_id = E.Real("value"), E.Int("ev_id")
    rec = Obj(I.get(MOD + "_SopRecord"))
    rec.attrs.update(params=(x,), value=v, ev_id=ev_id)
    m, pend = E.Int("queued"), E.Int("pending")
    E.assume(b_and(m >= 0, pend >= 0))
    Q = E.Func("queue", ZI, Pt)
    queue = SymList(m, lambda i: A.pt_arr(Q(integer(i)), d))
    last = E.Int("ev_last")
    o.attrs.update(asynchronous=asynchronous, batch_queue=queue, pending_evals=pend + 1, ev_last=last, record_queue=PList([]))
    log = []

    def base(I_, func, a):
        E.prove("the base class is told about the evaluation first", a["self"] is o and a["record"] is rec and not log)
        o.attrs["num_evals"] = n + 1
        o.attrs["pending_evals"] = pend
        log.append("base")

    def memory(I_, func, a):
        E.prove("the memory is adjusted after the evaluation is recorded", a["self"] is o and log == ["base"])
        E.prove("the list of evaluated points is complete when the memory is adjusted", eq(ev.n, n + 1))
        log.append(("adjust", a.get("index")))
    I.contracts[BASE + "on_adapt_completed"] = base
    I.contracts[SOP + ".adjust_memory"] = memory
    I.loopspecs = {(SOP + ".on_adapt_completed", 0): no_earlier(S, p)}
    I.call(I.getattr(o, "on_adapt_completed"), [rec])
    E.cover("the evaluation is recorded")
    g, f = ce.f, ev.f
    k, l = sk_int(E, "k", 0, S.c), sk_int(E, "l", 0, S.c)
    i = sk_int(E, "i", 0, n)
    told = lambda k: b_and(g["_new_index"][0](k), b_not(g0["_new_index"][0](k)))
    stale = lt(ev_id, last)
    E.prove("the base class is told", bool(log) and log[0] == "base")
    E.prove("the number of centers is kept", eq(ce.n, S.c))
    E.prove("points evaluated before stay as they are", b_and(*[xeq(f[nm](i), f0[nm](i)) for nm in REC]))
    E.prove("an evaluation of an earlier run is not recorded", b_imp(stale, b_and(eq(ev.n, n), same_center(g, g0, k), len(log) == 1)))
    rk = xr(f["rank"](n))
    E.prove("the evaluation is recorded with its point and value, no failures, not tabu, the initial radius", b_imp(b_not(stale), b_and(eq(ev.n, n + 1), f["x"](n) == p, eq(f["fx"](n), v), eq(f["_nfail"](n), 0), eq(f["_ntabu"](n), 0), eq(f["_sigma"](n), S.radius), rk.inf)))
    E.prove("only a center that waits for the point is told", b_imp(told(k), waiting(g0, k, p)))
    E.prove("at most one center is told", b_imp(b_and(told(k), told(l)), eq(k, l)))
    E.prove("it is told the place of the point", b_imp(told(k), eq(g["_new_index"][1](k), n)))
    E.prove("a center that waits for the point is found", b_imp(b_and(rng(k, S.c), b_not(stale), waiting(g0, k, p)), b_or(*[b_and(rng(w, S.c), told(w)) for w in loop_indices(E)])))
    E.prove("the other centers are kept", b_or(told(k), same_center(g, g0, k)))
    E.prove("a center that is told keeps its place and its point", same_center(g, g0, k, ("xc", "index", "_new_point")))
    adj = [a for a in log[1:]]
    E.prove("the memory is adjusted at most once", len(adj) <= 1)
    if asynchronous:
        E.prove("the memory is adjusted for the center that is told", b_iff(bool(adj), b_or(*[b_and(rng(w, S.c), told(w)) for w in loop_indices(E)])))
        if adj:
            E.prove("the memory is adjusted for that center", adj[0][1] is not None and b_imp(told(k), eq(adj[0][1], k)))
    else:
        E.prove("the memory is adjusted when the batch is complete", b_imp(b_not(stale), b_iff(bool(adj), b_and(eq(m, 0), eq(pend, 0)))))
        if adj:
            E.prove("the memory is adjusted for all centers", adj[0][1] is None)


def lost(I, what, asynchronous):
    """An evaluation is rejected or aborted."""
    S = Sop(I)
    E, o, d = I.E, S.o, S.d
    g0 = S.centers.f
    p, x = point(E, "x", d)
    rec = Obj(I.get(MOD + "_SopRecord"))
    rec.attrs.update(params=(x,), args=(x,))
    m, pend = E.Int("queued"), E.Int("pending")
    E.assume(b_and(m >= 0, pend >= 0))
    Q = E.Func("queue", ZI, Pt)
    queue = SymList(m, lambda i: A.pt_arr(Q(integer(i)), d))
    o.attrs.update(asynchronous=asynchronous, batch_queue=queue, pending_evals=pend + 1)
    log = []

    def base(I_, func, a):
        E.prove("the base class is told first", a["self"] is o and list(a.values())[1] is rec and not log)
        o.attrs["pending_evals"] = pend
        if what == "reject" and not asynchronous:      # the point is queued again
            queue.n = m + 1
        log.append("base")

    def rel(I_, func, a):
        E.prove("the center of this point is released", A.reify_point(a["x"]) == p)
        log.append("release")

    def memory(I_, func, a):
        log.append("adjust")
        E.prove("the memory is adjusted for all centers", a.get("index") is None)
    I.contracts[BASE + "on_adapt_" + what] = base
    I.contracts[SOP + ".release_center"] = rel
    I.contracts[SOP + ".adjust_memory"] = memory
    I.call(I.getattr(o, "on_adapt_" + what), [rec])
    E.cover("the loss is handled")
    want = ["base"]
    if what == "aborted" or asynchronous:
        want.append("release")
    E.prove("the base class is told and the center released once, unless the point is queued again", log[:len(want)] == want and "release" not in log[len(want):])
    adj = log[len(want):]
    E.prove("the memory is adjusted at most once", adj in ([], ["adjust"]))
    if what == "aborted" and not asynchronous:
        k = sk_int(E, "k", 0, S.c)
        E.prove("no adjustment before the batch is complete", b_imp(bool(adj), b_and(eq(m, 0), eq(pend, 0))))
        if not adj:
            E.prove("the memory is adjusted when the batch is complete", b_imp(b_and(rng(k, S.c), eq(m, 0), eq(pend, 0)), b_not(g0["_new_index"][0](k))))
    else:
        E.prove("the memory is not adjusted", not adj)
    S.unchanged(S.centers, CEN, g0, "the centers are changed by release_center only")


# ------------------------------------------------------------- generate_evals
def centers_of(S, name):
    """Any list of centers."""
    E, n = S.E, S.n
    c = E.Int(name + "_n")
    E.assume(c >= 0)
    E.touch(c)
    g = {"xc": E.Func(name + "_x", ZI, Pt), "index": E.Func(name + "_i", ZI, ZI), "_new_point": (E.Func(name + "_p_has", ZI, z3.BoolSort()), E.Func(name + "_p", ZI, Pt)),
         "_new_index": (E.Func(name + "_n_has", ZI, z3.BoolSort()), E.Func(name + "_nw", ZI, ZI))}
    E.assume_forall(("Int",), lambda k: b_imp(rng(k, c), b_and(rng(g["index"](k), n), b_imp(g["_new_index"][0](k), b_and(g["_new_point"][0](k), rng(g["_new_index"][1](k), n))))), "centers")
    return c, g


def generate(I, prop="C11"):
    S = Sop(I)
    S.prop = prop
    E, o, n, d, ev, ce = I.E, S.o, S.n, S.d, S.evals, S.centers
    at, p = o.attrs, S.o.attrs["opt_prob"]
    p.attrs["int_var"] = int_vars(E, d, lb=S.lb, ub=S.ub, distinct=True)
    p.attrs["cont_var"] = Opaque("cont_var")
    num = E.Int("num_pts")
    E.assume(num >= 1)
    E.touch(num)
    nx, np_, nq, nr = E.Int("nx"), E.Int("npend"), E.Int("queued"), E.Int("nrun")
    E.assume(b_and(nx >= 0, np_ >= 0, nq >= 0, nr >= 0))
    Q0 = E.Func("queue", ZI, Pt)
    queue = SymList(nq, lambda i: A.pt_arr(Q0(integer(i)), d), None, "pt")
    sur = Obj(I.get("pySOT.surrogate:RBFInterpolant"))
    at.update(X=mat(E, nx, d, "X"), Xpend=mat(E, np_, d, "Xpend"), _X=mat(E, nr, d, "_X"), _fX=mat(E, nr, 1, "_fX"), batch_queue=queue, surrogate=sur, num_cand=E.Int("num_cand"))
    f0 = dict(ev.f)
    # the archive: absent, out of date, or current
    md = E.Func("dist", ZI, z3.RealSort())
    st = E.choose(3)
    if st:
        rows = E.Int("rows")
        E.assume(b_and(rows >= 0, ne(rows, n)) if st == 1 else eq(rows, n))
        F = archive(S, f0, md, f0["rank"])
        at["F_ranked"] = F if st == 2 else A.new((rows, add(d, 5)), F.cell.fn, "f")
    calls = []

    def prove(name, goal, tags=""):
        if prop == "C11" or prop in tags.split():
            E.prove(name, goal)
    ranks_contract(S, calls)
    c1, g1 = centers_of(S, "cn")
    W, pos = E.Func("free_at", ZI, ZI), E.Func("free_no", ZI, ZI)
    updated = []
    has1 = g1["_new_point"][0]

    def update(I_, func, a):
        prove("the archive is current when the centers are chosen", bool(calls) or st == 2)
        prove("the ranks are updated if there are new evaluations, and only then", bool(calls) == (st != 2))
        ce.n, ce.f = c1, dict(g1)
        # contract of update_center_list and precondition on the number of workers: num_pts centers are free, the first ones at W(0) < W(1) < ...
        E.assume_forall(("Int",), lambda j: b_imp(rng(j, num), b_and(rng(W(j), c1), b_not(has1(W(j))), eq(pos(W(j)), j))), "free centers")
        E.assume_forall(("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, num), rng(j, num), lt(i, j)), lt(W(i), W(j))), "free centers in order")
        E.assume_forall(("Int",), lambda k: b_imp(b_and(rng(k, c1), b_not(has1(k)), le(k, W(simp(num - 1)))), b_and(rng(pos(k), num), eq(W(pos(k)), k))), "the first free centers")
        updated.append(1)
    I.contracts[SOP + ".update_center_list"] = update
    R = E.Func("found", ZI, Pt)
    E.assume_forall(("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, num), rng(j, d)), feasible(p, coord(R(i), j), j)), "the search returns feasible points (C05)")
    cur = [None]
    searches = []

    def search(I_, func, a):
        t = cur[0]
        w = W(integer(t))
        near(t)
        prove("one point is searched for per center", eq(a["num_pts"], 1), "C05")
        prove("the search gets the problem and the surrogate of the strategy", a["opt_prob"] is p and a["surrogate"] is sur, "C05 C21")
        j = sk_int(E, "j", 0, d)
        prove("the search is centered at the next free center", eq(a["xbest"].at(j), coord(g1["xc"](w), j)) if isinstance(a["xbest"], Arr) else False, "C21")
        prove("the search uses the radius of the center", eq(a["sampling_radius"], f0["_sigma"](g1["index"](w))), "C21")
        prove("only the prediction counts", isinstance(a["weights"], PList) and len(a["weights"].items) == 1 and eq(a["weights"].items[0], 1))
        prove("the search gets the configured number of candidates", eq(a["num_cand"], at["num_cand"]))
        for nm, k in (("X", "_X"), ("fX", "_fX"), ("Xpend", "Xpend")):
            prove("the search gets the points of the run and those pending", a[nm] is at[k] or (isinstance(a[nm], Arr) and a[nm].cell is at[k].cell))
        prove("the whole space is searched", a.get("subset") is None, "C21")
        if prop != "C05":
            probability(E, S, at, a["prob_perturb"], nx, np_)
        searches.append(t)
        pt = R(integer(t))
        E.touch(pt)
        return A.new((1, d), lambda ix: coord(pt, integer(ix[1])), "f")
    I.contracts["pySOT.auxiliary_problems.candidate_dycors:candidate_dycors"] = search

    def near(t):
        w = W(t)
        E.touch(w)
        E.hint(w, pos(w), has1(w), R(t))
        if ce.f["_new_point"][0] is not has1:
            E.hint(ce.f["_new_point"][0](w))

    def outer(ctx):
        t = integer(ctx.t)
        if ctx.stage == "post":          # points with the same coordinates are the same
            A.pt_eq(ce.f["_new_point"][1](W(cur[0])), R(cur[0]), d)
        cur[0] = t
        g, np0 = ce.f, ctx["new_points"]
        if ctx.stage != "init":
            near(t)
        return [("the centers taken so far", (("Int",), lambda k: b_imp(rng(k, c1), b_iff(g["_new_point"][0](k), b_or(has1(k), b_and(rng(pos(k), t), eq(W(pos(k)), k))))))),
                ("what the centers propose", (("Int",), lambda k: b_imp(b_and(rng(k, c1), g["_new_point"][0](k)), g["_new_point"][1](k) == z3.If(b_z(has1(k)), g1["_new_point"][1](k), R(pos(k)))))),
                ("the points found so far", (("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, t), rng(j, d)), eq(np0.at(i, j), coord(R(i), j)))))]

    def omod(ctx):
        h, v = E.Func("np_has", ZI, z3.BoolSort()), E.Func("np_pt", ZI, Pt)
        ce.f = dict(ce.f, _new_point=(h, v))
        ctx.may_change(ce)
        ctx.havoc_cell(ctx["new_points"], "new_points")

    def inner(ctx):
        g = ce.f
        near(integer(cur[0]))
        return [("all centers so far are taken", (("Int",), lambda k: b_imp(rng(k, ctx.t), g["_new_point"][0](k)))), ("the centers are counted", eq(ctx["center_index"], ctx.t))]
    q = SOP + ".generate_evals"
    I.loopspecs = {(q, lambda src: "candidate_dycors" in src): LoopSpec(outer, omod),
                   (q, lambda src: "candidate_dycors" not in src and "center_index" in src): LoopSpec(inner, lambda ctx: ctx.__setitem__("center_index", E.Int("center_index")))}
    snap = {k: v for k, v in at.items()}
    I.call(I.getattr(o, "generate_evals"), [num])
    E.cover("points are generated")
    prove("the list of centers is updated", len(updated) == 1)
    qn = at["batch_queue"]
    i, j, k = sk_int(E, "i", 0, num), sk_int(E, "j", 0, d), sk_int(E, "k", 0, c1)
    near(i)
    g = ce.f
    E.hint(pos(k), W(pos(k)), has1(k), g["_new_point"][0](k), g["_new_point"][0](W(i)))
    prove("each new point is proposed by its own center", b_and(g["_new_point"][0](W(i)), g["_new_point"][1](W(i)) == R(i)))
    prove("busy centers keep their points", b_imp(has1(k), b_and(g["_new_point"][0](k), g["_new_point"][1](k) == g1["_new_point"][1](k))))
    prove("no other center is taken", b_imp(b_and(g["_new_point"][0](k), b_not(has1(k))), b_and(rng(pos(k), num), eq(W(pos(k)), k))))
    if prop == "C11":
        S.unchanged(ce, ("xc", "index", "_new_index"), g1, "the centers stay where they are")
    prove("one point is queued per point wanted", eq(qn.n, add(nq, num)), "C05")
    prove("the points found are queued", eq(qn.get(simp(add(nq, i))).at(j), coord(R(i), j)), "C05 C21")
    prove("queued points are feasible", feasible(p, qn.get(simp(add(nq, i))).at(j), j), "C05")
    i0 = sk_int(E, "i0", 0, nq)
    prove("points already queued are kept", b_imp(rng(i0, nq), eq(qn.get(i0).at(j), coord(Q0(i0), j))), "C05")
    for nm in ("X", "Xpend", "_X", "_fX"):
        prove("the points evaluated and pending are not changed", at[nm] is snap[nm])
    if prop == "C11":
        S.unchanged(ev, [x for x in REC if x != "rank"], f0, "the records are not changed")


def b_z(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def probability(E, S, at, p, nx, np_):
    d = S.d
    n = smax(sub(add(nx, np_), at["num_exp"]), 0)
    N = smax(sub(at["max_evals"], at["num_exp"]), 2)
    lg = lambda x: ufun("log", real(x))
    x = add(n, 1)
    E.assume(eq(lg(1), 0))
    E.assume(b_imp(ge(x, 1), ge(lg(x), 0)))
    E.assume(b_imp(gt(N, 1), gt(lg(N), 0)))
    f = mul(smin(div(20.0, real(d)), 1.0), sub(1.0, div(lg(x), lg(N))))
    E.prove("the selection probability is min(20/d,1)*(1-log(n+1)/log(N)), at least 1/d", eq(p, smax(f, div(1.0, real(d)))))


# ----------------------------------------------------------- update_center_list
def update_centers(I, empty, moved):
    """Which centers are kept, which are new.  Cases: no centers yet; the best point is moved to the top of the sorted list."""
    S = Sop(I)
    E, o, n, d, ev, ce, c = I.E, S.o, S.n, S.d, S.evals, S.centers, S.c
    at = o.attrs
    old = S.snap()
    f0, g0 = old["evals"][1], old["centers"][1]
    at["max_evals"], at["num_exp"] = E.Int("max_evals"), E.Int("num_exp")
    E.assume(gt(at["max_evals"], at["num_exp"]))
    nc = at["ncenters"]
    E.touch(nc)
    md = E.Func("dist", ZI, z3.RealSort())
    at["F_ranked"] = archive(S, f0, md, f0["rank"])
    fin = g0["_new_index"][0]
    idx0 = g0["index"]
    # ghost functions, defined by recursion: finished centers among the first t, points that are being processed
    cnt, U, busy = E.Func("finished", ZI, ZI), E.Func("kept", ZI, ZI), E.Func("busy", ZI, ZI, z3.BoolSort())
    E.assume(b_and(cnt(0) == 0, cnt(c) <= c))
    E.assume_forall(("Int",), lambda k: b_imp(rng(k, c), cnt(simp(k + 1)) == cnt(k) + z3.If(fin(k), 1, 0)), "finished centers are counted (definition)")
    E.assume_forall(("Int",), lambda i: b_not(busy(0, i)), "definition")
    E.assume_forall(("Int", "Int"), lambda t, i: b_imp(rng(t, c), b_iff(busy(simp(t + 1), i), b_or(busy(t, i), b_and(b_not(fin(t)), idx0(t) == i)))), "points being processed (definition)")
    # the kept centers in order: the inverse of k - cnt(k) on the kept ones
    E.assume_forall(("Int",), lambda k: b_imp(b_and(rng(k, c), b_not(fin(k))), U(simp(k - cnt(k))) == k), "kept centers (definition)")
    E.assume_forall(("Int",), lambda j: b_imp(rng(j, simp(c - cnt(c))), b_and(rng(U(j), c), b_not(fin(U(j))), U(j) - cnt(U(j)) == j)), "kept centers (definition)")
    lists = {}

    def lst(ctx):
        l = lists["l"] = ctx["finished_centers"]
        return l

    def cnt_step(t):
        E.hint(cnt(t), cnt(simp(t + 1)), fin(t))

    def tagged(t):
        """The archive with the points being processed marked."""
        base = lists["F0"]

        def fn(ix):
            v = xr(base(ix))
            i, j = integer(ix[0]), ix[1]
            m = b_and(eq(j, add(d, 2)), busy(integer(t), i))
            return XR(v.v, simpbool(b_or(m, v.inf)), False)
        return fn

    def remove(ctx):
        t = integer(ctx.t)
        l, F = lst(ctx), ctx["F"]
        cnt_step(t)
        if ctx.stage == "post":
            cnt_step(simp(t - 1))
        if ctx.stage == "init":
            lists["F0"] = F.fn()
        size = len(l.items) if isinstance(l, PList) else l.n
        get = (lambda j: 0) if isinstance(l, PList) else l.get
        out = [("finished centers are counted", eq(size, cnt(t))),
               ("finished centers so far", (("Int",), lambda k: b_imp(b_and(rng(k, t), fin(k)), b_and(rng(cnt(k), cnt(t)), eq(get(cnt(k)), k))))),
               ("only finished centers", (("Int",), lambda j: b_imp(rng(j, cnt(t)), b_and(rng(get(j), t), fin(integer(get(j))), eq(cnt(integer(get(j))), j))))),
               ("counts increase", (("Int", "Int"), lambda k, l: b_imp(b_and(k >= 0, k <= l, l <= t), b_and(cnt(k) >= 0, cnt(k) <= cnt(l), cnt(l) - cnt(k) <= l - k)))),
               ("the size of the archive is kept", len(F.shape) == 2 and b_and(eq(F.shape[0], n), eq(F.shape[1], add(d, 5))))]
        if ctx.stage != "head":
            i, j = sk_int(E, "row", 0, n), sk_int(E, "col", 0, add(d, 5))
            E.hint(busy(t, i), busy(simp(t - 1), i))
            out.append(("points being processed are marked, nothing else", xeq(F.at(i, j), tagged(t)((i, j)))))
        return out

    def rmod(ctx):
        l = ctx["finished_centers"]
        G = E.Func("fin_list", ZI, ZI)
        set_list_state(l, (SymList, (cnt(integer(ctx.t)), lambda j: G(integer(j)), None, "scalar")))
        ctx.may_change(l)
        F = ctx["F"]
        A.write(F.cell, tagged(ctx.t), None)
        ctx.may_change(F.cell)

    def last(t):
        """First of the positions that are changed by t removals."""
        l, m = lists["l"], cnt(c)
        return ite(eq(t, 0), c, l.get(simp(m - t)))

    def after(t, k):
        """Center k after t removals, as a center of the old list."""
        m = cnt(c)
        return ite(lt(k, last(t)), k, U(simp(k - (m - t))))

    def pops(ctx):
        t = integer(ctx.t)
        g, l, m = ce.f, lists["l"], cnt(c)
        for s in ([t] if ctx.stage == "init" else [t, simp(t - 1)] if ctx.stage == "post" else [t, simp(t + 1)]):
            q = integer(l.get(simp(m - s)))
            E.touch(q), E.touch(simp(q + 1)), E.touch(simp(m - s))
            E.hint(cnt(q), cnt(simp(q + 1)), fin(q))
        return [("centers left", eq(ce.n, sub(c, t)))] + [("the centers left are the old ones: %s" % nm, (("Int",), lambda k, nm=nm: b_imp(rng(k, sub(c, t)), near(k, lambda: same_value(nm, g, k, g0, integer(after(t, k))), ctx.stage)))) for nm in CEN]

    def near(k, goal, stage):
        if stage == "head":
            return goal()
        for x in (k, simp(k + 1)):
            E.touch(x)
            E.hint(cnt(x), cnt(simp(x + 1)), fin(x), U(simp(x - cnt(x))))
        return goal()

    def pmod(ctx):
        havoc_centers(S, sub(c, ctx.t))
        ctx.may_change(ce)
    q = SOP + ".update_center_list"
    I.loopspecs = {(q, lambda src: "finished_centers.append" in src): LoopSpec(remove, rmod), (q, lambda src: ".pop(" in src and "append" not in src): LoopSpec(pops, pmod)}
    # ---- the order in which points become centers
    P, pos = E.Func("sorted", ZI, ZI), E.Func("place", ZI, ZI)
    b = E.Int("best")
    E.assume(rng(b, n))
    E.touch(b)
    E.assume_forall(("Int",), lambda i: b_imp(rng(i, n), b_and(le(f0["fx"](b), f0["fx"](i)), b_imp(lt(i, b), lt(f0["fx"](b), f0["fx"](i))))), "best point (definition)")
    E.hint(busy(c, b), P(pos(b)), f0["fx"](b))
    E.touch(pos(b))

    def lexsort(keys):
        E.prove("three keys", len(keys) == 3)
        i = sk_int(E, "i", 0, n)
        E.hint(busy(c, i), busy(0, i))
        E.prove("sorted by tabu tenure first, points being processed last", xeq(keys[2].at(i), XR(real(f0["_ntabu"](i)), b_and(gt(c, 0), busy(c, i)), False)))
        E.prove("then by rank", xeq(keys[1].at(i), f0["rank"](i)))
        E.prove("then by value", xeq(keys[0].at(i), f0["fx"](i)))
        E.assume_forall(("Int",), lambda j: b_imp(rng(j, n), b_and(rng(P(j), n), pos(P(j)) == j)), "the sorted list is a permutation")
        E.assume_forall(("Int",), lambda j: b_imp(rng(j, n), b_and(rng(pos(j), n), P(pos(j)) == j)), "the sorted list is a permutation")
        E.hint(P(0))
        lists["sorted"] = True
        return A.new((n,), lambda ix: P(integer(ix[0])), "i")
    I.np.extra["numpy.lexsort"] = lexsort
    top = b_not(busy(c, b))          # the best point is moved to the top
    E.assume(eq(c, 0) if empty else c > 0)
    E.assume(b_and(top, pos(b) > 0) if moved else b_or(b_not(top), eq(pos(b), 0)))

    def ord_(j):
        j = integer(j)
        return integer(ite(top, ite(eq(j, 0), b, ite(le(j, pos(b)), P(simp(j - 1)), P(j))), P(j)))

    def shifted(t):
        def fn(ix):
            j = integer(ix[0])
            return ite(eq(j, 0), b, ite(le(j, t), P(simp(j - 1)), P(j)))
        return fn

    def shift(ctx):
        t = integer(ctx.t)
        a = ctx["ind_new"]
        E.hint(P(t), pos(P(t)))
        out = [("counter", eq(ctx["i"], add(t, 1))), ("stops at the place of the best point", b_and(le(t, pos(b)), eq(ctx["check"], ite(ge(t, pos(b)), 1, 0)))), ("best point is not at the top", pos(b) >= 1), ("the best point", eq(ctx["min_index"], b))]
        if ctx.stage != "head":
            j = sk_int(E, "j", 0, n)
            E.hint(P(j), P(simp(j - 1)))
            out.append(("the points before it move down", eq(a.at(j), shifted(t)((j,)))))
        return out

    def smod(ctx):
        ctx["i"], ctx["check"] = E.Int("i"), E.Int("check")
        a = ctx["ind_new"]
        A.write(a.cell, shifted(integer(ctx.t)), None)
        ctx.may_change(a.cell)
    I.loopspecs[(q, lambda src: "ind_new[i] = ind[i - 1]" in src or ("ind_new[i]" in src and "check_radius_rule" not in src))] = LoopSpec(shift, smod, lambda ctx: sub(pos(b), ctx.t))

    # ---- selection by the radius rule
    acc, sel, wit, N, C = E.Func("far_enough", ZI, ZI, z3.BoolSort()), E.Func("selected", ZI, z3.BoolSort()), E.Func("too_close_to", ZI, ZI), E.Func("n_selected", ZI, ZI), E.Func("selection", ZI, ZI)
    E.assume(b_and(sel(0), N(0) == 0))
    E.assume_forall(("Int", "Int"), lambda i, j: b_imp(b_and(j >= 0, j < i, lt(i, n), sel(i), sel(j)), acc(ord_(i), ord_(j))), "selected points are far enough from those selected before (definition)")
    E.assume_forall(("Int",), lambda i: b_imp(b_and(i >= 1, lt(i, n), b_not(sel(i))), b_and(rng(wit(i), i), sel(wit(i)), b_not(acc(ord_(i), ord_(wit(i)))))), "points not selected are too close to one selected before (definition)")
    E.assume_forall(("Int",), lambda i: b_imp(rng(i, n), N(simp(i + 1)) == N(i) + z3.If(sel(i), 1, 0)), "selected points are counted (definition)")
    E.assume_forall(("Int",), lambda i: b_imp(b_and(rng(i, n), sel(i)), C(N(i)) == i), "the selection in order (definition)")
    E.assume_forall(("Int", "Int"), lambda i, j: b_imp(b_and(i >= 0, i <= j, le(j, n)), N(i) <= N(j)), "counts increase")
    E.hint(N(0), N(1), sel(0), C(0), N(n), C(N(0)))
    r = simp(c - cnt(c))
    K = integer(sub(nc, r))
    radius, th = S.radius, sub(1, div(sub(n, at["num_exp"]), sub(at["max_evals"], at["num_exp"])))
    cur = {}

    def chosen(s, cp):
        """s-th new center when cp points have been selected."""
        s = integer(s)
        return ord_(C(integer(ite(lt(s, cp), s, mod(s, cp)))))

    def rule(I_, func, a):
        i, check = cur["i"], cur["check"]
        if set(a) < {"X", "d_thresh"} and False:
            raise Unsupported("rule")
        v = list(a.values())
        x, M = v[0], v[1]
        j = sk_int(E, "j", 0, d)
        k = sk_int(E, "k", 0, n)
        E.assume(lt(k, check))
        E.hint(C(k), N(C(k)), sel(C(k)))
        E.prove("the rule is applied to the next point in the order", eq(x.at(j), S.normed(f0, ord_(i), j)))
        E.prove("the rule is applied to the new centers chosen so far", b_and(eq(a["ncenters"] if "ncenters" in a else v[4], check), eq(M.at(k, j), S.normed(f0, ord_(C(k)), j)), eq(M.at(k, simp(add(d, 4))), f0["_nfail"](ord_(C(k))))))
        E.prove("the rule is applied with the initial radius and the threshold of this budget", b_and(eq(v[2], radius), eq(v[3], d), eq(a["d_thresh"], th)))
        fl, w = E.Bool("flag"), E.Int("close")
        E.assume_forall(("Int",), lambda k: b_imp(b_and(fl, rng(k, check)), acc(ord_(i), ord_(C(k)))), "accepted: far enough from all (radius rule)")
        E.assume(b_or(fl, b_and(rng(w, check), b_not(acc(ord_(i), ord_(C(w)))))))
        E.touch(w)
        E.hint(C(w), N(C(w)), sel(C(w)), wit(i), N(wit(i)), C(N(wit(i))), sel(i), N(simp(i + 1)), acc(ord_(i), ord_(C(w))))
        return ite(fl, 1, 0)
    I.contracts["pySOT.utils:check_radius_rule"] = rule

    def select(ctx):
        if ctx.stage == "init":
            E.hint(N(0), N(1), sel(0), C(N(0)))
        i, check, a = integer(ctx["i"]), integer(ctx["check"]), ctx["center_index"]
        cur["i"], cur["check"] = i, check
        E.touch(i), E.touch(check)
        E.hint(N(i), N(simp(i + 1)), sel(i))
        cp = N(i)
        out = [("position", b_and(i >= 1, le(i, n), check >= 1, le(check, K), cp >= 1, cp <= check)), ("one center per point selected, until the points run out", b_or(check == cp, b_and(eq(i, n), eq(check, K)))),
               ("the selection so far", (("Int",), lambda s: b_imp(rng(s, cp), b_and(rng(C(s), i), sel(C(s)), N(C(s)) == s)))),
               ("points selected so far", (("Int",), lambda j: b_imp(b_and(rng(j, i), sel(j)), b_and(rng(N(j), cp), C(N(j)) == j)))),
               ("places still empty hold -1", (("Int",), lambda s: b_imp(rng(s, K), b_and(a.at(s) >= -1, lt(a.at(s), n))))),
               ("the new centers so far", (("Int",), lambda s: b_imp(rng(s, check), seen(s, cp, eq(a.at(s), chosen(s, cp)), ctx.stage))))]
        return out

    def seen(s, cp, g, stage):
        if stage != "head":
            s = integer(s)
            E.hint(C(s), N(C(s)), sel(C(s)))
        return g

    def selmod(ctx):
        ctx["i"], ctx["check"] = E.Int("i"), E.Int("check")
        ctx.havoc_cell(ctx["center_index"], "center_index")

    def fill(ctx):
        cp, check, a = cur["i0"], integer(ctx["check"]), ctx["center_index"]
        m = mod(integer(check), integer(cp))
        E.touch(check)
        return [("position", b_and(le(cp, check), le(check, K))), ("what is repeated", eq(ctx["check_prev"], cp)),
                ("the new centers so far", (("Int",), lambda s: b_imp(rng(s, check), eq(a.at(s), chosen(s, cp)))))]

    def fillmod(ctx):
        ctx["check"] = E.Int("check")
        ctx.havoc_cell(ctx["center_index"], "center_index")

    def fillinv(ctx):
        if ctx.stage == "init":
            cur["i0"] = N(integer(cur["i"]))
        return fill(ctx)
    I.loopspecs[(q, lambda src: "check_radius_rule" in src)] = LoopSpec(select, selmod, lambda ctx: add(sub(n, ctx["i"]), sub(K, ctx["check"])))
    I.loopspecs[(q, lambda src: "remainder" in src and "check_radius_rule" not in src)] = LoopSpec(fillinv, fillmod, lambda ctx: sub(K, ctx["check"]))

    # ---- the new centers are appended
    def append(ctx):
        t, a, g = integer(ctx.t), ctx["center_index"], ce.f
        gs = ctx.pre_state[id(ce)][1][1]
        return [("centers so far", eq(ce.n, add(r, t))), ("old centers are kept", (("Int",), lambda k: b_imp(rng(k, r), same_center(g, gs, k)))),
                ("new centers", (("Int",), lambda k: b_imp(b_and(k >= r, lt(k, add(r, t))), b_and(eq(g["index"](k), a.at(simp(k - r))), g["xc"](k) == f0["x"](integer(a.at(simp(k - r)))), b_not(g["_new_point"][0](k)), b_not(g["_new_index"][0](k))))))]

    def amod(ctx):
        havoc_centers(S, add(r, ctx.t))
        ctx.may_change(ce)
    I.loopspecs[(q, lambda src: "centers.append" in src)] = LoopSpec(append, amod)
    F0 = at["F_ranked"]
    I.call(I.getattr(o, "update_center_list"), [])
    E.cover("the list of centers is updated")
    g = ce.f
    E.prove("the points are sorted", bool(lists.get("sorted")))
    E.prove("the number of centers is the one configured, or all that are being processed if there are more", eq(ce.n, smax(r, nc)))
    k, s = E.Int("k"), E.Int("s")
    E.touch(k), E.touch(s)
    old_, new_ = rng(k, r), rng(s, K)
    q0 = integer(lists["l"].get(0)) if "l" in lists else c
    E.touch(q0)
    E.hint(cnt(q0))
    near(k, lambda: True, "post")
    E.prove("centers that are being processed are kept, in order", b_imp(old_, same_value_all(g, k, g0, integer(U(k)))))
    E.prove("centers that are kept are those whose point has not been evaluated", b_imp(old_, b_and(rng(U(k), c), b_not(fin(U(k))))))
    j = simp(r + s)
    E.touch(j)
    E.hint(N(0), N(1), C(0), C(s), N(n))
    E.prove("new centers are free", b_imp(new_, b_and(b_not(g["_new_point"][0](j)), b_not(g["_new_index"][0](j)))))
    E.prove("a new center is an evaluated point", b_imp(new_, g["xc"](j) == f0["x"](g["index"](j))))
    E.prove("the first new center is the best point unless it is being processed", b_imp(b_and(new_, eq(s, 0)), eq(g["index"](j), ite(top, b, P(0)))))
    E.prove("new centers are the first points in the order that keep their distance from those before", b_imp(b_and(new_, lt(s, N(n))), eq(g["index"](j), ord_(C(s)))))
    E.prove("if too few points keep their distance, they are used again in turn", b_imp(b_and(new_, ge(s, N(n))), eq(g["index"](j), ord_(C(integer(mod(s, N(n))))))))
    S.unchanged(ev, REC, f0, "the records are not changed")
    E.prove("the archive is not changed", at["F_ranked"] is F0)
    E.prove("the threshold is the part of the budget that is left", eq(at["d_thresh"], th))


def same_value_all(f, k, g, l):
    return b_and(*[same_value(nm, f, k, g, l) for nm in CEN])


def simpbool(b):
    return b


def same_value(nm, f, k, g, l):
    a, b = f[nm], g[nm]
    if isinstance(a, tuple):
        return b_and(b_iff(a[0](k), b[0](l)), b_imp(a[0](k), eq(a[1](k), b[1](l))))
    return eq(a(k), b(l))


def havoc_centers(S, c):
    E = S.E
    S.centers.n = c
    S.centers.f = {"xc": E.Func("hx", ZI, Pt), "index": E.Func("hi", ZI, ZI), "_new_point": (E.Func("hp_has", ZI, z3.BoolSort()), E.Func("hp", ZI, Pt)),
                   "_new_index": (E.Func("hn_has", ZI, z3.BoolSort()), E.Func("hn", ZI, ZI))}


def xeq(a, b):
    if isinstance(a, XR) or isinstance(b, XR):
        a, b = xr(a), xr(b)
        return b_and(b_iff(a.inf, b.inf), b_iff(a.nan, b.nan), b_imp(b_not(b_or(a.inf, a.nan)), eq(a.v, b.v)))
    return eq(a, b)


def xite(c, a, b):
    return ite(c, xr(a), xr(b))


def units():
    from .life import history_units
    return history_units("C11", classes=("SOP",)) + [unit("records and centers", records), unit("radius rule", radius_rule), unit("update_F", update_F), unit("update_ranks", update_ranks),
            unit("adjust_memory, one center", lambda I: adjust(I, False)), unit("adjust_memory, all processed centers", lambda I: adjust(I, True)),
            unit("release_center", release)] + [unit("on_adapt_completed, %s" % ("async" if b else "batch"), lambda I, b=b: completed(I, b)) for b in (True, False)] + [
            unit("on_adapt_%s, %s" % (w, "async" if b else "batch"), lambda I, b=b, w=w: lost(I, w, b)) for w in ("reject", "aborted") for b in (True, False)] + [unit("generate_evals", generate)] + [
            unit("update_center_list, %s, %s" % ("no centers yet" if e else "centers", "best point moved" if m else "order kept"), lambda I, e=e, m=m: update_centers(I, e, m), time=600) for e in (True, False) for m in (True, False)]
