"""C08: expected improvement, lower confidence bound (values) and the searches ei_ga, lcb_ga (selection).

The surrogate's predict / predict_std are opaque (mean and standard deviation), the genetic algorithm is replaced by its contract
(C09): it returns a feasible point and the value of the objective there.  Phi and phi are uninterpreted (scipy.stats.norm)."""
from .common import *
from .gen import gen_units
from .cand import problem, feasible, round_contract, RV

AP = "pySOT.auxiliary_problems."
GA = "pySOT.utils:GeneticAlgorithm"


def surrogate(I, m):
    E = I.E
    s = Obj(SType("surrogate"))
    mu, sg = fresh_arr(E, (m, 1), "f", False, "mu"), fresh_arr(E, (m, 1), "f", False, "sigma")
    E.assume_forall(("Int",), lambda i: b_imp(rng(i, m), gt(sg.at(i, 0), 0)), "positive standard deviation")
    calls = []

    def fn(which, r):
        def f(x):
            calls.append((which, x, x.cell.fn))
            return A.copy(r)
        return Builtin(which, f)
    s.attrs.update(predict=fn("predict", mu), predict_std=fn("predict_std", sg))
    return s, mu, sg, calls


def merit(I, which, far):
    """far: called with a distance tolerance (and points); otherwise with the default tolerance zero."""
    E = I.E
    d = sym_dim(E)
    m, n, k = E.Int("m"), E.Int("n"), E.Int("k")
    E.assume(b_and(m >= 1, n >= 1, k >= 1))
    for v in (m, n, k):
        E.touch(v)
    X, XX, fX = mat(E, m, d, "X", row=True), mat(E, k, d, "XX", row=True), mat(E, n, 1, "fX")
    s, mu, sg, calls = surrogate(I, m)
    kw = {}
    if far:
        dtol = E.Real("dtol")
        E.assume(dtol > 0)
        kw.update(XX=XX, dtol=dtol)
    kappa = 2.0
    if which == "lcb" and far:
        kappa = kw["kappa"] = E.Real("kappa")
    frame = [(a, a.cell.fn) for a in (X, XX, fX, mu, sg)]
    r = I.call(I.get(AP + "%s_merit:%s_merit" % (which, which)), [X, s, fX], kw)
    i = sk_int(E, "i", 0, m)
    E.prove("one value per point", b_and(len(r.shape) == 2, eq(r.shape[0], m), eq(r.shape[1], 1)))
    E.prove("the mean and deviation are those at the points", sorted(c[0] for c in calls) == ["predict", "predict_std"] and all(c[1].cell.fn is X.cell.fn for c in calls))
    if which == "ei":
        b = E.Real("best")
        q = E.Int("q")
        E.assume(b_and(rng(q, n), eq(b, fX.at(q, 0))))
        E.assume_forall(("Int",), lambda j: b_imp(rng(j, n), le(b, fX.at(j, 0))), "best value")
        E.touch(q)
        g = div(sub(b, mu.at(i, 0)), sg.at(i, 0))
        want = mul(sg.at(i, 0), add(mul(g, ufun("Phi", g)), ufun("phi", g)))
        used = [t for t in calls]
    else:
        want = sub(mu.at(i, 0), mul(kappa, sg.at(i, 0)))
    xs, ys = X.rowfn(), XX.rowfn()
    if not far:
        E.prove("the value of the formula", eq(r.at(i, 0), want))
        return
    # near: there is a point closer than the tolerance
    c = sk_int(E, "c", 0, k)
    near = E.Bool("near")
    w = E.Int("w")
    E.touch(w)
    E.assume(b_imp(near, b_and(rng(w, k), lt(I.np.D(xs(i), ys(w)), dtol))))
    E.assume_forall(("Int",), lambda j: b_imp(b_and(b_not(near), rng(j, k)), ge(I.np.D(xs(i), ys(j)), dtol)), "not near")
    E.hint(ys(w))
    E.prove("within the tolerance of a point it is %s" % ("zero" if which == "ei" else "infinity"),
            b_imp(near, eq(r.at(i, 0), 0) if which == "ei" else xr(r.at(i, 0)).inf))
    if which == "lcb":
        v = xr(r.at(i, 0))
        E.prove("elsewhere the value of the formula", b_imp(b_not(near), b_and(b_not(v.inf), b_not(v.nan), eq(v.v, want))))
    else:
        E.prove("elsewhere the value of the formula", b_imp(b_not(near), eq(r.at(i, 0), want)))
    E.prove("arguments and predictions are not modified", all(a.cell.fn is f for a, f in frame))


def search(I, which, pending, target):
    E = I.E
    d = sym_dim(E)
    p = problem(E, d)
    n, num, k = E.Int("n"), E.Int("num_pts"), E.Int("k")
    E.assume(b_and(n >= 1, num >= 1, k >= 0))
    for v in (n, num, k):
        E.touch(v)
    X, fX = mat(E, n, d, "X"), mat(E, n, 1, "fX")
    P = mat(E, k, d, "P") if pending else None
    kk = k if pending else 0
    dtol, tol = E.Real("dtol"), E.Real("tol")
    s = Opaque("surrogate")
    kw = {"Xpend": P, "dtol": dtol}
    if which == "ei":
        kw["ei_tol"] = tol
    else:
        kw["kappa"] = kappa = E.Real("kappa")
        kw["lcb_target"] = tol if target else None
    base = n + kk
    M_ = AP + "%s_merit:%s_merit" % (which, which)
    S_ = AP + "%s_ga:%s_ga" % (which, which)
    merits, gas, seen, g = [], [], [], {"J": lambda q, e: 0, "F": lambda q: 0, "t": 0}
    frame = [(a, a.cell.fn) for a in (X, fX, p.attrs["lb"], p.attrs["ub"], p.attrs["int_var"]) + ((P,) if pending else ())]

    def merit_contract(I, func, a):
        m = a["X"].shape[0]
        r = fresh_arr(E, (m, 1), "f", False, "merit")
        merits.append((dict(a), r, r.fn(), a["X"].fn(), a["XX"].fn()))
        return r

    def init(I, func, a):
        o = a["self"]
        o.attrs["ghost"] = a
        return None

    def optimize(I, func, a):
        o = a["self"]
        g0 = o.attrs["ghost"]
        for q in ("dim", "lb", "ub", "int_var"):
            prove_same(E, "the genetic algorithm searches the domain: " + q, g0[q], p.attrs[q])
        m = E.Int("pop")
        E.assume(m >= 1)
        Y = mat(E, m, d, "Y")
        y0 = Y.cell.fn
        v = I.call(g0["function"], [Y])
        E.prove("the objective does not modify the individuals", Y.cell.fn is y0)
        a_, r_, rf, xf, known = merits[-1]
        e, c = sk_int(E, "e", 0, m), sk_int(E, "c", 0, d)
        E.prove("the objective is %s" % ("minus the expected improvement" if which == "ei" else "the lower confidence bound"),
                b_and(eq(v.shape[0], m), eq(v.at(e, 0) if len(v.shape) == 2 else v.at(e), neg(rf((e, 0))) if which == "ei" else rf((e, 0)))))
        mem = A.enum_of(p.attrs["int_var"]).member
        E.prove("at the individual itself if it is feasible", b_imp(feasible(p, Y.at(e, c), c), eq(xf((e, c)), Y.at(e, c))))
        prove_same(E, "of the surrogate of the run", a_["surrogate"], s)
        prove_same(E, "of the values of the run", a_["fX"], fX)
        prove_same(E, "with the distance tolerance", a_["dtol"], dtol)
        if which == "lcb":
            prove_same(E, "with the given kappa", a_["kappa"], kappa)
        t = g["t"]
        XX = a_["XX"]
        E.prove("away from all points known: their number", eq(XX.shape[0], add(base, t)))
        i = E.Int("i")
        E.touch(i)
        E.prove("away from the evaluated points", b_imp(rng(i, n), eq(known((i, c)), X.at(i, c))))
        if pending:
            E.prove("away from the pending points", b_imp(rng(i, k), eq(known((simp(add(n, i)), c)), P.at(i, c))))
        E.prove("away from the points selected before", b_imp(rng(i, t), eq(known((simp(add(base, i)), c)), g["J"](i, c))))
        xb = fresh_arr(E, (d,), "f", False, "xbest")
        E.assume_forall(("Int",), lambda j: b_imp(rng(j, d), feasible(p, xb.at(j), j)), "the individual returned is feasible")
        fm = E.Real("fmin")
        gas.append((xb, fm))
        return (xb, fm)

    I.contracts[RV] = round_contract(I, p, seen)
    I.contracts[M_] = merit_contract
    I.contracts[GA + ".__init__"] = init
    I.contracts[GA + ".optimize"] = optimize
    giveup = (lambda fm: lt(neg(fm), tol)) if which == "ei" else (lambda fm: gt(fm, tol) if target else False)

    def inv(ctx):
        t, XX, new = ctx.t, ctx["XX"], ctx["new_points"]
        if ctx.stage == "post":
            xb, fm = gas[-1]
            b, t0, J0, F0 = xb.fn(), g["t"], g["J"], g["F"]
            J = lambda q, e: ite(eq(q, t0), b((e,)), J0(q, e))
            F = lambda q: ite(eq(q, t0), fm, F0(q))
        else:
            J, F = g["J"], g["F"]
        inm = lambda q, m_, e: b_and(rng(q, m_), rng(e, d))
        none = ctx.stage == "init"
        r = [("number of points known", eq(XX.shape[0], add(base, t))),
             ("dimension", b_and(len(XX.shape) == 2, eq(XX.shape[1], d))),
             ("evaluated points are known", (("Int", "Int"), lambda i, e: b_imp(inm(i, n, e), eq(XX.at(i, e), X.at(i, e))))),
             ("no selected point was worth giving up", (("Int",), lambda q: b_imp(rng(q, t), b_not(giveup(F(q)))))),
             ("range", b_and(ge(t, 0), le(t, num)))]
        if pending:
            r.append(("pending points are known", (("Int", "Int"), lambda i, e: b_imp(inm(i, k, e), eq(XX.at(add(n, i), e), P.at(i, e))))))
        if not none:
            r += [("selected points are known", (("Int", "Int"), lambda q, e: b_imp(inm(q, t, e), eq(XX.at(add(base, q), e), J(q, e))))),
                  ("selected points are returned in order", (("Int", "Int"), lambda q, e: b_imp(inm(q, t, e), eq(new.at(q, e), J(q, e))))),
                  ("selected points are feasible", (("Int", "Int"), lambda q, e: b_imp(inm(q, t, e), feasible(p, J(q, e), e))))]
        return r

    def modifies(ctx):
        t = ctx.t
        J, F = E.Func("J", z3.IntSort(), z3.IntSort(), z3.RealSort()), E.Func("F", z3.IntSort(), z3.RealSort())
        g.update(t=t, J=lambda q, e: J(integer(q), integer(e)), F=lambda q: F(integer(q)))
        ctx["XX"] = mat(E, add(base, t), d, "XX")
        ctx.havoc_cell(ctx["new_points"])

    I.loopspecs = {(S_, 0): LoopSpec(inv, modifies)}
    if which == "ei" or target:
        E.cover("gave up", True)
    r = I.call(I.get(S_), [num, p, s, X, fX], kw)
    E.prove("arguments are not modified", all(a.cell.fn is f for a, f in frame))
    if r is None:
        E.cover("gave up")
        E.prove("it gives up only if the best acquisition value is not good enough", giveup(gas[-1][1]) if gas else False)
        return
    q, e = sk_int(E, "q", 0, num), sk_int(E, "e", 0, d)
    E.prove("one row per requested point", b_and(len(r.shape) == 2, eq(r.shape[0], num), eq(r.shape[1], d)))
    E.prove("the points are those found, in order", eq(r.at(q, e), g["J"](q, e)))
    E.prove("the points are feasible", feasible(p, r.at(q, e), e))
    E.prove("it does not give up unless the best acquisition value is not good enough", b_not(giveup(g["F"](q))))


def units():
    r = []
    for w in ("ei", "lcb"):
        r.append(unit("%s_merit, default tolerance" % w, lambda I, w=w: merit(I, w, False)))
        r.append(unit("%s_merit, positive tolerance" % w, lambda I, w=w: merit(I, w, True)))
    for w, t in (("ei", True), ("lcb", True), ("lcb", False)):
        r.append(unit("%s_ga, pending points%s" % (w, "" if t else ", no target"), lambda I, w=w, t=t: search(I, w, True, t)))
    r.append(unit("ei_ga, no pending points", lambda I: search(I, "ei", False, True)))
    r.append(unit("lcb_ga, no pending points", lambda I: search(I, "lcb", False, True)))
    return r + gen_units("C08", ("EI", "LCB"))
