"""C07: the weighted-distance search (candidate_srbf.weighted_distance_merit, used by the DYCORS, SRBF and uniform searches).

Distances are an uninterpreted metric (dist(p,p)=0, symmetric, non-negative); min, argmin and stacking are the engine's contracts
for numpy.  `unit_rescale` is replaced by its contract, which C13 proves of the code."""
from .common import *
from .gen import gen_units

WDM = "pySOT.auxiliary_problems.candidate_srbf:weighted_distance_merit"
US = "pySOT.utils:unit_rescale"


def rescale_contract(I):
    """unit_rescale(x) = (x - min)/(max - min), or ones; min and max are a function of the contents."""
    memo = {}

    def h(I, func, a):
        E, x = I.E, a["x"]
        n = x.shape[0]
        two = len(x.shape) == 2
        at = (lambda i: x.at(i, 0)) if two else (lambda i: x.at(i))
        t = at(z3.Int("probe_us"))
        key = str(z3.simplify(real(t))) if is_z3(t) else None
        if key is None or isinstance(t, XR):
            raise Unsupported("unit_rescale of values that may be infinite")
        if key not in memo or not E.must(gt(n, 0)):
            if not E.must(gt(n, 0)):
                raise Unsupported("unit_rescale of an empty array")
            mn, mx = A.reduce_minmax(x, None, "min", False, False), A.reduce_minmax(x, None, "max", False, False)
            memo[key] = (mn, mx)
        mn, mx = memo[key]
        f = x.fn()
        return A.new(x.shape, lambda idx: ite(eq(mx, mn), 1, div(sub(f(idx), mn), sub(mx, mn))), "f")
    h.reset = memo.clear
    return h


def wdm(I, pending=True):
    E = I.E
    d = sym_dim(E)
    n, k, m, num = E.Int("n"), E.Int("k"), E.Int("m"), E.Int("num_pts")
    E.assume(b_and(n >= 1, k >= 0, m >= 1, num >= 0))
    for v in (n, k, m, num):
        E.touch(v)
    X, cand = mat(E, n, d, "X", row=True), mat(E, m, d, "cand", row=True)
    P = mat(E, k, d, "P", row=True) if pending else None
    w = vec(E, num, "w")
    E.assume_forall(("Int",), lambda i: b_imp(rng(i, num), b_and(ge(w.at(i), 0), le(w.at(i), 1))), "weights")
    dtol = E.Real("dtol")
    E.assume(dtol > 0)
    fX = mat(E, n, 1, "fX")
    F = fresh_arr(E, (m, 1), "f", False, "pred")
    calls = []

    def predict(x):
        calls.append(x)
        return F
    s = Obj(SType("surrogate"))
    s.attrs["predict"] = Builtin("predict", predict)
    us = rescale_contract(I)
    I.contracts[US] = us
    M = I.np
    arg = []

    def argmin(a, axis=None):
        r = M.table["numpy.argmin"](a, axis=axis)
        arg.append(r)
        return r
    M.extra["numpy.argmin"] = argmin
    D = lambda p, q: M.D(p, q)
    cr, xr_, pr = cand.rowfn(), X.rowfn(), (P.rowfn() if pending else None)
    g = {}
    frame = [(a, a.cell.fn) for a in (X, cand, w, fX) + ((P,) if pending else ())]

    def taken(fv, c):
        return xr(fv.at(c, 0)).inf

    def state(ctx):
        return ctx["fvals"], ctx["dmerit"], ctx["new_points"]

    def inv(ctx):
        fv, dm, np_ = state(ctx)
        t = ctx.t
        first, post = ctx.stage == "init", ctx.stage == "post"
        if first:
            g["F0"] = ctx["fvals"].fn()
            dm0_ = dm.fn()
            g["D0"] = lambda c: dm0_((c, 0))
        if first:
            att, J = (lambda c: -1), (lambda q: 0)
        elif post:
            j, t0, dm0, att0, J0 = arg[-1], g["t"], g["dm"], g["att"], g["J"]
            J = lambda q: ite(eq(q, t0), j, J0(q))
            att = lambda c: ite(le(dm0.at(c, 0), D(cr(c), cr(j))), att0(c), t0)
        else:
            att, J = g["att"], g["J"]
        rowsel = np_.rowfn()
        F0 = g["F0"]
        inc = lambda c: rng(c, m)
        r = [("no nan and the rescaled predictions, infinite exactly for points taken",
              (("Int",), lambda c: b_imp(inc(c), b_and(b_not(xr(fv.at(c, 0)).nan), b_imp(b_not(taken(fv, c)), eq(xr(fv.at(c, 0)).v, F0((c, 0)))))))),
             ("points taken are at distance zero from a chosen point", (("Int",), lambda c: b_imp(b_and(inc(c), taken(fv, c)), eq(dm.at(c, 0), 0)))),
             ("distance to evaluated points", (("Int", "Int"), lambda c, q: b_imp(b_and(inc(c), rng(q, n)), le(dm.at(c, 0), D(cr(c), xr_(q)))))),
             ("distance to chosen points", (("Int", "Int"), lambda c, q: b_imp(b_and(inc(c), rng(q, t)), le(dm.at(c, 0), D(cr(c), cr(J(q))))))),
             ("distance is attained", (("Int",), lambda c: b_imp(inc(c), b_or(b_and(eq(att(c), -1), eq(dm.at(c, 0), g["D0"](c))), b_and(rng(att(c), t), eq(dm.at(c, 0), D(cr(c), cr(J(att(c)))))))))),
             ("distances are not negative", (("Int",), lambda c: b_imp(inc(c), b_and(ge(dm.at(c, 0), 0), le(dm.at(c, 0), g["D0"](c)))))),
             ("chosen points are candidates", (("Int", "Int"), lambda q, e: b_imp(b_and(rng(q, t), rng(e, d)), b_and(rng(J(q), m), eq(np_.at(q, e), coord(cr(J(q)), e)))))),
             ("weights", b_and(le(t, smax(num, 0)), ge(t, 0)))]
        if pending:
            def later(q):       # pending point q is row n + q of the stacked points
                if first:
                    E.hint(xr_(simp(add(n, q))))
                return rng(q, k)
            r.append(("distance to pending points", (("Int", "Int"), lambda c, q: b_imp(b_and(inc(c), later(q)), le(dm.at(c, 0), D(cr(c), pr(q)))))))
        if post:
            r += choice(ctx, fv, dm)
        return r

    def choice(ctx, fv, dm):
        """The point chosen in this iteration minimises the merit among the available candidates."""
        j, t0, fv0, dm0 = arg[-1], g["t"], g["fv"], g["dm"]
        F0 = g["F0"]
        cp = A.copy(dm0)
        R = us(I, None, {"x": cp})
        avail = lambda c: b_and(rng(c, m), b_not(xr(fv0.at(c, 0)).inf), ge(dm0.at(c, 0), dtol))
        wt = w.at(t0)
        merit = lambda c: add(mul(wt, F0((c, 0))), mul(sub(1, wt), sub(1, R.at(c, 0))))
        return [("an available candidate is chosen if there is one", (("Int",), lambda c: b_imp(avail(c), avail(j)))),
                ("the choice minimises w*s + (1-w)*(1-d)", (("Int",), lambda c: b_imp(avail(c), le(merit(j), merit(c))))),
                ("the chosen candidate", rng(j, m))]

    def modifies(ctx):
        us.reset()
        fv, dm, np_ = state(ctx)
        V, INF, NAN = E.Func("fv", z3.IntSort(), z3.RealSort()), E.Func("fvinf", z3.IntSort(), z3.BoolSort()), E.Func("fvnan", z3.IntSort(), z3.BoolSort())
        A.write(fv.cell, lambda idx: XR(V(integer(idx[0])), INF(integer(idx[0])), NAN(integer(idx[0]))), None)
        ctx.may_change(fv.cell)
        ctx["dmerit"] = fresh_arr(E, (m, 1), "f", False, "dm")
        ctx.havoc_cell(np_)
        J, att = E.Func("J", z3.IntSort(), z3.IntSort()), E.Func("att", z3.IntSort(), z3.IntSort())
        g.update(J=lambda q: J(integer(q)), att=lambda c: att(integer(c)), t=ctx.t)
        g["dm"] = ctx["dmerit"]
        fvc = A.new((m, 1), fv.fn(), "f")
        g["fv"] = fvc

    I.loopspecs = {(WDM, 0): LoopSpec(inv, modifies)}
    r = I.call(I.get(WDM), [num, s, X, fX, cand, w], {"Xpend": P, "dtol": dtol})
    E.prove("one row per requested point", b_and(len(r.shape) == 2, eq(r.shape[0], num), eq(r.shape[1], d)))
    E.prove("the surrogate is evaluated at the candidates, once", len(calls) == 1 and calls[0].cell.fn is cand.cell.fn)
    q, e = sk_int(E, "q", 0, num), sk_int(E, "e", 0, d)
    E.prove("every point returned is one of the candidates", b_imp(True, b_and(rng(g["J"](q), m), eq(r.at(q, e), cand.at(g["J"](q), e)))))
    E.prove("arguments are not modified", all(a.cell.fn is f for a, f in frame))


def units():
    return [unit("weighted_distance_merit, pending points", lambda I: wdm(I, True)),
            unit("weighted_distance_merit, no pending points", lambda I: wdm(I, False))] + gen_units("C07", ("SRBF", "DYCORS"))
