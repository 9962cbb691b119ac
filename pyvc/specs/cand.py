"""Candidate searches (candidate_srbf, candidate_dycors, candidate_uniform): shared by C05 and C21.

The callees are replaced by their contracts: weighted_distance_merit returns rows of the candidate matrix (proved in C07),
round_vars is proved in C13.  truncnorm.rvs and numpy.random are assumed to return any value in their support."""
from .common import *
from ..loops import Scope

AP = "pySOT.auxiliary_problems."
WDM = AP + "candidate_srbf:weighted_distance_merit"
RV = "pySOT.utils:round_vars"


def problem(E, d, integer=True):
    lb, ub = box(E, d)
    iv = int_vars(E, d, lb=lb, ub=ub, distinct=True) if integer else fresh_arr(E, (0,), "i", False, "iv")
    o = Obj(SType("problem"))
    o.attrs.update(dim=d, lb=lb, ub=ub, int_var=iv)
    return o


def feasible(p, val, j):
    """val is in the bounds of variable j and integer if the variable is."""
    mem = A.enum_of(p.attrs["int_var"]).member
    return b_and(le(p.attrs["lb"].at(j), val), le(val, p.attrs["ub"].at(j)), b_imp(mem(j), is_integral(val)))


def round_contract(I, p, seen):
    """Contract of round_vars (C13): clip and round the integer columns, keep the others.  The caller may not rely on the argument
    afterwards (the current code works in place)."""
    def h(I, func, a):
        E, x = I.E, a["x"]
        lb, ub, iv = a["lb"], a["ub"], a["int_var"]
        mem = A.enum_of(iv).member
        seen.append((x, x.fn()))
        f = x.fn()
        n, d = x.shape
        c, k = E.Int("c"), E.Int("k")
        E.touch(c)
        E.touch(k)
        E.prove("round_vars gets the bounds of the domain", b_imp(rng(c, d), b_and(eq(lb.at(c), p.attrs["lb"].at(c)), eq(ub.at(c), p.attrs["ub"].at(c)))))
        E.prove("round_vars gets the integer variables", iv.cell is p.attrs["int_var"].cell or b_and(eq(iv.shape[0], p.attrs["int_var"].shape[0]), b_imp(rng(k, iv.shape[0]), eq(iv.at(k), p.attrs["int_var"].at(k)))))
        if x.dims is not None:
            raise Unsupported("round_vars of a view")
        G = E.Func("scrap", z3.IntSort(), z3.IntSort(), z3.RealSort())
        A.write(x.cell, lambda idx: G(integer(idx[0]), integer(idx[1])), None)
        R = E.Func("rounded", z3.IntSort(), z3.IntSort(), z3.RealSort())
        E.assume_forall(("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, n), rng(j, d)), ite(mem(j),
                        b_and(is_integral(R(i, j)), le(lb.at(j), R(i, j)), le(R(i, j), ub.at(j)),
                              b_imp(b_and(is_integral(f((i, j))), le(lb.at(j), f((i, j))), le(f((i, j)), ub.at(j))), eq(R(i, j), f((i, j))))),
                        eq(R(i, j), f((i, j))))), "round_vars")
        return A.new(x.shape, lambda idx: R(integer(idx[0]), integer(idx[1])), "f")
    return h


def wdm_contract(I, log):
    def h(I, func, a):
        E = I.E
        cand, num = a["cand"], a["num_pts"]
        m, d = cand.shape
        E.prove("weighted_distance_merit gets at least one candidate", ge(m, 1))
        f = cand.fn()
        J = E.Func("J", z3.IntSort(), z3.IntSort())
        E.assume_forall(("Int",), lambda k: b_imp(rng(k, num), rng(J(k), m)), "choice")
        log.append(dict(a, f=f, J=J))
        return A.new((num, a["X"].shape[1]), lambda idx: f((J(integer(idx[0])), idx[1])), "f")
    return h


def setup(I, which, subset, integer=True, best="default", num_cand=True, selected=False):
    E = I.E
    d = sym_dim(E)
    p = problem(E, d, integer)
    n, num, m, k = E.Int("n"), E.Int("num_pts"), E.Int("num_cand"), E.Int("k")
    E.assume(b_and(n >= 1, num >= 1, m >= 1, k >= 0))
    for v in (n, num, m, k):
        E.touch(v)
    X, fX, P = mat(E, n, d, "X"), mat(E, n, 1, "fX"), mat(E, k, d, "P", row=True)
    E.assume_forall(("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, n), rng(j, d)), feasible(p, X.at(i, j), j)), "evaluated points are feasible")
    rad = E.Real("radius")
    E.assume(rad > 0)
    w = vec(E, num, "w")
    dtol = E.Real("dtol")
    kw = {"Xpend": P, "dtol": dtol}
    if num_cand:
        kw["num_cand"] = m
    if which != "uniform":
        kw["sampling_radius"] = rad
    S = None
    if subset:
        ns = E.Int("ns")
        E.assume(b_and(ns >= 1, le(ns, d)))
        E.touch(ns)
        S = fresh_arr(E, (ns,), "i", False, "subset")
        E.assume_forall(("Int",), lambda i: b_imp(rng(i, ns), rng(S.at(i), d)), "subset range")
        E.assume_forall(("Int", "Int"), lambda i, j: b_imp(b_and(i >= 0, lt(i, j), lt(j, ns)), ne(S.at(i), S.at(j))), "subset distinct")
        kw["subset"] = S
    c = None
    if best != "default":
        c = vec(E, d, "center")
        E.assume_forall(("Int",), lambda j: b_imp(rng(j, d), feasible(p, c.at(j), j)), "center is feasible")
        kw["xbest"] = c
    seen, log, recs = [], [], []
    I.contracts[RV] = round_contract(I, p, seen)
    I.contracts[WDM] = wdm_contract(I, log)
    prob = None
    args = [num, p, Opaque("surrogate"), X, fX, w]
    if which == "dycors":
        prob = E.Real("prob")
        E.assume(b_and(prob >= 0, prob <= 1))
        args.append(prob)
    arrs = [p.attrs["lb"], p.attrs["ub"], p.attrs["int_var"], X, fX, P, w] + ([S] if S is not None else []) + ([c] if c is not None else [])
    frame = [(a, a.cell.fn) for a in arrs]
    x0 = c
    if c is None:
        picks = []

        def argmin(a, axis=None):
            r_ = I.np.table["numpy.argmin"](a, axis=axis)
            i = E.Int("i")
            E.touch(i)
            E.prove("the best point has the smallest value", b_imp(rng(i, n), b_and(rng(r_, n), le(fX.at(r_, 0), fX.at(i, 0)))))
            picks.append(r_)
            return r_
        I.np.extra["numpy.argmin"] = argmin

        def best_at(j):
            if not picks:
                raise Unsupported("the best point is not determined by argmin")
            return X.at(picks[0], j)
    else:
        best_at = lambda j: c.at(j)
    member = (lambda j: True) if S is None else A.enum_of(S).member

    def hook(rec):
        if selected:
            rec["differs"] = True
            recs.append(rec)
            return
        i = I.E.cur_t0 if S is None else S.at(I.E.cur_t0)
        sc = mul(rad, sub(p.attrs["ub"].at(i), p.attrs["lb"].at(i)))
        mem = A.enum_of(p.attrs["int_var"]).member
        E.prove("the perturbation has standard deviation radius*(upper-lower), at least one for integer variables",
                eq(rec["scale"], ite(mem(i), smax(sc, 1), sc)))
        E.prove("the perturbation is centred at the best point", eq(rec["loc"], best_at(i)))
        E.prove("the perturbation is truncated at the bounds", b_and(eq(add(rec["loc"], mul(rec["scale"], rec["a"])), p.attrs["lb"].at(i)),
                                                                    eq(add(rec["loc"], mul(rec["scale"], rec["b"])), p.attrs["ub"].at(i))))
    I.np.extra["hook:truncnorm"] = hook
    if selected:
        ns_ = d if S is None else S.shape[0]
        I.np.extra["hook:randint"] = lambda lo, hi: E.prove("every coordinate of the subset can be the one selected", eq(sub(hi, lo), ns_))
    f = I.get(AP + "candidate_%s:candidate_%s" % (which, which))
    r = I.call(f, args, kw)
    return locals()


def points(I, which, subset, **k):
    s = setup(I, which, subset, **k)
    E, p, num, d, r, seen, log = I.E, s["p"], s["num"], s["d"], s["r"], s["seen"], s["log"]
    E.prove("%s: one row per requested point" % which, b_and(len(r.shape) == 2, eq(r.shape[0], num), eq(r.shape[1], d)))
    q, j = sk_int(E, "q", 0, num), sk_int(E, "j", 0, d)
    E.prove("%s: new points lie in the bounds and are integer in the integer variables" % which, feasible(p, r.at(q, j), j))
    E.prove("%s: coordinates outside the subset are those of the best point" % which, b_imp(b_not(s["member"](j)), eq(r.at(q, j), s["best_at"](j))))
    E.prove("%s: arguments are not modified" % which, all(a.cell.fn is f for a, f in s["frame"]))
    a = log[-1]
    for key, want in (("X", s["X"]), ("fX", s["fX"]), ("Xpend", s["P"]), ("weights", s["w"]), ("dtol", s["dtol"]), ("surrogate", s["args"][2])):
        prove_same(E, "%s: the selection gets the %s given" % (which, key), a[key], want)
    E.prove("%s: number of candidates" % which, eq(a["cand"].shape[0], s["m"] if k.get("num_cand", True) else mul(100, d)))
    return s


def selected(I, subset, **k):
    """At least one coordinate of the subset is drawn anew in every candidate (a draw is taken to differ from the centre)."""
    s = setup(I, "dycors", subset, selected=True, integer=False, **k)
    E, d, S = I.E, s["d"], s["S"]
    a = s["log"][-1]
    c = sk_int(E, "c", 0, s["m"])
    f = a["f"]
    ns = d if S is None else S.shape[0]
    co = (lambda j: j) if S is None else S.at
    j = sk_int(E, "j", 0, d)
    E.prove("candidates differ from the best point only in the subset", b_imp(b_not(s["member"](j)), eq(f((c, j)), s["best_at"](j))))
    with Scope(E):
        neg_ = lambda t: b_imp(rng(t, ns), eq(f((c, co(t))), s["best_at"](co(t))))
        E.assume_forall(("Int",), neg_, "negated goal")
        for rnd in range(2):       # positions of the subset worth a look: the first, those drawn at random, witnesses of a count
            E.assume(neg_(0))
            E.check()
            xs = [x for x, _ in list(E.scanned.values()) if z3.is_app(x) and x.num_args() and x.sort() == z3.IntSort() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED]
            for x in sorted(xs, key=lambda x: len(str(x)))[:80]:
                E.assume(neg_(x))
        E.prove("at least one coordinate is selected in every candidate", False)
