"""generate_evals: what the strategies ask the searches for, and what is queued (C05, C07, C08, C12, C21).

The search is replaced by its contract: num_pts feasible rows (proved in C05/C08), or None when the Bayesian searches give up."""
from .strat import *

FN = {"SRBF": "pySOT.auxiliary_problems.candidate_srbf:candidate_srbf",
      "DYCORS": "pySOT.auxiliary_problems.candidate_dycors:candidate_dycors",
      "EI": "pySOT.auxiliary_problems.ei_ga:ei_ga", "LCB": "pySOT.auxiliary_problems.lcb_ga:lcb_ga"}


def generate(I, which, prop):
    W = World(I, which, prop)
    E, d = W.E, W.d
    more = {}
    tol = kap = dt = None
    if which in ("EI", "LCB"):
        dt = more["dtol"] = E.Real("dtol")
        if E.choose(2) == 0:
            tol = E.Real("tol")
            more["ei_tol" if which == "EI" else "lcb_tol"] = tol
        if which == "LCB":
            kap = more["kappa"] = E.Real("kappa")
            E.assume(kap > 0)
    else:
        nc = more["num_cand"] = E.Int("num_cand")
        E.assume(nc >= 1)
    o = W.construct(**more)
    at = o.attrs
    W.havoc()
    E.assume(ge(at["X"].shape[0], 1))          # documented precondition (see strat.py)
    E.touch(0)
    del I.contracts[CLS[which] + ".generate_evals"]
    num = E.Int("num_pts")
    E.assume(num >= 1)
    E.touch(num)
    log, wlog = [], []
    Q = E.Func("newpt", z3.IntSort(), Pt)
    gives_up = which in ("EI", "LCB") and E.choose(2) == 1

    def search(I, func, a):
        log.append(dict(a, X0=a["X"].fn(), fX0=a["fX"].fn(), P0=a["Xpend"].fn()))
        E.prove("the search is asked for the number of points wanted", eq(a["num_pts"], num))
        if gives_up:
            return None
        E.assume_forall(("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, num), rng(j, d)), feasible(W.p, coord(Q(integer(i)), integer(j)), j)), "the search returns feasible points")
        return A.new((num, d), lambda ix: coord(Q(integer(ix[0])), integer(ix[1])), "f")
    I.contracts[FN[which]] = search
    if "weights" in at:
        V = E.Func("wgt", z3.IntSort(), z3.RealSort())
        wl = SymList(num, lambda i: V(integer(i)), None, "scalar")

        def get_weights(I, func, a):
            E.prove("as many weights are asked for as points", eq(a["num_pts"], num))
            wlog.append(wl)
            at["next_weight"] = E.Int("next_weight")
            return wl
        I.contracts["pySOT.strategy.srbf_strategy:SRBFStrategy.get_weights"] = get_weights
    old = W.snap()
    n0, g0 = qlen(at["batch_queue"]), at["batch_queue"].get
    radius = at.get("sampling_radius")
    I.call(I.getattr(o, "generate_evals"), [], dict(num_pts=num))
    E.prove("one search per request", len(log) == 1)
    a = log[0]
    if prop in ("C07", "C08", "C12", "C05"):
        prove_same(E, "the search gets the points of the current run", a["X"], old["_X"])
        prove_same(E, "the search gets the values of the current run", a["fX"], old["_fX"])
        prove_same(E, "the search gets the pending points", a["Xpend"], old["Xpend"])
    E.prove("the search gets the surrogate of the strategy", a["surrogate"] is W.s)
    E.prove("the search gets the problem of the strategy", a["opt_prob"] is W.p)
    if "weights" in at:
        if prop in ("C12", "C07"):
            E.prove("the next weights in the cycle are used, one per point", len(wlog) == 1 and a["weights"] is wl)
        E.prove("the search gets the current sampling radius", eq(a["sampling_radius"], radius))
        E.prove("the search gets the configured number of candidates", eq(a["num_cand"], nc))
        E.prove("the whole domain is searched around the best point of the run", a.get("subset") is None and a.get("xbest") is None)
    if which == "DYCORS" and prop == "C21":
        probability(W, a, old)
    if which in ("EI", "LCB") and prop == "C08":
        E.prove("the search gets the distance tolerance", eq(a["dtol"], dt))
        fX = old["fX"]
        mx, mn, i1, i2 = E.Real("largest"), E.Real("smallest"), E.Int("i1"), E.Int("i2")
        n = fX.shape[0]
        E.touch(i1), E.touch(i2)
        E.assume(b_and(rng(i1, n), rng(i2, n), eq(fX.at(i1, 0), mx), eq(fX.at(i2, 0), mn)))
        E.assume_forall(("Int",), lambda i: b_imp(rng(i, n), b_and(le(mn, fX.at(i, 0)), le(fX.at(i, 0), mx))), "largest and smallest value (definition)")
        t = tol if tol is not None else mul(1e-6, sub(mx, mn))
        if which == "EI":
            E.prove("the threshold is the tolerance given, by default a millionth of the range of the values", eq(a["ei_tol"], t))
        else:
            E.prove("the target is the best value minus the tolerance, by default a millionth of the range of the values", eq(a["lcb_target"], sub(mn, t)))
            E.prove("the search gets kappa", eq(a["kappa"], kap))
    q = at["batch_queue"]
    i, j = E.Int("i"), sk_int(E, "j", 0, d)
    E.touch(i)
    if gives_up:
        E.prove("if the search gives up, the run has converged and nothing is queued", b_and(at["converged"], eq(qlen(q), n0)))
    else:
        E.prove("converged is not changed", b_iff(at["converged"], old["converged"]))
        E.prove("one point is queued per point wanted", eq(qlen(q), add(n0, num)))
        E.prove("the points found are queued", b_imp(rng(i, num), eq(qat(q, simp(add(n0, i))).at(j), coord(Q(i), integer(j)))))
        E.prove("queued points are feasible", b_imp(rng(i, num), feasible(W.p, qat(q, simp(add(n0, i))).at(j), j)))
    E.prove("points already queued are kept", b_imp(rng(i, n0), eq(qat(q, i).at(j), g0(i).at(j))))
    for k in at:
        if k not in ("batch_queue", "next_weight", "converged"):
            E.prove("generating points changes nothing else", at[k] is old[k] or (isinstance(at[k], Arr) and at[k].cell.fn is old[k].cell.fn) or (is_z3(at[k]) and at[k].eq(old[k])))


def probability(W, a, old):
    """min(20/d,1)*(1-log(n+1)/log(N)) but at least 1/d."""
    E, d, at = W.E, W.d, W.o.attrs
    X, P = old["X"], old["Xpend"]
    n = smax(sub(add(X.shape[0], P.shape[0]), W.num), 0)
    N = smax(sub(W.max, W.num), 2)
    lg = lambda x: ufun("log", real(x))
    x = add(n, 1)
    # log: log 1 = 0, strictly increasing
    E.assume(eq(lg(1), 0))
    E.assume(b_imp(ge(x, 1), ge(lg(x), 0)))
    E.assume(b_imp(gt(N, 1), gt(lg(N), 0)))
    p = a["prob_perturb"]
    f = mul(smin(div(20.0, real(d)), 1.0), sub(1.0, div(lg(x), lg(N))))
    m = div(1.0, real(d))
    E.prove("the selection probability is min(20/d,1)*(1-log(n+1)/log(N)), at least 1/d", eq(p, smax(f, m)))
    u, v, w = div(20.0, real(d)), div(1.0, real(d)), div(lg(x), lg(N))
    prove_general(E, "the selection probability lies between 1/d and 1", b_and(ge(smax(f, m), m), le(smax(f, m), 1)), [u, v, w], [gt(u, 0), b_and(gt(v, 0), le(v, 1)), ge(w, 0)])


def gen_units(prop, classes=("SRBF", "DYCORS", "EI", "LCB")):
    return [unit("%s: generate_evals" % w, lambda I, w=w: generate(I, w, prop)) for w in classes]
