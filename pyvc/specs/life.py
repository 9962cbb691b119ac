"""One evaluation followed through its life (see strat.py)."""
from .strat import *


def construct(I, which, prop):
    W = World(I, which, prop)
    E = W.E
    o = W.construct()
    W.prove_inv("after construction")
    at = o.attrs
    W.pr("C01 C02 C03", "nothing is evaluated or pending", b_and(eq(at["num_evals"], 0), eq(at["pending_evals"], 0), eq(at["X"].shape[0], 0), eq(at["fX"].shape[0], 0), eq(at["_X"].shape[0], 0)))
    fresh_run(W, "after construction", 0)


def fresh_run(W, when, leftover):
    """A new run: fresh design queued, empty surrogate and run data, initial step size state."""
    E, o, at, d = W.E, W.o, W.o.attrs, W.d
    W.pr("C04", "%s: a fresh initial design is generated" % when, len(W.designs) == 1)
    W.pr("C03 C04", "%s: the surrogate is emptied" % when, b_and(W.nreset >= 1, eq(W.s.attrs["SX"].shape[0], 0)))
    W.pr("C03 C04", "%s: the run has no data" % when, b_and(eq(at["_X"].shape[0], 0), eq(at["_fX"].shape[0], 0)))
    W.pr("C04", "%s: initial phase, not converged" % when, b_and(eq(at["phase"], 1), b_not(at["converged"])))
    if "failcount" in at:
        W.pr("C04", "%s: initial step size state" % when, b_and(eq(at["sampling_radius"], 0.2), eq(at["status"], 0), eq(at["failcount"], 0), xr(at["_fbest"]).inf))


STAGES = ("propose_action", "reject", "accept", "status change", "kill", "cancel", "complete")


def lifecycle(I, which, prop, stage):
    W = World(I, which, prop)
    W.stage = stage
    E = W.E
    # the tolerance has no influence here; given, the default (a norm) need not be computed
    o = W.construct(**(dict(dtol=E.Real("dtol")) if which in ("EI", "LCB") else {}))
    at = o.attrs
    W.ekn = E.Int("known_extra")
    E.assume(W.ekn >= 0)
    E.touch(W.ekn)
    W.havoc()
    old = W.snap()
    r = I.call(I.getattr(o, "propose_action"), [])
    if stage == "propose_action":
        propose_posts(W, old, r)
        return
    if r is None or r.attrs["action"] != "eval":
        return
    W.out = simp(add(W.out, 1))
    x = r.attrs["args"][0]
    q = at["batch_queue"]
    if isinstance(q, SymList) and q.mset is None:
        fresh_mset(E, q)
    mid = W.snap()
    initial = E.branch(eq(at["phase"], 1))
    E.cover("an evaluation of the initial phase" if initial else "an evaluation of the adaptive phase")
    if stage == "reject":
        from ..npmodel import mset_axioms
        P = at["Xpend"]
        if prop == "C02":
            E.lemma("the proposed point is pending", ge(P.cell.mset(A.reify_point(x)), 1) if getattr(P.cell, "mset", None) is not None else False)
        mset_axioms(P)
        I.call(I.getattr(r, "reject"), [])
        W.out = simp(sub(W.out, 1))
        W.prove_inv("after a rejection")
        W.data_kept("after a rejection", mid)
        W.run_kept("after a rejection", mid)
        W.pending("after a rejection", mid, x, -1)
        again = initial or not E.branch(at["asynchronous"])
        W.queue_change("after a rejection", mid, x, 1 if again else 0)
        W.pr("C02", "after a rejection: nothing else is logged", eq(qlen(at["fevals"]), mid["nfev"]))
        return
    rec = I.call(I.get_ext("poap.strategy", "EvalRecord"), [r.attrs["args"]])
    r.attrs["record"] = rec
    I.call(I.getattr(r, "accept"), [])
    ev1 = at["ev_restart"]
    mine = rec.attrs.get("ev_id")
    next1 = at["ev_next"]
    n1 = at["X"].shape[0]
    if stage == "accept":
        W.prove_inv("after an acceptance")
        W.data_kept("after an acceptance", mid)
        W.run_kept("after an acceptance", mid)
        W.same("C02", "after an acceptance: pending points", at["Xpend"], mid["Xpend"])
        W.queue_change("after an acceptance", mid, x, 0)
        W.pr("C03", "after an acceptance: the evaluation is started after the last restart", b_and(gt(mine, ev1), lt(mine, next1)) if mine is not None else False)
        return
    # ----- any further history
    W.havoc()
    px = A.reify_point(x)
    P = at["Xpend"]
    E.assume(ge(P.cell.mset(px), 1))                     # the evaluation is outstanding
    E.assume(ge(at["X"].shape[0], n1))                   # recorded evaluations are kept (proved for every event)
    # restarts happen at event numbers handed out later than that of this evaluation
    restarted = E.Bool("restarted_since")
    E.assume(b_and(ge(at["ev_next"], next1), z3.If(restarted, tobool(ge(at["ev_restart"], next1)), tobool(eq(at["ev_restart"], ev1)))))
    old = W.snap()
    if stage == "status change":
        I.call(I.getattr(rec, "running"), [])
        W.prove_inv("after a status change")
        W.data_kept("after a status change", old)
        W.run_kept("after a status change", old)
        W.same("C02", "after a status change: pending points", at["Xpend"], old["Xpend"])
        W.queue_change("after a status change", old, x, 0)
        return
    if stage in ("kill", "cancel"):
        when = "after a killed evaluation" if stage == "kill" else "after a failed evaluation"
        I.call(I.getattr(rec, "kill" if stage == "kill" else "cancel"), [])
        W.out = simp(sub(W.out, 1))
        W.prove_inv(when)
        W.data_kept(when, old)
        W.run_kept(when, old)
        W.pending(when, old, x, -1)
        W.queue_change(when, old, x, 1 if initial else 0)
        return
    when = "after a completed evaluation"
    val = E.Real("value")
    I.call(I.getattr(rec, "complete"), [val])
    W.out, W.done = simp(sub(W.out, 1)), simp(add(W.done, 1))
    W.prove_inv(when)
    xf = x.fn()
    row, vrow = (lambda j: xf((j,))), (lambda j: val)
    W.appended("C02", "%s: points" % when, at["X"], old["X"], [row])
    W.appended("C02", "%s: values" % when, at["fX"], old["fX"], [vrow])
    W.pr("C01 C02 C04", "%s: one more evaluation is counted" % when, eq(at["num_evals"], add(old["num_evals"], 1)))
    W.pending(when, old, x, -1)
    W.queue_change(when, old, x, 0)
    W.pr("C02", "%s: the record is logged once" % when, eq(qlen(at["fevals"]), add(old["nfev"], 1)))
    if E.branch(restarted):
        W.run_kept("%s that was started before a restart" % when, old)
    else:
        W.appended("C03", "%s: points of the run" % when, at["_X"], old["_X"], [row])
        W.appended("C03", "%s: values of the run" % when, at["_fX"], old["_fX"], [vrow])
        W.appended("C03", "%s: points of the surrogate" % when, W.s.attrs["SX"], old["S"], [row])
        W.appended("C03", "%s: values of the surrogate" % when, W.s.attrs["SF"], old["SF"], [vrow])


def propose_posts(W, old, r):
    E, o, at = W.E, W.o, W.o.attrs
    action = "none" if r is None else r.attrs["action"]
    E.cover("propose_action returns " + action)
    if action == "eval":
        W.out = simp(add(W.out, 1))
    W.prove_inv("after propose_action")
    W.data_kept("after propose_action", old)
    W.pr("C02", "after propose_action: nothing is logged", eq(qlen(at["fevals"]), old["nfev"]))
    budget = ge(add(old["done"], old["out"]), old["max_evals"])
    idle = eq(old["out"], 0)
    conv = b_and(b_or(old["converged"], "gave_up" in W.h), b_not(old["use_restarts"]))
    over = b_or(old["terminate"], budget, conv)
    if action == "terminate":
        W.pr("C01 C04", "termination is proposed only while nothing is outstanding", idle)
        W.pr("C01 C04", "termination is proposed only if the budget was reached or the run converged with restarts disabled", b_or(old["hist"], budget, conv))
        W.run_kept("at termination", old)
        W.same("C02", "at termination: pending points", at["Xpend"], old["Xpend"])
        return action
    if action == "none":
        W.pr("C04", "something is proposed if nothing is outstanding", b_not(idle))
        W.pr("C04", "asynchronous strategies always propose an evaluation before they terminate", b_or(b_not(old["asynchronous"]), over))
        W.run_kept("without a proposal", old)
        W.same("C02", "without a proposal: pending points", at["Xpend"], old["Xpend"])
        return action
    W.pr("C04", "the action is an evaluation", action == "eval")
    W.pr("C01", "an evaluation is proposed only below the budget, before termination", b_and(b_not(budget), b_not(over)))
    x = r.attrs["args"][0]
    W.pr("C02", "the proposal has one argument, the point", len(r.attrs["args"]) == 1 and isinstance(x, Arr) and len(x.shape) == 1)
    W.pr("C05", "the point has the dimension of the problem", b_and(len(x.shape) == 1, eq(x.shape[0], W.d)))
    j = sk_int(E, "j", 0, W.d)
    W.pr("C05", "the proposed point is feasible", feasible(W.p, x.at(j), j))
    W.pending("after propose_action", old, x, 1)
    # restart?
    restart = len(W.designs) > 0
    due = b_and(b_or(old["converged"], "gave_up" in W.h), old["use_restarts"])
    if restart:
        E.cover("a restart")
        W.pr("C04", "a restart only after convergence, with restarts enabled", due)
        W.pr("C04", "a restart waits until nothing is outstanding in synchronous mode", b_or(old["asynchronous"], idle))
        fresh_run(W, "after a restart", None)
        W.pr("C03", "after a restart: later evaluations are told apart from earlier ones", b_and(ge(at["ev_restart"], old["ev_next"]), lt(at["ev_restart"], at["ev_next"])))
        q = at["batch_queue"]
        i = E.Int("i")
        E.touch(i)
        D = W.designs[0]
        base = old["queue"][0]
        W.pr("C04", "after a restart: the design is queued", eq(qlen(q), sub(add(base, W.num), 1)))
        W.pr("C04", "after a restart: the design is queued", b_imp(rng(i, sub(W.num, 1)), eq(qat(q, simp(add(base, i))).at(j), D.at(i, j))))
        W.pr("C04", "after a restart: a point of the design is proposed", eq(x.at(j), D.at(simp(sub(W.num, 1)), j)))
    else:
        W.pr("C04", "a restart happens if due", b_not(due))
        W.run_kept("without a restart", old)
        W.pr("C03", "without a restart: event number of the last restart", eq(at["ev_restart"], old["ev_restart"]))
    return action


def history_units(prop, stages=STAGES, classes=("SRBF", "DYCORS", "EI", "LCB", "SOP")):
    r = []
    for w in classes:
        r.append(unit("%s: initial state" % w, lambda I, w=w: construct(I, w, prop)))
        r.append(unit("%s: initial state with extra points" % w, lambda I, w=w: extras(I, w, prop)))
        for st in stages:
            r.append(unit("%s: %s" % (w, st), lambda I, w=w, st=st: lifecycle(I, w, prop, st)))
    return r


# ------------------------------------------------- points supplied by the user
def extras(I, which, prop):
    """The constructor given extra points: those with a known value are recorded and given to the surrogate, the others are queued."""
    W = World(I, which, prop)
    E, d = W.E, W.d
    m = E.Int("n_extra")
    E.assume(m >= 0)
    E.touch(m)
    pts = mat(E, m, d, "extra", row=True)
    if prop == "C05":
        E.assume_forall(("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, m), rng(j, d)), feasible(W.p, pts.at(i, j), j)), "the points supplied are feasible")
    fin, val, nanv = E.Func("fin", z3.IntSort(), z3.BoolSort()), E.Func("xval", z3.IntSort(), z3.RealSort()), E.Func("isnan", z3.IntSort(), z3.BoolSort())
    F = lambda i: fin(integer(i))
    none = E.choose(2) == 1
    if none:
        E.assume_forall(("Int",), lambda i: b_not(F(i)), "no value given")
        vals = None
    else:
        vals = A.new((m, 1), lambda ix: XR(val(integer(ix[0])), b_and(b_not(F(ix[0])), b_not(nanv(integer(ix[0])))), b_and(b_not(F(ix[0])), nanv(integer(ix[0])))), "f")
    kn = E.Func("known_before", z3.IntSort(), z3.IntSort())          # number of known values before position i
    K = lambda i: kn(integer(i))
    one = lambda c: ite(c, 1, 0)
    E.assume(eq(K(0), 0))
    E.assume_forall(("Int",), lambda i: b_imp(ge(i, 0), b_and(eq(K(simp(add(i, 1))), add(K(i), one(F(i)))), ge(K(i), 0), le(K(i), i))), "counting")
    E.assume_forall(("Int", "Int"), lambda i, j: b_imp(b_and(ge(i, 0), lt(i, j)), b_and(le(add(K(i), one(F(i))), K(j)), le(add(sub(i, K(i)), one(b_not(F(i)))), sub(j, K(j))))), "counting")
    num = W.num
    box_ = {}

    def facts(o, t):
        at = o.attrs
        X, fX, q, S, SF = at["X"], at["fX"], at["batch_queue"], W.s.attrs["SX"], W.s.attrs["SF"]
        D = W.designs[0] if W.designs else None
        kt = K(t)
        g = [("C02 C03", "as many recorded points as known values", b_and(eq(X.shape[0], kt), eq(fX.shape[0], kt), eq(X.shape[1], d), eq(fX.shape[1], 1))),
             ("C03", "as many points in the surrogate as known values", b_and(eq(S.shape[0], kt), eq(SF.shape[0], kt), eq(S.shape[1], d), eq(SF.shape[1], 1))),
             ("C02 C03 C04", "the queue has the design and the points with unknown value", eq(qlen(q), add(num, sub(t, kt)))),
             ("C02 C03", "known points are recorded in order", (("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, t), rng(j, d), F(i)), b_and(eq(X.at(K(i), j), pts.at(i, j)), eq(xr(fX.at(K(i), 0)), xr(val(integer(i)))))))),
             ("C03", "the surrogate is given the known points with their values", (("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, t), rng(j, d), F(i)), b_and(eq(S.at(K(i), j), pts.at(i, j)), eq(xr(SF.at(K(i), 0)), xr(val(integer(i)))))))),
             ("C03", "recorded points and points of the surrogate agree", (("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, kt), rng(j, d)), b_and(eq(S.at(i, j), X.at(i, j)), eq(xr(SF.at(i, 0)), xr(fX.at(i, 0))))))),
             ("C03 C04", "points with unknown value are queued", (("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, t), rng(j, d), b_not(F(i))), eq(qat(q, simp(add(num, sub(i, K(i))))).at(j), pts.at(i, j)))) if not (isinstance(q, PList) and not q.items) else True),
             ("C02 C03 C04", "the design is queued", (("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, num), rng(j, d)), eq(qat(q, i).at(j), D.at(i, j)))))]
        if prop == "C05" and not (isinstance(q, PList) and not q.items):
            g.append(("C05", "queued points are feasible", (("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, qlen(q)), rng(j, d)), feasible(W.p, qat(q, i).at(j), j)))))
        return g

    def inv(ctx):
        o = ctx["self"]
        r = facts(o, ctx.t)
        return [(lab, g) for _, lab, g in r] + [("shapes", b_and(len(o.attrs["X"].shape) == 2))]

    def modifies(ctx):
        o = ctx["self"]
        for a, w in (("X", d), ("fX", 1)):
            n = E.Int("n_" + a)
            E.assume(n >= 0)
            E.touch(n)
            o.attrs[a] = mat(E, n, w, "h" + a)
        n = E.Int("n_S")
        E.assume(n >= 0)
        W.s_set(mat(E, n, d, "hS"), mat(E, n, 1, "hF"))
        nq = E.Int("n_q")
        E.assume(nq >= 0)
        Q = E.Func("hq", z3.IntSort(), Pt)
        q = o.attrs["batch_queue"]
        new = SymList(nq, lambda i: A.pt_arr(Q(integer(i)), d), None, "pt")
        o.attrs["batch_queue"] = new
        for x in (o, W.s, new):
            ctx.may_change(x)
        E.touch(ctx.t), E.touch(K(ctx.t)), E.touch(simp(add(num, sub(ctx.t, K(ctx.t)))))
        if ctx.has("x") and isinstance(ctx["x"], Arr):
            pass

    I.loopspecs = {(B + ".sample_initial", 1): LoopSpec(inv, modifies)}
    o = W.construct(extra_points=pts, extra_vals=vals, **(dict(dtol=E.Real("dtol")) if which in ("EI", "LCB") else {}))
    p0 = pts.cell.fn
    for tag, lab, g in facts(o, m):
        W.pr(tag, "after construction with extra points: " + lab, g)
    at = o.attrs
    W.pr("C01 C02 C03", "after construction with extra points: nothing is evaluated or pending", b_and(eq(at["num_evals"], 0), eq(at["pending_evals"], 0), eq(at["Xpend"].shape[0], 0), eq(at["_X"].shape[0], 0), eq(at["_fX"].shape[0], 0)))
    W.ekn = K(m)
    W.prove_inv("after construction with extra points")
