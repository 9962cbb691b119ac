"""C12: step size and weights of the stochastic searches."""
from .life import *
from .gen import gen_units

SR = "pySOT.strategy.srbf_strategy:SRBFStrategy"


def rules(I, which):
    """The constructor sets the parameters of the step size rules."""
    E = I.E
    asyn = E.choose(2) == 0
    W = World(I, which, "C12", asynchronous=asyn)
    o = W.construct()
    at = o.attrs
    d, p, ft = W.d, W.batch, at["failtol"]
    m = smax(d, 4)
    E.prove("the radius starts at its maximum 0.2", b_and(eq(at["sampling_radius"], 0.2), eq(at["sampling_radius_max"], 0.2)))
    E.prove("the smallest radius is 0.2 / 64", eq(at["sampling_radius_min"], 0.2 * 0.5 ** 6))
    if asyn:
        E.prove("failure tolerance: the larger of the dimension and four", eq(ft, m))
    else:
        big = E.branch(ge(d, 4))
        u, v = div(real(d), real(p)), div(4.0, real(p))
        x = u if big else v           # max(d, 4) / p
        prove_general(E, "failure tolerance: the larger of the dimension and four, divided by the batch size and rounded up", b_and(ge(ft, x), lt(sub(ft, 1), x)), [z3.ToInt(-u), z3.ToInt(-v), u, v], [b_and(gt(u, 0), gt(v, 0), ge(u, v) if big else ge(v, u))] + [b_and(le(real(z3.ToInt(-y)), neg(y)), lt(neg(y), add(real(z3.ToInt(-y)), 1))) for y in (u, v)])
    E.prove("success tolerance is three", eq(at["succtol"], 3))
    E.prove("the search gives up after four times the failure tolerance", eq(at["maxfailtol"], mul(4, ft)))
    E.prove("no update has been made", b_and(eq(at["status"], 0), eq(at["failcount"], 0), xr(at["_fbest"]).inf, eq(qlen(at["record_queue"]), 0), eq(at["next_weight"], 0)))
    E.prove("default weights", isinstance(at["weights"], PList) and [float(w) for w in at["weights"].items] == [0.3, 0.5, 0.8, 0.95])


def adjust(I, which):
    """One update, in any state; cf and cs are ghosts: updates without success in a row, successes in a row (since the last radius change)."""
    W = World(I, which, "C12")
    E = W.E
    o = W.construct()
    at = o.attrs
    W.havoc()
    rq = at["record_queue"]
    E.assume(ge(rq.n, 1))
    ft = E.Int("failtol")
    E.assume(ge(ft, 1))
    at["failtol"], at["maxfailtol"] = ft, mul(4, ft)
    cf, cs, tot = E.Int("failures"), E.Int("successes"), E.Int("failures_in_all")
    E.assume(b_and(ge(cf, 0), ge(cs, 0), b_or(eq(cf, 0), eq(cs, 0)), lt(cf, ft), lt(cs, 3), ge(tot, cf)))
    E.assume(eq(at["status"], sub(cs, cf)))
    E.assume(eq(at["failcount"], tot))
    old = dict(at)
    V = rq.vals
    r0, fb = old["sampling_radius"], old["_fbest"]
    S = W.snap()
    I.call(I.getattr(o, "adjust_step"), [])
    # the best value of the queue
    best = E.Real("best")
    bi = E.Int("bi")
    E.touch(bi)
    E.assume(b_and(rng(bi, rq.n), eq(best, V(bi))))
    E.assume_forall(("Int",), lambda i: b_imp(rng(i, rq.n), le(best, V(i))), "best of the queue (definition)")
    x = xr(fb)
    a = ite(ge(x.v, 0), x.v, neg(x.v))
    succ = b_or(x.inf, lt(best, sub(x.v, mul(0.001, a))))
    nf, ns = ite(succ, 0, add(cf, 1)), ite(succ, add(cs, 1), 0)
    ntot = ite(succ, 0, add(tot, 1))
    halve, dbl = ge(nf, ft), ge(ns, 3)
    E.prove("a successful update remembers its best value, others do not", b_and(b_imp(succ, b_and(b_not(xr(at["_fbest"]).inf), eq(xr(at["_fbest"]).v, best))), b_imp(b_not(succ), eq(xr(at["_fbest"]), xr(fb)))))
    E.prove("the radius is halved exactly after the failure tolerance of unsuccessful updates in a row", b_imp(halve, eq(at["sampling_radius"], div(r0, 2))))
    E.prove("the radius is doubled, up to its maximum, exactly after three successful updates in a row", b_imp(dbl, eq(at["sampling_radius"], smin(mul(2, r0), old["sampling_radius_max"]))))
    E.prove("otherwise the radius does not change", b_imp(b_not(b_or(halve, dbl)), eq(at["sampling_radius"], r0)))
    chg = b_or(halve, dbl)
    E.prove("the counters start again after a change and count otherwise", eq(at["status"], ite(chg, 0, sub(ns, nf))))
    E.prove("failures in a row are counted across radius changes", eq(at["failcount"], ntot))
    E.prove("a change of the radius starts a new event", b_and(b_imp(chg, b_and(ge(at["ev_last"], old["ev_next"]), lt(at["ev_last"], at["ev_next"]))), b_imp(b_not(chg), b_and(eq(at["ev_last"], old["ev_last"]), eq(at["ev_next"], old["ev_next"])))))
    E.prove("it converges exactly if the failures reach four times the tolerance or the radius falls to its minimum", b_iff(at["converged"], b_or(old["converged"], ge(ntot, mul(4, ft)), le(at["sampling_radius"], old["sampling_radius_min"]))))
    E.prove("the evaluations are used once", eq(qlen(at["record_queue"]), 0))
    for k in ("failtol", "succtol", "maxfailtol", "sampling_radius_min", "sampling_radius_max", "next_weight", "ev_restart", "num_evals", "pending_evals", "terminate", "phase"):
        E.prove("an update leaves %s alone" % k, eq(at[k], old[k]) if not isinstance(at[k], (bool, z3.BoolRef)) else b_iff(at[k], old[k]))
    W.prop = "C02"
    W.data_kept("an update", S)
    W.prop = "C03"
    W.run_kept("an update", S)


def weights(I, which):
    W = World(I, which, "C12")
    E = W.E
    o = W.construct()
    at = o.attrs
    W.havoc()
    L = E.Int("n_weights")
    E.assume(L >= 1)
    V = E.Func("w", z3.IntSort(), z3.RealSort())
    at["weights"] = SymList(L, lambda i: V(integer(i)), None, "scalar")
    k0 = at["next_weight"]
    E.assume(rng(k0, L))
    n = E.Int("n_req")
    E.assume(n >= 0)
    pos = E.Func("position", z3.IntSort(), z3.IntSort())       # ghost: position in the list of the i-th weight from now on
    P = lambda i: pos(integer(i))
    E.assume(eq(P(0), k0))
    E.assume_forall(("Int",), lambda i: b_imp(ge(i, 0), b_and(rng(P(i), L), eq(P(simp(add(i, 1))), ite(eq(add(P(i), 1), L), 0, add(P(i), 1))))), "cyclic order (definition)")

    def inv(ctx):
        w = ctx["weights"]
        return [("as many weights as iterations", eq(qlen(w), ctx.t)), ("the position moves on cyclically", eq(ctx["self"].attrs["next_weight"], P(ctx.t))),
                ("weights in cyclic order", (("Int",), lambda i: b_imp(rng(i, ctx.t), eq(w.get(i), V(P(i))))) if isinstance(w, SymList) else True)]

    def modifies(ctx):
        F = E.Func("hw", z3.IntSort(), z3.RealSort())
        nn = E.Int("hn")
        E.assume(nn >= 0)
        ctx["weights"] = SymList(nn, lambda i: F(integer(i)), None, "scalar")
        ctx["self"].attrs["next_weight"] = E.Int("hnext")
        ctx.may_change(ctx["self"]), ctx.may_change(ctx["weights"])
        E.touch(ctx.t)
    I.loopspecs = {(SR + ".get_weights", 0): LoopSpec(inv, modifies)}
    old = dict(at)
    r = I.call(I.getattr(o, "get_weights"), [n])
    i = sk_int(E, "i", 0, n)
    E.prove("one weight per point", eq(qlen(r), n))
    E.prove("the weights are used cyclically in the given order", eq(r.get(i), V(P(i))))
    E.prove("the next request goes on where this one ended", eq(at["next_weight"], P(n)))
    for a in at:
        if a != "next_weight":
            E.prove("asking for weights changes nothing else", at[a] is old[a] or (is_z3(at[a]) and at[a].eq(old[a])))


def when_updated(I, which, stage):
    """One adaptive or initial evaluation followed to its end: when the step size is updated, and from which evaluations."""
    W = World(I, which, "C12")
    E = W.E
    o = W.construct()
    at = o.attrs
    W.ekn = E.Int("known_extra")
    E.assume(W.ekn >= 0)
    calls = []

    def adjust(I, func, a):
        rq = at["record_queue"]
        E.prove("an update has evaluations to work on", ge(qlen(rq), 1))
        calls.append((qlen(rq), getattr(rq, "vals", None), rq))
        at["record_queue"] = PList([])
        at["status"], at["failcount"], at["sampling_radius"] = E.Int("status"), E.Int("failcount"), E.Real("radius")
        at["converged"] = E.Bool("converged")
        return None
    I.contracts[SR + ".adjust_step"] = adjust

    def state():
        W.havoc()
        # asynchronous strategies use every evaluation at once
        E.assume(b_imp(at["asynchronous"], eq(at["record_queue"].n, 0)))

    def kept(when, n):
        E.prove("%s: an asynchronous strategy leaves no evaluation unused" % when, b_imp(at["asynchronous"], eq(qlen(at["record_queue"]), 0)))
    state()
    r = I.call(I.getattr(o, "propose_action"), [])
    E.prove("proposing does not update the step size", not calls)
    kept("after propose_action", None)
    if r is None or r.attrs["action"] != "eval":
        return
    x = r.attrs["args"][0]
    initial = E.branch(eq(at["phase"], 1))
    E.cover("an evaluation of the initial phase" if initial else "an evaluation of the adaptive phase")
    if stage == "reject":
        from ..npmodel import mset_axioms
        mset_axioms(at["Xpend"])
        n0 = qlen(at["record_queue"])
        I.call(I.getattr(r, "reject"), [])
        E.prove("a refusal does not update the step size", not calls and eq(qlen(at["record_queue"]), n0) if calls else eq(qlen(at["record_queue"]), n0))
        return
    rec = I.call(I.get_ext("poap.strategy", "EvalRecord"), [r.attrs["args"]])
    r.attrs["record"] = rec
    I.call(I.getattr(r, "accept"), [])
    last1, next1 = at["ev_last"], at["ev_next"]
    E.prove("accepting does not update the step size", not calls)
    state()
    E.assume(ge(at["Xpend"].cell.mset(A.reify_point(x)), 1))
    # ev_last is the number of the last restart or change of the radius
    changed = E.Bool("changed_since")
    E.assume(b_and(ge(at["ev_next"], next1), z3.If(changed, tobool(ge(at["ev_last"], next1)), tobool(eq(at["ev_last"], last1)))))
    rq = at["record_queue"]
    n0, v0 = rq.n, rq.vals
    pend, q0, asyn = at["pending_evals"], qlen(at["batch_queue"]), at["asynchronous"]
    last = b_and(eq(pend, 1), eq(q0, 0))         # the batch is done with this evaluation
    if stage == "complete":
        val = E.Real("value")
        I.call(I.getattr(rec, "complete"), [val])
        if initial:
            E.prove("evaluations of the initial design do not count", not calls and len(calls) == 0 if calls else eq(qlen(at["record_queue"]), n0))
            return
        fresh = b_not(changed)
        if calls:
            m, vals, q = calls[0]
            E.prove("the step size is updated after each evaluation (asynchronous) or batch (synchronous), not for evaluations started before the last change", b_and(fresh, b_or(asyn, last)))
            E.prove("one update per event", len(calls) == 1)
            E.prove("an update uses the new evaluation and those not used before", eq(m, add(n0, 1)))
            i = sk_int(E, "i", 0, add(n0, 1))
            if vals is not None:
                E.prove("an update uses the new evaluation and those not used before", eq(vals(i), ite(eq(i, n0), val, v0(i))))
        else:
            E.prove("the step size is updated after each evaluation (asynchronous) or batch (synchronous)", b_not(b_and(fresh, b_or(asyn, last))))
            E.prove("a fresh evaluation is kept for the update, others are not", eq(qlen(at["record_queue"]), ite(fresh, add(n0, 1), n0)))
        kept("after a completed evaluation", None)
        return
    I.call(I.getattr(rec, "kill" if stage == "kill" else "cancel"), [])
    if initial:
        E.prove("evaluations of the initial design do not count", eq(qlen(at["record_queue"]), n0) if not calls else False)
        return
    due = b_and(b_not(asyn), gt(n0, 0), last)
    if calls:
        m, vals, q = calls[0]
        E.prove("after a failure the step size is updated only if it ends a synchronous batch", due)
        E.prove("a failed evaluation is not used", b_and(eq(m, n0), len(calls) == 1))
    else:
        E.prove("a failure that ends a synchronous batch with completed evaluations updates the step size", b_not(due))
        E.prove("a failed evaluation is not used", eq(qlen(at["record_queue"]), n0))
    kept("after a failed evaluation", None)


def units():
    r = []
    for w in ("SRBF", "DYCORS"):
        for n, f in (("constructor", rules), ("adjust_step", adjust), ("get_weights", weights)):
            r.append(unit("%s: %s" % (w, n), lambda I, w=w, f=f: f(I, w)))
        for st in ("reject", "kill", "cancel", "complete"):
            r.append(unit("%s: update after %s" % (w, st), lambda I, w=w, st=st: when_updated(I, w, st)))
    return r + gen_units("C12", ("SRBF", "DYCORS"))
