"""C18: a resumed run continues from exactly the saved state."""
from .life import *
from .fs import *
from .c17 import CC


def strategy_resume(I, which):
    """resume() of a strategy in any state a snapshot may have (loading restores the state of the snapshot, see fs.py)."""
    W = World(I, which, "C18")
    E, d = W.E, W.d
    o = W.construct(**(dict(dtol=E.Real("dtol")) if which in ("EI", "LCB") else {}))
    at = o.attrs
    W.ekn = E.Int("known_extra")
    E.assume(W.ekn >= 0)
    E.touch(W.ekn)
    W.havoc()
    old = W.snap()
    E.touch(old["queue"][0])
    first = E.branch(eq(at["phase"], 1))
    I.call(I.getattr(o, "resume"), [])
    W.out = 0
    E.prove("the run is not terminated any more", b_not(at["terminate"]))
    W.hist = False          # a new controller: the budget is checked again
    for tag, lab, g in W.inv():
        if lab != "queued points are feasible":
            E.prove("after resuming: " + lab, g)
    E.prove("pending evaluations are forgotten", b_and(eq(at["pending_evals"], 0), eq(at["Xpend"].shape[0], 0)))
    W.data_kept("after resuming", old)
    W.run_kept("after resuming", old)
    for a in sorted(old):
        if a in at and a not in ("X", "fX", "_X", "_fX", "Xpend", "pending_evals", "terminate", "batch_queue", "init_pending", "fevals"):
            u, v = at[a], old[a]
            if isinstance(v, (XR,)) or isinstance(u, (XR,)):
                E.prove("after resuming: %s is restored" % a, eq(xr(u), xr(v)))
            elif isinstance(v, (bool, z3.BoolRef)):
                E.prove("after resuming: %s is restored" % a, b_iff(u, v))
            else:
                prove_same(E, "after resuming: %s is restored" % a, u, v)
    q, P = at["batch_queue"], old["Xpend"]
    nq, k = old["queue"][0], P.shape[0]
    i, j = E.Int("i"), sk_int(E, "j", 0, d)
    E.touch(i)
    E.touch(simp(add(nq, i)))
    g0 = old["queue"][1]
    E.prove("after resuming: the queue keeps its points", b_imp(rng(i, nq), eq(qat(q, i).at(j), g0(i).at(j))))
    E.prove("after resuming: the pending points of the initial phase are queued again, others are not", eq(qlen(q), add(nq, k) if first else nq))
    if first:
        E.prove("after resuming: the pending points of the initial phase are queued again", b_imp(rng(i, k), eq(qat(q, simp(add(nq, i))).at(j), P.at(i, j))))


def controller_resume(I):
    """resume() of the checkpoint controller."""
    E = I.E
    fs = FS(I, lambda o: 0)
    log = []
    rec = Opaque("record")
    s = Obj(SType("strategy"))
    s.attrs.update(fevals=PList([rec]), resume=Builtin("resume", lambda: log.append("resume")), save=Builtin("save", lambda f: log.append("save")))
    before = Obj(SType("strategy"))
    ctl = I.call(I.get_ext("poap.controller", "Controller"), [])
    ctl.attrs["strategy"] = before
    best = Opaque("best")

    def run():
        log.append("run")
        E.prove("the run is continued with the restored strategy", ctl.attrs["strategy"] is s)
        f = ctl.attrs["fevals"]
        E.prove("the run is continued with the restored evaluations", isinstance(f, PList) and len(f.items) == 1 and f.items[0] is rec)
        return best
    ctl.attrs["run"] = Builtin("run", run)
    cc = I.call(I.get(CC), [ctl, fs.fname])
    have = E.choose(2) == 1
    fs.files = [(fs.fname.t, Content("snapshot" if have else "absent", s, 0))]
    fs.on_point = lambda what: E.prove("resuming does not touch the checkpoint (%s)" % what, False)
    try:
        r = I.call(I.getattr(cc, "resume"), [])
    except PyExc as e:
        E.prove("resuming fails only without a checkpoint", not have)
        E.prove("nothing is run without a checkpoint", log == [])
        E.cover("resuming fails")
        return
    E.cover("resuming succeeds")
    E.prove("resuming without a checkpoint is an error", have)
    E.prove("the strategy is resumed once, before the run is continued", log == ["resume", "run"])
    E.prove("the result of the run is returned", r is best)


def units():
    return [unit("%s: resume" % w, lambda I, w=w: strategy_resume(I, w)) for w in ("SRBF", "DYCORS", "EI", "LCB", "SOP")] + [unit("CheckpointController.resume", controller_resume)]
