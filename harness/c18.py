"""C18 resuming from a snapshot."""
import os
from collections import Counter

import dill
import numpy as np
from poap.controller import SerialController
from pySOT.controller import CheckpointController
from . import gen, hist
from .c17 import Scratch, Scripted, load, location
from .common import Violation, attr, case, require

SEARCH = ["sampling_radius", "status", "failcount", "_fbest", "next_weight", "ev_last", "ev_next", "max_evals", "phase", "converged", "accepted_count", "rejected_count"]


def check_resumed(s, snap, cfg):
    """s: after resume(); snap: an untouched copy of the snapshot."""
    for n in ("X", "fX", "_X", "_fX"):
        if hasattr(snap, n):
            require(np.array_equal(getattr(s, n), getattr(snap, n)), "%s differs from the snapshot after resuming" % n)
    require(s.num_evals == snap.num_evals, "num_evals is %r, the snapshot has %r" % (s.num_evals, snap.num_evals))
    require(np.array_equal(s.surrogate.X, snap.surrogate.X) and np.array_equal(s.surrogate.fX, snap.surrogate.fX), "the surrogate data differ from the snapshot")
    for n in SEARCH:
        if hasattr(snap, n):
            require(getattr(s, n, None) == getattr(snap, n), "%s is %r after resuming, the snapshot has %r" % (n, getattr(s, n, None), getattr(snap, n)))
    require(s.pending_evals == 0 and len(s.Xpend) == 0, "pending evaluations are not forgotten: %r, %d points" % (s.pending_evals, len(s.Xpend)))
    q = Counter(hist.key(x) for x in attr(s, "batch_queue"))
    want = Counter(hist.key(x) for x in attr(snap, "batch_queue"))
    if snap.phase == 1:
        want.update(hist.key(x) for x in snap.Xpend)
    require(q == want, "the queue after resuming is not the saved one%s" % (" with the pending points" if snap.phase == 1 else ""), lost=list((want - q)), gained=list((q - want)))
    if hasattr(snap, "evals") and hasattr(snap, "centers"):
        a = [(hist.key(e.x), e.fx, e.sigma, e.nfail, e.ntabu) for e in s.evals]
        b = [(hist.key(e.x), e.fx, e.sigma, e.nfail, e.ntabu) for e in snap.evals]
        require(a == b, "records of evaluated points differ from the snapshot")
        require(len(s.centers) == len(snap.centers), "number of centers changed")


@case("C18", n=120, cpu=60)
def snapshots(ctx):
    """Snapshot at a random point of a history, resume, and carry on to the end."""
    r = ctx.rng
    cfg = hist.config(ctx, num_cand=6)
    cfg["max_evals"] = cfg["num_pts"] + int(r.choice([0, 3, 10, 30]))
    h = hist.History(ctx, cfg, checks=("C01", "C02", "C04"))
    h.run(r.randint(0, 60))
    for _ in range(r.randint(1, 3)):
        data = dill.dumps(h.s)
        h.s = dill.loads(data)
        snap = dill.loads(data)
        h.s.resume()
        ctx.event("resume", len(h.out))
        check_resumed(h.s, snap, cfg)
        h.sur, h.D = h.s.surrogate, h.s.exp_design
        if snap.phase == 1:
            for o in h.out:
                h.queue[hist.key(o.x)] += 1
        h.refused = h.refused or bool(h.out)
        h.out = []
        h.reached = len(h.done) >= cfg["max_evals"]
        h.stopped = False
        h.judge()
        if h.reached:
            break
        h.patch()
        h.run(r.randint(0, 30))
    h.to_the_end()
    if not h.refused and not (h.s.converged and not cfg["use_restarts"]):
        require(len(h.done) == cfg["max_evals"], "%d evaluations at the end, the budget is %d" % (len(h.done), cfg["max_evals"]))


@case("C18", n=40, cpu=60)
def through_the_file(ctx):
    """A run stopped at an arbitrary point is resumed from its checkpoint file by another controller."""
    r = ctx.rng
    cfg = hist.config(ctx, which=str(r.choice(["SRBF", "DYCORS", "SOP"])), num_cand=5, p_reject=0.0, p_fail=0.0, use_restarts=True)
    cfg["max_evals"] = cfg["num_pts"] + int(r.choice([2, 6, 15]))
    s, sur, D = hist.build(cfg, ctx)
    with Scratch() as d:
        fname = location(r, d)
        first = Scripted(ctx, lambda x: float(gen.hashed(x)[0]), cfg["workers"], 0.0, 0.0, r.randint(2, 60))
        first.strategy = s
        ck = CheckpointController(first, fname=fname)
        ck.run()
        snap = load(fname)
        vals = [float(v) for v in np.ravel(snap.fX)]
        n = [0]

        class Second(Scripted):
            def run(self):
                check_resumed(self.strategy, snap, cfg)
                require([f.value for f in self.fevals if f.is_completed] == [f.value for f in snap.fevals if f.is_completed], "the evaluations known to the controller are not those of the snapshot")
                return super().run()

        def f(x):
            n[0] += 1
            return float(gen.hashed(x)[0])
        second = Second(ctx, f, cfg["workers"], 0.0, 0.0, 10000)
        ck = CheckpointController(second, fname=fname)
        best = ck.resume()
        s2 = second.strategy
        require(n[0] == cfg["max_evals"] - snap.num_evals, "%d evaluations after resuming with %d of %d completed" % (n[0], snap.num_evals, cfg["max_evals"]))
        require(s2.num_evals == cfg["max_evals"], "%d evaluations at the end" % s2.num_evals)
        require(np.array_equal(s2.X[: len(snap.X)], snap.X) and np.array_equal(s2.fX[: len(snap.fX)], snap.fX), "restored evaluations were changed")
        done = [q.value for q in second.fevals if q.is_completed]
        require(len(done) == cfg["max_evals"] and best is not None and best.value == min(done), "the controller does not return the best of all evaluations")
        require(load(fname).num_evals == cfg["max_evals"], "the checkpoint is not updated by the resumed run")


@case("C18", n=10)
def missing(ctx):
    r = ctx.rng
    cfg = hist.config(ctx, which="SRBF", num_cand=5)
    s, sur, D = hist.build(cfg, ctx)
    with Scratch() as d:
        fname = location(r, d)
        c = SerialController(lambda x: 1.0)
        if r.rand() < 0.5:
            c.strategy = s
        try:
            CheckpointController(c, fname=fname).resume()
        except (IOError, OSError):
            pass
        else:
            raise Violation("resuming without a checkpoint is not an error")
        require(s.num_evals == 0, "evaluations were started")
