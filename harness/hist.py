"""Random histories of controller events for the strategies, judged against ghost bookkeeping."""
import sys
from collections import Counter

import dill
import numpy as np
from poap.strategy import EvalRecord
from pySOT.strategy import DYCORSStrategy, EIStrategy, LCBStrategy, RandomStrategy, SOPStrategy, SRBFStrategy
from . import gen
from .common import Inconclusive, Violation, attr, require

CLS = {"SRBF": SRBFStrategy, "DYCORS": DYCORSStrategy, "EI": EIStrategy, "LCB": LCBStrategy, "SOP": SOPStrategy, "Random": RandomStrategy}
MOD = {"EI": "pySOT.strategy.ei_strategy", "LCB": "pySOT.strategy.lcb_strategy"}


def key(x):
    return tuple(np.asarray(x, float).ravel())


def config(ctx, which=None, dim=None, **over):
    r = ctx.rng
    c = {}
    c["which"] = which or str(r.choice(["SRBF", "SRBF", "DYCORS", "DYCORS", "EI", "LCB", "SOP", "SOP"]))
    d = dim or int(r.choice([1, 2, 2, 3, 4, 6]))
    m = 0 if r.rand() < 0.5 else r.randint(0, d) if r.rand() < 0.85 else d
    c["prob"] = gen.problem(r, dim=d, ints=m)
    c["allint"] = m == d
    c["num_pts"] = int(r.choice([d + 1, 2 * (d + 1), max(3, d)]))
    c["num_pts"] = max(2, c["num_pts"])
    c["max_evals"] = c["num_pts"] + int(r.choice([0, 1, 2, 5, 10, 25, 60]))
    c["asynchronous"] = bool(r.rand() < 0.5)
    c["batch_size"] = None if c["asynchronous"] and r.rand() < 0.7 else int(r.randint(1, 5))
    c["use_restarts"] = bool(r.rand() < 0.7)
    c["extra"] = None
    if r.rand() < 0.35:
        n = r.randint(1, 5)
        x = gen.points(r, c["prob"], n)
        v = None if r.rand() < 0.25 else r.randn(n, 1)
        if v is not None:
            for i in range(n):
                u = r.rand()
                if u < 0.2:
                    v[i] = np.nan
                elif u < 0.35:
                    v[i] = [np.inf, -np.inf][r.randint(2)]
        c["extra"] = (x, v)
    c["ncenters"] = int(r.choice([4, 4, 5, 7]))
    if c["which"] == "SOP" and c["batch_size"]:
        c["batch_size"] = min(c["batch_size"], c["ncenters"])
    c["weights"] = None if r.rand() < 0.5 else [float(v) for v in r.choice([0.0, 0.2, 0.5, 0.9, 1.0], size=r.randint(1, 6))]
    c["num_cand"] = int(r.choice([8, 20, 40]))
    c["workers"] = int(r.choice([1, 2, 4, 8]))
    c["values"] = int(r.randint(6))
    # probabilities of refusing a proposal, failing, killing; which outstanding evaluation finishes first
    q = r.randint(4)
    c["p_reject"], c["p_fail"] = [(0.0, 0.0), (0.15, 0.0), (0.0, 0.15), (0.12, 0.12)][q]
    c["order"] = str(r.choice(["fifo", "lifo", "random"]))
    c["eager"] = float(r.choice([0.3, 0.6, 0.9]))
    c["stub"] = r.rand() < 0.97  # replace the inner optimizer of EI/LCB
    c["p_none"] = float(r.choice([0.0, 0.1, 0.3]))
    c.update(over)
    if c["which"] == "SOP" and c["batch_size"]:
        c["batch_size"] = min(c["batch_size"], c["ncenters"])
    if not c["asynchronous"] and c["batch_size"] is None:
        c["batch_size"] = 2
    # Precondition documented in propose_action: the adaptive phase starts with enough completed points of the design.
    # When an idle worker asks, at most workers - 1 points of the design are outstanding.
    c["workers"] = max(1, min(c["workers"], c["num_pts"] + 1 - (2 if c["which"] == "SOP" else 1)))
    if c["which"] == "SOP":  # documented: at least as many centers as workers
        c["workers"] = min(c["workers"], c["ncenters"])
    if c["which"] == "SOP" and c["allint"]:  # the points must not all coincide
        c["prob"].ub = c["prob"].lb + np.maximum(c["prob"].ub - c["prob"].lb, 40.0)
    return c


def build(c, ctx):
    p = c["prob"]
    r = ctx.rng
    w = c["which"]
    if w == "Random":
        return RandomStrategy(c["max_evals"], p), None, None
    s = gen.surrogate(p, gp=w in ("EI", "LCB"), k=float(r.rand()))
    D = c.get("design") or gen.Design(np.random.RandomState(ctx.seed % 100003), p, c["num_pts"])
    kw = dict(max_evals=c["max_evals"], opt_prob=p, exp_design=D, surrogate=s, asynchronous=c["asynchronous"], batch_size=c["batch_size"], use_restarts=c["use_restarts"])
    if c["extra"] is not None:
        kw["extra_points"], kw["extra_vals"] = c["extra"]
    if w in ("SRBF", "DYCORS"):
        kw.update(weights=c["weights"], num_cand=c["num_cand"])
    if w == "SOP":
        kw.update(ncenters=c["ncenters"], num_cand=c["num_cand"])
    return CLS[w](**kw), s, D


class Out:
    """One outstanding evaluation."""

    def __init__(self, x, init, run, n, phase):
        self.x, self.init, self.run, self.n, self.phase = x, init, run, n, phase
        self.rec = None


class History:
    def __init__(self, ctx, cfg, checks=("C01", "C02", "C03", "C04", "C05")):
        self.ctx, self.c, self.checks = ctx, cfg, set(checks)
        self.r = ctx.rng
        self.p = cfg["prob"]
        ctx.note(config={k: v for k, v in cfg.items() if k not in ("prob", "design")}, lb=self.p.lb, ub=self.p.ub, int_var=self.p.int_var)
        self.out, self.done, self.n_started = [], [], 0
        self.reached = self.stopped = self.refused = False
        self.runs = 0
        self.saved = []
        self.patch()
        try:
            if cfg["extra"] is not None:
                self.x0 = cfg["extra"][0].copy()
                self.v0 = None if cfg["extra"][1] is None else cfg["extra"][1].copy()
            self.s, self.sur, self.D = build(cfg, ctx)
        except BaseException:
            self.unpatch()
            raise
        self.base = cfg["which"] != "Random"
        self.known, self.queue = [], Counter()
        if self.base:
            self.designs = len(self.D.given)
            require(self.designs == 1, "constructing the strategy generated %d designs" % self.designs)
            for x in self.D.given[0]:
                self.queue[key(x)] += 1
            if cfg["extra"] is not None:
                x, v = cfg["extra"]
                for i in range(len(x)):
                    if v is not None and np.all(np.isfinite(v[i])):
                        self.known.append((x[i].copy(), float(v[i, 0])))
                    else:
                        self.queue[key(x[i])] += 1
            self.n_reset = self.resets()
        self.observers = []

    def resets(self):
        return sum(1 for c in self.sur.calls if c[0] == "reset")

    def n_out(self):
        return len(self.out)

    # -- the inner optimizer of the Bayesian strategies is replaced by a random one with the same contract
    def patch(self):
        w = self.c["which"]
        self.undo = []
        if w in MOD and self.c["stub"]:
            m = sys.modules[MOD[w]]
            name = {"EI": "ei_ga", "LCB": "lcb_ga"}[w]
            if hasattr(m, name):
                old = getattr(m, name)

                def stub(*a, **k):
                    num, p = k.get("num_pts", a[0] if a else 1), self.p
                    self.last_ga = k
                    if self.r.rand() < self.c["p_none"]:
                        return None
                    return gen.points(self.r, p, num)
                setattr(m, name, stub)
                self.undo.append(lambda: setattr(m, name, old))

    def unpatch(self):
        for u in self.undo:
            u()
        self.undo = []

    def value(self, x):
        k, r = self.c["values"], self.r
        n = len(self.done)
        if k == 0:
            return float(gen.hashed(x)[0])
        if k == 1:
            return float(10.0 - 0.9 * n)  # always improves
        if k == 2:
            return 3.0  # never improves
        if k == 3:
            return float(r.randn() * 10)
        if k == 4:
            return float(np.sum(((x - self.p.lb) / (self.p.ub - self.p.lb) - 0.3) ** 2))
        return float(r.randint(-2, 3))

    # -- state as the properties describe it, compared after every event
    def judge(self):
        s, ck = self.s, self.checks
        if "C01" in ck:
            require(len(self.done) + len(self.known) * 0 + len(self.out) <= self.c["max_evals"], "%d completed and %d outstanding evaluations exceed the budget %d" % (len(self.done), len(self.out), self.c["max_evals"]))
        if len(self.done) + len(self.out) >= self.c["max_evals"]:
            self.reached = True
        if not self.base:
            return
        if "C02" in ck:
            n = len(self.known) + len(self.done)
            want = np.array([x for x, _ in self.known] + [x for x, _ in self.done]).reshape(n, self.p.dim)
            wf = np.array([f for _, f in self.known] + [f for _, f in self.done]).reshape(n, 1)
            require(np.shape(s.X) == want.shape and np.array_equal(s.X, want), "the recorded points are not the completed ones in order of completion", got=s.X, want=want)
            require(np.shape(s.fX) == wf.shape and np.array_equal(s.fX, wf), "the recorded values are not those of the completed evaluations in order", got=s.fX, want=wf)
            require(s.num_evals == len(self.done), "num_evals is %r after %d completed evaluations" % (s.num_evals, len(self.done)))
            require(s.pending_evals == len(self.out), "pending_evals is %r with %d outstanding evaluations" % (s.pending_evals, len(self.out)))
            got = Counter(key(x) for x in s.Xpend)
            require(got == Counter(key(o.x) for o in self.out), "the pending points are not the outstanding ones", got=s.Xpend, want=[o.x for o in self.out])
            if self.c["extra"] is not None:
                require(np.array_equal(self.c["extra"][0], self.x0), "the user's extra points were modified")
        if "C03" in ck:
            data = [(x, f) for (x, f), run in zip(self.done, self.done_run) if run == self.runs] if self.done else []
            if self.runs == 0:
                data = self.known + data
            S = np.array([x for x, _ in data]).reshape(len(data), self.p.dim)
            F = np.array([f for _, f in data]).reshape(len(data), 1)
            require(np.shape(self.sur.X) == S.shape and np.array_equal(self.sur.X, S) and np.array_equal(self.sur.fX, F), "the surrogate does not hold the evaluations of the current run (%d points, expected %d)" % (len(self.sur.X), len(S)), got=self.sur.X, want=S, values=self.sur.fX)
            adds = self.sur.calls[max([i for i, c in enumerate(self.sur.calls) if c[0] == "reset"] + [-1]) + 1:]
            require(sum(len(np.atleast_2d(c[1])) for c in adds) == len(S), "points were given to the surrogate more than once")

    done_run = ()

    def queue_snapshot(self):
        if "C02" in self.checks and self.base:
            return Counter(key(x) for x in attr(self.s, "batch_queue"))

    def check_queue(self, before, delta, what):
        if before is None:
            return
        after = self.queue_snapshot()
        want = Counter(before)
        for k in delta:
            want[k] += 1
        require(+after == +want, "%s: the queue should %s" % (what, "gain the point" if delta else "stay unchanged"), gained=[k for k in (after - before)], lost=[k for k in (before - after)])

    # -- events
    def ask(self, accept=True):
        """Ask for an action; -> 'terminate' | 'none' | Out"""
        s = self.s
        conv = bool(getattr(s, "converged", False))
        term = bool(getattr(s, "terminate", False)) if self.base else False
        reached_now = len(self.done) + len(self.out) >= self.c["max_evals"]
        st = s.propose_action()
        restarted = False
        if self.base and len(self.D.given) > self.designs:
            require(len(self.D.given) == self.designs + 1, "more than one design generated at once")
            self.designs += 1
            restarted = True
            self.on_restart(conv, st)
        if st is None:
            self.ctx.event("ask", "nothing")
            if "C04" in self.checks:
                require(len(self.out) > 0, "nothing is proposed although nothing is outstanding")
                if self.base and self.c["asynchronous"]:
                    require(term or bool(getattr(s, "terminate", False)), "an asynchronous strategy that has not terminated proposes nothing")
                    if not self.reached and not (self.c["which"] != "Random" and not self.c["use_restarts"] and bool(getattr(s, "converged", False))):
                        raise Violation("an asynchronous strategy stops proposing before the budget is used up")
            self.judge()
            return "none"
        if st.action == "terminate":
            self.ctx.event("ask", "terminate")
            if "C01" in self.checks:
                require(not self.out, "termination proposed while %d evaluations are outstanding" % len(self.out))
                convstop = self.base and bool(getattr(s, "converged", False)) and not self.c["use_restarts"]
                require(self.reached or convstop, "termination proposed after %d of %d evaluations although the budget was never reached and the run has not converged with restarts disabled" % (len(self.done), self.c["max_evals"]))
                if not self.refused and not convstop:
                    require(len(self.done) == self.c["max_evals"], "terminated after %d evaluations with a budget of %d although nothing was refused or failed" % (len(self.done), self.c["max_evals"]))
            if "C04" in self.checks and self.base and conv and not self.c["use_restarts"]:
                pass
            if st.action == "terminate":
                st.accept()
            self.stopped = True
            self.judge()
            return "terminate"
        require(st.action == "eval", "unknown action %r" % st.action)
        if "C01" in self.checks:
            require(not reached_now, "an evaluation is proposed although %d completed and %d outstanding use up the budget %d" % (len(self.done), len(self.out), self.c["max_evals"]))
        if "C04" in self.checks and self.base and conv and not reached_now:
            if self.c["use_restarts"]:
                require(restarted, "an evaluation is proposed after convergence without starting a new run")
            else:
                require(False, "an evaluation is proposed after convergence although restarts are disabled")
        x = np.array(st.args[0], copy=True).ravel()
        if "C05" in self.checks:
            gen.feasible(self.p, x, "proposed point", require)
        k = key(x)
        init = self.base and self.queue[k] > 0
        if init:
            self.queue[k] -= 1
        o = Out(x, init, self.runs, self.n_started, getattr(s, "phase", 1))
        self.out.append(o)
        self.ctx.event("ask", "accept" if accept else "reject", list(x), "init" if o.phase == 1 else "adapt")
        self.judge()
        before = self.queue_snapshot()
        if accept:
            o.rec = EvalRecord(st.args, extra_args=None, status="pending")
            st.record = o.rec
            for f in self.observers:
                f("before_accept", o)
            st.accept()
            o.run = self.runs
            self.n_started += 1
            o.n = self.n_started
            self.check_queue(before, [], "accepted proposal")
            for f in self.observers:
                f("accept", o)
        else:
            self.refused = True
            self.out.remove(o)
            st.reject()
            back = o.phase == 1 or (not self.c["asynchronous"])
            if self.base:
                if not init or back:
                    self.check_queue(before, [k] if back else [], "refused proposal of the %s" % ("initial design" if o.phase == 1 else "adaptive phase"))
                if init and back:
                    self.queue[k] += 1
            for f in self.observers:
                f("reject", o)
        self.judge()
        return o

    def on_restart(self, conv, st):
        s = self.s
        self.runs += 1
        self.ctx.event("restart", self.runs)
        for x in self.D.given[-1]:
            self.queue[key(x)] += 1
        if "C04" in self.checks:
            require(self.c["use_restarts"], "a new run is started although restarts are disabled")
            require(bool(conv) or self.c["which"] in ("EI", "LCB"), "a new run is started without convergence")
            require(self.c["asynchronous"] or not self.out, "a synchronous strategy restarts while %d evaluations are outstanding" % len(self.out))
            require(st is not None and st.action == "eval", "no evaluation is proposed after the restart")
            require(key(st.args[0]) in {key(x) for x in self.D.given[-1]}, "the first point after the restart is not one of the new design")
            require(len(self.sur.X) == 0 and self.sur.num_pts == 0, "the surrogate is not emptied at the restart")
            require(getattr(s, "converged", False) is False, "still converged after the restart")
            for name in ("_X", "_fX"):
                if hasattr(s, name):
                    require(len(getattr(s, name)) == 0, "data of the previous run in %s after the restart" % name)
            q = Counter(key(x) for x in getattr(s, "batch_queue", []))
            if hasattr(s, "batch_queue"):
                want = Counter(key(x) for x in self.D.given[-1])
                want[key(st.args[0])] -= 1
                require(not (+want - q), "points of the new design are missing from the queue")
            if self.c["which"] in ("SRBF", "DYCORS"):
                for name, v in (("sampling_radius", 0.2), ("status", 0), ("failcount", 0), ("_fbest", np.inf)):
                    if hasattr(s, name):
                        require(getattr(s, name) == v, "%s is %r after the restart" % (name, getattr(s, name)))
        for f in self.observers:
            f("restart", None)

    def pick(self):
        started = [o for o in self.out if o.rec is not None]
        if not started:
            return None
        return started[0] if self.c["order"] == "fifo" else started[-1] if self.c["order"] == "lifo" else started[self.r.randint(len(started))]

    def finish(self, o, how):
        before = self.queue_snapshot()
        k = key(o.x)
        self.out.remove(o)
        if how == "complete":
            v = self.value(o.x)
            self.done.append((o.x.copy(), v))
            self.done_run = list(self.done_run) + [o.run]
            self.ctx.event("complete", list(o.x), v)
            for f in self.observers:
                f("before_complete", (o, v))
            if self.r.rand() < 0.15:
                v = np.float64(v)
            o.rec.complete(v)
            self.check_queue(before, [], "completed evaluation")
            for f in self.observers:
                f("complete", (o, v))
        else:
            self.refused = True
            self.ctx.event(how, list(o.x))
            for f in self.observers:
                f("before_abort", o)
            (o.rec.kill if how == "kill" else o.rec.cancel)()
            if self.base:
                back = o.phase == 1
                self.check_queue(before, [k] if back else [], "%s evaluation" % how)
                if o.init and back:
                    self.queue[k] += 1
            for f in self.observers:
                f("abort", o)
        self.judge()

    def step(self):
        r, c = self.r, self.c
        if r.rand() < 0.05 and self.out:
            o = self.pick()
            if o is not None and o.rec.is_pending:
                o.rec.running()
                self.ctx.event("running")
                self.judge()
        if not self.out or (len(self.out) < c["workers"] and r.rand() < c["eager"]):
            got = self.ask(accept=not (r.rand() < c["p_reject"]))
            if got == "none":
                o = self.pick()
                if o is not None:
                    self.finish(o, "complete" if r.rand() >= c["p_fail"] else ["kill", "cancel"][r.randint(2)])
        else:
            o = self.pick()
            self.finish(o, "complete" if r.rand() >= c["p_fail"] else ["kill", "cancel"][r.randint(2)])

    def run(self, steps):
        try:
            self.judge()
            for _ in range(steps):
                if self.stopped:
                    break
                self.step()
        finally:
            self.unpatch()

    def to_the_end(self, limit=4000):
        """Keep going until termination."""
        self.patch()
        try:
            k = 0
            while not self.stopped:
                self.step()
                k += 1
                if k > limit:
                    if self.c["p_reject"] or self.c["p_fail"]:
                        self.c["p_reject"] = self.c["p_fail"] = 0.0
                        k = 0
                        continue
                    raise Violation("the run does not end: %d of %d evaluations after %d further events" % (len(self.done), self.c["max_evals"], limit))
        finally:
            self.unpatch()
