"""C12 step size and weights of the stochastic searches, against a model of the published rules."""
import math

import pySOT.strategy.dycors_strategy as ds
import pySOT.strategy.srbf_strategy as ss
from . import hist
from .common import Inconclusive, attr, case, require


class Model:
    def __init__(self, cfg):
        d, p = float(cfg["prob"].dim), float(cfg["batch_size"] or 1)
        self.failtol = int(max(math.ceil(d), 4)) if cfg["asynchronous"] else int(max(math.ceil(d / p), math.ceil(4 / p)))
        self.clock = 0  # accepted evaluations so far; changes happen between them
        self.reset()

    def reset(self):
        self.radius, self.streak, self.fails, self.best, self.conv = 0.2, 0, 0, math.inf, False
        self.boundary, self.batch = self.clock, []
        self.changes = 0

    def update(self):
        v, self.batch = min(self.batch), []
        if math.isinf(self.best) or v < self.best - 1e-3 * abs(self.best):
            self.best, self.streak, self.fails = v, max(1, self.streak + 1), 0
        else:
            self.streak, self.fails = min(-1, self.streak - 1), self.fails + 1
        if self.streak <= -self.failtol:
            self.radius, self.streak, self.boundary = self.radius / 2, 0, self.clock
            self.changes += 1
        elif self.streak >= 3:
            self.radius, self.streak, self.boundary = min(2 * self.radius, 0.2), 0, self.clock
            self.changes += 1
        if self.fails >= 4 * self.failtol or self.radius <= 0.2 * 0.5 ** 6:
            self.conv = True


def attach(h, m):
    s = h.s

    def batch_end():
        if not h.c["asynchronous"] and not h.out and len(attr(s, "batch_queue")) == 0 and m.batch:
            m.update()

    def obs(kind, o):
        if kind == "accept":
            m.clock += 1
            o.stamp = m.clock
        elif kind == "restart":
            m.reset()
        elif kind == "complete":
            o, v = o
            if o.phase == 2 and o.stamp > m.boundary and o.run == h.runs:
                m.batch.append(v)
                if h.c["asynchronous"]:
                    m.update()
            if o.phase == 2:
                batch_end()
        elif kind == "abort" and o.phase == 2:
            batch_end()
        if kind in ("complete", "abort", "restart", "accept"):
            r = attr(s, "sampling_radius")
            require(abs(r - m.radius) <= 1e-12, "the sampling radius is %r, the rules give %r" % (r, m.radius), failtol=m.failtol)
            require(bool(s.converged) == m.conv, "converged is %r, the rules give %r (consecutive failures %d, radius %r)" % (s.converged, m.conv, m.fails, m.radius))
    h.observers.append(obs)


@case("C12", n=260)
def step_size(ctx):
    r = ctx.rng
    cfg = hist.config(ctx, which=["SRBF", "DYCORS"][r.randint(2)], num_cand=6)
    cfg["max_evals"] = cfg["num_pts"] + int(r.choice([10, 40, 120]))
    if r.rand() < 0.5:
        cfg["dim" if False else "values"] = int(r.choice([1, 2, 5]))
    cfg["use_restarts"] = bool(r.rand() < 0.85)
    h = hist.History(ctx, cfg, checks=())
    m = Model(cfg)
    attach(h, m)
    h.run(40)
    h.to_the_end()
    if not m.changes and not h.runs:
        ctx.nontrivial = 0


@case("C12", n=80)
def radius_and_weights_used(ctx):
    """What the search really passes on: the current radius and the weights in cyclic order."""
    r = ctx.rng
    which = ["SRBF", "DYCORS"][r.randint(2)]
    mod, name = (ss, "candidate_srbf") if which == "SRBF" else (ds, "candidate_dycors")
    if not hasattr(mod, name):
        raise Inconclusive("%s is not looked up in the strategy module" % name)
    cfg = hist.config(ctx, which=which, num_cand=6)
    cfg["max_evals"] = cfg["num_pts"] + int(r.choice([10, 40, 80]))
    want = [0.3, 0.5, 0.8, 0.95] if cfg["weights"] is None else list(cfg["weights"])
    real, used, hh = getattr(mod, name), [], [None]

    def spy(*a, **k):
        if hh[0] is not None and "weights" in k and "sampling_radius" in k:
            w = list(k["weights"])
            n = k.get("num_pts", a[0] if a else None)
            require(len(w) == n, "%d weights for %s points" % (len(w), n))
            used.extend(float(q) for q in w)
            require(abs(k["sampling_radius"] - m.radius) <= 1e-12, "the search uses the radius %r instead of %r" % (k["sampling_radius"], m.radius))
            require(used == [want[i % len(want)] for i in range(len(used))], "weights not in cyclic order", used=used, weights=want)
        return real(*a, **k)
    setattr(mod, name, spy)
    try:
        h = hist.History(ctx, cfg, checks=())
        hh[0] = h
        m = Model(cfg)
        attach(h, m)
        h.run(60)
        h.to_the_end()
    finally:
        setattr(mod, name, real)
    if not used:
        ctx.nontrivial = 0
