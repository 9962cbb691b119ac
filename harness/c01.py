from . import hist
from .common import case


def go(ctx, prop, **over):
    h = hist.History(ctx, hist.config(ctx, **over), checks=(prop,))
    h.run(ctx.rng.randint(5, 120))
    h.to_the_end()
    return h


@case("C01", n=260)
def histories(ctx):
    go(ctx, "C01")


@case("C01", n=40)
def random_strategy(ctx):
    go(ctx, "C01", which="Random")


@case("C01", n=60)
def no_failures(ctx):
    go(ctx, "C01", p_reject=0.0, p_fail=0.0)


@case("C01", n=30)
def no_restarts(ctx):
    go(ctx, "C01", use_restarts=False, values=2, max_evals=150)


@case("C01", n=8, cpu=120)
def controllers(ctx):
    """The library's own controllers: serial and threaded, with refusals when no worker is free."""
    from poap.controller import BasicWorkerThread, SerialController, ThreadController
    import numpy as np
    from .common import require
    cfg = hist.config(ctx, which=str(ctx.rng.choice(["SRBF", "DYCORS", "SOP", "Random"])), use_restarts=True)
    cfg["max_evals"] = cfg["num_pts"] + 30
    s, sur, D = hist.build(cfg, ctx)
    n = [0]

    def f(x):
        n[0] += 1
        return float(np.sum(x ** 2))
    serial = ctx.rng.rand() < 0.5
    c = SerialController(f) if serial else ThreadController()
    c.strategy = s
    if not serial:
        for _ in range(3):
            c.launch_worker(BasicWorkerThread(c, f), daemon=True)
    c.run()
    require(n[0] == cfg["max_evals"], "%d evaluations with a budget of %d" % (n[0], cfg["max_evals"]))
