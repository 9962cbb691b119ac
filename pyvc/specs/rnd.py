"""The random strategy: the constructor and propose_action.  POAP's RetryStrategy enters by its contract: what is handed to rput is
proposed again until it is evaluated, get hands out the first of the queue, num_eval_outstanding counts what is queued or running."""
from .common import *
from .cand import feasible, round_contract

RS = "pySOT.strategy.random_strategy:RandomStrategy"
RETRY = "poap.strategy:RetryStrategy"


class Rnd(object):
    def __init__(self, I, prop):
        E = self.E = I.E
        self.I, self.prop = I, prop
        d = self.d = sym_dim(E)
        p = self.p = Obj(I.get("pySOT.optimization_problems:OptimizationProblem"))
        lb, ub = box(E, d)
        p.attrs.update(dim=d, lb=lb, ub=ub, int_var=int_vars(E, d, lb=lb, ub=ub, distinct=True), cont_var=Opaque("cont_var"))
        self.max = E.Int("max_evals")
        E.assume(self.max >= 1)
        E.touch(self.max)
        I.contracts["pySOT.utils:check_opt_prob"] = lambda I, f, a: None          # C20
        I.contracts["pySOT.utils:round_vars"] = self.rounding(round_contract(I, p, []))
        self.retry = None
        I.contracts[RETRY + ".__init__"] = self.new_retry
        self.handed = []

    def rounding(self, h):
        """The argument is a view of the point: its base may not be relied on afterwards either."""
        def g(I, func, a):
            E, x = I.E, a["x"]
            if x.dims is not None:
                c = x.cell
                scrap = E.Func("base_scrap", *[z3.IntSort() for _ in c.shape], z3.RealSort())
                y = A.new(x.shape, x.fn(), "f")
                A.write(c, lambda ix: scrap(*[integer(k) for k in ix]), None)
                a = dict(a, x=y)
            return h(I, func, a)
        return g

    def pr(self, tags, name, goal):
        if self.prop in tags.split():
            self.E.prove(name, goal)

    def point_ok(self, q, tags="C05"):
        E = self.E
        ok = isinstance(q, Obj) and q.attrs.get("action") == "eval"
        self.pr("C01 C04 C05", "evaluations are queued, nothing else", ok)
        if not ok:
            return
        a = q.attrs["args"]
        self.pr("C02 C05", "the proposal has one argument, the point", len(a) == 1 and isinstance(a[0], Arr) and len(a[0].shape) == 1)
        if self.prop == "C05":
            j = sk_int(E, "j", 0, self.d)
            E.prove("the point has the dimension of the problem", eq(a[0].shape[0], self.d))
            E.prove("the point is feasible", feasible(self.p, a[0].at(j), j))

    def new_retry(self, I, f, a):
        o = a["self"]
        if self.retry is not None:
            raise Unsupported("second retry strategy")
        self.retry = o

        def rput(q):
            self.point_ok(q)
            o.attrs["num_eval_outstanding"] = simp(add(o.attrs["num_eval_outstanding"], 1))
            o.attrs["queued"] = simp(add(o.attrs["queued"], 1))

        def get():
            self.E.prove("the queue has a proposal when one is taken", gt(o.attrs["queued"], 0))
            o.attrs["queued"] = simp(sub(o.attrs["queued"], 1))
            q = Opaque("queued proposal")
            self.handed.append(q)
            return q
        o.attrs.update(num_eval_outstanding=0, queued=0, rput=Builtin("rput", rput), get=Builtin("get", get), empty=Builtin("empty", lambda: eq(o.attrs["queued"], 0)))
        return None

    def build(self):
        I = self.I

        def inv(ctx):
            o = self.retry
            return [("one evaluation is queued per iteration", b_and(eq(o.attrs["queued"], ctx.t), eq(o.attrs["num_eval_outstanding"], ctx.t)))]

        def mod(ctx):
            o = self.retry
            o.attrs["queued"] = o.attrs["num_eval_outstanding"] = ctx.t
            ctx.may_change(o)
        I.loopspecs = {(RS + ".__init__", 0): LoopSpec(inv, mod)}
        self.o = I.call(I.get(RS), [self.max, self.p])
        return self.o


def construct(I, prop):
    W = Rnd(I, prop)
    E = W.E
    W.build()
    E.cover("the strategy is built")
    r = W.retry
    W.pr("C01 C04 C05", "the evaluations are handed to a retry strategy", r is not None and W.o.attrs.get("retry") is r)
    W.pr("C01 C04", "exactly the budget is queued", b_and(eq(r.attrs["queued"], W.max), eq(r.attrs["num_eval_outstanding"], W.max)))


def propose(I, prop):
    W = Rnd(I, prop)
    E = W.E
    o = W.build()
    r = W.retry
    if r is None or o.attrs.get("retry") is not r:
        raise Unsupported("retry strategy")
    q, out = E.Int("queued"), E.Int("outstanding")
    E.assume(b_and(q >= 0, q <= out))              # what is queued is outstanding
    r.attrs.update(queued=q, num_eval_outstanding=out)
    a = I.call(I.getattr(o, "propose_action"), [])
    W.pr("C01 C02", "at most one evaluation is taken from the queue", len(W.handed) <= 1)
    if W.handed:
        W.pr("C01 C02 C04 C05", "what is taken from the queue is proposed", a is W.handed[0])
        E.cover("an evaluation is proposed")
        return
    W.pr("C04", "an evaluation is proposed while there is one", eq(q, 0))
    W.pr("C01 C02 C05", "nothing is proposed that was not queued", a is None or isinstance(a, Obj) and a.attrs["action"] == "terminate")
    if a is None:
        E.cover("no action")
        W.pr("C04", "the run ends if nothing is outstanding", gt(out, 0))
        return
    E.cover("termination")
    W.pr("C01 C04", "the run ends only if nothing is outstanding", eq(out, 0))


def rnd_units(prop):
    return [unit("Random: initial state", lambda I: construct(I, prop)), unit("Random: propose_action", lambda I: propose(I, prop))]
