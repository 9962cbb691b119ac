"""Event contracts of the surrogate strategies (shared by C01, C02, C03, C04, C05, C18).

The strategy object is created by its real constructor, its attributes are then replaced by arbitrary values satisfying the class
invariant `inv`, and one evaluation is followed through its life: propose_action, accept or reject (real code of POAP's Proposal),
and, after an arbitrary further history (the state is arbitrary again, with the point still pending), complete, kill, cancel or a
status change (real code of POAP's EvalRecord).  After every event the invariant is proved again.  The callees generate_evals,
generate_points and the surrogate are replaced by their contracts."""
from .common import *
from .cand import feasible

B = "pySOT.strategy.surrogate_strategy:SurrogateBaseStrategy"
CLS = {"SRBF": "pySOT.strategy.srbf_strategy:SRBFStrategy", "DYCORS": "pySOT.strategy.dycors_strategy:DYCORSStrategy",
       "EI": "pySOT.strategy.ei_strategy:EIStrategy", "LCB": "pySOT.strategy.lcb_strategy:LCBStrategy",
       "SOP": "pySOT.strategy.sop_strategy:SOPStrategy"}
COMMON = """asynchronous batch_size opt_prob exp_design surrogate use_restarts terminate converged proposal_counter accepted_count rejected_count
extra_points extra_vals batch_queue init_pending phase num_evals max_evals pending_evals X fX Xpend fevals _X _fX ev_last ev_next ev_restart""".split()
OWN = {"SRBF": "dtol weights next_weight num_cand sampling_radius_min sampling_radius_max failtol succtol maxfailtol record_queue status failcount sampling_radius _fbest".split(),
       "EI": ["dtol", "ei_tol"], "LCB": ["dtol", "lcb_tol", "kappa"]}
OWN["SOP"] = "dtol num_cand sampling_radius record_queue num_exp ncenters evals centers F_ranked d_thresh".split()
OWN["DYCORS"] = OWN["SRBF"] + ["num_exp"]


def is_none(v):
    return v is None


def frozen(a):
    r = A.new(a.shape, a.fn(), a.dtype, a.rowfn() if len(a.shape) == 2 else None)
    r.cell.mset = getattr(a.cell, "mset", None) if a.dims is None else None
    return r


def qlen(l):
    return len(l.items) if isinstance(l, PList) else l.n


def qat(l, i):
    if isinstance(l, PList):
        its = list(l.items)
        if not its:
            return None
        v = its[-1]
        d = v.shape[0]
        return A.new((d,), lambda idx: _sel(its, i, idx), "f")
    return l.get(i)


def _sel(its, i, idx):
    r = its[-1].at(*idx)
    for k in range(len(its) - 2, -1, -1):
        r = ite(eq(i, k), its[k].at(*idx), r)
    return r


class World(object):
    def __init__(self, I, which, prop, batch=None, asynchronous=None):
        self.I, self.E, self.which, self.prop = I, I.E, which, prop
        self.out = self.done = 0    # ghost: outstanding and completed evaluations of this strategy
        E = I.E
        self.d = d = sym_dim(E)
        self.h = {}
        self.contracts()
        p = Obj(I.get("pySOT.optimization_problems:OptimizationProblem"))
        lb, ub = box(E, d)
        iv = int_vars(E, d, lb=lb, ub=ub, distinct=True)
        p.attrs.update(dim=d, lb=lb, ub=ub, int_var=iv, cont_var=Opaque("cont_var"))
        self.p = p
        self.num = E.Int("num_exp")
        E.assume(self.num >= 1)
        E.touch(self.num)
        self.designs = []
        des = Obj(I.get("pySOT.experimental_design:ExperimentalDesign"))
        des.attrs.update(dim=d, num_pts=self.num, generate_points=Builtin("generate_points", self.generate_points))
        self.des = des
        s = Obj(I.get("pySOT.surrogate:GPRegressor" if which in ("EI", "LCB") else "pySOT.surrogate:RBFInterpolant"))
        s.attrs.update(reset=Builtin("reset", self.s_reset), add_points=Builtin("add_points", self.s_add))
        self.s = s
        self.s_set(A.new((0, d), lambda i: 0.0), A.new((0, 1), lambda i: 0.0))
        self.nreset = 0
        self.max = E.Int("max_evals")
        self.asyn = E.Bool("asynchronous") if asynchronous is None else asynchronous
        self.restarts = E.Bool("use_restarts")
        self.batch = E.Int("batch_size")
        E.assume(self.batch >= 1)
        E.assume(ge(self.max, self.num))
        self.kw = dict(max_evals=self.max, opt_prob=p, exp_design=des, surrogate=s, asynchronous=self.asyn, batch_size=self.batch, use_restarts=self.restarts)
        self.hist = False           # history variable: the budget was reached, or it converged with restarts disabled
        self.ekn = 0
        m = E.Int("n_extra")
        E.assume(m >= 0)
        self.extra = (mat(E, m, d, "extra"), mat(E, m, 1, "extra_vals"))

    # ------------------------------------------------------ callee contracts
    def contracts(self):
        I = self.I
        I.contracts["pySOT.utils:check_opt_prob"] = lambda I, f, a: None          # C20
        I.contracts[CLS[self.which] + ".check_input"] = lambda I, f, a: None      # C20
        I.contracts[B + ".log_completion"] = lambda I, f, a: None                 # writes a log line only
        for c in ("SRBF", "DYCORS", "EI", "LCB"):
            I.contracts[CLS[c] + ".generate_evals"] = self.generate
            I.contracts[CLS[c] + ".check_input"] = lambda I, f, a: None
        I.contracts[B + ".check_input"] = lambda I, f, a: None
        if self.which == "SOP":        # proved in C11: neither changes anything but the records and centers
            I.contracts[CLS["SOP"] + ".generate_evals"] = self.generate
            I.contracts[CLS["SOP"] + ".adjust_memory"] = self.memory
            I.contracts[CLS["SOP"] + ".release_center"] = self.release

    def sop_loops(self):
        """No fact about the centers is needed here (C11 proves which one is told or released)."""
        q = CLS["SOP"] + "."
        free = lambda: LoopSpec(lambda ctx: [("no fact is needed", True)], lambda ctx: None)
        return {(q + "on_adapt_completed", 0): free(), (q + "resume", 0): free()}

    def heaps(self):
        """Any list of evaluated points and any list of centers."""
        from ..heap import Heap
        from .c11 import MOD, REC, CEN, ZI
        E, at = self.E, self.o.attrs
        n, c = E.Int("archived"), E.Int("centers")
        E.assume(b_and(n >= 0, c >= 0))
        f = {"x": E.Func("ex", ZI, Pt), "fx": E.Func("fx", ZI, z3.RealSort()), "_nfail": E.Func("nfail", ZI, ZI), "_ntabu": E.Func("ntabu", ZI, ZI), "_sigma": E.Func("sigma", ZI, z3.RealSort())}
        rv, ri = E.Func("rank", ZI, z3.RealSort()), E.Func("rank_inf", ZI, z3.BoolSort())
        f["rank"] = lambda i: XR(rv(i), ri(i), False)
        at["evals"] = Heap(self.I.get(MOD + "_SopRecord"), n, self.d, REC, f)
        g = {"xc": E.Func("cx", ZI, Pt), "index": E.Func("ci", ZI, ZI), "_new_point": (E.Func("cp_has", ZI, z3.BoolSort()), E.Func("cp", ZI, Pt)),
             "_new_index": (E.Func("cn_has", ZI, z3.BoolSort()), E.Func("cn", ZI, ZI))}
        at["centers"] = Heap(self.I.get(MOD + "_SopCenter"), c, self.d, CEN, g)
        at["F_ranked"] = Opaque("F_ranked")

    def memory(self, I, func, a):
        self.pr("C11", "the memory is adjusted with every completed evaluation recorded", b_and(eq(qlen(self.o.attrs["evals"]), self.o.attrs["num_evals"])))

    def release(self, I, func, a):
        return None

    def generate_points(self, lb=None, ub=None, int_var=None):
        E, d = self.E, self.d
        for nm, v in (("lb", lb), ("ub", ub), ("int_var", int_var)):
            if v is None:
                self.pr("C05", "the design is generated in the domain", False)
            elif self.mine("C05"):
                prove_same(E, "the design is generated in the domain", v, self.p.attrs[nm])
        m = mat(E, self.num, d, "design", row=True)
        E.assume_forall(("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, self.num), rng(j, d)), feasible(self.p, m.at(i, j), j)), "design points are feasible (C06)")
        self.designs.append(frozen(m))
        return m

    def s_set(self, X, F):
        self.s.attrs["SX"], self.s.attrs["SF"] = X, F

    def s_reset(self):
        self.nreset += 1
        self.s_set(A.new((0, self.d), lambda i: 0.0), A.new((0, 1), lambda i: 0.0))

    def s_add(self, xx, fx):
        M = self.I.np
        if not isinstance(xx, Arr):
            raise Unsupported("add_points")
        xx = M.f_numpy__atleast_2d(M.f_numpy__copy(xx))
        if is_scalar(fx):
            fx = A.from_list([fx])
        fx = M.f_numpy__reshape(M.f_numpy__copy(fx), (xx.shape[0], 1))
        self.s_set(M.f_numpy__vstack((self.s.attrs["SX"], xx)), M.f_numpy__vstack((self.s.attrs["SF"], fx)))

    def generate(self, I, func, a):
        """Contract of generate_evals: appends num_pts feasible points to the queue, or (EI, LCB) declares convergence."""
        E, o, n = self.E, a["self"], a["num_pts"]
        self.pr("C04", "generate_evals is asked for a positive number of points", ge(n, 1))
        # documented precondition: the initial design is large enough for the surrogate to be built before the adaptive phase
        E.assume(ge(o.attrs["X"].shape[0], 1))
        self.h["generated"] = n
        if self.which in ("EI", "LCB") and E.choose(2) == 1:
            o.attrs["converged"] = True
            self.h["gave_up"] = True
            return None
        if "next_weight" in o.attrs:
            o.attrs["next_weight"] = E.Int("next_weight")
        q = o.attrs["batch_queue"]
        old_n, old = qlen(q), q
        Q = E.Func("newpt", z3.IntSort(), Pt)
        E.assume_forall(("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, n), rng(j, self.d)), feasible(self.p, coord(Q(i), j), j)), "generated points are feasible")
        if isinstance(q, PList):
            raise Unsupported("concrete queue")
        g0, ms = q.get, q.mset
        q.get = lambda i: A.pt_arr(ite(lt(i, old_n), g0(i).pt, Q(integer(simp(sub(i, old_n))))), self.d) if g0(i).pt is not None else mix(old_n, g0, Q, i, self.d)
        q.n = simp(add(old_n, n))
        fresh_mset(E, q)
        return None

    # ----------------------------------------------------------- the object
    def construct(self, **more):
        kw = dict(self.kw, **more)
        self.o = self.I.call(self.I.get(CLS[self.which]), [], kw)
        if self.which == "SOP":
            self.I.loopspecs = {**(getattr(self.I, 'loopspecs', None) or {}), **self.sop_loops()}
        return self.o

    def havoc(self):
        """Any state that satisfies the class invariant."""
        E, d, o = self.E, self.d, self.o
        known = COMMON + OWN[self.which]
        for a in o.attrs:
            if a not in known:
                raise Unsupported("attribute %s of the strategy is not covered by the class invariant" % a)
        at = o.attrs
        n, n1, k, nq = E.Int("n"), E.Int("n1"), E.Int("k"), E.Int("nq")
        for v in (n, n1, k, nq):
            E.assume(v >= 0)
            E.touch(v)
        X, fX, _X, _fX, P = mat(E, n, d, "X"), mat(E, n, 1, "fX"), mat(E, n1, d, "X1"), mat(E, n1, 1, "f1"), mat(E, k, d, "P", row=True)
        ms = E.Func("mset", Pt, z3.IntSort())
        P.cell.mset = lambda q: ms(q)
        from ..npmodel import mset_axioms
        mset_axioms(P)
        Q = E.Func("queue", z3.IntSort(), Pt)
        mq = E.Func("qset", Pt, z3.IntSort())
        q = SymList(nq, lambda i: A.pt_arr(Q(integer(i)), d), lambda x: mq(x), "pt")
        for a, v in (("X", X), ("fX", fX), ("_X", _X), ("_fX", _fX), ("Xpend", P), ("batch_queue", q)):
            at[a] = v
        for a in ("num_evals", "pending_evals", "ev_last", "ev_next", "ev_restart", "proposal_counter", "accepted_count", "rejected_count", "init_pending"):
            at[a] = E.Int(a)
        at["phase"] = E.Int("phase")
        at["terminate"], at["converged"] = E.Bool("terminate"), E.Bool("converged")
        self.hist = E.Bool("history")
        at["fevals"] = self.records("fevals")
        if self.which == "SOP":
            at["record_queue"] = self.records("record_queue")
            self.heaps()
        elif "record_queue" in at:
            at["record_queue"] = self.rec_queue()
            for a in ("next_weight", "status", "failcount"):
                at[a] = E.Int(a)
            at["sampling_radius"] = E.Real("radius")
            inf = E.Bool("fbest_inf")
            at["_fbest"] = XR(E.Real("fbest"), inf, False)
        ns = E.Int("ns")
        E.assume(ns >= 0)
        E.touch(ns)
        self.s_set(mat(E, ns, d, "S"), mat(E, ns, 1, "SF"))
        if not is_z3(self.ekn):
            self.ekn = E.Int("known_extra")
            E.assume(self.ekn >= 0)
            E.touch(self.ekn)
        self.out, self.done = E.Int("outstanding"), E.Int("completed")
        for tag, lab, g in self.inv():
            if isinstance(g, tuple):
                E.assume_forall(g[0], g[1], lab)
            else:
                E.assume(tobool(g))
        at["extra_points"], at["extra_vals"] = self.extra
        self.designs = []
        self.h = {}

    def records(self, name):
        E = self.E
        l = SymList(E.Int(name + "_n"), lambda i: Opaque("record"), None, "obj")
        E.assume(l.n >= 0)
        l.log = []

        def on_append(s, v):
            s.n = simp(add(s.n, 1))
            s.log = s.log + [v]
        l.on_append = on_append
        return l

    def rec_queue(self):
        """record_queue: only the values of the records matter."""
        E = self.E
        V = E.Func("rqv", z3.IntSort(), z3.RealSort())
        n = E.Int("rq_n")
        E.assume(n >= 0)
        E.touch(n)

        def mk(g):
            def get(i):
                o = Obj(SType("record"))
                o.attrs["value"] = g(i)
                return o
            return get
        f = [lambda i: V(integer(i))]
        l = SymList(n, mk(f[0]), None, "obj")
        l.vals = f[0]

        def on_append(s, r):
            old, m, v = s.vals, s.n, r.attrs["value"]
            s.vals = lambda i: ite(eq(i, m), v, old(i))
            s.get = mk(s.vals)
            s.n = simp(add(m, 1))
        l.on_append = on_append
        return l

    def inv(self):
        E, d, at, p = self.E, self.d, self.o.attrs, self.p
        X, fX, X1, f1, P, q = at["X"], at["fX"], at["_X"], at["_fX"], at["Xpend"], at["batch_queue"]
        S, SF = self.s.attrs["SX"], self.s.attrs["SF"]
        n, n1, k = X.shape[0], X1.shape[0], P.shape[0]
        e0 = ite(eq(at["ev_restart"], 0), self.ekn, 0)
        g = []

        def a(tag, lab, x):
            g.append((tag, lab, x))
        a("C02 C03", "points, values and pending points are matrices of the right width", b_and(*[b_and(len(m.shape) == 2, eq(m.shape[1], w)) for m, w in ((X, d), (fX, 1), (X1, d), (f1, 1), (P, d), (S, d), (SF, 1))]))
        a("C02 C03", "as many values as points", b_and(eq(fX.shape[0], n), eq(f1.shape[0], n1)))
        a("C02", "the number of pending evaluations is the number of pending points", eq(at["pending_evals"], k))
        a("C01 C04", "the counter of outstanding evaluations is right", b_and(eq(at["pending_evals"], self.out), ge(self.out, 0)))
        a("C01 C04", "the counter of completed evaluations is right", eq(at["num_evals"], self.done))
        a("C02", "completed evaluations are those recorded, besides the points whose value was given", b_and(ge(at["num_evals"], 0), eq(n, add(at["num_evals"], self.ekn))))
        a("C01", "completed plus outstanding evaluations do not exceed the budget", le(add(at["num_evals"], at["pending_evals"]), at["max_evals"]))
        a("C03", "event numbers", b_and(ge(at["ev_restart"], 0), le(at["ev_restart"], at["ev_last"]), lt(at["ev_last"], at["ev_next"]), ge(at["ev_next"], 1)))
        a("C04", "phase", b_or(eq(at["phase"], 1), eq(at["phase"], 2)))
        a("C03", "the surrogate has as many points as the current run", b_and(eq(S.shape[0], add(e0, n1)), eq(SF.shape[0], add(e0, n1))))
        a("C03", "the surrogate has the points of the current run", (("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, n1), rng(j, d)), eq(S.at(simp(add(e0, i)), j), X1.at(i, j)))))
        a("C03", "the surrogate has the values of the current run", (("Int",), lambda i: b_imp(rng(i, n1), eq(SF.at(simp(add(e0, i)), 0), f1.at(i, 0)))))
        a("C03", "before the first restart the surrogate has the points whose value was given", (("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, e0), rng(j, d)), b_and(eq(S.at(i, j), X.at(i, j)), eq(SF.at(i, 0), fX.at(i, 0))))))
        a("C03", "the run has not more points than all runs", le(n1, at["num_evals"]))
        a("C05", "queued points are feasible", (("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, qlen(q)), rng(j, d)), feasible(p, qat(q, i).at(j), j))) if not (isinstance(q, PList) and not q.items) else True)
        a("C03 C04", "convergence needs completed evaluations", b_imp(at["converged"], ge(n, 1)))
        if self.which == "SOP":
            a("C11", "every completed evaluation is in the list of evaluated points", eq(qlen(at["evals"]), at["num_evals"]))
            a("C03 C04 C11", "no restart, no convergence", b_and(eq(at["ev_last"], 0), eq(at["ev_restart"], 0), b_not(at["converged"])))
            a("C04 C11", "the search radius of new points is 0.2", eq(at["sampling_radius"], 0.2))
        elif "record_queue" in at:
            a("C03 C04", "unprocessed evaluations are completed evaluations", b_imp(gt(qlen(at["record_queue"]), 0), ge(n, 1)))
        a("C01 C04", "it terminates only for a reason", b_imp(at["terminate"], self.hist))
        for nm, v in (("max_evals", self.max), ("batch_size", self.batch), ("asynchronous", self.asyn), ("use_restarts", self.restarts)):
            a("C01 C02 C03 C04", "%s is not changed" % nm, eq(at[nm], v) if not isinstance(at[nm], (bool, z3.BoolRef)) else b_iff(at[nm], v))
        a("C01 C02 C03 C04", "the objects given are not replaced", at["opt_prob"] is p and at["exp_design"] is self.des and at["surrogate"] is self.s)
        if "failcount" in at:
            a("C04", "the search radius is positive and at most 0.2", b_and(gt(at["sampling_radius"], 0), le(at["sampling_radius"], 0.2)))
        return g

    def note(self):
        """Update the history variable (called where control returns to the controller)."""
        at = self.o.attrs
        self.hist = b_or(self.hist, ge(add(at["num_evals"], at["pending_evals"]), at["max_evals"]), b_and(at["converged"], b_not(at["use_restarts"])))

    def mine(self, tags):
        return self.prop in tags.split() or self.prop == "C18" and tags != "C05"

    def pr(self, tags, name, goal):
        """Obligation of the properties named; other checks leave it to theirs."""
        if self.mine(tags):
            self.E.prove(name, goal)

    def prove_inv(self, when):
        self.note()
        for tag, lab, g in self.inv():
            self.pr(tag, "%s: %s" % (when, lab), g)

    def snap(self):
        at = self.o.attrs
        r = dict(at)
        for a in ("X", "fX", "_X", "_fX", "Xpend"):
            r[a] = frozen(at[a])
        q = at["batch_queue"]
        r["queue"] = (qlen(q), q.get if isinstance(q, SymList) else None, q.mset if isinstance(q, SymList) else None)
        r["nfev"] = qlen(at["fevals"])
        r["S"], r["SF"], r["nreset"], r["hist"] = frozen(self.s.attrs["SX"]), frozen(self.s.attrs["SF"]), self.nreset, self.hist
        r["out"], r["done"] = self.out, self.done
        return r

    # ------------------------------------------------------------ statements
    def appended(self, tags, what, new, old, rows):
        """new = old plus the given rows (functions of the column)."""
        if not self.mine(tags):
            return
        E, d = self.E, self.d
        m = len(rows)
        E.prove("%s: number of rows" % what, eq(new.shape[0], add(old.shape[0], m)))
        i, j = E.Int("i"), E.Int("j")
        E.touch(i)
        E.touch(j)
        w = old.shape[1]
        E.prove("%s: earlier rows are kept" % what, b_imp(b_and(rng(i, old.shape[0]), rng(j, w)), eq(new.at(i, j), old.at(i, j))))
        for k, r in enumerate(rows):
            E.prove("%s: new row" % what, b_imp(rng(j, w), eq(new.at(simp(add(old.shape[0], k)), j), r(j))))

    def same(self, tags, what, new, old):
        self.appended(tags, what, new, old, [])

    def data_kept(self, when, o):
        at = self.o.attrs
        for a in ("X", "fX"):
            self.same("C02", "%s: no evaluation is recorded (%s)" % (when, a), at[a], o[a])
        self.pr("C01 C02 C04", "%s: no evaluation is counted" % when, eq(at["num_evals"], o["num_evals"]))

    def run_kept(self, when, o):
        for a in ("_X", "_fX"):
            self.same("C03", "%s: the data of the run is kept (%s)" % (when, a), self.o.attrs[a], o[a])
        self.same("C03", "%s: the surrogate is kept" % when, self.s.attrs["SX"], o["S"])
        self.same("C03", "%s: the values of the surrogate are kept" % when, self.s.attrs["SF"], o["SF"])

    def pending(self, when, o, x, sign):
        """The multiset of pending points gains or loses exactly x."""
        if not self.mine("C02"):
            return
        E, P = self.E, self.o.attrs["Xpend"]
        E.prove("%s: number of pending points" % when, eq(P.shape[0], add(o["Xpend"].shape[0], sign)))
        ms = getattr(P.cell, "mset", None) if P.dims is None else None
        if ms is None:
            raise Unsupported("multiset of the pending points")
        q = E.Pt("q")
        px = A.reify_point(x)
        E.prove("%s: the pending points %s exactly the point" % (when, "gain" if sign > 0 else "lose"), eq(ms(q), add(o["Xpend"].cell.mset(q), ite(A.pt_eq(px, q, self.d), sign, 0))))

    def queue_change(self, when, o, x, sign):
        if not self.mine("C02"):
            return
        E, q = self.E, self.o.attrs["batch_queue"]
        E.prove("%s: length of the queue" % when, eq(qlen(q), add(o["queue"][0], sign)))
        if sign == 0:
            E.prove("%s: the queue is not changed" % when, isinstance(q, SymList) and q.get is o["queue"][1])
            return
        if not isinstance(q, SymList) or q.mset is None:
            raise Unsupported("multiset of the queue")
        w = E.Pt("q")
        E.prove("%s: the point is queued again, nothing else" % when, eq(q.mset(w), add(o["queue"][2](w), ite(A.pt_eq(A.reify_point(x), w, self.d), sign, 0))))


def fresh_mset(E, q):
    """The multiset of a list whose elements are known by index: an unconstrained function."""
    f = E.Func("qset", Pt, z3.IntSort())
    q.mset = lambda x: f(x)


def mix(n, g0, Q, i, d):
    a = g0(i)
    t = Q(integer(simp(sub(i, n))))
    return A.new((d,), lambda idx: ite(lt(i, n), a.at(*idx), coord(t, integer(idx[0]))), "f")
