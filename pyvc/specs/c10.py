"""C10: non-dominated sorting (pySOT.utils: domination, nd_add, nd_front, nd_sorting), by contracts.

Points are columns of F.  DOM(a, b) abbreviates "column a is strictly smaller than column b in every objective"; that the code's
`domination` decides exactly this, and that the relation is irreflexive and transitive for M >= 1, are the first two units.  The
remaining functions are proved against the contracts of their callees."""
from .common import *

U = "pySOT.utils:"


def dom_post(I):
    E = I.E
    M = E.Int("M")
    E.assume(M >= 1), E.touch(M)
    a, b = vec(E, M, "a"), vec(E, M, "b")
    a0, b0 = a.cell.fn, b.cell.fn
    r = tobool(I.truthy(I.call(I.get(U + "domination"), [a, b])))
    k = sk_int(E, "k", 0, M)
    E.prove("domination: dominating vectors are smaller in every objective", b_imp(r, lt(a.at(k), b.at(k))))
    al = E.Bool("all_smaller")
    E.assume_forall(("Int",), lambda j: b_imp(b_and(al, rng(j, M)), lt(a.at(j), b.at(j))))
    E.prove("domination: true when smaller in every objective", b_imp(al, r))
    E.prove("domination: arguments unchanged", a.cell.fn is a0 and b.cell.fn is b0)


def dom_order(I):
    E = I.E
    M = E.Int("M")
    E.assume(M >= 1), E.touch(M), E.touch(z3.IntVal(0))
    a, b, c = vec(E, M, "a"), vec(E, M, "b"), vec(E, M, "c")
    f = I.get(U + "domination")
    E.prove("lemma: no vector dominates itself", b_not(tobool(I.truthy(I.call(f, [a, a])))))
    ab, bc = tobool(I.truthy(I.call(f, [a, b]))), tobool(I.truthy(I.call(f, [b, c])))
    E.prove("lemma: domination is transitive", b_imp(b_and(ab, bc), tobool(I.truthy(I.call(f, [a, c])))))


class Ctx(object):
    """Symbolic matrix F (M x N) and the contract of `domination` on its columns."""

    def __init__(self, I, F=None, name="F"):
        E = self.E = I.E
        self.I = I
        self.M, self.N = E.Int("M"), E.Int("N")
        E.assume(b_and(self.M >= 1, self.N >= 1))
        E.touch(self.N)
        self.F = fresh_arr(E, (self.M, self.N), "f", False, name)
        self.decl = self.F.cell.fn((z3.Int("p0"), z3.Int("p1"))).decl()
        self.f0 = self.F.cell.fn
        D = self.D = E.Func("DOM", z3.IntSort(), z3.IntSort(), z3.BoolSort())
        E.assume_forall(("Int", "Int"), lambda a, b: b_imp(D(a, b), b_not(D(b, a))), "irreflexive, asymmetric")
        E.assume_forall(("Int",), lambda a: b_not(D(a, a)), "irreflexive")
        I.contracts[U + "domination"] = self.domination

    def trans(self, a, b, c):
        """An instance of transitivity (lemma of the second unit)."""
        D = self.D
        self.E.assume(b_imp(b_and(D(a, b), D(b, c)), D(a, c)))

    def col(self, v):
        """The index of the column of F that an array is."""
        p = z3.Int("probe_row")
        if not (isinstance(v, Arr) and len(v.shape) == 1):
            raise Unsupported("domination of something else than columns of F")
        t = z3.simplify(v.at(p))
        if not (z3.is_app(t) and t.decl().eq(self.decl) and t.arg(0).eq(p)):
            raise Unsupported("domination of something else than columns of F: %s" % t)
        c = t.arg(1)
        if any(s.eq(p) for s in sub_of(c)):
            raise Unsupported("not a column")
        self.E.prove("domination is called with whole vectors", eq(v.shape[0], self.M))
        return c

    def colfn(self, X):
        """j -> index of the column of F that column j of X is."""
        return lambda j: self.col(A_col(X, j))

    def domination(self, I, func, a):
        x, y = self.col(a["fA"]), self.col(a["fB"])
        self.E.touch(x), self.E.touch(y)
        return self.D(x, y)


def sub_of(t):
    st = [t]
    while st:
        x = st.pop()
        yield x
        st.extend(x.children())


def A_col(X, j):
    return A.new((X.shape[0],), lambda idx: X.at(idx[0], j), X.dtype)


def dlist(E, name, n=None):
    """List of distinct integers of symbolic length."""
    n = E.Int(name + "_n") if n is None else n
    E.assume(ge(n, 0))
    g, p = E.Func(name, z3.IntSort(), z3.IntSort()), E.Func(name + "_pos", z3.IntSort(), z3.IntSort())
    E.assume_forall(("Int",), lambda k: b_imp(rng(k, n), eq(p(g(k)), k)), name + " distinct")
    return SymList(n, lambda i: g(integer(i)), lambda x: p(integer(x)), "dint")


def has(L, x):
    if isinstance(L, PList):
        return b_or(False, *[eq(x, v) for v in L.items]) if L.items else False
    k = L.mset(x)
    return b_and(ge(k, 0), lt(k, L.n), eq(L.get(k), x))


def size(L):
    return len(L.items) if isinstance(L, PList) else L.n


def get(L, k):
    if isinstance(L, PList):
        r = -1
        for i, v in enumerate(L.items):
            r = ite(eq(k, i), v, r)
        return r
    return L.get(k)


def rehavoc(E, L, name):
    """Arbitrary new content (distinct integers) for an existing list."""
    f = dlist(E, name)
    L.__class__ = SymList
    for k in ("items",):
        if hasattr(L, k):
            delattr(L, k)
    L.n, L.get, L.mset, L.kind = f.n, f.get, f.mset, "dint"


def partition(C, col, nd, df, W, n):
    """nd, df split {0..n-1}; nd holds the non-dominated ones; W(x) in nd dominates x for x in df.  Quantified facts."""
    D = C.D
    return [("every index is in exactly one list", (("Int",), lambda x: b_iff(b_or(has(nd, x), has(df, x)), rng(x, n)))),
            ("the lists are disjoint", (("Int",), lambda x: b_not(b_and(has(nd, x), has(df, x))))),
            ("no member of the front is dominated", (("Int", "Int"), lambda x, y: b_imp(b_and(has(nd, x), rng(y, n)), b_not(D(col(y), col(x)))))),
            ("every other index is dominated by one of the front", (("Int",), lambda x: b_imp(has(df, x), b_and(has(nd, W(x)), D(col(W(x)), col(x))))))]


def assume_all(E, facts):
    for lab, g in facts:
        if isinstance(g, tuple):
            E.assume_forall(g[0], g[1], lab)
        else:
            E.assume(g)


def wf(E, name):
    f = E.Func(name, z3.IntSort(), z3.IntSort())

    def w(x):
        t = f(integer(x))
        return t
    return w


def sizes(nd, df, n):
    return [("sizes add up", eq(add(size(nd), size(df)), n))]


def nd_add_spec(I):
    C = Ctx(I)
    E = C.E
    N = simp(sub(C.N, 1))
    E.assume(N >= 1)
    E.touch(N)
    nd, df = dlist(E, "nd"), dlist(E, "df")
    W0 = wf(E, "W0")
    col = lambda j: j
    assume_all(E, partition(C, col, nd, df, W0, N) + sizes(nd, df, N))
    S0 = {"nd": SymList(nd.n, nd.get, nd.mset, "dint"), "df": SymList(df.n, df.get, df.mset, "dint")}
    D = C.D

    def inv(ctx):
        L, Q, j, c = ctx["ndf_index"], ctx["df_index"], ctx["j"], ctx["ndf_count"]
        return [("bounds", b_and(ge(j, 1), le(j, c), eq(c, size(L)))),
                ("sizes", eq(add(size(L), size(Q)), simp(add(N, 1)))),
                ("the new point is last", b_and(eq(get(L, simp(sub(size(L), 1))), N), has(L, N), eq(L.mset(N), sub(size(L), 1)))),
                ("the new point is not dominated list", b_not(has(Q, N))),
                ("members", (("Int",), lambda x: b_imp(b_or(has(L, x), has(Q, x)), b_and(ge(x, 0), le(x, N))))),
                ("no point is lost", (("Int",), lambda x: b_imp(rng(x, N), b_iff(has(L, x), b_not(has(Q, x)))))),
                ("points of the front come from it", (("Int",), lambda x: b_imp(b_and(has(L, x), ne(x, N)), has(S0["nd"], x)))),
                ("points moved are dominated by the new point", (("Int",), lambda x: b_imp(b_and(has(S0["nd"], x), has(Q, x)), D(N, x)))),
                ("points visited are incomparable", (("Int",), lambda k: b_imp(b_and(ge(k, 0), lt(k, sub(j, 1))), b_and(b_not(D(get(L, k), N)), b_not(D(N, get(L, k)))))))]

    def modifies(ctx):
        rehavoc(E, ctx["ndf_index"], "L"), rehavoc(E, ctx["df_index"], "Q")
        ctx.may_change(ctx["ndf_index"]), ctx.may_change(ctx["df_index"])
        ctx["j"], ctx["ndf_count"] = E.Int("j"), E.Int("c")
        E.touch(ctx["j"]), E.touch(simp(sub(ctx["j"], 1))), E.touch(ctx["ndf_count"])

    I.loopspecs = {(U + "nd_add", 0): LoopSpec(inv, modifies, lambda ctx: sub(ctx["ndf_count"], ctx["j"]))}
    r = I.call(I.get(U + "nd_add"), [C.F, df, nd])
    E.prove("nd_add: returns the two lists", isinstance(r, tuple) and len(r) == 2 and r[0] is nd and r[1] is df)
    # the witness of domination after the call
    j = E.Int("jW")
    x, y = E.Int("x"), E.Int("y")
    E.touch(x), E.touch(y), E.touch(j)
    D0, L0 = S0["df"], S0["nd"]
    for z in (x, y):
        w = W0(z)
        E.hint(has(D0, z), has(L0, z), has(nd, z), has(df, z), has(nd, w), has(df, w), has(L0, w), D(w, z), D(z, w), D(w, N), D(N, z), D(z, N), D(N, N))
        C.trans(w, z, N), C.trans(N, w, z), C.trans(N, z, N)
        E.hint(D(get(nd, nd.mset(w)), N)), E.hint(D(get(nd, nd.mset(z)), N))
        E.touch(nd.mset(w)), E.touch(nd.mset(z))
    wN = last_dom(E, nd, N, D)
    for z in (x, y):
        for u in (wN, ):
            C.trans(u, N, z)
            C.trans(u, N, W0(z))
    W1 = lambda z: ite(eq(z, N), wN, ite(has(D0, z), ite(has(nd, W0(z)), W0(z), N), N))
    for lab, g in partition(C, col, nd, df, W1, simp(add(N, 1))) + sizes(nd, df, simp(add(N, 1))):
        E.prove("nd_add: " + lab, g[1](*([x, y][:len(g[0])])) if isinstance(g, tuple) else g)
    E.prove("nd_add: F is not modified", C.F.cell.fn is C.f0)


def last_dom(E, nd, N, D):
    """Some member of the front that dominates the new point, if there is one (definable choice)."""
    w = E.Int("wN")
    E.touch(w)
    E.assume_forall(("Int",), lambda x: b_imp(b_and(has(nd, x), D(x, N)), b_and(has(nd, w), D(w, N))), "choice")
    return w


def nd_add_contract(C, col):
    """Contract of nd_add for the callers: proved in the unit above."""
    def h(I, func, a):
        E = I.E
        F, df, nd = a["F"], a["df_index"], a["ndf_index"]
        cols = C.colfn(F)
        n = simp(sub(F.shape[1], 1))
        E.touch(n)
        W = h.W
        for lab, g in partition(C, cols, nd, df, W, n) + sizes(nd, df, n) + [("at least two points", ge(n, 1))]:
            E.prove("precondition of nd_add: " + lab, g)
        rehavoc(E, nd, "nd"), rehavoc(E, df, "df")
        h.W = wf(E, "W")
        assume_all(E, partition(C, cols, nd, df, h.W, simp(add(n, 1))) + sizes(nd, df, simp(add(n, 1))))
        return (nd, df)
    h.W = wf(C.E, "Wi")
    return h


def front_facts(C, cols, nd, df, W, n):
    return partition(C, cols, nd, df, W, n) + sizes(nd, df, n)


def nd_front_spec(I):
    C = Ctx(I)
    E = C.E
    h = nd_add_contract(C, None)
    I.contracts[U + "nd_add"] = h
    E.touch(z3.IntVal(0))
    col = lambda j: j

    def inv(ctx):
        return front_facts(C, col, ctx["ndf_index"], ctx["df_index"], h.W, simp(add(ctx.t, 1)))

    def modifies(ctx):
        for k in ("ndf_index", "df_index"):
            ctx[k] = dlist(E, k)
            ctx.may_change(ctx[k])
        h.W = wf(E, "W")

    I.loopspecs = {(U + "nd_front", 0): LoopSpec(inv, modifies)}
    r = I.call(I.get(U + "nd_front"), [C.F])
    E.prove("nd_front: returns two lists", isinstance(r, tuple) and len(r) == 2)
    for lab, g in front_facts(C, col, r[0], r[1], h.W, C.N):
        E.prove("nd_front: " + lab, g)
    E.hint(has(r[0], 0), has(r[1], 0), has(r[0], h.W(0)))
    E.prove("nd_front: the front is not empty", ge(size(r[0]), 1))
    E.prove("nd_front: F is not modified", C.F.cell.fn is C.f0)


def nd_front_contract(C):
    def h(I, func, a):
        E = I.E
        F = a["F"]
        cols = C.colfn(F)
        n = F.shape[1]
        E.prove("precondition of nd_front: at least one point", ge(n, 1))
        nd, df = dlist(E, "nd"), dlist(E, "df")
        h.W = wf(E, "W")
        assume_all(E, front_facts(C, cols, nd, df, h.W, n) + [("the front is not empty", ge(nd.n, 1))])
        h.last = (nd, df, n)
        return (nd, df)
    return h


def nd_sorting_spec(I):
    C = Ctx(I)
    E, N, D = C.E, C.N, C.D
    h = nd_front_contract(C)
    h.last = None
    I.contracts[U + "nd_front"] = h
    nmax = E.Int("nmax")
    E.touch(nmax)
    g = {}

    def ranks(ctx):
        a = ctx["nd_ranks"]
        return lambda x: xr(a.at(x))

    def ghosts(ctx):
        P = ctx["P"]
        if isinstance(ctx.t, int):
            return (lambda x: x), (lambda x: 0), 0
        if h.last is None:
            return g["pos"], g["V"], g["prev"]
        nd, df, n = h.last
        pos0, V0, P0, W = g["pos"], g["V"], g["P"], h.W
        return (lambda x: df.mset(pos0(x))), (lambda x: ite(b_and(has(df, pos0(x)), eq(P0.at(pos0(x)), x)), P0.at(W(pos0(x))), V0(x))), g["count"]

    def facts(rk, P, i, count, pos, V, prev):
        post = h.last is not None

        def seen(x):
            if post:      # proving preservation: mention what the argument needs
                nd, df, n = h.last
                q = g["pos"](x)
                w = h.W(q)
                E.hint(has(df, q), has(nd, q), has(nd, w), g["P"].at(w), g["P"].at(q), g["pos"](g["P"].at(w)), D(g["P"].at(w), x), D(V(x), x))
                E.touch(q), E.touch(w), E.touch(g["P"].at(w)), E.touch(V(x))
            return True
        m = P.shape[0]
        inP = lambda x: b_and(ge(pos(x), 0), lt(pos(x), m), eq(P.at(pos(x)), x))
        lev = lambda x: ite(inP(x), i, rk(x).v)
        atleast = lambda y, r: b_or(inP(y), ge(rk(y).v, r))
        return [("counts", b_and(ge(i, 1), eq(count, sub(N, m)), ge(m, 0), ge(count, 0), b_iff(eq(i, 1), eq(count, 0)))),
                ("the points left are distinct", (("Int",), lambda k: b_imp(rng(k, m), b_and(eq(pos(P.at(k)), k), rng(P.at(k), N))))),
                ("exactly the points left have no rank", (("Int",), lambda x: b_imp(rng(x, N), b_and(b_iff(inP(x), rk(x).inf), b_not(rk(x).nan))))),
                ("ranks are 1, ..., i-1", (("Int",), lambda x: b_imp(b_and(rng(x, N), b_not(inP(x))), b_and(is_integral(rk(x).v), ge(rk(x).v, 1), lt(rk(x).v, i))))),
                ("no point of the same or a later front dominates", (("Int", "Int"), lambda x, y: b_imp(b_and(rng(x, N), rng(y, N), b_not(inP(x)), atleast(y, rk(x).v)), b_not(D(y, x))))),
                ("the witness is a ranked point", (("Int",), lambda x: b_imp(b_and(rng(x, N), seen(x), gt(lev(x), 1)), b_and(rng(V(x), N), b_not(inP(V(x))))))),
                ("the witness is in the previous front", (("Int",), lambda x: b_imp(b_and(rng(x, N), seen(x), gt(lev(x), 1)), eq(rk(V(x)).v, sub(lev(x), 1))))),
                ("the witness dominates", (("Int",), lambda x: b_imp(b_and(rng(x, N), seen(x), gt(lev(x), 1)), D(V(x), x)))),
                ("fewer than nmax points were ranked before the last front", b_or(eq(i, 1), lt(prev, nmax)))]

    def inv(ctx):
        pos, V, prev = ghosts(ctx)
        if h.last is not None and not isinstance(ctx.t, int):
            E.touch(z3.IntVal(0))
        return facts(ranks(ctx), ctx["P"], ctx["i"], ctx["count"], pos, V, prev)

    def modifies(ctx):
        h.last = None
        m = E.Int("m")
        E.assume(m >= 0)
        E.touch(m)
        ctx["P"] = P = fresh_arr(E, (m,), "i", False, "P")
        p, v = E.Func("Ppos", z3.IntSort(), z3.IntSort()), E.Func("V", z3.IntSort(), z3.IntSort())
        R, INF = E.Func("R", z3.IntSort(), z3.RealSort()), E.Func("INF", z3.IntSort(), z3.BoolSort())
        a = ctx["nd_ranks"]
        E.assume_forall(("Int",), lambda x: b_imp(INF(x), eq(R(x), 0)))
        A.write(a.cell, lambda idx: XR(R(integer(idx[0])), INF(integer(idx[0])), False), None)
        ctx.may_change(a.cell)
        ctx["i"], ctx["count"] = E.Int("i"), E.Int("count")
        for k in ("ndf_index", "df_index", "P_new", "j"):
            ctx[k] = None
        E.touch(ctx["i"])
        g.update(pos=lambda x: p(integer(x)), V=lambda x: v(integer(x)), prev=E.Int("prev"), P=P, count=ctx["count"])

    I.loopspecs = {(U + "nd_sorting", 1): LoopSpec(inv, modifies, lambda ctx: ctx["P"].shape[0])}
    ret = I.call(I.get(U + "nd_sorting"), [C.F, nmax])
    E.prove("nd_sorting: one rank per point", b_and(len(ret.shape) == 1, eq(ret.shape[0], N)))
    P, pos, i = g["P"], g["pos"], None
    E.prove("nd_sorting: F is not modified", C.F.cell.fn is C.f0)
    rk = lambda x: xr(ret.at(x))
    x, y = sk_int(E, "x", 0, N), sk_int(E, "y", 0, N)
    V = g["V"]
    E.hint(rk(x).v, rk(y).v, D(y, x), D(x, y), D(V(x), x), P.at(pos(x)), P.at(pos(y)))
    fin = b_not(rk(x).inf)
    E.prove("nd_sorting: ranks are positive integers or infinite", b_and(b_not(rk(x).nan), b_imp(fin, b_and(is_integral(rk(x).v), ge(rk(x).v, 1)))))
    E.prove("nd_sorting: a point is dominated only by points of lower rank", b_imp(b_and(fin, D(y, x)), b_and(b_not(rk(y).inf), lt(rk(y).v, rk(x).v))))
    w = V(x)
    E.prove("nd_sorting: a point of rank r > 1 is dominated by a point of rank r - 1", b_imp(b_and(fin, gt(rk(x).v, 1)), b_and(rng(w, N), D(w, x), eq(rk(w).v, sub(rk(x).v, 1)), b_not(rk(w).inf))))
    E.prove("nd_sorting: unranked points are left only when nmax points are ranked", b_imp(rk(x).inf, ge(g["count"], nmax)))
    E.prove("nd_sorting: an unranked point is dominated by a ranked one (unless nmax <= 0)", b_imp(b_and(rk(x).inf, gt(nmax, 0)), b_and(rng(w, N), D(w, x), b_not(rk(w).inf))))
    E.prove("nd_sorting: the fronts before the last one have fewer than nmax points", b_imp(gt(g["count"], 0), lt(g["prev"], nmax)))


def units():
    return [unit("domination", dom_post), unit("domination is a strict order", dom_order), unit("nd_add", nd_add_spec),
            unit("nd_front", nd_front_spec), unit("nd_sorting", nd_sorting_spec)]
