"""C14: the RBF interpolant solves its fitting equations.

Sums of matrix products are compared entry by entry.  scipy enters by contract: lu_factor gives P A = L U with the row interchanges in
LAPACK's order, solve_triangular solves the triangular system it is given, cholesky gives C with C C' = A or raises.  Three facts of
linear algebra are used and not proved: a finite sum splits at any place, (L U) c = L (U c), and the Schur complement of a symmetric
matrix is symmetric.  The universally quantified facts of the contracts are instantiated at the entry under consideration."""
from .common import *
from .c15 import RBF

ZI = z3.IntSort()


class Fit(object):
    def __init__(self, I, extend):
        E = self.E = I.E
        self.I = I
        d = self.d = sym_dim(E)
        n, nt = E.Int("n"), E.Int("ntail")
        E.assume(b_and(n >= 1, nt >= 1, n >= nt))
        E.touch(n), E.touch(nt)
        self.n, self.nt = n, nt
        self.nact = simp(nt + n)
        E.touch(self.nact)
        o = self.o = Obj(I.get(RBF))
        self.X = mat(E, n, d, "X", row=True)
        self.eta = E.Real("eta")
        ker, tl = Obj(SType("kernel")), Obj(SType("tail"))
        ker.attrs.update(eval=Builtin("kernel_value", lambda D: I.np.ew(lambda x: ufun("kernel_value", real(x)), D)))
        te = E.Func("tail_value", Pt, ZI, z3.RealSort())

        def tev(X):
            R = A.rows_of(X)
            return A.new((X.shape[0], nt), lambda ix: te(R(ix[0]), integer(ix[1])), "f")
        tl.attrs.update(eval=Builtin("eval", tev))
        fX = mat(E, n, 1, "fX")
        T = E.Func("transformed", ZI, z3.RealSort())

        def transform(v):
            i = E.Int("i")
            E.touch(i)
            E.prove("the values of the points are transformed", b_and(eq(v.shape[0], n), b_imp(rng(i, n), eq(v.at(i, 0), fX.at(i, 0)))))
            E.prove("the values themselves are not handed out", v is not fX and v.cell is not fX.cell)
            return A.new((n, 1), lambda ix: T(integer(ix[0])), "f")
        rows = A.rows_of(self.X)

        def saddle(i, j):
            """Entry of the matrix of the fitting equations."""
            i, j = integer(i), integer(j)
            a, b = simp(i - nt), simp(j - nt)
            k = add(ufun("kernel_value", I.np.D(rows(a), rows(b))), ite(eq(a, b), self.eta, 0))
            return ite(lt(i, nt), ite(lt(j, nt), 0, te(rows(b), i)), ite(lt(j, nt), te(rows(a), j), k))
        self.saddle = saddle
        self.rhs = lambda r: ite(lt(r, nt), 0, T(integer(simp(r - nt))))
        o.attrs.update(dim=d, num_pts=n, _X=self.X, fX=fX, kernel=ker, tail=tl, ntail=nt, updated=False, eta=self.eta, A=None, output_transformation=Builtin("output_transformation", transform), L=None, U=None, piv=None, c=None)
        self.facts = []
        x = I.np.extra
        x["scipy.linalg.lu_factor"], x["scipy.linalg.solve_triangular"], x["scipy.linalg.cholesky"] = self.lu, self.solve, self.cholesky
        self.col = None
        self.solves = []
        self.new = None
        q = RBF + "._fit"
        I.loopspecs = {(q, lambda src: "self.piv" in src and "solve_triangular" not in src): LoopSpec(self.swaps, self.swapmod),
                       (q, lambda src: "solve_triangular" in src): LoopSpec(self.columns, self.colmod)}
        self.dotted = False
        self.DOT = E.Func("product", ZI, ZI, z3.RealSort())
        if extend:
            x["numpy.dot"] = x["numpy.matmul"] = self.dot
            k = self.k = E.Int("k")
            E.assume(b_and(k >= 1, k >= nt, k < n))
            E.touch(k)
            ka = self.ka = simp(nt + k)
            E.touch(ka)
            L, U = E.Func("L", ZI, ZI, z3.RealSort()), E.Func("U", ZI, ZI, z3.RealSort())
            pv, iv = E.Func("piv", ZI, ZI), E.Func("piv_inv", ZI, ZI)
            self.Lo, self.Uo, self.pvo, self.ivo = L, U, pv, iv
            E.assume_forall(("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, ka), rng(j, ka)), b_and(b_imp(lt(i, j), L(i, j) == 0), b_imp(lt(j, i), U(i, j) == 0))), "old factors are triangular")
            E.assume_forall(("Int",), lambda i: b_imp(rng(i, ka), b_and(rng(pv(i), ka), iv(pv(i)) == i)), "old pivots: a permutation")
            E.assume_forall(("Int",), lambda i: b_imp(rng(i, ka), b_and(rng(iv(i), ka), pv(iv(i)) == i)), "old pivots: a permutation")
            o.attrs.update(L=A.new((ka, ka), lambda ix: L(integer(ix[0]), integer(ix[1])), "f"), U=A.new((ka, ka), lambda ix: U(integer(ix[0]), integer(ix[1])), "f"),
                           piv=A.new((ka,), lambda ix: pv(integer(ix[0])), "i"), c=mat(E, ka, 1, "c"))
            self.La, self.Ua = o.attrs["L"], o.attrs["U"]
            self.m = simp(n - k)
            E.touch(self.m)
            self.YL, self.YU = E.Func("L21", ZI, ZI, z3.RealSort()), E.Func("U12", ZI, ZI, z3.RealSort())

    def two(self, n, names=("i", "j")):
        E = self.E
        r = []
        for nm in names:
            v = E.Int(nm)
            E.assume(rng(v, n))
            E.touch(v)
            r.append(v)
        return r

    # ------------------------------------------------------------ scipy by contract
    def lu(self, M, **k):
        E, N = self.E, self.nact
        i, j = self.two(N)
        E.prove("the matrix that is factored has the size of the system", b_and(eq(M.shape[0], N), eq(M.shape[1], N)))
        E.prove("the matrix that is factored is that of the fitting equations", eq(M.at(i, j), self.saddle(i, j)))
        LU, pv = E.Func("LU", ZI, ZI, z3.RealSort()), E.Func("swap", ZI, ZI)
        S, R = E.Func("order", ZI, ZI, ZI), E.Func("order_inv", ZI, ZI, ZI)
        self.S, self.R, self.sw = S, R, pv
        E.assume_forall(("Int",), lambda i: b_imp(rng(i, N), rng(pv(i), N)), "row interchanges")
        l = lambda i, j: ite(eq(i, j), 1, ite(lt(j, i), LU(integer(i), integer(j)), 0))
        u = lambda i, j: ite(le(i, j), LU(integer(i), integer(j)), 0)
        self.lufac = (l, u)           # row i of L U is row S(N, i) of the matrix
        self.case = "new"
        return (A.new((N, N), lambda ix: LU(integer(ix[0]), integer(ix[1])), "f"), A.new((N,), lambda ix: pv(integer(ix[0])), "i"))

    def solve(self, a, b, lower=False, trans=0, **k):
        E = self.E
        if k:
            raise Unsupported("arguments of solve_triangular")
        N = a.shape[0]
        i, j = self.two(N)
        E.prove("triangular system: sizes", b_and(eq(a.shape[1], N), eq(b.shape[0], N)))
        E.prove("triangular system: the matrix is triangular as announced", b_imp(lt(i, j) if lower else lt(j, i), eq(a.at(i, j), 0)))
        T = trans in ("T", 1)
        if len(b.shape) == 1 and self.col is not None:       # one column of the new blocks
            t = integer(self.col)
            if T and not lower:
                E.prove("new rows of L: solved with the old upper factor", eq(a.at(i, j), self.Uo(i, j)))
                E.prove("new rows of L: the new columns of the system", eq(b.at(i), self.saddle(i, simp(self.ka + t))))
                Y = self.YL
            elif lower and not T:
                E.prove("new columns of U: solved with the old lower factor", eq(a.at(i, j), self.Lo(i, j)))
                E.prove("new columns of U: the new columns of the system in the order of the old factors", eq(b.at(i), self.saddle(self.pvo(i), simp(self.ka + t))))
                Y = self.YU
            else:
                raise Unsupported("triangular solve")
            return A.new((N,), lambda ix: Y(t, integer(ix[0])), "f")
        if len(b.shape) == 2 and getattr(self, "m", None) is not None and (T or not isinstance(b.shape[1], int)) and not self.solves:   # all new columns at once
            t = E.Int("new_column")
            E.assume(rng(t, self.m))
            E.touch(t)
            E.touch(simp(self.ka + t))
            E.prove("new blocks: size", b_and(eq(b.shape[0], self.ka), eq(b.shape[1], self.m)))
            if T and not lower:
                E.prove("new rows of L: solved with the old upper factor", eq(a.at(i, j), self.Uo(i, j)))
                E.prove("new rows of L: the new columns of the system", eq(b.at(i, t), self.saddle(i, simp(self.ka + t))))
                Y = self.YL
            elif lower and not T:
                E.prove("new columns of U: solved with the old lower factor", eq(a.at(i, j), self.Lo(i, j)))
                E.prove("new columns of U: the new columns of the system in the order of the old factors", eq(b.at(i, t), self.saddle(self.pvo(i), simp(self.ka + t))))
                Y = self.YU
            else:
                raise Unsupported("triangular solve")
            return A.new((N, self.m), lambda ix: Y(integer(ix[1]), integer(ix[0])), "f")
        if len(b.shape) != 2 or T:
            raise Unsupported("triangular solve")
        Y = E.Func("solution", ZI, z3.RealSort())
        self.solves.append((a, bool(lower), b, Y))
        return A.new((N, 1), lambda ix: Y(integer(ix[0])), "f")

    def dot(self, a, b):
        """The product of the new blocks."""
        E, m, ka = self.E, self.m, self.ka
        r, s, t = E.Int("r"), E.Int("s"), E.Int("t")
        for v in (r, s, t):
            E.touch(v)
        E.prove("product: sizes", b_and(eq(a.shape[0], m), eq(a.shape[1], ka), eq(b.shape[0], ka), eq(b.shape[1], m)))
        E.prove("product: the new rows of L times the new columns of U", b_imp(b_and(rng(r, m), rng(s, m), rng(t, ka)), b_and(eq(a.at(r, t), self.YL(r, t)), eq(b.at(t, s), self.YU(s, t)))))
        self.dotted = True
        return A.new((m, m), lambda ix: self.DOT(integer(ix[0]), integer(ix[1])), "f")

    def cholesky(self, a, lower=False, **k):
        E, m = self.E, self.m
        if k:
            raise Unsupported("arguments of cholesky")
        if E.choose(2):
            raise PyExc("LinAlgError", "not positive definite")
        E.prove("Schur complement: size", b_and(eq(a.shape[0], m), eq(a.shape[1], m)))
        C = E.Func("chol", ZI, ZI, z3.RealSort())
        f = a.fn()
        E.assume_forall(("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, m), rng(j, m), lt(i, j)), C(i, j) == 0), "triangular")
        self.C, self.schur = C, f     # C C' is the matrix given, which is symmetric
        self.case = "extended"
        if not lower:
            return A.new((m, m), lambda ix: C(integer(ix[1]), integer(ix[0])), "f")
        return A.new((m, m), lambda ix: C(integer(ix[0]), integer(ix[1])), "f")

    # ----------------------------------------------------------------------- loops
    def swaps(self, ctx):
        E, N, S, R, pv = self.E, self.nact, self.S, self.R, self.sw
        t = integer(ctx.t)
        if ctx.stage == "init":
            E.assume_forall(("Int",), lambda i: b_and(S(0, i) == i, R(0, i) == i), "definition")
        if ctx.stage == "head":
            E.assume_forall(("Int",), lambda i: b_and(S(simp(t + 1), i) == z3.If(i == t, S(t, pv(t)), z3.If(i == pv(t), S(t, t), S(t, i))),
                                                      R(simp(t + 1), i) == z3.If(R(t, i) == pv(t), t, z3.If(R(t, i) == t, pv(t), R(t, i)))), "definition")
            E.touch(pv(t))
        p = self.o.attrs["piv"]
        out = [("the order is a permutation", (("Int",), lambda i: b_imp(rng(i, N), b_and(rng(S(t, i), N), rng(R(t, i), N), S(t, R(t, i)) == i, R(t, S(t, i)) == i))))]
        if ctx.stage != "head":
            i = E.Int("row")
            E.touch(i)
            E.hint(S(t, i), R(t, i))
            out.append(("the order after the interchanges so far", b_imp(rng(i, N), eq(p.at(i), S(t, i)))))
            if ctx.stage == "post":
                s = simp(t - 1)
                E.hint(S(s, i), R(s, i), S(s, pv(s)), S(s, s), R(s, S(s, i)), S(s, R(s, i)), pv(s))
        return out

    def swapmod(self, ctx):
        p = self.o.attrs["piv"]
        t = integer(ctx.t)
        A.write(p.cell, lambda ix: self.S(t, integer(ix[0])), None)
        ctx.may_change(p.cell)

    def columns(self, ctx):
        E = self.E
        t = integer(ctx.t)
        self.col = t
        out = [("sizes", b_and(*[eq(x, y) for a in (ctx["L21"], ctx["U12"]) for x, y in zip(a.shape, (self.ka, self.m))]))]
        if ctx.stage != "head":
            l, c = E.Int("l"), E.Int("col")
            E.touch(l), E.touch(c)
            for nm, Y in (("L21", self.YL), ("U12", self.YU)):
                out.append(("columns so far of %s" % nm, b_imp(b_and(rng(l, self.ka), rng(c, self.m)), eq(ctx[nm].at(l, c), ite(lt(c, t), Y(c, l), 0)))))
        return out

    def colmod(self, ctx):
        t = integer(ctx.t)
        for nm, Y in (("L21", self.YL), ("U12", self.YU)):
            a = ctx[nm]
            A.write(a.cell, lambda ix, Y=Y: ite(lt(integer(ix[1]), t), Y(integer(ix[1]), integer(ix[0])), 0), None)
            ctx.may_change(a.cell)

    # ----------------------------------------------------------------------- result
    def result(self):
        E, o, N, n = self.E, self.o, self.nact, self.n
        L, U, P, c = (o.attrs[k] for k in ("L", "U", "piv", "c"))
        E.prove("the factors have the size of the system", b_and(*[eq(x, N) for a in (L, U) for x in a.shape] + [eq(P.shape[0], N), eq(c.shape[0], N), eq(c.shape[1], 1)]))
        E.prove("the model is up to date", o.attrs["updated"] is True)
        i, j = self.two(N)
        ext = self.case == "extended"
        inv = (lambda r: ite(lt(r, self.ka), self.ivo(integer(r)), r)) if ext else (lambda r: self.R(N, integer(r)))
        if not ext:
            E.hint(self.S(N, i), self.R(N, i))
        else:
            E.hint(self.pvo(i), self.ivo(i))
        pi = P.at(i)
        E.prove("the factors are triangular", b_and(b_imp(lt(i, j), eq(L.at(i, j), 0)), b_imp(lt(j, i), eq(U.at(i, j), 0))))
        E.prove("the pivots are a permutation", b_and(rng(pi, N), rng(inv(i), N), eq(P.at(integer(inv(i))), i)))
        # The sum of L(i,t) U(t,j) over t: sums with the same terms are equal, so the factors of every term are compared.
        prod, t = E.Real("product"), E.Int("t")
        E.touch(t)
        if not ext:
            l, u = self.lufac
            E.prove("the factors are those of lu_factor", b_imp(rng(t, N), b_and(eq(L.at(i, t), l(i, t)), eq(U.at(t, j), u(t, j)))))
            E.assume(eq(prod, self.saddle(self.S(N, i), j)))
        else:
            ka, m = self.ka, self.m
            ii, jj = simp(i - ka), simp(j - ka)
            Lo, Uo, YL, YU, C = self.Lo, self.Uo, self.YL, self.YU, self.C
            a, b = E.choose(2), E.choose(2)
            E.assume(ge(i, ka) if a else lt(i, ka))
            E.assume(ge(j, ka) if b else lt(j, ka))
            E.touch(ii), E.touch(jj)
            s1, s2 = E.Real("old_terms"), E.Real("new_terms")
            E.assume(eq(prod, add(s1, s2)))                       # a finite sum splits
            E.prove("terms with old columns: the lower factor", b_imp(rng(t, ka), eq(L.at(i, t), YL(ii, t) if a else Lo(i, t))))
            E.prove("terms with old rows: the upper factor", b_imp(rng(t, ka), eq(U.at(t, j), YU(jj, t) if b else Uo(t, j))))
            nt_ = simp(ka + t)
            E.touch(nt_)
            if a and b:
                E.prove("terms with new columns: the Cholesky factor", b_imp(rng(t, m), b_and(eq(L.at(i, nt_), C(ii, t)), eq(U.at(nt_, j), C(jj, t)))))
                E.assume(eq(s2, self.schur((ii, jj))))            # contract of cholesky at this entry
                E.assume(eq(s1, self.DOT(ii, jj)))                # the sum that was subtracted, see dot
                E.prove("the product of the new blocks is subtracted", self.dotted)
            else:
                E.prove("terms with new columns vanish", b_imp(rng(t, m), b_or(eq(L.at(i, nt_), 0), eq(U.at(nt_, j), 0))))
                E.assume(eq(s2, 0))
                # contract of the old factors, of the new columns of U, of the new rows of L at this entry
                E.assume(eq(s1, self.saddle(j, i) if a else self.saddle(self.pvo(i), j)))
        E.prove("the product of the factors is the matrix of the fitting equations in the order of the pivots%s" % (", " + ("old", "new")[a] + " rows, " + ("old", "new")[b] + " columns" if ext else ""), eq(prod, self.saddle(pi, j)))
        E.prove("two triangular systems are solved", len(self.solves) == 2)
        (a1, l1, b1, y), (a2, l2, b2, x) = self.solves
        E.prove("first the lower factor, with the right-hand side in the order of the pivots", b_and(l1, eq(a1.at(i, j), L.at(i, j)), eq(b1.at(i, 0), self.rhs(pi))))
        E.prove("then the upper factor, with the solution of the first", b_and(not l2, eq(a2.at(i, j), U.at(i, j)), eq(b2.at(i, 0), y(i))))
        E.prove("its solution is the vector of coefficients", eq(c.at(i, 0), x(i)))
        # row pi of (matrix times coefficients) = row i of (L U) c = row i of L (U c) = row i of L y = entry i of the first right-hand side
        row = E.Real("row_of_the_system")
        E.assume(eq(row, b1.at(i, 0)))
        E.prove("the coefficients solve the fitting equations", eq(row, self.rhs(pi)))


def fit(I, extend):
    F = Fit(I, extend)
    E, o = F.E, F.o
    X0, f0 = o.attrs["_X"], o.attrs["fX"]
    fx0, ff0 = X0.cell.fn, f0.cell.fn
    I.call(I.getattr(o, "_fit"), [])
    E.cover("the model is fitted")
    E.prove("the data are not changed", o.attrs["_X"] is X0 and o.attrs["fX"] is f0 and X0.cell.fn is fx0 and f0.cell.fn is ff0)
    F.result()


def nothing(I):
    F = Fit(I, True)
    o = F.o
    o.attrs["updated"] = True
    before = dict(o.attrs)
    I.call(I.getattr(o, "_fit"), [])
    F.E.prove("a model that is up to date is not touched", all(o.attrs[k] is before[k] for k in before))


def construct(I, case):
    """The parts of the system are those given; a kernel that the tail is too small for is refused."""
    E = I.E
    d = sym_dim(E)
    lb, ub = box(E, d)
    K, T = "pySOT.surrogate.kernels.", "pySOT.surrogate.tails."
    eta, kw = E.Real("eta"), {}
    kernels = {"cubic": "cubic_kernel:CubicKernel", "linear": "linear_kernel:LinearKernel", "tps": "tps_kernel:TPSKernel"}
    tails = {"linear": "linear_tail:LinearTail", "constant": "constant_tail:ConstantTail"}
    k = t = None
    if case:
        k, t = case
        kw = dict(kernel=I.call(I.get(K + kernels[k]), []), tail=I.call(I.get(T + tails[t]), [d]), eta=eta)
    try:
        o = I.call(I.get(RBF), [d, lb, ub], kw)
    except PyExc as e:
        E.cover("refused")
        E.prove("refused only when the polynomial is too small for the kernel", bool(case) and (k, t) in (("cubic", "constant"), ("tps", "constant")))
        return
    at = o.attrs
    E.cover("constructed")
    E.prove("a polynomial that is too small for the kernel is refused", not case or not (k in ("cubic", "tps") and t == "constant"))
    if case:
        E.prove("kernel, tail and regularization are those given", b_and(at["kernel"] is kw["kernel"], at["tail"] is kw["tail"], eq(at["eta"], eta)))
    else:
        E.prove("by default a cubic kernel, a linear tail and a small regularization", b_and(at["kernel"].cls is I.get(K + kernels["cubic"]), at["tail"].cls is I.get(T + tails["linear"]), ge(at["eta"], 0), le(at["eta"], 1e-6)))
    E.prove("number of terms of the polynomial", eq(at["ntail"], add(d, 1) if t != "constant" else 1))
    E.prove("nothing is fitted", b_and(at["c"] is None, b_not(at["updated"]), eq(at["num_pts"], 0), eq(at["dim"], d)))


def units():
    from . import c15, c16
    more = [unit("constructor, %s" % (", ".join(c) if c else "default"), lambda I, c=c: construct(I, c)) for c in [None] + [(k, t) for k in ("cubic", "linear", "tps") for t in ("linear", "constant")]]
    r = [unit("_fit, from scratch", lambda I: fit(I, False), time=500), unit("_fit, extended or refitted", lambda I: fit(I, True), time=500), unit("_fit, up to date", nothing)]
    for f in ("point, float", "point, array", "matrix, vector", "matrix, column"):
        r.append(unit("add_points (%s)" % f, lambda I, f=f: c16.add(I, "RBF", f)))
    return r + more + [unit("reset", lambda I: c16.reset(I, "RBF")), unit("predict", c15.value)]
