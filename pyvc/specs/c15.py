"""C15: derivatives are the derivatives of the values.

Kernels and tails: the term computed by eval is differentiated symbolically and compared with the one computed by deriv.
RBFInterpolant: value and gradient are proved equal to the sums below, which the chain rule and d|x-p|/dx = (x-p)/|x-p| relate."""
from .common import *
from ..deriv import diff
from ..core import ufun
from ..algebra import prove_equal

K = "pySOT.surrogate.kernels."
T = "pySOT.surrogate.tails."
RBF = "pySOT.surrogate.rbf:RBFInterpolant"
EPS = 2.220446049250313e-16


def kernel(I, cls):
    E = I.E
    n, m = E.Int("n"), E.Int("m")
    E.assume(b_and(n >= 1, m >= 1))
    E.touch(n), E.touch(m)
    o = I.call(I.get(cls), [])
    x = mat(E, n, m, "dists")
    i, j = sk_int(E, "i", 0, n), sk_int(E, "j", 0, m)
    f0 = x.cell.fn
    v = I.call(I.getattr(o, "eval"), [x])
    x2 = A.new((n, m), f0, "f")
    w = I.call(I.getattr(o, "deriv"), [x2])
    E.prove("one value and one derivative per distance", b_and(eq(v.shape[0], n), eq(v.shape[1], m), eq(w.shape[0], n), eq(w.shape[1], m)))
    e = f0((i, j))
    r = E.Real("r")
    a, b = real(v.at(i, j)), real(w.at(i, j))
    a, b = z3.substitute(a, (e, r)), z3.substitute(b, (e, r))
    nm = e.decl().name()
    E.prove("value and derivative depend on their own distance only", not any(nm in str(t) for t in (a, b)))
    E.assume(gt(r, EPS))
    d = diff(a, lambda t: z3.RealVal(1) if t.eq(r) else None)
    prove_general(E, "the derivative of the kernel is that of its value", eq(b, d), [ufun("log", r)] if "log" in str(a) or "log" in str(b) else [], [gt(r, 0), gt(r, EPS)])


def tail(I, cls):
    E = I.E
    d = sym_dim(E)
    o = I.call(I.get(cls), [d])
    x = mat(E, 1, d, "x")
    f0 = x.cell.fn
    nt = o.attrs["dim_tail"]
    P = I.call(I.getattr(o, "eval"), [x])
    J = I.call(I.getattr(o, "deriv"), [A.new((1, d), f0, "f")])
    E.prove("shapes", b_and(eq(P.shape[0], 1), eq(P.shape[1], nt), eq(J.shape[0], d), eq(J.shape[1], nt)))
    j, k = sk_int(E, "j", 0, d), sk_int(E, "k", 0, nt)
    fn = f0((0, 0)).decl().name()
    p = real(P.at(0, k))
    dp = diff(p, lambda t: (z3.If(t.arg(1) == j, z3.RealVal(1), z3.RealVal(0)) if z3.is_app(t) and t.num_args() == 2 and t.decl().name() == fn else None))
    E.prove("the derivative of the tail is the Jacobian of its basis", eq(J.at(j, k), dp))


def points(I, cls):
    """Several points at once: rows are independent."""
    E = I.E
    d = sym_dim(E)
    n = E.Int("n")
    E.assume(n >= 1)
    E.touch(n)
    o = I.call(I.get(cls), [d])
    x = mat(E, n, d, "x")
    nt = o.attrs["dim_tail"]
    P = I.call(I.getattr(o, "eval"), [x])
    i, k = sk_int(E, "i", 0, n), sk_int(E, "k", 0, nt)
    y = A.new((1, d), lambda ix: x.at(i, ix[1]), "f")
    Q = I.call(I.getattr(o, "eval"), [y])
    E.prove("the basis is evaluated point by point", b_and(eq(P.shape[0], n), eq(P.at(i, k), Q.at(0, k))))


class W(object):
    def __init__(self, I):
        E = self.E = I.E
        d = self.d = sym_dim(E)
        lb, ub = self.lb, self.ub = box(E, d)
        n, k, nt = E.Int("n"), E.Int("k"), E.Int("ntail")
        E.assume(b_and(n >= 1, k >= 1, nt >= 1))
        for v in (n, k, nt):
            E.touch(v)
        self.n, self.k, self.nt = n, k, nt
        o = self.o = Obj(I.get(RBF))
        self.U = mat(E, n, d, "U", row=True)
        self.c = mat(E, simp(add(nt, n)), 1, "c")
        self.xx = mat(E, k, d, "xx", row=True)
        ker, tl = Obj(SType("kernel")), Obj(SType("tail"))
        ev = lambda nm: Builtin(nm, lambda D: I.np.ew(lambda x: ufun(nm, real(x)), D))
        ker.attrs.update(eval=ev("kernel_value"), deriv=ev("kernel_slope"))
        te, td = E.Func("tail_value", Pt, z3.IntSort(), z3.RealSort()), E.Func("tail_slope", Pt, z3.IntSort(), z3.IntSort(), z3.RealSort())
        self.te = lambda X, i, q: te(A.rows_of(X)(i), integer(q))
        self.td = lambda X, i, j, q: td(A.rows_of(X)(i), integer(j), integer(q))

        def tev(X):
            R = A.rows_of(X)
            return A.new((X.shape[0], nt), lambda ix: te(R(ix[0]), integer(ix[1])), "f")

        def tdv(X):
            R = A.rows_of(X)
            return A.new((d, nt), lambda ix: td(R(0), integer(ix[0]), integer(ix[1])), "f")
        tl.attrs.update(eval=Builtin("eval", tev), deriv=Builtin("deriv", tdv))
        o.attrs.update(dim=d, lb=lb, ub=ub, num_pts=n, _X=self.U, X=Opaque("X"), fX=Opaque("fX"), c=self.c, kernel=ker, tail=tl, ntail=nt, updated=True, eta=E.Real("eta"))
        I.contracts[RBF + "._fit"] = lambda I, f, a: None
        self.unit = I.call(I.get("pySOT.utils:to_unit_box"), [self.xx, lb, ub])

        def scaled(I, func, a):       # a function of its arguments (C13)
            prove_same(E, "the points are scaled by the bounds", a["x"], self.xx)
            E.prove("the points are scaled by the bounds", a["lb"] is lb and a["ub"] is ub)
            return self.unit
        I.contracts["pySOT.utils:to_unit_box"] = scaled
        self.dist = lambda i, t: I.np.D(A.rows_of(self.unit)(i), A.rows_of(self.U)(t))


def value(I):
    w = W(I)
    E, nt, n = w.E, w.nt, w.n
    r = I.call(I.getattr(w.o, "predict"), [w.xx])
    i = sk_int(E, "i", 0, w.k)
    E.touch(n), E.touch(nt)
    want = add(E.Sum(lambda t: mul(ufun("kernel_value", w.dist(i, t)), w.c.at(simp(add(nt, t)), 0)), n), E.Sum(lambda q: mul(w.te(w.unit, i, q), w.c.at(q, 0)), nt))
    E.prove("one value per point", b_and(eq(r.shape[0], w.k), eq(r.shape[1], 1)))
    prove_equal(E, "the prediction is the sum of the kernels and the tail in unit box coordinates", r.at(i, 0), want)


def gradient(I):
    w = W(I)
    E, nt, n, d = w.E, w.nt, w.n, w.d
    i, j = sk_int(E, "i", 0, w.k), sk_int(E, "j", 0, d)
    away = lambda t: b_imp(rng(t, n), ge(w.dist(i, t), EPS))
    E.assume_forall(("Int",), away, "away from the data points")
    g = I.call(I.getattr(w.o, "predict_deriv"), [w.xx])
    E.cover("the function returns")
    E.touch(n), E.touch(nt)
    E.prove("one gradient per point", b_and(eq(g.shape[0], w.k), eq(g.shape[1], d)))
    term = lambda t: div(mul(mul(ufun("kernel_slope", w.dist(i, t)), w.c.at(simp(add(nt, t)), 0)), sub(w.unit.at(i, j), w.U.at(t, j))), w.dist(i, t))
    s1, s2 = E.Sum(term, n), E.Sum(lambda q: mul(w.td(w.unit, i, j, q), w.c.at(q, 0)), nt)
    prove_equal(E, "the gradient is that of the prediction with respect to the original variables", g.at(i, j), div(add(s1, s2), sub(w.ub.at(j), w.lb.at(j))), known=[away])


def units():
    r = []
    for c, f in (("CubicKernel", "cubic_kernel"), ("LinearKernel", "linear_kernel"), ("TPSKernel", "tps_kernel")):
        r.append(unit(c, lambda I, c=c, f=f: kernel(I, K + f + ":" + c)))
    for c, f in (("ConstantTail", "constant_tail"), ("LinearTail", "linear_tail")):
        r.append(unit(c, lambda I, c=c, f=f: tail(I, T + f + ":" + c)))
        r.append(unit(c + ", several points", lambda I, c=c, f=f: points(I, T + f + ":" + c)))
    return r + [unit("RBFInterpolant.predict", value), unit("RBFInterpolant.predict_deriv", gradient, time=60)]
