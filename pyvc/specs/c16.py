"""C16: the data of a surrogate (Surrogate.__init__, reset, add_points), the data its predictions are based on (_fit, predict,
predict_std, predict_deriv of the regressors), and the frame of kernels, tails and output transformations.

The external regressors are replaced by contracts: fit(X, y) makes the model one of exactly (X, y); predict reads only.  An output
transformation is assumed to be a function of the values it is given, which may scribble over the array it is given."""
from .common import *

SUR = "pySOT.surrogate.surrogate:Surrogate"
CLS = {"GP": "pySOT.surrogate.gp:GPRegressor", "Poly": "pySOT.surrogate.poly:PolyRegressor", "RBF": "pySOT.surrogate.rbf:RBFInterpolant",
       "MARS": "pySOT.surrogate.mars:MARSInterpolant"}


class S(object):
    """A surrogate in any state that satisfies the invariant."""

    def __init__(self, I, which):
        self.I, self.which = I, which
        E = self.E = I.E
        d = self.d = sym_dim(E)
        self.lb, self.ub = box(E, d)
        o = self.o = Obj(I.get(CLS[which]))
        self.T = Builtin("output_transformation", self.transform)
        self.tcalls, self.fits, self.preds = [], [], []
        I.call(I.getattr(I.get(SUR), "__init__"), [o, d, self.lb, self.ub], dict(output_transformation=self.T))
        self.fresh("after construction")
        at = o.attrs
        n = self.n = E.Int("n")
        E.assume(n >= 0)
        E.touch(n)
        self.X, self.fX, self.U = mat(E, n, d, "X"), mat(E, n, 1, "fX"), mat(E, n, d, "U", row=True)
        E.assume_forall(("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, n), rng(j, d)), eq(self.U.at(i, j), self.unit(self.X.at(i, j), j))), "unit box coordinates")
        at.update(X=self.X, fX=self.fX, _X=self.U, num_pts=n, updated=E.Bool("updated"))
        if which == "RBF":
            for a in ("L", "U", "piv", "c", "A"):
                at[a] = Opaque(a)
            at["kernel"], at["tail"], at["ntail"], at["eta"] = Opaque("kernel"), Opaque("tail"), E.Int("ntail"), E.Real("eta")
        else:
            m = Obj(SType("model"))
            m.attrs.update(fit=Builtin("fit", self.fit), predict=Builtin("predict", self.predict), predict_deriv=Builtin("predict_deriv", self.predict_deriv))
            at["model"] = m
            self.model = m
            at["_mu"], at["_sigma"] = E.Real("mu"), E.Real("sigma")
        self.args = [self.lb, self.ub]
        self.fn0 = [(a, a.cell.fn) for a in (self.X, self.fX, self.U, self.lb, self.ub)]

    def unit(self, x, j):
        return div(sub(x, self.lb.at(j)), sub(self.ub.at(j), self.lb.at(j)))

    def fresh(self, when):
        at, E = self.o.attrs, self.E
        E.prove("%s: no data" % when, b_and(eq(at["num_pts"], 0), eq(at["X"].shape[0], 0), eq(at["X"].shape[1], self.d), eq(at["_X"].shape[0], 0), eq(at["fX"].shape[0], 0), eq(at["fX"].shape[1], 1)))
        E.prove("%s: the model has to be fitted" % when, b_not(at["updated"]))
        E.prove("%s: configuration" % when, b_and(eq(at["dim"], self.d), at["lb"] is self.lb, at["ub"] is self.ub, at["output_transformation"] is self.T))

    def transform(self, y):
        E = self.E
        f = y.fn()
        n, m = y.shape
        self.tcalls.append((f, n, y))
        t = E.Func("transformed", z3.IntSort(), z3.IntSort(), z3.RealSort())
        scrap = E.Func("scrap", z3.IntSort(), z3.IntSort(), z3.RealSort())
        if y.dims is not None:
            raise Unsupported("transformation of a view")
        A.write(y.cell, lambda ix: scrap(integer(ix[0]), integer(ix[1])), None)
        self.t = t
        return A.new((n, m), lambda ix: t(integer(ix[0]), integer(ix[1])), "f")

    def fit(self, X, y, **k):
        self.fits.append((X.fn(), X.shape, y.fn(), y.shape))
        return self.model

    def predict(self, xx, return_std=False):
        E = self.E
        self.preds.append((xx.fn(), xx.shape))
        k = xx.shape[0]
        f, g = E.Func("pred", z3.IntSort(), z3.RealSort()), E.Func("pstd", z3.IntSort(), z3.RealSort())
        self.pf, self.pg = f, g
        r = A.new((k, 1) if self.which == "Poly" else (k,), lambda ix: f(integer(ix[0])), "f")
        return (r, A.new((k,), lambda ix: g(integer(ix[0])), "f")) if return_std is True else r

    def predict_deriv(self, xx, variables=None):
        E = self.E
        self.preds.append((xx.fn(), xx.shape))
        k = xx.shape[0]
        f = E.Func("pder", z3.IntSort(), z3.IntSort(), z3.RealSort())
        self.pd = f
        return PList([A.new((k, self.d), lambda ix: f(integer(ix[0]), integer(ix[1])), "f")])

    def data_kept(self, what):
        at, E = self.o.attrs, self.E
        for k, v, n in (("X", self.X, "points"), ("fX", self.fX, "values"), ("_X", self.U, "scaled points")):
            E.prove("%s does not change the stored %s" % (what, n), at[k] is v or (isinstance(at[k], Arr) and at[k].cell.fn is v.cell.fn))
        E.prove("%s does not change the number of points" % what, eq(at["num_pts"], self.n))
        E.prove("%s does not modify arrays" % what, all(a.cell.fn is f for a, f in self.fn0))
        for k, v in (("lb", self.lb), ("ub", self.ub), ("output_transformation", self.T)):
            E.prove("%s keeps the configuration" % what, at[k] is v)


def add(I, which, form):
    s = S(I, which)
    E, d, at = s.E, s.d, s.o.attrs
    one = form in ("point, float", "point, array")
    m = 1 if one else E.Int("m")
    if not one:
        E.assume(m >= 1)
        E.touch(m)
    if one:
        xx = vec(E, d, "x")
        xat = lambda i, j: xx.at(j)
    else:
        xx = mat(E, m, d, "xx")
        xat = lambda i, j: xx.at(i, j)
    if form == "point, float":
        fx = E.Real("v")
        fat = lambda i: fx
    elif form == "matrix, column":
        fx = mat(E, m, 1, "fx")
        fat = lambda i: fx.at(i, 0)
    else:
        fx = vec(E, m, "fx")
        fat = lambda i: fx.at(i)
    fr = [(a, a.cell.fn) for a in (xx, fx) if isinstance(a, Arr)]
    old = dict(at)
    I.call(I.getattr(s.o, "add_points"), [xx, fx])
    n = s.n
    X, F, U = at["X"], at["fX"], at["_X"]
    N = add_(n, m)
    E.prove("points and values are appended", b_and(eq(X.shape[0], N), eq(F.shape[0], N), eq(U.shape[0], N), eq(X.shape[1], d), eq(U.shape[1], d), eq(F.shape[1], 1), eq(at["num_pts"], N)))
    i, k, j = sk_int(E, "i", 0, n) if not E.must(eq(n, 0)) else 0, sk_int(E, "k", 0, m), sk_int(E, "j", 0, d)
    nk = simp(add_(n, k))
    E.prove("new points follow in order", eq(X.at(nk, j), xat(k, j)))
    E.prove("new values follow in order", eq(F.at(nk, 0), fat(k)))
    E.prove("earlier points are kept", eq(X.at(i, j), s.X.at(i, j)))
    E.prove("earlier values are kept", eq(F.at(i, 0), s.fX.at(i, 0)))
    E.prove("scaled points are those of the points", b_and(eq(U.at(nk, j), s.unit(xat(k, j), j)), eq(U.at(i, j), s.unit(s.X.at(i, j), j))))
    E.prove("the model has to be fitted again", b_not(at["updated"]))
    E.prove("adding points modifies no array passed or stored", all(a.cell.fn is f for a, f in fr + s.fn0))
    E.prove("the stored arrays are not those passed", all(X.cell is not a.cell and F.cell is not a.cell for a, _ in fr))
    for k_ in old:
        if k_ not in ("X", "fX", "_X", "num_pts", "updated"):
            E.prove("adding points changes only the data", at[k_] is old[k_])
    E.prove("adding points does not fit", not s.fits)


from ..core import add as add_     # noqa (the unit above is called add)


def reset(I, which):
    s = S(I, which)
    I.call(I.getattr(s.o, "reset"), [])
    s.fresh("after a reset")
    at = s.o.attrs
    if which == "RBF":
        s.E.prove("after a reset: no factorization or coefficients", at["L"] is None and at["U"] is None and at["piv"] is None and at["c"] is None)
    s.E.prove("a reset modifies no array", all(a.cell.fn is f for a, f in s.fn0))


def predict(I, which, meth, single):
    s = S(I, which)
    E, d, at = s.E, s.d, s.o.attrs
    k = E.Int("k")
    E.assume(k >= 1)
    E.touch(k)
    if single:
        k = 1
        xx = vec(E, d, "xx")
        xat = lambda i, j: xx.at(j)
    else:
        xx = mat(E, k, d, "xx")
        xat = lambda i, j: xx.at(i, j)
    x0 = xx.cell.fn
    upd = at["updated"]
    old = dict(at)
    stats = []
    if which == "GP":
        def stat(nm):
            def h(y, axis=None):
                stats.append((nm, y.fn(), y.shape))
                v = E.Real(nm)
                E.assume(v >= 0) if nm == "std" else None
                stats[-1] += (v,)
                return v
            return h
        I.np.extra["numpy.mean"], I.np.extra["numpy.std"] = stat("mean"), stat("std")
    r = I.call(I.getattr(s.o, meth), [xx])
    s.data_kept(meth)
    E.prove("%s does not modify its argument" % meth, xx.cell.fn is x0)
    E.prove("%s leaves the model fitted" % meth, at["updated"])
    i, j, t = sk_int(E, "i", 0, k), sk_int(E, "j", 0, d), E.Int("t")
    E.touch(t)
    if s.fits:
        E.cover("a fit")
        E.prove("one fit", len(s.fits) == 1)
        Xf, Xs, yf, ys = s.fits[0]
        E.prove("the model is fitted to all current points in unit box coordinates", b_and(eq(Xs[0], s.n), eq(Xs[1], d), b_imp(rng(t, s.n), eq(Xf((t, j)), s.unit(s.X.at(t, j), j)))))
        E.prove("one transformation of the values", len(s.tcalls) == 1)
        tf, tn, arr = s.tcalls[0]
        E.prove("the transformation is given a copy of all current values", b_and(arr.cell is not s.fX.cell, eq(tn, s.n), b_imp(rng(t, s.n), eq(tf((t, 0)), s.fX.at(t, 0)))))
        E.prove("as many values as points", eq(ys[0], s.n))
        y = yf((t, 0)) if len(ys) == 2 else yf((t,))
        ty = s.t(t, 0)
        if which == "GP":
            mu, sg = at["_mu"], at["_sigma"]
            E.prove("the scale of the values is positive", gt(sg, 0))
            E.prove("the model is fitted to the shifted and scaled transformed values", b_imp(rng(t, s.n), eq(y, div(sub(ty, mu), sg))))
        else:
            E.prove("the model is fitted to the transformed values", b_imp(rng(t, s.n), eq(y, ty)))
    else:
        E.cover("no fit")
        E.prove("a model that is not up to date is fitted", upd)
        if which == "GP":
            E.prove("mean and deviation belong to the fitted model", b_and(eq(at["_mu"], old["_mu"]), eq(at["_sigma"], old["_sigma"])))
    E.prove("one prediction of the model", len(s.preds) == 1)
    pf, ps = s.preds[0]
    E.prove("the model predicts at the points given in unit box coordinates", b_and(eq(ps[0], k), eq(ps[1], d), eq(pf((i, j)), s.unit(xat(i, j), j))))
    if meth == "predict_deriv":
        E.prove("derivatives with respect to the original variables", eq(r.at(i, j), div(s.pd(i, j), sub(s.ub.at(j), s.lb.at(j)))))
        E.prove("one row per point", b_and(eq(r.shape[0], k), eq(r.shape[1], d)))
        return
    E.prove("one value per point", b_and(len(r.shape) == 2, eq(r.shape[0], k), eq(r.shape[1], 1)))
    v = s.pg(i) if meth == "predict_std" else s.pf(i)
    if which == "GP":
        v = mul(at["_sigma"], v)
        if meth == "predict":
            v = add_(at["_mu"], v)
    E.prove("the prediction is that of the model", eq(r.at(i, 0), v))


def rbf_frame(I, meth):
    """Predictions of the RBF interpolant (what they are is C14 and C15): the data stays, the model is fitted if needed."""
    s = S(I, "RBF")
    E, d, at = s.E, s.d, s.o.attrs
    k = E.Int("k")
    E.assume(k >= 1)
    E.touch(k)
    xx = mat(E, k, d, "xx", row=True)
    x0 = xx.cell.fn
    fits = []
    nt = at["ntail"]
    E.assume(nt >= 1)

    def fit(I, func, a):
        fits.append(1)
        at["updated"] = True
        at["c"] = mat(E, add_(nt, s.n), 1, "c")
        return None
    I.contracts[CLS["RBF"] + "._fit"] = fit
    ker = Obj(SType("kernel"))
    ev = lambda nm: Builtin(nm, lambda D: I.np.ew(lambda x: ufun(nm, real(x)), D))
    ker.attrs.update(eval=ev("phi_kernel"), deriv=ev("dphi_kernel"))
    tail = Obj(SType("tail"))
    te = E.Func("tail", z3.IntSort(), z3.IntSort(), z3.RealSort())
    tail.attrs.update(eval=Builtin("eval", lambda X: A.new((X.shape[0], nt), lambda ix: te(integer(ix[0]), integer(ix[1])), "f")),
                      deriv=Builtin("deriv", lambda X: A.new((d, nt), lambda ix: te(integer(ix[0]), integer(ix[1])), "f")))
    at["kernel"], at["tail"] = ker, tail
    E.assume(at["updated"]) if False else None
    r = I.call(I.getattr(s.o, meth), [xx])
    E.prove("%s asks for a fit before it uses the coefficients" % meth, len(fits) >= 1)
    s.data_kept(meth)
    E.prove("%s does not modify its argument" % meth, xx.cell.fn is x0)


def median(I):
    E = I.E
    n = E.Int("n")
    E.assume(n >= 1)
    E.touch(n)
    x = mat(E, n, 1, "x")
    f0 = x.cell.fn
    seen = []

    def med(y, axis=None):
        seen.append((y.fn(), y.shape))
        v = E.Real("median")
        seen[-1] += (v,)
        return v
    I.np.extra["numpy.median"] = med
    r = I.call(I.get("pySOT.surrogate.output_transformations.median_capping:median_capping"), [x])
    E.prove("the median is that of all values", len(seen) == 1)
    i = sk_int(E, "i", 0, n)
    f, sh, m = seen[0]
    E.prove("the median is that of all values", b_and(eq(sh[0], n), eq(f((i, 0)), f0((i, 0)))))
    E.prove("values above the median become the median, others are kept", b_and(eq(r.shape[0], n), eq(r.at(i, 0), smin(f0((i, 0)), m))))
    E.prove("the values passed are not modified", x.cell.fn is f0 and r.cell is not x.cell)


def ident(I):
    x = mat(I.E, I.E.Int("n"), 1, "x")
    f0 = x.cell.fn
    r = I.call(I.get("pySOT.surrogate.output_transformations.identity:identity"), [x])
    I.E.prove("identity returns the values", isinstance(r, Arr) and r.cell.fn is f0 and x.cell.fn is f0)


def pure(I, cls, meth, dim):
    E = I.E
    n, m = E.Int("n"), E.Int("m")
    E.assume(b_and(n >= 1, m >= 1))
    E.touch(n), E.touch(m)
    o = I.call(I.get(cls), [m] if dim else [])
    x = mat(E, n, m, "D")
    f0 = x.cell.fn
    r = I.call(I.getattr(o, meth), [x])
    E.prove("%s does not modify its argument" % meth, x.cell.fn is f0)


def units():
    r = []
    for w in ("RBF", "GP", "Poly", "MARS"):
        for f in ("point, float", "point, array", "matrix, vector", "matrix, column"):
            r.append(unit("%s: add_points (%s)" % (w, f), lambda I, w=w, f=f: add(I, w, f)))
        r.append(unit("%s: reset" % w, lambda I, w=w: reset(I, w)))
    for w, ms in (("GP", ("predict", "predict_std")), ("Poly", ("predict",)), ("MARS", ("predict", "predict_deriv"))):
        for m in ms:
            for one in (False, True):
                r.append(unit("%s: %s (%s)" % (w, m, "one point" if one else "points"), lambda I, w=w, m=m, one=one: predict(I, w, m, one)))
    for m in ("predict", "predict_deriv"):
        r.append(unit("RBF: %s" % m, lambda I, m=m: rbf_frame(I, m)))
    r += [unit("median_capping", median), unit("identity", ident)]
    K = "pySOT.surrogate.kernels."
    for c, f in (("CubicKernel", "cubic_kernel"), ("LinearKernel", "linear_kernel"), ("TPSKernel", "tps_kernel")):
        for m in ("eval", "deriv"):
            r.append(unit("%s.%s" % (c, m), lambda I, c=c, f=f, m=m: pure(I, K + f + ":" + c, m, False)))
    K2 = "pySOT.surrogate.tails."
    for c, f in (("ConstantTail", "constant_tail"), ("LinearTail", "linear_tail")):
        for m in ("eval", "deriv"):
            r.append(unit("%s.%s" % (c, m), lambda I, c=c, f=f, m=m: pure(I, K2 + f + ":" + c, m, True)))
    return r
