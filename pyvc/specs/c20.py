"""C20: invalid configurations are rejected, valid ones accepted: check_opt_prob and the constructors of all strategies."""
from .common import *
from .strat import CLS as SCLS

CLS = dict(SCLS, SOP="pySOT.strategy.sop_strategy:SOPStrategy")
OP = "pySOT.optimization_problems:OptimizationProblem"
COP = "pySOT.utils:check_opt_prob"


# ---------------------------------------------------------------- the problem
def given(E, kind, name, n, dtype="f"):
    """An attribute of a problem: an array of symbolic length, or something else."""
    if kind == "array":
        return vec(E, n, name, dtype)
    if kind == "list":
        return PList([E.Real(name)] if dtype == "f" else [E.Int(name)])
    if kind == "empty list":
        return PList([])
    if kind == "none":
        return None
    if kind == "number":
        return E.Real(name)
    raise ValueError(kind)


def problem(I, dim="int", lb="array", ub="array", cont="array", ints="array", cls=True):
    E = I.E
    p = Obj(I.get(OP) if cls else SType("other"))
    d = E.Int("dim") if dim == "int" else {"real": E.Real("dim"), "none": None, "text": "3"}[dim]
    if is_z3(d):
        E.touch(d)
    w = {}
    for a, k, dt in (("lb", lb, "f"), ("ub", ub, "f"), ("cont_var", cont, "i"), ("int_var", ints, "i")):
        n = E.Int("n_" + a)
        E.assume(n >= 0)
        E.touch(n)
        w[a] = n if k == "array" else (1 if k == "list" else 0)
        p.attrs[a] = given(E, k, a, n, dt)
    p.attrs["dim"] = d
    p.attrs["eval"] = Builtin("eval", lambda x: E.prove("the objective is not evaluated", False))
    return p, d, w


def members(E, p, a):
    v = p.attrs[a]
    return A.enum_of(v).member if isinstance(v, Arr) else (lambda j: b_or(*[eq(x, j) for x in v.items]))


def valid_parts(E, p, d, w):
    """The conditions of the property, one by one."""
    lb, ub = p.attrs["lb"], p.attrs["ub"]
    mc, mi = members(E, p, "cont_var"), members(E, p, "int_var")
    at = lambda a, k: p.attrs[a].at(k) if isinstance(p.attrs[a], Arr) else 0
    return [("the dimension is positive", ge(d, 1)),
            ("the bounds have the dimension of the problem", b_and(eq(w["lb"], d), eq(w["ub"], d))),
            ("lower bounds are below upper bounds", (("Int",), lambda j: b_imp(rng(j, d), lt(lb.at(j), ub.at(j))))),
            ("the continuous variables are indices of variables", (("Int",), lambda k: b_imp(rng(k, w["cont_var"]), rng(at("cont_var", k), d)))),
            ("the integer variables are indices of variables", (("Int",), lambda k: b_imp(rng(k, w["int_var"]), rng(at("int_var", k), d)))),
            ("no variable is both", (("Int",), lambda j: b_not(b_and(mc(j), mi(j))))),
            ("every variable is one of them", (("Int",), lambda j: b_imp(rng(j, d), b_or(mc(j), mi(j))))),
            ("no variable is listed twice", eq(add(w["cont_var"], w["int_var"]), d))]


def check(I, cont, ints):
    E = I.E
    p, d, w = problem(I, cont=cont, ints=ints)
    E.unions = []
    frame = [(v, v.cell.fn) for v in p.attrs.values() if isinstance(v, Arr)]
    try:
        I.call(I.get(COP), [p])
        ok = True
    except PyExc as e:
        ok = False
    if ok:
        E.cover("a problem is accepted")
        u = E.unions[-1] if E.unions else None
        j = sk_int(E, "var", 0, d)
        if u is not None:
            for v in (u.at(j), u.at(0), u.at(simp(sub(u.shape[0], 1)))):
                E.touch(v)
                for a in ("cont_var", "int_var"):
                    if isinstance(p.attrs[a], Arr):
                        q = A.enum_of(p.attrs[a]).pos(v)
                        E.touch(q)
                        E.hint(p.attrs[a].at(q))
            E.lemma("the union of the index arrays has every variable in its place", eq(u.at(j), j))
        for lab, g in valid_parts(E, p, d, w):
            if lab == "every variable is one of them":
                g = g[1](j)
            E.prove("an accepted problem is valid: " + lab, g)
        E.prove("the problem is not modified", all(v.cell.fn is f for v, f in frame))
        return
    E.cover("a problem is rejected")
    for lab, g in valid_parts(E, p, d, w):
        E.assume_forall(g[0], g[1], lab) if isinstance(g, tuple) else E.assume(tobool(g))
    if E.unions:      # the union of index arrays that cover everything has at least as many elements as there are variables: induction over the positions
        pos = E.unions[-1].enum.pos
        E.prove("position of variable 0 in the union", ge(pos(0), 0))
        from ..loops import Scope
        with Scope(E):
            j = sk_int(E, "ind", 0, sub(d, 1))
            E.touch(simp(add(j, 1)))
            E.assume(ge(pos(j), j))
            E.prove("positions in the union grow with the variables", ge(pos(simp(add(j, 1))), simp(add(j, 1))))
        last = simp(sub(d, 1))
        E.touch(last)
        E.assume(tobool(ge(pos(last), last)))
        u = E.unions[-1]
        v = u.at(simp(sub(u.shape[0], 1)))
        for v in (v, u.at(0)):
            E.touch(v)
            for a in ("cont_var", "int_var"):
                if isinstance(p.attrs[a], Arr):
                    q = A.enum_of(p.attrs[a]).pos(v)
                    E.touch(q)
                    E.hint(p.attrs[a].at(q))
    E.prove("a rejected problem is invalid", False)


WRONG = [("dim", "real"), ("dim", "none"), ("dim", "text"), ("lb", "list"), ("lb", "none"), ("lb", "number"), ("ub", "list"), ("ub", "none"), ("ub", "number"),
         ("cont", "list"), ("cont", "none"), ("cont", "number"), ("ints", "list"), ("ints", "none"), ("ints", "number"), ("cls", False)]


def wrong_type(I, what, kind):
    E = I.E
    p, d, w = problem(I, **{what: kind})
    if what == "dim" and kind == "real":
        pass
    try:
        I.call(I.get(COP), [p])
        E.prove("a problem whose %s is %s is rejected" % (what, {"list": "a list", "none": "missing", "number": "a number", "real": "not an integer", "text": "a string", False: "not that of an OptimizationProblem"}[kind]), False)
    except PyExc as e:
        E.prove("a problem with an attribute of the wrong type is rejected", True)
    E.covered.setdefault("x", True)


# ---------------------------------------------------------------- the strategies
MAXK = ("integer", "real", "none", "text", "list")
SURK = ("gp", "rbf", "none", "other")
DESK = ("design", "other")
BATK = ("integer", "none")
CENK = ("integer", "real", "none", "text")
WK = ("default", "list", "array", "integers", "text")


def construct(I, which, asyn, wrong=None):
    """The constructor with every argument valid or invalid in value; `wrong`: an argument of a given kind, the others of the right kind."""
    E = I.E
    w = wrong or {}
    d = sym_dim(E)
    pk = w.get("problem", "problem")
    p, _, _ = problem(I, cls=pk != "other")
    p.attrs["dim"] = d
    lb, ub = box(E, d)
    iv = int_vars(E, d, lb=lb, ub=ub)
    p.attrs.update(lb=lb, ub=ub, int_var=iv, cont_var=Opaque("cont_var"))
    fine = E.Bool("the problem is valid")
    raised = []

    def cop(I, f, a):
        E.prove("the problem is the one that is checked", a["obj"] is p)
        if pk == "other" or not E.branch(fine):
            raised.append(1)
            raise PyExc("ValueError", "invalid problem")
        return None
    I.contracts[COP] = cop
    D, npts = E.Int("design_dim"), E.Int("num_pts")
    E.assume(b_and(D >= 1, npts >= 1))
    for v in (D, npts):
        E.touch(v)
    dk = w.get("design", "design")

    def gen(lb=None, ub=None, int_var=None):
        return mat(E, npts, D, "design", row=True)
    des = Obj(I.get("pySOT.experimental_design:ExperimentalDesign") if dk == "design" else SType("other"))
    des.attrs.update(dim=D, num_pts=npts, generate_points=Builtin("generate_points", gen))
    sk = w.get("surrogate", "gp" if which in ("EI", "LCB") else "rbf")
    if sk in ("gp", "rbf"):
        s = Obj(I.get("pySOT.surrogate:GPRegressor" if sk == "gp" else "pySOT.surrogate:RBFInterpolant"))
        s.attrs.update(reset=Builtin("reset", lambda: None), add_points=Builtin("add_points", lambda xx, fx: None))
    else:
        s = None if sk == "none" else Obj(SType("other"))
        if s is not None:
            s.attrs.update(reset=Builtin("reset", lambda: None), add_points=Builtin("add_points", lambda xx, fx: None))
    mk = w.get("max_evals", "integer")
    mx = {"integer": lambda: E.Int("max_evals"), "real": lambda: E.Real("max_evals"), "none": lambda: None, "text": lambda: "100", "list": lambda: PList([100])}[mk]()
    bk = w.get("batch_size", "integer")
    b = E.Int("batch_size") if bk == "integer" else None
    kw = dict(max_evals=mx, opt_prob=p, exp_design=des, surrogate=s, asynchronous=asyn, batch_size=b)
    ok = [fine if pk != "other" else False, dk == "design", sk == "gp" if which in ("EI", "LCB") else sk in ("gp", "rbf"),
          b_and(ge(mx, 1), ge(mx, npts)) if mk == "integer" else False, eq(D, d), bool(asyn or b is not None)]
    if bk == "integer":
        E.assume(b >= 1)      # a batch is a positive number of points
        E.touch(b)
    if which in ("EI", "LCB"):
        kw["dtol"] = E.Real("dtol")
    if which == "SOP":
        ck = w.get("ncenters", "integer")
        nc = {"integer": lambda: E.Int("ncenters"), "real": lambda: E.Real("ncenters"), "none": lambda: None, "text": lambda: "5"}[ck]()
        kw["ncenters"] = nc
        ok.append(ge(nc, 4) if ck == "integer" else False)
        if not asyn and b is not None and ck == "integer":
            ok.append(le(b, nc))
    if which in ("SRBF", "DYCORS"):
        wk = w.get("weights", "default")
        if wk in ("list", "array"):
            m = 1 + E.choose(3)
            ws = [E.Real("weight") for _ in range(m)]
            ok += [b_and(ge(x, 0), le(x, 1)) for x in ws]
            kw["weights"] = PList(ws) if wk == "list" else A.from_list(ws)
        elif wk == "integers":
            kw["weights"] = PList([E.Real("weight"), "1"])
            ok.append(False)
        elif wk == "text":
            kw["weights"] = "0.5"
            ok.append(False)
        elif wk == "number":
            kw["weights"] = E.Real("weights")
            ok.append(False)
    good = b_and(*ok)
    try:
        I.call(I.get(CLS[which]), [], kw)
        done = True
    except PyExc as e:
        done = False
    if done:
        E.cover("a configuration is accepted") if not wrong else None
        E.prove("an accepted configuration is valid", good)
    else:
        E.cover("a configuration is rejected")
        E.prove("a rejected configuration is invalid", b_not(good))


def wrongs(which):
    r = [{"max_evals": k} for k in MAXK[1:]] + [{"surrogate": k} for k in SURK if k != ("gp" if which in ("EI", "LCB") else "rbf")] + [{"design": "other"}, {"problem": "other"}, {"batch_size": "none"}]
    if which == "SOP":
        r += [{"ncenters": k} for k in CENK[1:]]
    if which in ("SRBF", "DYCORS"):
        r += [{"weights": k} for k in ("list", "array", "integers", "text", "number")]
    return r


def several(I, which, asyn, ws):
    construct(I, which, asyn, ws[I.E.choose(len(ws))])


def random_strategy(I, mk):
    E = I.E
    p, d, _ = problem(I)
    d = sym_dim(E)
    lb, ub = box(E, d)
    p.attrs.update(dim=d, lb=lb, ub=ub, int_var=int_vars(E, d, lb=lb, ub=ub), cont_var=Opaque("cont_var"))
    fine = E.Bool("the problem is valid")

    def cop(I, f, a):
        E.prove("the problem is the one that is checked", a["obj"] is p)
        if not E.branch(fine):
            raise PyExc("ValueError", "invalid problem")
        return None
    I.contracts[COP] = cop
    mx = {"integer": lambda: E.Int("max_evals"), "real": lambda: E.Real("max_evals"), "none": lambda: None, "text": lambda: "100", "list": lambda: PList([100])}[mk]()
    I.contracts["pySOT.strategy.random_strategy:RandomStrategy.propose_eval"] = lambda I, f, a: Opaque("proposal")
    I.contracts["poap.strategy:RetryStrategy.rput"] = lambda I, f, a: None
    I.contracts["pySOT.utils:round_vars"] = lambda I, f, a: a["x"]
    I.loopspecs = {("pySOT.strategy.random_strategy:RandomStrategy.__init__", lambda src: "rput" in src): LoopSpec(lambda ctx: [], lambda ctx: None)}
    good = b_and(fine, ge(mx, 1) if mk == "integer" else False)
    try:
        I.call(I.get("pySOT.strategy.random_strategy:RandomStrategy"), [mx, p])
        E.prove("an accepted configuration is valid", good)
    except PyExc:
        E.prove("a rejected configuration is invalid", b_not(good))


def units():
    r = []
    for cont in ("array", "empty list"):
        for ints in ("array", "empty list")[:2 if cont == "array" else 1]:      # both empty: no problem is valid (no dimension); covered by the arrays of length zero
            r.append(unit("check_opt_prob, continuous: %s, integer: %s" % (cont, ints), lambda I, c=cont, i=ints: check(I, c, i)))
    for what, kind in WRONG:
        r.append(unit("check_opt_prob, %s of the wrong type (%s)" % (what, kind), lambda I, a=what, k=kind: wrong_type(I, a, k)))
    for which in ("SRBF", "DYCORS", "EI", "LCB", "SOP"):
        for asyn in (True, False):
            nm = "%s, %s" % (which, "asynchronous" if asyn else "synchronous")
            r.append(unit(nm, lambda I, a=which, b=asyn: construct(I, a, b)))
            r.append(unit(nm + ", an argument of another kind", lambda I, a=which, b=asyn: several(I, a, b, wrongs(a))))
    for k in MAXK:
        r.append(unit("RandomStrategy, budget: %s" % k, lambda I, k=k: random_strategy(I, k)))
    return r
