"""C06: experimental designs."""
from .common import *
from .cand import problem, feasible, round_contract, RV

ED = "pySOT.experimental_design."
SL = ED + "slhd:SymmetricLatinHypercube"
LH = ED + "lhd:LatinHypercube"
TF = ED + "two_factorial:TwoFactorial"


def level(n, v, i, c):
    """The entry is a level, but not the middle one."""
    a = v(i, c)
    return b_and(is_integral(a), le(1, a), le(a, n), ne(mul(2, a), add(n, 1)))


def apart(n, v, i, k, c):
    """Two rows of the upper half: neither equal nor mirror images."""
    return b_and(ne(v(i, c), v(k, c)), ne(add(v(i, c), v(k, c)), add(n, 1)))


def slhd(I, odd):
    """The generator of symmetric designs, for any number of points and variables."""
    E = I.E
    d, h = sym_dim(E), E.Int("half")
    E.assume(h >= 1)
    E.touch(h)
    n = simp(add(mul(2, h), 1)) if odd else simp(mul(2, h))
    mid = h
    E.touch(n), E.touch(simp(sub(n, 1)))
    D = I.call(I.get(SL), [d, n])

    def columns(ctx):
        pts, t = ctx["points"], ctx.t
        v = lambda i, c: pts.at(i, c)
        r = [("size of the design", len(pts.shape) == 2 and b_and(eq(pts.shape[0], n), eq(pts.shape[1], d))),
             ("upper halves of the columns done: levels", (("Int", "Int"), lambda i, c: b_imp(b_and(rng(i, mid), rng(c, d), lt(c, add(t, 1))), level(n, v, i, c)))),
             ("upper halves of the columns done: rows apart", (("Int", "Int", "Int"), lambda i, k, c: b_imp(b_and(rng(i, mid), rng(k, mid), ne(i, k), rng(c, d), lt(c, add(t, 1))), apart(n, v, i, k, c))))]
        if odd:
            r.append(("the middle row", (("Int",), lambda c: b_imp(rng(c, d), b_and(is_integral(v(mid, c)), eq(v(mid, c), add(mid, 1)))))))
        return r

    I.loopspecs = {(SL + "._slhd", lambda src: "shuffle" in src): LoopSpec(columns, lambda ctx: ctx.havoc_cell(ctx["points"], "pts"))}

    def rows(ctx):
        pts, t = ctx["points"], ctx.t
        old = ctx.pre_state[id(pts.cell)][1]
        v = lambda i, c: pts.at(i, c)
        return [("lower half", (("Int", "Int"), lambda i, c: b_imp(b_and(ge(i, mid), lt(i, add(mid, t)), rng(c, d)), eq(v(i, c), sub(add(n, 1), old((simp(sub(sub(n, 1), i)), c))))))),
                ("integers stay integers", (("Int", "Int"), lambda i, c: b_imp(b_and(ge(i, mid), lt(i, add(mid, t)), rng(c, d), is_integral(old((simp(sub(sub(n, 1), i)), c)))), is_integral(v(i, c))))),
                ("rest unchanged", (("Int", "Int"), lambda i, c: b_imp(b_and(rng(i, n), b_or(lt(i, mid), ge(i, add(mid, t))), rng(c, d)), eq(v(i, c), old((i, c))))))]
    I.loopspecs[(SL + "._slhd", lambda src: "random" not in src)] = LoopSpec(rows, lambda ctx: ctx.havoc_cell(ctx["points"], "pts"))
    try:
        P = I.call(I.getattr(D, "_slhd"), [])
    except PyExc as e:
        E.prove("the design is generated (%s)" % e.args[0], False)
        return
    E.cover("the design is generated")
    E.prove("the design has the requested size", isinstance(P, Arr) and len(P.shape) == 2 and b_and(eq(P.shape[0], n), eq(P.shape[1], d)))
    i, k, c = sk_int(E, "row", 0, n), sk_int(E, "row2", 0, n), sk_int(E, "col", 0, d)
    for x in (i, k):
        E.touch(simp(sub(sub(n, 1), x)))
    x, y, z = P.at(i, c), P.at(simp(sub(sub(n, 1), i)), c), P.at(k, c)
    m = simp(sub(n, 1))
    N = E.Real("levels")
    E.assume(eq(N, m))
    E.assume(N >= 1)
    lx, lz, ly = mul(x, m), mul(z, m), mul(y, m)
    scaled(E, "the design is symmetric about the center", (P, i, simp(sub(sub(n, 1), i)), c), m, lambda a, b: eq(add(a, b), m), eq(add(x, y), 1))
    scaled(E, "every entry is a level", (P, i, k, c), m, lambda a, b: b_and(is_integral(a), ge(a, 0), le(a, m)), b_and(is_integral(lx), ge(x, 0), le(x, 1)))
    E.assume(ne(i, k))
    scaled(E, "no level occurs twice in a column", (P, i, k, c), m, lambda a, b: ne(a, b), ne(x, z))


def scaled(E, name, pt, m, before, after):
    """The entries are a/m: the statement about the entries follows from the one about the numerators."""
    P, i, k, c = pt
    a, b = numerator(P.at(i, c), m), numerator(P.at(k, c), m)
    if a is None or b is None:
        E.prove(name, after)
        return
    if E.lemma(name + " (numerators)", before(a, b)):
        E.prove(name, after)


def numerator(t, m):
    """a if t is the term a / m"""
    if is_z3(t) and z3.is_div(t) and z3.simplify(t.arg(1) - z3.ToReal(integer(m))).eq(z3.RealVal(0)):
        return t.arg(0)
    return None


def hypercube(I):
    """The generator of pyDOE2, interpreted from its installed source, called as the design calls it."""
    E = I.E
    d, n = sym_dim(E), E.Int("num_pts")
    E.assume(n >= 1)
    E.touch(n)
    X = "pyDOE2.doe_lhs"
    lhs = I.get_ext(X, "lhs")
    D = I.call(I.get(LH), [d, n])
    rs = Obj(SType("RandomState"))
    ORD, INV = E.Func("order", z3.IntSort(), z3.IntSort(), z3.IntSort()), E.Func("place", z3.IntSort(), z3.IntSort(), z3.IntSort())
    U = {}

    def rand(*shape):
        U["u"] = I.np.rnd_arr(shape, "f", lambda ix, v: b_and(v >= 0, v < 1))
        return U["u"]

    def permutation(a):
        a = A.copy(I.np.arr(a))
        E.prove("a whole column is shuffled", b_and(len(a.shape) == 1, eq(a.shape[0], n)))
        t, f = integer(U["column"]), a.fn()
        E.assume_forall(("Int",), lambda i: b_imp(rng(i, n), b_and(rng(ORD(t, i), n), INV(t, ORD(t, i)) == i)), "permutation")
        return A.new((n,), lambda ix: f((ORD(t, integer(ix[0])),)), a.dtype)
    rs.attrs.update(rand=Builtin("rand", rand), permutation=Builtin("permutation", permutation), random_sample=Builtin("random_sample", lambda s: rand(*s)))
    I.np.extra["numpy.random.RandomState"] = lambda *a: rs
    st = lambda v, i: b_and(le(div(i, n), v), lt(v, div(add(i, 1), n)))

    def strata(ctx):
        p, t = ctx["rdpoints"], ctx.t
        if ctx.stage == "head":
            E.touch(t)
        return [("size", b_and(eq(p.shape[0], n), eq(p.shape[1], d))),
                ("columns so far: one point in each stratum, in order", (("Int", "Int"), lambda i, c: b_imp(b_and(rng(i, n), rng(c, d), lt(c, t)), st(p.at(i, c), i))))]

    def pairings(ctx):
        p, H, t = ctx["rdpoints"], ctx["H"], ctx.t
        U["column"] = t
        return [("size", b_and(eq(H.shape[0], n), eq(H.shape[1], d))),
                ("columns so far: a permutation", (("Int", "Int"), lambda i, c: b_imp(b_and(rng(i, n), rng(c, d), lt(c, t)), b_and(rng(ORD(c, i), n), INV(c, ORD(c, i)) == i)))),
                ("columns so far: each point in the stratum of its place", (("Int", "Int"), lambda i, c: b_imp(b_and(rng(i, n), rng(c, d), lt(c, t)), st(H.at(i, c), ORD(c, i)))))]
    q = X + ":_lhsclassic"
    I.loopspecs = {(q, lambda src: "permutation" not in src): LoopSpec(strata, lambda ctx: ctx.havoc_cell(ctx["rdpoints"], "rd")),
                   (q, lambda src: "permutation" in src): LoopSpec(pairings, lambda ctx: ctx.havoc_cell(ctx["H"], "H"))}
    H = I.call(lhs, [D.attrs["dim"], D.attrs["num_pts"]], dict(iterations=1))
    E.cover("the hypercube is generated")
    E.prove("size", b_and(eq(H.shape[0], n), eq(H.shape[1], d)))
    i, k, c = sk_int(E, "row", 0, n), sk_int(E, "row2", 0, n), sk_int(E, "col", 0, d)
    E.hint(ORD(c, i), ORD(c, k))
    x = H.at(i, c)
    E.prove("every entry lies in the stratum of its place", b_and(rng(ORD(c, i), n), st(x, ORD(c, i))))
    E.assume(ne(i, k))
    E.prove("no stratum occurs twice in a column", ne(ORD(c, i), ORD(c, k)))
    a, N = E.Real("place"), E.Real("points")
    E.assume(b_and(eq(N, n), eq(a, ORD(c, i)), 0 <= a, a + 1 <= N))
    prove_general(E, "the hypercube lies in the unit cube", b_and(le(0, x), le(x, 1)), [real(x)], [b_and(a >= 0, a + 1 <= N, N >= 1, real(x) * N >= a, real(x) * N < a + 1)])


# ------------------------------------------------------------ selection
class Rank(object):
    def __init__(self):
        self.seen = []


def select(I, which, mapped, ints, tail):
    """generate_points of the two hypercube designs: selection of the best of any number of designs."""
    E = I.E
    d, n, its = sym_dim(E), E.Int("num_pts"), E.Int("iterations")
    E.assume(b_and(n >= 1, its >= 0))
    E.touch(n)
    p = problem(E, d, ints)
    lb, ub, iv = p.attrs["lb"], p.attrs["ub"], p.attrs["int_var"]
    frame = [(a, a.cell.fn) for a in (lb, ub, iv)]
    gens, seen, maps = [], [], []

    def gen_contract(M):
        E.assume_forall(("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, n), rng(j, d)), b_and(le(0, M.at(i, j)), le(M.at(i, j), 1))), "the generator works in the unit cube")
        gens.append(M)
        return M
    D = I.call(I.get(SL if which == "slhd" else LH), [d, n], dict(iterations=its))
    if which == "slhd":
        I.contracts[SL + "._slhd"] = lambda I, f, a: gen_contract(mat(E, n, d, "gen", row=True))
    else:
        def lhs(nv, samples=None, criterion=None, iterations=None, random_state=None, correlation_matrix=None):
            E.prove("a hypercube of the requested size is generated", b_and(eq(nv, d), samples is not None and eq(samples, n)))
            return gen_contract(mat(E, n, d, "gen", row=True))
        I.np.extra["pyDOE2.lhs"] = lhs

    def rank(M, *a, **k):
        r = E.Int("rank")
        E.assume(b_and(r >= 0, r <= d))
        f = M.fn()
        seen.append((M, f, r))
        return r
    I.np.extra["numpy.linalg.matrix_rank"] = rank
    I.contracts[RV] = round_contract(I, p, maps) if mapped and ints else I.contracts.get(RV)
    if I.contracts.get(RV) is None:
        I.contracts.pop(RV, None)
    args = dict(lb=lb, ub=ub) if mapped else {}
    if mapped and ints:
        args["int_var"] = iv
    elif tail == 1:
        args["int_var"] = PList([])
    elif tail == 2:
        args["int_var"] = A.new((0,), lambda idx: 0, "i")
    if not mapped and tail == 0:
        args = dict(int_var=iv)          # ignored
    old = {}

    def good(X):
        ra = A.rows_of(X)
        el = (lambda i, j: feasible(p, X.at(i, j), j)) if mapped and ints else ((lambda i, j: b_and(le(lb.at(j), X.at(i, j)), le(X.at(i, j), ub.at(j)))) if mapped else (lambda i, j: b_and(le(0, X.at(i, j)), le(X.at(i, j), 1))))
        return [("the design has the requested size", b_and(eq(X.shape[0], n), eq(X.shape[1], d))),
                ("the design is in the domain", (("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, n), rng(j, d)), el(i, j)))),
                ("its points are pairwise distinct", (("Int", "Int"), lambda i, k: b_imp(b_and(rng(i, n), rng(k, n), ne(i, k)), gt(I.np.D(ra(i), ra(k)), 0))))]

    def full(X):
        """X has full column rank: it is the design of the invariant, or its rank was computed to be that."""
        if X is old.get("X") and X.cell.fn is old.get("fn"):
            return True
        for M, f, r in reversed(seen):
            if X.fn() is f or X.cell.fn is f:
                return eq(r, d)
        i, j = E.Int("ri"), E.Int("rj")
        E.touch(i), E.touch(j)
        goal = False
        for M, f, r in seen[-1:]:
            goal = b_imp(b_and(rng(i, n), rng(j, d)), b_and(eq(r, d), eq(X.at(i, j), f((i, j)))))
        return goal

    def inv(ctx):
        X, s = ctx["X"], ctx["best_score"]
        s = xr(s)
        if X is None:
            return [("nothing chosen, or a valid design", True), ("the score is not negative", b_or(s.inf, ge(s.v, 0)))]
        r = good(X)
        return [("nothing chosen, or a valid design", True), ("the score is not negative", b_or(s.inf, ge(s.v, 0))), ("the design has full column rank", full(X))] + r

    def modifies(ctx):
        ctx["best_score"] = XR(E.Real("score"), E.Bool("score_inf"), False)
        if E.choose(2) == 0:
            ctx["X"] = None
            return
        X = mat(E, n, d, "best", row=True)
        old.update(X=X, fn=X.cell.fn)
        ctx["X"] = X
    I.loopspecs = {(ED + "experimental_design:_expdes_dist", lambda src: "rank(" in src): LoopSpec(inv, modifies)}
    try:
        X = I.call(I.getattr(D, "generate_points"), [], args)
    except PyExc as e:
        E.prove("only the absence of a valid design is an error (%s)" % (e.args[0],), e.args[0] == "ValueError")
        E.cover("no valid design was found")
        return
    E.cover("a design is returned")
    for lab, g in good(X):
        E.prove(lab, g)
    E.prove("the design has full column rank", full(X))
    E.prove("bounds and integer variables are not modified", all(a.cell.fn is f for a, f in frame))
    E.prove("the size of the design is not modified", b_and(eq(D.attrs["dim"], d), eq(D.attrs["num_pts"], n)))


# -------------------------------------------------------------- factorial
def factorial(I, dim):
    """All corners of the cube or of the box (dimensions 1 to 14 are all there are)."""
    E = I.E
    n = 2 ** dim
    mode = E.choose(4)
    mapped, ints = mode >= 1, mode == 2
    p = problem(E, dim, ints)
    lb, ub, iv = p.attrs["lb"], p.attrs["ub"], p.attrs["int_var"]
    frame = [(a, a.cell.fn) for a in (lb, ub, iv)]
    maps = []
    if ints:
        I.contracts[RV] = round_contract(I, p, maps)
    D = I.call(I.get(TF), [dim])
    B = E.Func("bit", z3.IntSort(), z3.IntSort(), z3.IntSort())
    product = []

    def digits(i):
        """The second half of the contract of the product: its rows count in binary."""
        s = 0
        for j in range(dim):
            s = add(s, mul(2 ** (dim - 1 - j), B(integer(i), j)))
        return eq(s, i)

    def combos(*its, repeat=1):
        """Cartesian product in lexicographic order: row i holds the binary digits of i."""
        E.prove("all combinations of the two levels", len(its) == 1 and list(I.iterate_conc(its[0])) == [0, 1] and repeat == dim)

        E.assume_forall(("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, n), rng(j, dim)), b_or(eq(B(i, j), 0), eq(B(i, j), 1))), "itertools.product")
        product.append(True)
        N = E.Int("combinations")
        E.assume(eq(N, n))               # kept symbolic: the rows are not enumerated
        return SymList(N, lambda i: A.new((dim,), lambda ix: B(integer(i), integer(ix[0])), "i"))
    I.np.extra["itertools.product"] = combos
    args = dict(lb=lb, ub=ub) if mapped else {}
    if ints:
        args["int_var"] = iv
    elif mode == 3:
        args["int_var"] = PList([])
    X = I.call(I.getattr(D, "generate_points"), [], args)
    E.cover("a design is returned")
    E.prove("the design has 2^dim rows and dim columns", len(X.shape) == 2 and b_and(eq(X.shape[0], n), eq(X.shape[1], dim)))
    i, k, c = sk_int(E, "row", 0, n), sk_int(E, "row2", 0, n), sk_int(E, "col", 0, dim)
    E.prove("the size of the design is not modified", b_and(eq(D.attrs["dim"], dim), eq(D.attrs["num_pts"], n)))
    E.prove("bounds and integer variables are not modified", all(a.cell.fn is f for a, f in frame))
    E.hint(B(i, c), B(k, c), lb.at(c))
    E.assume(tobool(lt(lb.at(c), ub.at(c))))
    for r in (i, k):
        E.lemma("every entry is a level", eq(X.at(r, c), ite(eq(B(r, c), 1), ub.at(c), lb.at(c)) if mapped else B(r, c)))
        if mapped:
            E.prove("the design is in the domain", feasible(p, X.at(r, c), c))
    E.prove("rows that agree in a column have the same digit there", b_imp(eq(X.at(i, c), X.at(k, c)), eq(B(i, c), B(k, c))))
    if product:                          # for every column c: now all of them at once
        E.assume(b_and(digits(i), digits(k), *[eq(B(i, j), B(k, j)) for j in range(dim)]))
        E.prove("rows that agree in every column are the same row", eq(i, k))
    else:
        E.prove("rows that agree in every column are the same row", False)


def too_large(I):
    E = I.E
    d = E.Int("dim")
    E.assume(d >= 15)
    try:
        I.call(I.get(TF), [d])
        E.prove("a design of 15 or more dimensions is refused", False)
    except PyExc as e:
        E.prove("a design of 15 or more dimensions is refused", e.args[0] == "ValueError")


def units():
    r = []
    for odd in (False, True):
        r.append(unit("symmetric generator, %s number of points" % ("odd" if odd else "even"), lambda I, o=odd: slhd(I, o)))
    r.append(unit("Latin hypercube generator", hypercube))
    for which in ("slhd", "lhd"):
        for mapped, ints, tail in ((False, None, 0), (False, None, 1), (True, None, 0), (True, None, 1), (True, None, 2), (True, True, 0)):
            nm = "%s, %s%s%s" % (which, "mapped" if mapped else "unit cube", ", integer variables" if ints else "", ", no index set (%d)" % tail if tail else "")
            r.append(unit(nm, lambda I, w=which, m=mapped, i=ints, t=tail: select(I, w, m, i, t)))
    for dim in range(1, 15):
        r.append(unit("two-factorial, dimension %d" % dim, lambda I, d=dim: factorial(I, d)))
    r.append(unit("two-factorial, 15 or more dimensions", too_large))
    return r
