"""C19: benchmark problems.

eval is run on a symbolic point in a symbolic dimension (all loops included) and its value compared, as a normal form, with the
published formula.  Constants are floating point numbers in the code, so coefficients are compared to a relative 1e-12."""
import math
from .common import *
from ..core import ufun, real, power
from ..algebra import prove_equal, equal

M = "pySOT.optimization_problems."
TOL = 1e-12
PI = math.pi
exp, cos, sin, sqrt = [lambda x, nm=nm: ufun(nm, real(x)) for nm in ("exp", "cos", "sin", "sqrt")]


def plus(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = add(r, x)
    return r


def times(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = mul(r, x)
    return r


def sq(x):
    return mul(x, x)


def absolute(x):
    return ite(ge(x, 0), x, neg(x)) if is_z3(x) else abs(x)


def neg(x):
    return mul(-1, x)


# published formulas: (E, x, d) with x(j) the coordinate and d the dimension
def ackley(E, x, d):
    m = lambda f: div(E.Sum(f, d), d)
    return plus(mul(-20.0, exp(mul(-0.2, sqrt(m(lambda j: sq(x(j))))))), neg(exp(m(lambda j: cos(mul(2 * PI, x(j)))))), 20.0, math.e)


def branin(E, x, d):
    t = plus(x(1), mul(-5.1 / (4 * PI ** 2), sq(x(0))), mul(5 / PI, x(0)), -6.0)
    return plus(sq(t), mul(10 * (1 - 1 / (8 * PI)), cos(x(0))), 10.0)


def exponential(E, x, d):
    return E.Sum(lambda i: sub(exp(mul(add(i, 1), x(i))), exp(mul(-5.12, add(i, 1)))), d)


def goldstein(E, x, d):
    a, b = x(0), x(1)
    f = plus(1, times(sq(plus(a, b, 1)), plus(19, mul(-14, a), mul(3, sq(a)), mul(-14, b), times(6, a, b), mul(3, sq(b)))))
    g = plus(30, times(sq(plus(mul(2, a), mul(-3, b))), plus(18, mul(-32, a), mul(12, sq(a)), mul(48, b), times(-36, a, b), mul(27, sq(b)))))
    return mul(f, g)


def griewank(E, x, d):
    return plus(1, div(E.Sum(lambda j: sq(x(j)), d), 4000), neg(E.Sum(lambda j: cos(div(x(j), sqrt(add(j, 1)))), d, "prod")))


HC = [1, 1.2, 3, 3.2]
H3 = ([[3, 10, 30], [0.1, 10, 35], [3, 10, 30], [0.1, 10, 35]], [[3689, 1170, 2673], [4699, 4387, 7470], [1091, 8732, 5547], [381, 5743, 8828]])
H6 = ([[10, 3, 17, 3.5, 1.7, 8], [0.05, 10, 17, 0.1, 8, 14], [3, 3.5, 1.7, 10, 17, 8], [17, 8, 0.05, 10, 0.1, 14]],
      [[1312, 1696, 5569, 124, 8283, 5886], [2329, 4135, 8307, 3736, 1004, 9991], [2348, 1451, 3522, 2883, 3047, 6650], [4047, 8828, 8732, 5743, 1091, 381]])


def hartmann(T, n):
    def f(E, x, d):
        r = 0.0
        for i in range(4):
            s = plus(*[mul(float(T[0][i][j]), sq(sub(x(j), T[1][i][j] / 10000.0))) for j in range(n)])
            r = sub(r, mul(HC[i], exp(neg(s))))
        return r
    return f


def himmelblau(E, x, d):
    return div(E.Sum(lambda j: plus(power(x(j), 4), mul(-16, sq(x(j))), mul(5, x(j))), d), mul(2, d))


def levy(E, x, d):
    w = lambda j: plus(1, div(sub(x(j), 1), 4))
    last = simp(sub(d, 1))
    return plus(sq(sin(mul(PI, w(0)))), E.Sum(lambda j: mul(sq(sub(w(j), 1)), plus(1, mul(10, sq(sin(plus(mul(PI, w(j)), 1)))))), last),
                mul(sq(sub(w(last), 1)), plus(1, sq(sin(mul(2 * PI, w(last)))))))


def michalewicz(E, x, d):
    return neg(E.Sum(lambda j: mul(sin(x(j)), power(sin(div(mul(add(j, 1), sq(x(j))), PI)), 20)), d))


def perm(E, x, d):
    return E.Sum(lambda i: sq(E.Sum(lambda j: mul(add(j, 11), sub(power(x(j), add(i, 1)), power(div(1.0, add(j, 1)), add(i, 1)))), d)), d)


def rastrigin(E, x, d):
    return add(mul(10, d), E.Sum(lambda j: sub(sq(x(j)), mul(10, cos(mul(2 * PI, x(j))))), d))


def rosenbrock(E, x, d):
    return E.Sum(lambda j: add(mul(100, sq(sub(x(add(j, 1)), sq(x(j))))), sq(sub(x(j), 1))), simp(sub(d, 1)))


def schwefel(E, x, d):
    return sub(mul(418.9829, d), E.Sum(lambda j: mul(x(j), sin(sqrt(absolute(x(j))))), d))


def camel(E, x, d):
    a, b = x(0), x(1)
    return plus(times(plus(4, mul(-2.1, sq(a)), div(power(a, 4), 3)), sq(a)), mul(a, b), times(plus(-4, mul(4, sq(b))), sq(b)))


def sphere(E, x, d):
    return E.Sum(lambda j: sq(x(j)), d)


def squares(E, x, d):
    return E.Sum(lambda j: mul(add(j, 1), sq(x(j))), d)


def weierstrass(E, x, d):
    f0 = sum(0.5 ** k * math.cos(PI * 3 ** k) for k in range(12))
    s = E.Sum(lambda j: plus(*[mul(0.5 ** k, cos(mul(2 * PI * 3 ** k, add(x(j), 0.5)))) for k in range(12)]), d)
    return mul(10, power(sub(div(s, d), f0), 3))


def zakharov(E, x, d):
    s = E.Sum(lambda j: mul(mul(0.5, add(j, 1)), x(j)), d)
    return plus(E.Sum(lambda j: sq(x(j)), d), power(s, 2), power(s, 4))


C = lambda a, b: ((lambda j: a), (lambda j: b))
L = lambda a, b: ((lambda j: a[j]), (lambda j: b[j]))
# class: module, formula, fixed dimension, domain, documented minimum and the precision it is documented to
PROBLEMS = {
    "Ackley": ("ackley", ackley, None, C(-15, 20), (0, 1e-9)),
    "Branin": ("branin", branin, 2, L([-5, 0], [10, 15]), (0.397887, 1e-4)),
    "Exponential": ("exponential", exponential, None, C(-5.12, 5.12), (0, 1e-9)),
    "GoldsteinPrice": ("goldstein_price", goldstein, 2, C(-2, 2), (3, 1e-9)),
    "Griewank": ("griewank", griewank, None, C(-512, 512), (0, 1e-9)),
    "Hartmann3": ("hartmann3", hartmann(H3, 3), 3, C(0, 1), (-3.86278, 1e-4)),
    "Hartmann6": ("hartmann6", hartmann(H6, 6), 6, C(0, 1), (-3.32237, 1e-4)),
    "Himmelblau": ("himmelblau", himmelblau, None, C(-5.12, 5.12), (-39.166165703771412, 1e-9)),
    "Levy": ("levy", levy, None, C(-5, 5), (0, 1e-9)),
    "Michalewicz": ("michaelewicz", michalewicz, None, C(0, PI), None),
    "Perm": ("perm", perm, None, C(-5, 5), (0, 1e-9)),
    "Rastrigin": ("rastrigin", rastrigin, None, C(-5.12, 5.12), (0, 1e-9)),
    "Rosenbrock": ("rosenbrock", rosenbrock, None, C(-2.048, 2.048), (0, 1e-9)),
    "Schwefel": ("schwefel", schwefel, None, C(-512, 512), (0, 1e-3)),
    "SixHumpCamel": ("six_hump_camel", camel, 2, C(-3, 3), (-1.0316, 1e-4)),
    "Sphere": ("sphere", sphere, None, C(-5.12, 5.12), (0, 1e-9)),
    "SumOfSquares": ("sum_of_squares", squares, None, C(-5, 5), (0, 1e-9)),
    "Weierstrass": ("weierstrass", weierstrass, None, C(-5, 5), (0, 1e-6)),
    "Zakharov": ("zakharov", zakharov, None, C(-5, 10), (0, 1e-9)),
}


def problem(I, nm):
    E = I.E
    mod, f, dim, (lo, hi), mn = PROBLEMS[nm]
    d = dim or sym_dim(E)
    E.replay = {"problem": nm, "dim": d}
    o = I.call(I.get(M + mod + ":" + nm), [] if dim else [d])
    return E, o, f, d, lo, hi, mn


def value(I, nm):
    E, o, f, d, lo, hi, mn = problem(I, nm)
    x = vec(E, d, "x")
    f0 = x.cell.fn
    v = I.call(I.getattr(o, "eval"), [x])
    E.cover("the function returns")
    prove_equal(E, "eval is the published formula, in every dimension and at every point", v, f(E, lambda j: f0((j,)), d), TOL, fallback=False)
    E.prove("the point is not changed", x.cell.fn is f0)


def wrong(I, nm):
    E, o, f, d, lo, hi, mn = problem(I, nm)
    m = E.Int("m")
    E.assume(b_and(m >= 0, ne(m, d)))
    x = vec(E, m, "x")
    try:
        I.call(I.getattr(o, "eval"), [x])
        E.prove("a point of another dimension is rejected", False)
    except PyExc as e:
        E.prove("a point of another dimension is rejected", True)
        E.cover("rejected")


def domain(I, nm):
    E, o, f, d, lo, hi, mn = problem(I, nm)
    E.prove("dim", eq(o.attrs["dim"], d))
    lb, ub, iv, cv = [o.attrs[k] for k in ("lb", "ub", "int_var", "cont_var")]
    E.prove("bounds are vectors of the dimension", all(isinstance(a, Arr) and len(a.shape) == 1 for a in (lb, ub)) and b_and(eq(lb.shape[0], d), eq(ub.shape[0], d)))
    for j in range(d) if isinstance(d, int) else [sk_int(E, "j", 0, d)]:
        close = lambda a, b: le(absolute(sub(a, b)), 1e-12)
        E.prove("the documented domain", b_and(close(lb.at(j), lo(j)), close(ub.at(j), hi(j))))
        E.prove("lower bound below upper bound", lt(lb.at(j), ub.at(j)))
    E.prove("variable types cover each coordinate", eq(add(iv.shape[0], cv.shape[0]), d))
    j = sk_int(E, "j2", 0, d)
    E.prove("variable types: each coordinate once", b_and(eq(iv.shape[0], 0), eq(cv.at(j), j)))


def minimizer(I, nm):
    E, o, f, d, lo, hi, mn = problem(I, nm)
    m = o.attrs["minimum"]
    E.prove("documented minimum", le(absolute(sub(o.attrs["min"], mn[0])), 1e-3))
    E.prove("the minimizer has the dimension of the problem", len(m.shape) == 1 and eq(m.shape[0], d))
    lb, ub = o.attrs["lb"], o.attrs["ub"]
    for j in range(d) if isinstance(d, int) else [sk_int(E, "j", 0, d)]:
        E.prove("the minimizer lies in the domain", b_and(ge(m.at(j), lb.at(j)), le(m.at(j), ub.at(j))))
    v = I.call(I.getattr(o, "eval"), [m])
    E.cover("the function returns")
    if nm == "Schwefel":      # the documented minimum is attained up to 1e-4 per coordinate
        v = div(v, d)
    prove_equal(E, "the documented value is taken at the minimizer", v, o.attrs["min"], TOL, fallback=False, near=max(mn[1], 1e-5))


# ------------------------------------------------------------- no smaller value anywhere in the domain
def low(E, fn, n, bound=0, kind="sum"):
    """Induction over the terms: every term is at least bound (products: of absolute value at most one)."""
    j = sk_int(E, "jt", 0, n)
    if kind == "prod":
        t = real(fn(j))
        E.lemma("every factor is of absolute value at most one", b_and(ge(t, -1), le(t, 1)))
        S = E.Sum(fn, n, "prod")
        E.axiom(z3.And(S >= -1, S <= 1))
        return S
    t = real(fn(j))
    if not prove_general(E, "every term is at least its bound", ge(t, bound), [], []):
        raise Unsupported("term bound")
    S = E.Sum(fn, n)
    E.axiom(tobool(ge(S, mul(bound, n))))
    return S


def b_ackley(E, x, d):
    s1, s2 = low(E, lambda j: sq(x(j)), d), low(E, lambda j: neg(cos(mul(2 * PI, x(j)))), d, -1)
    a, b, r = div(s1, d), neg(div(s2, d)), None
    E.lemma("the mean of the squares is not negative, that of the cosines at most one", b_and(ge(a, 0), le(b, 1)))
    r = sqrt(a)
    e1, e2, e = exp(mul(-0.2, r)), exp(b), UFE(E)
    E.lemma("bounds of the exponentials", b_and(le(e1, 1), le(e2, e)))
    return plus(mul(-20.0, e1), neg(e2), 20.0, math.e), 1e-12


def UFE(E):
    from ..core import UF1
    ufun("exp", z3.Real("one!"))
    e = UF1["exp"](z3.RealVal(1))
    E.axiom(z3.And(e >= z3.RealVal(repr(math.e - 1e-14)), e <= z3.RealVal(repr(math.e + 1e-14))))
    E.ufun_axioms("exp", z3.RealVal(1), e)
    return e


def b_exponential(E, x, d):
    def t(i):
        e1, e2 = exp(mul(add(i, 1), x(i))), exp(mul(-5.12, add(i, 1)))
        return sub(e1, e2)
    j = sk_int(E, "jt", 0, d)
    E.lemma("exponents are ordered", b_and(ge(x(j), -5.12), ge(mul(add(j, 1), x(j)), mul(-5.12, add(j, 1)))))
    E.lemma("every term is at least its bound", ge(t(j), 0))
    S = E.Sum(t, d)
    E.axiom(S >= 0)
    return S, 0


def b_griewank(E, x, d):
    s, p = low(E, lambda j: sq(x(j)), d), low(E, lambda j: cos(div(x(j), sqrt(add(j, 1)))), d, 0, "prod")
    return plus(1, div(s, 4000), neg(p)), 0


def b_levy(E, x, d):
    w = lambda j: plus(1, div(sub(x(j), 1), 4))
    last = simp(sub(d, 1))
    E.touch(last)
    s = low(E, lambda j: mul(sq(sub(w(j), 1)), plus(1, mul(10, sq(sin(plus(mul(PI, w(j)), 1)))))), last)
    return plus(sq(sin(mul(PI, w(0)))), s, mul(sq(sub(w(last), 1)), plus(1, sq(sin(mul(2 * PI, w(last))))))), 0


def b_zakharov(E, x, d):
    a, s = low(E, lambda j: sq(x(j)), d), E.Sum(lambda j: mul(mul(0.5, add(j, 1)), x(j)), d)
    return plus(a, sq(s), mul(sq(s), sq(s))), 0


def b_weierstrass(E, x, d):
    s = low(E, lambda j: plus(*[mul(0.5 ** k, cos(mul(2 * PI * 3 ** k, add(x(j), 0.5)))) for k in range(12)]), d, -sum(0.5 ** k for k in range(12)))
    f0 = sum(0.5 ** k * math.cos(PI * 3 ** k) for k in range(12))
    m = sub(div(s, d), f0)
    E.lemma("the mean is at least that at the minimizer", ge(m, -1e-12))
    E.general = real(m)
    return mul(10, times(m, m, m)), 1e-9


def b_himmelblau(E, x, d):
    s = low(E, lambda j: plus(power(x(j), 4), mul(-16, sq(x(j))), mul(5, x(j))), d, 2 * -39.166165703771412 - 1e-9)
    return div(s, mul(2, d)), 1e-8


def interval(E, t, xs, lo, hi, bound, limit=1500000, **k):
    """t >= bound on the box lo <= xs <= hi, decided by interval arithmetic."""
    from ..intervals import at_least
    import time
    t0 = time.time()
    r = at_least(real(t), xs, [float(v) for v in lo], [float(v) for v in hi], float(bound), limit=limit, **k)
    E.solver_time += time.time() - t0
    if r[0] != "proved":
        raise Unsupported("interval bound undecided after %d boxes" % r[1])
    E.count("intervals")


def b_schwefel(E, x, d):
    t = lambda v: sub(418.9829, mul(v, sin(sqrt(absolute(v)))))
    y = z3.Real("y!")
    interval(E, t(y), [y], [-512], [512], 0, second=False)
    j = sk_int(E, "jt", 0, d)
    E.lemma("coordinates are in the interval of the term bound", b_and(ge(x(j), -512), le(x(j), 512)))
    S = E.Sum(lambda j: mul(x(j), sin(sqrt(absolute(x(j))))), d)
    E.axiom(tobool(le(S, mul(418.9829, d))))       # every term is at most 418.9829
    return sub(mul(418.9829, d), S), 0


def terms_of(t, b=0, scale=1, extra=0):
    return lambda E, x, d: (plus(mul(scale, low(E, lambda j: t(E, x, d, j), simp(sub(d, extra)), b)), mul(neg(b), d)), 0)


LOW = {
    "Ackley": b_ackley, "Exponential": b_exponential, "Griewank": b_griewank, "Levy": b_levy, "Zakharov": b_zakharov, "Weierstrass": b_weierstrass,
    "Himmelblau": b_himmelblau,
    "Sphere": terms_of(lambda E, x, d, j: sq(x(j))),
    "SumOfSquares": terms_of(lambda E, x, d, j: mul(add(j, 1), sq(x(j)))),
    "Rosenbrock": terms_of(lambda E, x, d, j: add(mul(100, sq(sub(x(add(j, 1)), sq(x(j))))), sq(sub(x(j), 1))), extra=1),
    "Rastrigin": terms_of(lambda E, x, d, j: sub(sq(x(j)), mul(10, cos(mul(2 * PI, x(j))))), -10),
    "Perm": terms_of(lambda E, x, d, i: sq(E.Sum(lambda j: mul(add(j, 11), sub(power(x(j), add(i, 1)), power(div(1.0, add(j, 1)), add(i, 1)))), d))),
    "SixHumpCamel": lambda E, x, d: (camel(E, x, d), 1e-4), "Schwefel": b_schwefel,
}
BOXES = ["Branin", "GoldsteinPrice", "Hartmann3", "Hartmann6"]


def smallest_box(I, nm):
    """The same in a fixed dimension, by interval arithmetic on the published formula (eval is that formula: unit eval)."""
    E, o, f, d, lo, hi, mn = problem(I, nm)
    lb, ub, m = o.attrs["lb"], o.attrs["ub"], o.attrs["min"]
    lb, ub = [[simp(a.at(j)) for j in range(d)] for a in (lb, ub)]
    if not all(isinstance(v, (int, float)) for v in lb + ub + [m]):
        raise Unsupported("symbolic domain")
    close = lambda a, b: abs(a - b) <= 1e-3
    if not (close(m, mn[0]) and all(close(lb[j], lo(j)) and close(ub[j], hi(j)) for j in range(d))):
        raise Unsupported("another domain or minimum (see the other units)")
    xs = [z3.Real("x%d!" % j) for j in range(d)]
    interval(E, f(E, lambda j: xs[j], d), xs, lb, ub, m - max(mn[1], 1e-6))
    E.cover("the bound is decided")
    E.prove("no point of the domain has a smaller value than the documented minimum", True)


def smallest(I, nm):
    E, o, f, d, lo, hi, mn = problem(I, nm)
    x = vec(E, d, "x")
    f0 = x.cell.fn
    lb, ub = o.attrs["lb"], o.attrs["ub"]
    if isinstance(d, int):
        for j in range(d):
            E.assume(b_and(ge(x.at(j), lb.at(j)), le(x.at(j), ub.at(j))))
    else:
        E.assume_forall(("Int",), lambda j: b_imp(rng(j, d), b_and(ge(x.at(j), lb.at(j)), le(x.at(j), ub.at(j)))), "x in the domain")
    E.cover("the function returns")
    g, tol = LOW[nm](E, lambda j: f0((j,)), d)
    prove_equal(E, "the bounded term is the published formula", g, f(E, lambda j: f0((j,)), d), TOL, fallback=False)
    m = getattr(E, "general", None)
    goal = ge(g, sub(o.attrs["min"], tol))
    if m is not None:
        goal = ge(mul(10, times(m, m, m)), sub(o.attrs["min"], tol))
        prove_general(E, "no point of the domain has a smaller value than the documented minimum", goal, [m], [ge(m, -1e-12)])
    else:
        E.prove("no point of the domain has a smaller value than the documented minimum", goal)


def units():
    r = []
    for nm in sorted(PROBLEMS):
        r.append(unit(nm + ".eval", lambda I, nm=nm: value(I, nm), time=120))
        r.append(unit(nm + ".eval, wrong dimension", lambda I, nm=nm: wrong(I, nm), time=120))
        r.append(unit(nm + " domain", lambda I, nm=nm: domain(I, nm), time=120))
        if PROBLEMS[nm][4]:
            r.append(unit(nm + " minimizer", lambda I, nm=nm: minimizer(I, nm), time=120))
        if nm in LOW:
            r.append(unit(nm + " lower bound", lambda I, nm=nm: smallest(I, nm), time=120))
        if nm in BOXES:
            r.append(unit(nm + " lower bound", lambda I, nm=nm: smallest_box(I, nm), time=400))
    return r
