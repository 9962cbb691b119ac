"""C19 test problems against independently written published formulas."""
import math

import numpy as np
import pySOT.optimization_problems as op
from .common import HINTS, case, close, hint, require
import scipy.optimize as so


def ackley(x):
    d = len(x)
    return -20 * math.exp(-0.2 * math.sqrt(sum(v * v for v in x) / d)) - math.exp(sum(math.cos(2 * math.pi * v) for v in x) / d) + 20 + math.e


def branin(x):
    return (x[1] - 5.1 / (4 * math.pi ** 2) * x[0] ** 2 + 5 / math.pi * x[0] - 6) ** 2 + 10 * (1 - 1 / (8 * math.pi)) * math.cos(x[0]) + 10


def exponential(x):
    return sum(math.exp((i + 1) * v) - math.exp(-5.12 * (i + 1)) for i, v in enumerate(x))


def goldstein(x):
    a, b = x
    return (1 + (a + b + 1) ** 2 * (19 - 14 * a + 3 * a * a - 14 * b + 6 * a * b + 3 * b * b)) * (
        30 + (2 * a - 3 * b) ** 2 * (18 - 32 * a + 12 * a * a + 48 * b - 36 * a * b + 27 * b * b))


def griewank(x):
    return 1 + sum(v * v for v in x) / 4000 - math.prod(math.cos(v / math.sqrt(i + 1)) for i, v in enumerate(x))


H3A = [[3, 10, 30], [0.1, 10, 35], [3, 10, 30], [0.1, 10, 35]]
H3P = [[3689, 1170, 2673], [4699, 4387, 7470], [1091, 8732, 5547], [381, 5743, 8828]]
H6A = [[10, 3, 17, 3.5, 1.7, 8], [0.05, 10, 17, 0.1, 8, 14], [3, 3.5, 1.7, 10, 17, 8], [17, 8, 0.05, 10, 0.1, 14]]
H6P = [[1312, 1696, 5569, 124, 8283, 5886], [2329, 4135, 8307, 3736, 1004, 9991], [2348, 1451, 3522, 2883, 3047, 6650], [4047, 8828, 8732, 5743, 1091, 381]]
HC = [1, 1.2, 3, 3.2]


def hartmann(x, A, P):
    return -sum(HC[i] * math.exp(-sum(A[i][j] * (x[j] - 1e-4 * P[i][j]) ** 2 for j in range(len(x)))) for i in range(4))


def himmelblau(x):
    return (x[0] ** 2 + x[1] - 11) ** 2 + (x[0] + x[1] ** 2 - 7) ** 2


def levy(x):
    w = [1 + (v - 1) / 4 for v in x]
    return math.sin(math.pi * w[0]) ** 2 + sum((v - 1) ** 2 * (1 + 10 * math.sin(math.pi * v + 1) ** 2) for v in w[:-1]) + (w[-1] - 1) ** 2 * (1 + math.sin(2 * math.pi * w[-1]) ** 2)


def rosenbrock(x):
    return sum(100 * (x[i + 1] - x[i] ** 2) ** 2 + (x[i] - 1) ** 2 for i in range(len(x) - 1))


def michalewicz(x):
    return -sum(math.sin(v) * math.sin((i + 1) * v * v / math.pi) ** 20 for i, v in enumerate(x))


def perm(x):
    d = len(x)
    return sum(sum((j + 10) * (x[j - 1] ** i - 1 / j ** i) for j in range(1, d + 1)) ** 2 for i in range(1, d + 1))


def rastrigin(x):
    return 10 * len(x) + sum(v * v - 10 * math.cos(2 * math.pi * v) for v in x)


def schwefel(x):
    return 418.9829 * len(x) - sum(v * math.sin(math.sqrt(abs(v))) for v in x)


def camel(x):
    a, b = x
    return (4 - 2.1 * a ** 2 + a ** 4 / 3) * a ** 2 + a * b + (-4 + 4 * b ** 2) * b ** 2


def weierstrass(x):
    d = len(x)
    f0 = sum(0.5 ** k * math.cos(2 * math.pi * 3 ** k * 0.5) for k in range(12))
    return 10 * (sum(0.5 ** k * math.cos(2 * math.pi * 3 ** k * (v + 0.5)) for v in x for k in range(12)) / d - f0) ** 3


def zakharov(x):
    s = sum(0.5 * (i + 1) * v for i, v in enumerate(x))
    return sum(v * v for v in x) + s ** 2 + s ** 4


C = lambda a, b: (lambda d: ([a] * d, [b] * d))
# name: formula, fixed dimension or None, bounds, minimizer, minimum, tolerance of the documented minimum
TABLE = {
    "Ackley": (ackley, None, C(-15, 20), lambda d: [0] * d, 0, 1e-9),
    "Branin": (branin, 2, lambda d: ([-5, 0], [10, 15]), None, 0.397887, 1e-4),
    "Exponential": (exponential, None, C(-5.12, 5.12), lambda d: [-5.12] * d, 0, 1e-9),
    "GoldsteinPrice": (goldstein, 2, C(-2, 2), lambda d: [0, -1], 3, 1e-9),
    "Griewank": (griewank, None, C(-512, 512), lambda d: [0] * d, 0, 1e-9),
    "Hartmann3": (lambda x: hartmann(x, H3A, H3P), 3, C(0, 1), None, -3.86278, 1e-4),
    "Hartmann6": (lambda x: hartmann(x, H6A, H6P), 6, C(0, 1), None, -3.32237, 1e-4),
    "Himmelblau": (None, None, C(-5.12, 5.12), None, None, 1e-3),
    "Levy": (levy, None, C(-5, 5), lambda d: [1] * d, 0, 1e-9),
    "Michalewicz": (michalewicz, None, C(0, math.pi), None, None, 0),
    "Perm": (perm, None, C(-5, 5), lambda d: [1 / (i + 1) for i in range(d)], 0, 1e-9),
    "Rastrigin": (rastrigin, None, C(-5.12, 5.12), lambda d: [0] * d, 0, 1e-9),
    "Rosenbrock": (rosenbrock, None, C(-2.048, 2.048), lambda d: [1] * d, 0, 1e-9),
    "Schwefel": (schwefel, None, C(-512, 512), lambda d: [420.968746] * d, 0, 1e-3),
    "SixHumpCamel": (camel, 2, C(-3, 3), lambda d: [0.0898, -0.7126], -1.0316, 1e-4),
    "Sphere": (lambda x: sum(v * v for v in x), None, C(-5.12, 5.12), lambda d: [0] * d, 0, 1e-9),
    "SumOfSquares": (lambda x: sum((i + 1) * v * v for i, v in enumerate(x)), None, C(-5, 5), lambda d: [0] * d, 0, 1e-9),
    "Weierstrass": (weierstrass, None, C(-5, 5), lambda d: [0] * d, 0, 1e-6),
    "Zakharov": (zakharov, None, C(-5, 10), lambda d: [0] * d, 0, 1e-9),
}
TABLE["Himmelblau"] = (lambda x: 0.5 * sum(v ** 4 - 16 * v * v + 5 * v for v in x) / len(x), None, C(-5.12, 5.12), lambda d: [-2.903534027771178] * d, -39.166165703771412, 1e-9)
NAMES = sorted(TABLE)


def make(name, r):
    if not hasattr(op, name):
        from .common import Inconclusive
        raise Inconclusive("no problem " + name)
    f, dim, bounds, xmin, fmin, tol = TABLE[name]
    d = dim or hint(r, problem=name).get("dim") or HINTS and r.rand() < 0.4 and int(r.randint(33, 200)) or int(r.randint(2 if name == "Rosenbrock" else 1, 13) if r.rand() < 0.6 else r.randint(13, 33))
    p = getattr(op, name)() if dim else getattr(op, name)(dim=d)
    return p, d, f, bounds(d), xmin(d) if xmin else None, fmin, tol


def terms_scale(v):
    return abs(v)


@case("C19", n=19 * 16)
def formula(ctx):
    r = ctx.rng
    name = HINTS[r.randint(len(HINTS))].get("problem", "Ackley") if HINTS and r.rand() < 0.7 else NAMES[r.randint(len(NAMES))]
    p, d, f, (lb, ub), xmin, fmin, tol = make(name, r)
    lb, ub = np.array(lb, float), np.array(ub, float)
    for k in range(6):
        x = lb + (ub - lb) * r.rand(d)
        if k == 0:
            x = np.where(r.rand(d) < 0.5, lb, ub)
        elif k == 1:
            x = np.round(x)
        elif k == 2 and xmin is not None:
            x = np.clip(np.array(xmin, float) + 1e-2 * r.randn(d), lb, ub)
        ctx.note(problem=name, dim=d, x=x)
        x0 = x.copy()
        v, w = float(p.eval(x)), f([float(t) for t in x])
        require(np.array_equal(x, x0), "%s.eval modified its argument" % name)
        s = {"Perm": 1e2, "Ackley": 50.0, "Griewank": 10.0, "Schwefel": 1e3, "Rastrigin": 1e3, "Weierstrass": 1e2}.get(name, 10.0)
        require(abs(v - w) <= 1e-8 * (s + abs(w)), "%s(%s) = %r, published formula gives %r" % (name, x0.tolist(), v, w))


@case("C19", n=19 * 8)
def bounds_and_minimum(ctx):
    r = ctx.rng
    name = NAMES[ctx.seed % len(NAMES)]
    p, d, f, (lb, ub), xmin, fmin, tol = make(name, r)
    ctx.note(problem=name, dim=d)
    require(p.dim == d, "%s: dim %r" % (name, p.dim))
    require(isinstance(p.lb, np.ndarray) and isinstance(p.ub, np.ndarray) and p.lb.shape == (d,) and p.ub.shape == (d,), "%s: bounds have the wrong type or length" % name)
    require(np.all(p.lb < p.ub), "%s: lower bound not below upper bound" % name)
    require(close(p.lb, lb, 1e-12) and close(p.ub, ub, 1e-12), "%s: not the documented domain" % name, lb=p.lb, ub=p.ub)
    iv, cv = [int(v) for v in p.int_var], [int(v) for v in p.cont_var]
    require(sorted(iv + cv) == list(range(d)), "%s: variable types do not cover each coordinate once" % name, int_var=iv, cont_var=cv)
    for wrong in (d - 1, d + 1, d + 3):
        try:
            p.eval(np.clip(np.zeros(max(wrong, 0)) + float(lb[0]) / 2 + float(ub[0]) / 2, lb[0], ub[0]))
        except Exception:
            continue
        require(False, "%s of dimension %d accepts a point of dimension %d" % (name, d, wrong))
    if hasattr(p, "min") and p.min is not None and fmin is not None:
        require(abs(p.min - fmin) <= 1e-3, "%s: documented minimum value %r" % (name, p.min))
        t = max(tol, 1e-5)
        m = getattr(p, "minimum", None)
        best = None
        if m is not None:
            m = np.asarray(m, float)
            require(m.shape == (d,), "%s: minimizer has the wrong length" % name)
            require(np.all(m >= p.lb) and np.all(m <= p.ub), "%s: minimizer outside the domain" % name, minimizer=m)
            v = float(p.eval(m))
            require(abs(v - p.min) <= t * (d if name == "Schwefel" else 1) + (1e-6 if tol else 0), "%s: value %r at the documented minimizer, documented minimum %r" % (name, v, p.min), minimizer=m)
            starts = [m + 0.05 * (p.ub - p.lb) * r.randn(d) for _ in range(3)]
        else:
            starts = []
        starts += [p.lb + (p.ub - p.lb) * r.rand(d) for _ in range(4)]
        for s in starts:
            s = np.clip(s, p.lb, p.ub)
            res = so.minimize(lambda x: float(p.eval(np.clip(x, p.lb, p.ub))), s, method="L-BFGS-B", bounds=list(zip(p.lb, p.ub)), options={"maxiter": 60})
            x = np.clip(res.x, p.lb, p.ub)
            v = float(p.eval(x))
            require(v >= p.min - 1e-4 * max(1, abs(p.min)) * (d if name == "Schwefel" else 1), "%s takes the value %r at %s, below its documented minimum %r" % (name, v, x.tolist(), p.min))


@case("C19", n=30)
def default_dimension(ctx):
    name = NAMES[ctx.seed % len(NAMES)]
    p = getattr(op, name)()
    ctx.note(problem=name)
    x = p.lb + 0.37 * (p.ub - p.lb)
    v, w = float(p.eval(x)), TABLE[name][0]([float(t) for t in x])
    require(abs(v - w) <= 1e-8 * (1e3 + abs(w)), "%s at the default dimension: %r, published formula %r" % (name, v, w), x=x)
