"""Samples the interval back end: every value, derivative and second derivative computed in high precision must lie in its enclosure, and
at_least must refuse bounds that are too high."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import numpy as np
import sympy
import z3
from pyvc import core
from pyvc.intervals import Term, at_least

R = random.Random(int(os.environ.get("VERIF_SEED", "1")))
FN = {"exp": sympy.exp, "sin": sympy.sin, "cos": sympy.cos}


def term(depth, xs, ss):
    k = R.random()
    if depth == 0 or k < 0.15:
        if R.random() < 0.7:
            i = R.randrange(len(xs))
            return xs[i], ss[i]
        q = R.randint(-30, 30)
        return z3.Q(q, 7), sympy.Rational(q, 7)
    if k < 0.4:
        a, b = term(depth - 1, xs, ss), term(depth - 1, xs, ss)
        return a[0] + b[0], a[1] + b[1]
    if k < 0.5:
        a, b = term(depth - 1, xs, ss), term(depth - 1, xs, ss)
        return a[0] - b[0], a[1] - b[1]
    if k < 0.7:
        a, b = term(depth - 1, xs, ss), term(depth - 1, xs, ss)
        return a[0] * b[0], a[1] * b[1]
    if k < 0.8:
        a = term(depth - 1, xs, ss)
        return a[0] * a[0], a[1] * a[1]
    nm = R.choice(sorted(FN))
    a = term(depth - 1, xs, ss)
    f = core.UF1.setdefault(nm, z3.Function("fn_" + nm, z3.RealSort(), z3.RealSort()))
    s = z3.simplify(a[0] / 4, som=True)
    return f(s), FN[nm](a[1] / 4)


def main():
    n, bad, good = 3, 0, 0
    xs, ss = [z3.Real("x%d" % i) for i in range(n)], sympy.symbols("x0:%d" % n)
    for _ in range(60):
        t, s = term(4, xs, ss)
        T = Term(t, xs)
        lo = np.array([[R.uniform(-2, 2) for _ in range(n)]])
        hi = lo + np.array([[R.choice([0, 1e-6, 0.1, 1, 4]) for _ in range(n)]])
        v, g, H = T.eval((lo, hi), 2)
        claims = [(s, v)] + [(sympy.diff(s, ss[i]), g[i]) for i in range(n)]
        claims += [(sympy.diff(s, ss[i], ss[j]), H.get((i, j), (np.zeros(1), np.zeros(1)))) for i in range(n) for j in range(i + 1)]
        for _ in range(3):
            p = [min(max(R.choice([a, b, R.uniform(a, b)]), a), b) for a, b in zip(lo[0], hi[0])]
            at = {ss[i]: sympy.Rational(p[i]) for i in range(n)}
            for e, (a, b) in claims:
                w = sympy.N(e.subs(at), 30)
                if not w.is_real or not np.isfinite([a[0], b[0]]).all():
                    continue
                if sympy.Rational(float(a[0])) <= w <= sympy.Rational(float(b[0])):
                    good += 1
                else:
                    bad += 1
                    print("outside", t, p, e, w, a, b)
    # bounds just below the smallest value are accepted, bounds just above it are refused
    x, y = xs[:2]
    for t, m in (((x - z3.Q(1, 3)) * (x - z3.Q(1, 3)) + (y + 1) * (y + 1) + 2, 2), (x * x * x * x - 2 * x * x + y * y, -1), (x + y, -4), (x * y, -4)):
        if at_least(t, [x, y], [-2, -2], [2, 2], m - 1e-6, limit=200000)[0] != "proved" or at_least(t, [x, y], [-2, -2], [2, 2], m + 1e-6, limit=200000)[0] == "proved":
            bad += 1
            print("bound", t, m)
        else:
            good += 1
    print("intervaltest: %d enclosures hold, %d do not" % (good, bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
