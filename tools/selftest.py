#!/usr/bin/env python3
"""python3-vt tools/selftest.py: cross-check of pyvc's semantics against CPython and numpy.

Every function of SNIPPETS is run by CPython on concrete arguments, and interpreted by pyvc twice: with concrete arrays, and with
arrays of symbolic shape and content about which only their values are assumed.  pyvc must prove that the results (and the arguments
afterwards) are those of CPython.  A result that the model excludes is a mismatch (unsound); results that it merely leaves open, and unsupported constructs, are listed.
"""
import os
import sys
import tempfile
import threading
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
SNIPPETS = '''
import numpy as np
import math
import copy
import scipy.spatial as scp


def views(x, v):
    y = x[0, :]
    y[1] = 7.0
    z = np.copy(x[1, :])
    z[0] = 9.0
    return x


def view_of_column(x, v):
    c = x[:, 1]
    c += 1
    return x


def transposed(x, v):
    t = x.T
    t[0, 1] = 5
    return x


def slices(x, v):
    return x[1:, :2].copy(), x[-1], v[::-1], v[1:-1], v[::2]


def boolean(x, v):
    m = v > 0
    w = v.copy()
    w[m] = 0
    return w, v[m], np.where(m, v, -v)


def where_index(x, v):
    i = np.where(v > 0)[0]
    return i, v[i]


def fancy(x, v):
    ind = [2, 0]
    y = v[ind]
    y[0] = 11
    return y, v, x[ind, :]


def fancy_store(x, v):
    w = np.copy(v)
    w[[0, 2]] = [5, 6]
    return w


def broadcast(x, v):
    return x + v, x * x[:, [0]], v - 1, 8 / (v * v), (x - x.min()) / 4


def inplace(x, v):
    y = x
    y *= 2
    y = y + 1
    return x, y


def reductions(x, v):
    return x.max(), x.min(), np.argmin(v), np.argmax(v)


def sums(x, v):
    return x.sum(), np.sum(x, axis=0), np.min(x, axis=1), np.prod(v), np.mean(v)


def stacking(x, v):
    return np.vstack((x, v)), np.hstack((v, v)), np.delete(x, 1, 0), np.concatenate((v, v[:1])), np.atleast_2d(v), np.expand_dims(v, axis=1)


def append_rows(x, v):
    r = np.empty([0, 3])
    for i in range(3):
        r = np.vstack((r, x[i, :]))
    return r


def loops(x, v):
    s = 0.0
    out = []
    for i in range(len(v)):
        if v[i] < 0:
            continue
        if v[i] > 3:
            break
        s += v[i]
        out.append(s)
    return s, out


def while_loop(x, v):
    i, n = 0, 0
    while i < 3 and v[i] != 1.0:
        i += 2
        n -= 1
    else:
        n += 100
    return i, n


def comprehension(x, v):
    return [a * 2 for a in v if a > 0], [i for i, a in enumerate(v) if a < 0]


def generators(x, v):
    return sum(a for a in v), list(zip(v, v[1:]))[0], [a * b for a, b in zip(v, v)], all(a < 9 for a in v)


def integers(x, v):
    return 7 // 2, -7 // 2, -7 % 3, 2 ** 5, int(-2.7), int(2.7), round(2.5), round(3.5)


def rounding(x, v):
    return np.round(v), np.floor(v), np.ceil(v), np.clip(v, -1, 2), np.abs(v), np.sign(v), np.maximum(v, 1), np.minimum(v, v[0])


def remainders(x, v):
    return np.remainder(7, 3), np.remainder(-7, 3), math.ceil(2.1), math.floor(-2.1), math.fabs(-3)


def exceptions(x, v):
    try:
        if len(v) > 2:
            raise ValueError("n")
        r = 0
    except (TypeError, ValueError):
        r = 1
    finally:
        s = 2
    return r, s


def defaults(a=1, *rest, b=2, **kw):
    return a + b + len(rest) + len(kw)


def calls(x, v):
    return defaults(), defaults(5), defaults(1, 2, 3, b=4, c=5), (lambda q, r=3: q * r)(2)


class P(object):
    count = 0

    def __init__(self, a):
        self._a = a

    @property
    def a(self):
        return self._a

    @a.setter
    def a(self, val):
        if val < 0:
            raise ValueError("negative")
        self._a = val

    def up(self):
        self._a += 1
        return self


class Q(P):
    def __init__(self, a, b):
        super().__init__(a)
        self.b = b

    def up(self):
        super().up()
        self.b -= 1
        return self


def objects(x, v):
    q = Q(1, 2).up().up()
    q.a = 10
    try:
        q.a = -1
    except ValueError:
        q.b += 100
    return q.a, q.b, isinstance(q, P), q.count, hasattr(q, "zzz")


def lists(x, v):
    a = [1, 2, 3]
    b = a
    b.append(4)
    c = a[:]
    c.pop(0)
    del b[1]
    a.insert(0, 9)
    a.extend([5])
    return a, b, c, a.pop(), 3 in a, a.index(3), sorted([3, 1, 2]), list(reversed(c)), min(a), max(a)


def tuples(x, v):
    (a, b), c = (1, 2), 3
    a, b = b, a
    return a, b, c, (1, 2) == (1, 2), [1] * 3


def dicts(x, v):
    d = {"a": 1}
    d["b"] = 2
    d.update(c=3)
    return d["a"] + d.get("z", 10), "b" in d, len(d)


def logic(x, v):
    return 1 and 0, 0 or 5, not [], None is None, all([True, 1]), any([0, 0]), 1 if v[0] > 0 else 2, 0 < v[0] < 10


def globals_mutated(x, v):
    def f(n):
        nonlocal_list.append(n)
        return n
    nonlocal_list = []
    f(1)
    f(2)
    return nonlocal_list


def matrix(x, v):
    return x.shape, x.T, x[:, [1, 0]], x.ravel(), np.dot(x, v), x.dot(x), np.zeros((2, 2)), np.ones(3), np.eye(3)


def diag(x, v):
    y = x.copy()
    np.fill_diagonal(y, 8)
    return y, np.arange(4), np.arange(1, 4)


def distances(x, v):
    return scp.distance.cdist(x, x)[0, 0], np.linalg.norm(np.array([3.0, 4.0]))


def comparisons(x, v):
    return np.all(v == v), np.any(v > 100), np.array_equal(v, v.copy()), np.logical_and(v > 0, v < 3), (v > 0) & (v < 3), ~(v > 0)


def sets(x, v):
    return np.intersect1d([1, 2, 3], [3, 1, 7]), np.union1d([1, 5], [2, 1]), np.isin(2, [1, 2])


def broadcasting_store(x, v):
    y = np.zeros((3, 3))
    y[0, :] = v
    y[1:, 0] = 4
    y[:, 2] = [1, 2, 3]
    y[2] += 1
    return y


def aliasing_arguments(x, v):
    def g(a, b):
        a[0] = b[0] + 1
        b[0] = a[0] * 2
    g(v, v)
    return v


def nested(x, v):
    c = 0
    for i in range(3):
        for j in range(i, 3):
            if x[i, j] > 2:
                c += 1
    return c
'''


def values(r):
    """(path, value) of a result of CPython."""
    import numpy as np
    if isinstance(r, (tuple, list)):
        yield ("len",), len(r)
        for i, e in enumerate(r):
            for p, q in values(e):
                yield (i,) + p, q
    elif isinstance(r, np.ndarray):
        yield ("shape",), r.shape
        for ix in np.ndindex(*r.shape):
            yield (("at", ix),), r[ix]
    else:
        yield (), r


def run_snippet(name, I, fn, mod, symbolic, log):
    import numpy as np
    from pyvc.specs.common import Arr, A, PList, SymList, eq, b_iff, b_and, fresh_arr, is_scalar, z3, E_of
    E = I.E
    X = np.array([[1.5, -2.0, 3.0], [0.0, 4.0, -1.25], [2.0, 2.5, 7.0]])
    V = np.array([4.0, -2.0, 1.0])

    def make(a):
        a = a.copy()
        if not symbolic:
            if a.ndim == 1:
                return A.from_list([float(q) for q in a])
            return A.new(a.shape, lambda ix, a=a: pick(a, ix), "f")
        n = [E.Int("n") for _ in a.shape]
        for q, s in zip(n, a.shape):
            E.assume(eq(q, s))
            for t in range(s + 1):
                E.touch(t)
        r = fresh_arr(E, tuple(n), "f", False, "arg")
        for ix in np.ndindex(*a.shape):
            E.assume(eq(r.at(*ix), Fraction(float(a[ix]))))
        return r

    def pick(a, ix):
        from pyvc.core import ite, b_and
        r = Fraction(0)
        for jx in np.ndindex(*a.shape):
            r = ite(b_and(*[eq(p, q) for p, q in zip(ix, jx)]), Fraction(float(a[jx])), r)
        return r
    xs, vs = make(X), make(V)
    want = getattr(mod, name)(X, V)
    got = I.call(I.get("pySOT.snip:" + name), [xs, vs])

    def get(r, path):
        for p in path:
            if p == "len":
                return len(r) if isinstance(r, tuple) else len(r.items) if isinstance(r, PList) else r.n if isinstance(r, SymList) else r.shape[0]
            if p == "shape":
                return r.shape if isinstance(r, Arr) else ()
            if isinstance(p, tuple):
                r = r.at(*p[1]) if isinstance(r, Arr) and p[1] != () else r if not isinstance(r, Arr) else r.at()
            else:
                r = r[p] if isinstance(r, tuple) else r.items[p] if isinstance(r, PList) else r.get(p) if isinstance(r, SymList) else r.at(p)
        return r
    for lab, res, ref in (("result", got, want), ("x afterwards", xs, X), ("v afterwards", vs, V)):
        for path, w in values(ref):
            g = get(res, path)
            if isinstance(w, tuple):
                goal = len(g) == len(w) and b_and(*[eq(a, b) for a, b in zip(g, w)])
            elif isinstance(w, (bool, np.bool_)):
                goal = b_iff(g, bool(w)) if isinstance(g, (bool, z3.BoolRef)) else eq(g, int(w))
            elif w is None or isinstance(w, str):
                goal = g == w
            else:
                goal = eq(g, Fraction(float(w)))
            if E.check(goal if z3.is_expr(goal) else z3.BoolVal(bool(goal))) == "unsat":
                log.append("%s %s" % (lab, path))
            E.prove("%s %s" % (lab, path), goal)


def main():
    tmp = tempfile.mkdtemp(prefix="pyvc_selftest_")
    os.makedirs(os.path.join(tmp, "pySOT"))
    open(os.path.join(tmp, "pySOT", "__init__.py"), "w").close()
    with open(os.path.join(tmp, "pySOT", "snip.py"), "w") as f:
        f.write(SNIPPETS)
    os.environ["PYVC_REPO"] = tmp
    sys.dont_write_bytecode = True
    import ast
    import importlib.util
    spec = importlib.util.spec_from_file_location("snip", os.path.join(tmp, "pySOT", "snip.py"))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    import pyvc.specs.common as C
    C.E_of = None
    from pyvc.runner import run_unit
    names = [n.name for n in ast.parse(SNIPPETS).body if isinstance(n, ast.FunctionDef) and n.name != "defaults"]
    bad = okay = other = 0
    only = [a for a in sys.argv[1:] if not a.startswith("-")]
    if not only:                         # one process for each snippet
        import subprocess
        from concurrent.futures import ThreadPoolExecutor

        def one(n):
            try:
                return subprocess.run([sys.executable, os.path.abspath(__file__), n], stdout=subprocess.PIPE, timeout=100).stdout.decode()
            except subprocess.TimeoutExpired:
                return "not compared %s: no result within the time limit\n" % n
        with ThreadPoolExecutor(8) as ex:
            for out in ex.map(one, names):
                for line in out.splitlines():
                    if line.startswith("selftest:"):
                        w = line.replace(",", "").split()
                        okay, bad, other = okay + int(w[1]), bad + int(w[4]), other + int(w[7])
                    else:
                        other += line.startswith("not compared") and "time limit" in line
                        print(line)
    for n in only:
        for symbolic in (False, True):
            wrong = []
            r = run_unit({"name": n, "fn": lambda I, n=n, s=symbolic: run_snippet(n, I, None, mod, s, wrong), "time": 15}, "-v" in sys.argv)
            obs = r["obligations"]
            unk = [k for k, o in obs.items() if o["unknown"] or o["refuted"]]
            okay += sum(1 for o in obs.values() if not o["refuted"] and not o["unknown"])
            if wrong:
                bad += 1
                print("MISMATCH %s (%s): %s" % (n, "symbolic" if symbolic else "concrete", wrong[:4]))
            elif r["status"] != "done" or unk:
                other += 1
                print("not compared %s (%s): %s %s" % (n, "symbolic" if symbolic else "concrete", r.get("reason", "")[:150], unk[:3]))
            sys.stdout.flush()
    os.unlink(os.path.join(tmp, "pySOT", "snip.py"))
    import shutil
    shutil.rmtree(tmp)
    print("selftest: %d values agree, %d snippets disagree, %d not compared" % (okay, bad, other))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    threading.stack_size(256 << 20)
    code = []
    t = threading.Thread(target=lambda: code.append(main()))
    t.start()
    t.join()
    sys.exit(code[0] if code else 2)
