"""Interval back end: f >= bound on a box, decided by branch and bound with outward-rounded interval arithmetic (value, mean-value
form, and convexity: where every second-derivative matrix is diagonally dominant the function lies above its tangent plane).

Terms are evaluated as jets of intervals (value, gradient, Hessian), many boxes at once.  + - * / sqrt are correctly rounded, so one
ulp outwards is enough; exp, sin and cos of numpy are taken to be accurate to 1e-14 (relative for exp, absolute for sin and cos)."""
import numpy as np
import z3
from .core import Unsupported

INF = np.inf


def dn(x):
    return np.nextafter(x, -INF)


def up(x):
    return np.nextafter(x, INF)


def iadd(a, b):
    if a is None or b is None:
        return b if a is None else a
    return dn(a[0] + b[0]), up(a[1] + b[1])


def ineg(a):
    return None if a is None else (-a[1], -a[0])


def imul(a, b):
    if a is None or b is None:
        return None
    p = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
    return dn(np.minimum(np.minimum(p[0], p[1]), np.minimum(p[2], p[3]))), up(np.maximum(np.maximum(p[0], p[1]), np.maximum(p[2], p[3])))


def isqr(a):
    l, h = a
    m = np.maximum(np.abs(l), np.abs(h))
    s = np.where((l <= 0) & (h >= 0), 0.0, np.minimum(np.abs(l), np.abs(h)))
    return np.maximum(dn(s * s), 0.0), up(m * m)


def iexp(a):
    return np.exp(a[0]) * (1 - 1e-14), np.exp(a[1]) * (1 + 1e-14)


def icos(a):
    l, h = a
    c0, c1 = np.cos(l), np.cos(h)
    lo, hi = np.minimum(c0, c1) - 1e-14, np.maximum(c0, c1) + 1e-14
    e = 1e-9                                     # a multiple of pi this close counts as inside
    two = 2 * np.pi
    hi = np.where(np.floor((h + e) / two) >= np.ceil((l - e) / two), 1.0, hi)
    lo = np.where(np.floor((h + e - np.pi) / two) >= np.ceil((l - e - np.pi) / two), -1.0, lo)
    return np.maximum(lo, -1.0), np.minimum(hi, 1.0)


def isin(a):
    h = np.pi / 2
    return icos((dn(a[0] - up(h)), up(a[1] - dn(h))))


class Jet(object):
    """Value, gradient and Hessian; entries None are zero.  order: how many derivatives are kept."""

    def __init__(self, v, g, H):
        self.v, self.g, self.H = v, g, H


def konst(f, n, order):
    return Jet(f, [None] * n if order else None, {} if order > 1 else None)


def jadd(a, b):
    return Jet(iadd(a.v, b.v), [iadd(x, y) for x, y in zip(a.g, b.g)] if a.g is not None else None,
               {k: iadd(a.H.get(k), b.H.get(k)) for k in set(a.H) | set(b.H)} if a.H is not None else None)


def jmul(a, b):
    if a is b:
        v = isqr(a.v)
    else:
        v = imul(a.v, b.v)
    if a.g is None:
        return Jet(v, None, None)
    g = [iadd(imul(x, b.v), imul(a.v, y)) for x, y in zip(a.g, b.g)]
    if a.H is None:
        return Jet(v, g, None)
    H = {}
    n = len(a.g)
    for i in range(n):
        for j in range(i + 1):
            t = iadd(imul(a.H.get((i, j)), b.v), imul(a.v, b.H.get((i, j))))
            t = iadd(t, iadd(imul(a.g[i], b.g[j]), imul(a.g[j], b.g[i])))
            if t is not None:
                H[(i, j)] = t
    return Jet(v, g, H)


def chain(a, f0, f1, f2):
    """f(a) from the enclosures of f, f', f''."""
    if a.g is None:
        return Jet(f0, None, None)
    g = [imul(f1, x) for x in a.g]
    if a.H is None:
        return Jet(f0, g, None)
    H = {}
    n = len(a.g)
    for i in range(n):
        for j in range(i + 1):
            t = iadd(imul(f1, a.H.get((i, j))), imul(f2, imul(a.g[i], a.g[j])))
            if t is not None:
                H[(i, j)] = t
    return Jet(f0, g, H)


def number(t):
    q = t.as_fraction()
    f = float(q)
    return (dn(f), up(f)) if q != int(q) or abs(q) > 2 ** 50 else (f, f)


class Term(object):
    """A z3 term in the real variables xs, ready for evaluation."""

    def __init__(self, t, xs, defs=()):
        self.xs = {x.get_id(): k for k, x in enumerate(xs)}
        self.n = len(xs)
        self.t = t

    def eval(self, box, order):
        """box: (lo, hi) arrays of shape boxes x variables."""
        memo = {}
        self.box, self.order = box, order

        def go(t):
            k = t.get_id()
            if k not in memo:
                memo[k] = self.node(t, go)
            return memo[k]
        r = go(self.t)
        N = box[0].shape[0]
        v = tuple(np.broadcast_to(x, (N,)) for x in r.v)
        full = lambda x: (np.zeros(N), np.zeros(N)) if x is None else tuple(np.broadcast_to(y, (N,)) for y in x)
        g = [full(x) for x in r.g] if order else None
        return v, g, ({k: full(x) for k, x in r.H.items()} if order > 1 else None)

    def node(self, t, go):
        n, order = self.n, self.order
        k = t.get_id()
        if k in self.xs:
            i = self.xs[k]
            r = konst((self.box[0][:, i], self.box[1][:, i]), n, order)
            if order:
                r.g[i] = (1.0, 1.0)
            return r
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return konst(number(t) if not z3.is_int_value(t) else (float(t.as_long()),) * 2, n, order)
        K = t.decl().kind()
        ch = t.children()
        if K == z3.Z3_OP_TO_REAL:
            return go(ch[0])
        if K == z3.Z3_OP_ADD:
            r = go(ch[0])
            for c in ch[1:]:
                r = jadd(r, go(c))
            return r
        if K == z3.Z3_OP_SUB:
            r = go(ch[0])
            for c in ch[1:]:
                r = jadd(r, jmul(konst((-1.0, -1.0), n, order), go(c)))
            return r
        if K == z3.Z3_OP_UMINUS:
            return jmul(konst((-1.0, -1.0), n, order), go(ch[0]))
        if K == z3.Z3_OP_MUL:
            # equal factors are squared
            r, left = None, [go(c) for c in ch]
            while left:
                a = left.pop(0)
                for i, b in enumerate(left):
                    if b is a:
                        left.pop(i)
                        a = jmul(a, a)
                        break
                r = a if r is None else jmul(r, a)
            return r
        if K == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction() in (2, 3, 4):
            a = go(ch[0])
            s = jmul(a, a)
            return {2: s, 3: jmul(s, a) if ch[1].as_fraction() == 3 else s, 4: jmul(s, s) if ch[1].as_fraction() == 4 else s}[int(ch[1].as_fraction())]
        if K == z3.Z3_OP_DIV and (z3.is_rational_value(ch[1])):
            q = 1 / ch[1].as_fraction()
            f = float(q)
            return jmul(konst((dn(f), up(f)), n, order), go(ch[0]))
        if K == z3.Z3_OP_ITE and order == 0:
            c = ch[0]
            a, b = c.children() if c.num_args() == 2 else (None, None)
            if a is not None and c.decl().kind() in (z3.Z3_OP_GE, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_LT):
                s = iadd(go(a).v, ineg(go(b).v))
                p, q = go(ch[1]).v, go(ch[2]).v
                if c.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT):
                    s = ineg(s)
                yes, no = s[1] >= 0, s[0] <= 0
                lo = np.minimum(np.where(yes, p[0], INF), np.where(no, q[0], INF))
                hi = np.maximum(np.where(yes, p[1], -INF), np.where(no, q[1], -INF))
                return Jet((lo, hi), None, None)
        if K == z3.Z3_OP_UNINTERPRETED and len(ch) == 1:
            nm, a = t.decl().name(), go(ch[0])
            if nm == "fn_exp":
                e = iexp(a.v)
                return chain(a, e, e, e)
            if nm == "fn_sin":
                s = isin(a.v)
                return chain(a, s, icos(a.v), ineg(s))
            if nm == "fn_cos":
                c = icos(a.v)
                return chain(a, c, ineg(isin(a.v)), ineg(c))
            if nm == "fn_sqrt" and order == 0:
                return Jet((np.maximum(dn(np.sqrt(np.maximum(a.v[0], 0))), 0), up(np.sqrt(np.maximum(a.v[1], 0)))), None, None)
        raise Unsupported("interval evaluation: %s" % str(t)[:80])


def at_least(t, xs, lo, hi, bound, limit=4000000, second=True, chunk=40000):
    """-> ('proved', boxes) or ('unknown', boxes, a box) for: t >= bound for all lo <= xs <= hi."""
    T = Term(t, xs)
    n = len(xs)
    todo = [(np.array([lo], dtype=float), np.array([hi], dtype=float))]
    w0 = np.maximum(np.array(hi, float) - np.array(lo, float), 1e-300)
    seen = 0
    while todo:
        L, H = todo.pop()
        if len(L) > chunk:
            todo.append((L[chunk:], H[chunk:]))
            L, H = L[:chunk], H[:chunk]
        seen += len(L)
        if seen > limit:
            return "unknown", seen, (L[0].tolist(), H[0].tolist())
        v, _, _ = T.eval((L, H), 0)
        open_ = ~(v[0] >= bound)
        L, H = L[open_], H[open_]
        if not len(L):
            continue
        g = None
        if second:
            _, g, _ = T.eval((L, H), 1)
            c = 0.5 * (L + H)
            for i in range(n):           # the center that gives the best bound of the mean-value form
                u, l = g[i][1], g[i][0]
                with np.errstate(all="ignore"):
                    ci = np.where(l >= 0, L[:, i], np.where(u <= 0, H[:, i], (u * L[:, i] - l * H[:, i]) / (u - l)))
                c[:, i] = np.where(np.isfinite(ci), np.clip(ci, L[:, i], H[:, i]), c[:, i])
            fc, _, _ = T.eval((c, c), 0)
            low = fc[0]
            for i in range(n):           # the derivative times x - c, over both sides of c
                a, b = up(np.maximum(g[i][1], 0) * up(c[:, i] - L[:, i])), up(np.maximum(-g[i][0], 0) * up(H[:, i] - c[:, i]))
                low = dn(low - np.maximum(a, b))
            open_ = ~(low >= bound)
            # a minimizer over the domain is not where a derivative has a sign, unless on the boundary of the domain
            for i in range(n):
                inc, dec = (g[i][0] > 0) & (H[:, i] > L[:, i]), (g[i][1] < 0) & (H[:, i] > L[:, i])
                open_ &= ~(inc & (L[:, i] > lo[i])) & ~(dec & (H[:, i] < hi[i]))
                H[:, i] = np.where(inc & (L[:, i] <= lo[i]), L[:, i], H[:, i])
                L[:, i] = np.where(dec & (H[:, i] >= hi[i]), H[:, i], L[:, i])
            L, H = L[open_], H[open_]
            if not len(L):
                continue
            g = np.stack([np.maximum(np.abs(x[0]), np.abs(x[1]))[open_] for x in g], axis=1)
            small = np.max((H - L) / w0, axis=1) < 0.05
            if small.any():
                ok = np.zeros(len(L), bool)
                ok[small] = convex(T, L[small], H[small], bound)
                L, H, g = L[~ok], H[~ok], g[~ok]
                if not len(L):
                    continue
        if np.max(H - L) < 1e-13:
            return "unknown", seen, (L[0].tolist(), H[0].tolist())
        k = np.argmax((H - L) / w0 if g is None else (H - L) * np.where(np.isfinite(g), g, 1e300), axis=1)
        m = np.arange(len(L))
        mid = 0.5 * (L[m, k] + H[m, k])
        L2, H2 = L.copy(), H.copy()
        H2[m, k] = mid
        L3, H3 = L.copy(), H.copy()
        L3[m, k] = mid
        todo.append((np.vstack((L2, L3)), np.vstack((H2, H3))))
    return "proved", seen


def convex(T, L, H, bound):
    """Boxes on which the function is convex up to a point p nearby and lies above bound by its tangent plane at p."""
    n = T.n
    p = 0.5 * (L + H)
    for _ in range(12):           # Newton: any p is sound
        v, g, h = T.eval((p, p), 2)
        G = np.stack([x[0] for x in g], axis=1)
        M = np.zeros((len(p), n, n))
        for (i, j), x in h.items():
            M[:, i, j] = M[:, j, i] = x[0]
        try:
            s = np.linalg.solve(M + 1e-12 * np.eye(n), G[:, :, None])[:, :, 0]
        except np.linalg.LinAlgError:
            break
        s = np.where(np.isfinite(s), s, 0)
        s = np.clip(s, -2 * (H - L) - 1e-3, 2 * (H - L) + 1e-3)
        p = np.clip(p - s, L - 3 * (H - L), H + 3 * (H - L))
    A, B = np.minimum(L, p), np.maximum(H, p)
    _, _, h = T.eval((A, B), 2)
    z = np.zeros(len(p))
    ok = np.ones(len(p), bool)
    for i in range(n):
        r = h.get((i, i), (z, z))[0]
        for j in range(n):
            if j != i:
                x = h.get((max(i, j), min(i, j)), (z, z))
                r = dn(r - np.maximum(np.abs(x[0]), np.abs(x[1])))
        ok &= r > 0
    v, g, _ = T.eval((p, p), 1)
    low = v[0]
    for i in range(n):
        low = dn(low - up(np.maximum(np.abs(g[i][0]), np.abs(g[i][1])) * up(B[:, i] - A[:, i])))
    return ok & (low >= bound)
