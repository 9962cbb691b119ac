"""Equality of real terms by normal forms: Laurent polynomials over atoms (variables, function applications with normalized
arguments, sums with normalized bodies, inverses of polynomials), with linearity of sums.

Coefficients are exact; with tol > 0 coefficients that agree to that relative precision are identified (a term computed with
floating point constants such as 2*pi/4 is then equal to the same term with the constants multiplied out in another order).
Identities used: field axioms (denominators are assumed not to be zero; the callers prove it where it is not obvious), linearity and
extensionality of finite sums, congruence of functions.  Conditions are decided by the solver on the current path."""
import math
from fractions import Fraction

import z3

from .core import Unsupported


FN = {"fn_exp": math.exp, "fn_cos": math.cos, "fn_sin": math.sin, "fn_sqrt": math.sqrt, "fn_log": math.log}


class NF(object):
    def __init__(self, E, tol=0.0, symmetric=("dist",), known=()):
        self.E, self.tol, self.symmetric = E, tol, symmetric
        self.memo = {}
        self.depth = 0
        self.keep = []
        self.bound = {}
        self.known = known        # hypotheses of the path, for every integer, to use for the variable of a sum
        self.decided = {}

    # polynomials: dict from monomial (sorted tuple of (atom, exponent)) to Fraction
    def const(self, c):
        return {(): Fraction(c)} if c else {}

    def plus(self, p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            o = r.get(m, 0)
            v = o + s * c
            if v == 0 or self.tol and abs(v) <= self.tol * max(abs(o), abs(c)):
                r.pop(m, None)
            else:
                r[m] = v
        return r

    def mmul(self, a, b):
        d = dict(a)
        for x, e in b:
            d[x] = d.get(x, 0) + e
            if d[x] == 0:
                del d[x]
        return tuple(sorted(d.items()))

    def _times(self, p, q):
        acc, mx = {}, {}
        for m, c in p.items():
            for n, d in q.items():
                k = self.mmul(m, n)
                v = c * d
                acc[k] = acc.get(k, 0) + v
                mx[k] = max(mx.get(k, 0), abs(v))
        return {k: v for k, v in acc.items() if v != 0 and not (self.tol and abs(v) <= self.tol * mx[k])}

    def inv(self, p):
        if not p:
            raise Unsupported("division by zero")
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((a, -e) for a, e in m): 1 / c}
        ms = sorted(p, key=repr)
        lead = p[ms[0]]
        q = {m: c / lead for m, c in p.items()}
        return {((("inv", self.key(q)), 1),): 1 / lead}

    def num(self, c):
        if not self.tol:
            return str(c)
        return "%.11g" % float(c)

    def key(self, p):
        return "+".join("%s*%s" % (self.num(p[m]), m) for m in sorted(p, key=repr))

    def show(self, p):
        return str({str(m)[:200]: float(c) for m, c in list(p.items())[:6]})

    def atom(self, a):
        return {((a, 1),): Fraction(1)}

    # ------------------------------------------------------------------
    def norm(self, t):
        if isinstance(t, (int, float)):
            return self.const(Fraction(t) if isinstance(t, int) else Fraction(t))
        k = t.get_id()
        if k not in self.memo:
            self.memo[k] = self.go(t)
            self.keep.append(t)
        return self.memo[k]

    def go(self, t):
        if z3.is_int_value(t):
            return self.const(t.as_long())
        if z3.is_rational_value(t):
            return self.const(Fraction(t.numerator_as_long(), t.denominator_as_long()))
        c, kind = t.children(), t.decl().kind()
        if kind in (z3.Z3_OP_TO_REAL,):
            return self.norm(c[0])
        if kind == z3.Z3_OP_ADD:
            r = {}
            for x in c:
                r = self.plus(r, self.norm(x))
            return r
        if kind == z3.Z3_OP_SUB:
            r = self.norm(c[0])
            for x in c[1:]:
                r = self.plus(r, self.norm(x), -1)
            return r
        if kind == z3.Z3_OP_UMINUS:
            return {m: -v for m, v in self.norm(c[0]).items()}
        if kind == z3.Z3_OP_MUL:
            r = self.const(1)
            for x in c:
                r = self._times(r, self.norm(x))
            return r
        if kind == z3.Z3_OP_DIV:
            return self._times(self.norm(c[0]), self.inv(self.norm(c[1])))
        if kind == z3.Z3_OP_POWER:
            e = self.norm(c[1])
            if len(e) <= 1 and (not e or list(e) == [()]):
                v = e.get((), 0)
                if v == int(v) and abs(v) <= 40:
                    r = self.const(1)
                    for _ in range(abs(int(v))):
                        r = self._times(r, self.norm(c[0]))
                    return r if v >= 0 else self.inv(r)
            return self.pow(self.norm(c[0]), e)
        if kind == z3.Z3_OP_ITE:
            d = self.decide(c[0])
            if d is not None:
                return self.norm(c[1] if d else c[2])
            a, b = self.norm(c[1]), self.norm(c[2])
            if not self.plus(a, b, -1):
                return a
            return self.atom(("ite", self.ckey(c[0]), self.key(a), self.key(b)))
        if kind == z3.Z3_OP_UNINTERPRETED:
            nm = t.decl().name()
            if not c:
                return self.atom(("v", self.bound.get(nm, nm)))
            rec = self.E.sum_all.get(nm)
            if rec is not None:
                if all(x.eq(y) for x, y in zip(rec["par"], c)):
                    return self.sum(rec, c[-1])
                sub = list(zip(rec["par"], c))
                return self.sum(dict(rec, fn=lambda v: z3.substitute(rec["e"], *(sub + [(rec["tau"], ival(v))]))), c[-1])
            lift = self.E.sum_lift.get(nm)
            if lift:
                rec, g = lift
                sub = list(zip(rec["par"], c[1:]))
                return self.sum(dict(rec, fn=lambda v: g.term(z3.substitute(rec["e"], (rec["tau"], ival(v))), c[0], sub)), c[-1])
            if nm == "pow" and len(c) == 2:
                return self.pow(self.norm(c[0]), self.norm(c[1]))
            if nm in FN and len(c) == 1:
                p = self.norm(c[0])
                if not p or list(p) == [()]:           # a known argument
                    v = FN[nm](float(p.get((), 0)))
                    if self.tol or v == int(v) and not p:
                        return self.const(Fraction(v) if abs(v) > 1e-15 else 0)
            ks = [self.tkey(x) for x in c]
            if nm in self.symmetric:
                ks.sort()
            if nm in ("fn_cos", "fn_sin") and len(c) == 1:      # even, odd
                p = self.norm(c[0])
                if p and p[sorted(p, key=repr)[0]] < 0:
                    q = {m: -v for m, v in p.items()}
                    return {(((nm, self.key(q)), 1),): Fraction(1 if nm == "fn_cos" else -1)}
            return self.atom((nm,) + tuple(ks))
        return self.atom(("t", t.sexpr()))

    def pow(self, b, e):
        """b**e for a symbolic exponent: b**(e+k) = b**e * b**k, 1/b = b**-1 (positive base or natural exponent)."""
        k = e.get((), Fraction(0))
        k = int(k) if k == int(k) else 0
        rest = {m: c for m, c in e.items() if m != () or c != k}
        if rest.get((), None) is not None and k:
            rest = self.plus(e, self.const(k), -1)
        r = self.const(1)
        for _ in range(abs(k)):
            r = self._times(r, b)
        if k < 0:
            r = self.inv(r)
        if len(b) == 1:           # (c * prod a^n) ** rest
            (m, c), = b.items()
            out = {tuple(sorted((("pow", a, self.key(rest)), n) for a, n in m)): Fraction(1)}
            if c != 1:
                out = self._times(out, self.atom(("powc", self.num(c), self.key(rest))))
            return self._times(r, out)
        return self._times(r, self.atom(("pow", self.key(b), self.key(rest))))

    def sum(self, rec, n):
        nn = self.norm(n)
        if not nn:
            return {} if rec["kind"] == "sum" else self.const(1)
        if len(nn) == 1 and list(nn) == [()] and nn[()] == int(nn[()]) and 0 <= nn[()] <= 12:      # a known number of terms
            r = {} if rec["kind"] == "sum" else self.const(1)
            for t in range(int(nn[()])):
                self.E.inst_level += 5
                try:
                    e = z3.simplify(real_(rec["fn"](t)))
                finally:
                    self.E.inst_level -= 5
                r = self.plus(r, self.norm(e)) if rec["kind"] == "sum" else self._times(r, self.norm(e))
            return r
        from .loops import Scope
        E = self.E
        v = z3.Int("bound!%d" % self.depth)
        name = "bound!%d" % self.depth
        self.depth += 1
        saved = self.memo
        self.memo = dict(saved)
        try:
            with Scope(E):
                E.assume(z3.And(v >= 0, v < n))
                for f in self.known:
                    E.assume(f(v))
                E.inst_level += 5
                try:
                    e = real_(rec["fn"](v))
                finally:
                    E.inst_level -= 5
                p = self.norm(e)
        finally:
            self.depth -= 1
            self.memo = saved
        if rec["kind"] != "sum" and p == self.const(1):
            return p
        if rec["kind"] != "sum":
            return self.atom(("prod", self.key(nn), self.key(p)))
        out = {}
        for m, c in p.items():
            free = tuple((a, x) for a, x in m if name not in repr(a))
            dep = tuple((a, x) for a, x in m if name in repr(a))
            if not dep:
                r = nn
            else:
                r = self.atom(("sum", self.key(nn), dep))
            out = self.plus(out, self._times({free: c}, r))
        return out

    def decide(self, c):
        """Decided by the facts already on the path, without further instances of the quantified ones."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k not in self.decided or self.depth:
            S = self.E.solver
            r = None
            for v in (True, False):
                S.push()
                S.add(z3.Not(c) if v else c)
                if S.check() == z3.unsat:
                    r = v
                S.pop()
                if r is not None:
                    break
            if self.depth:
                return r
            self.decided[k] = r
            self.keep.append(c)
        return self.decided[k]

    def ckey(self, c):
        k = c.decl().kind()
        ch = c.children()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_arith(ch[0]):
            p = self.plus(self.norm(ch[0]), self.norm(ch[1]), -1)
            return (k, self.key(p))
        if ch and z3.is_bool(c) and all(z3.is_bool(x) for x in ch):
            return (k,) + tuple(self.ckey(x) for x in ch)
        return ("c", c.sexpr())

    def tkey(self, x):
        if z3.is_arith(x):
            return self.key(self.norm(x))
        if z3.is_app(x) and x.num_args():
            return (x.decl().name(),) + tuple(self.tkey(y) for y in x.children())
        return x.sexpr()


def ival(v):
    return v if z3.is_expr(v) else z3.IntVal(v)


def real_(x):
    from .core import real
    x = real(x)
    return x if not isinstance(x, (int, float)) else z3.RealVal(Fraction(x))


def equal(E, a, b, tol=0.0, known=()):
    """a = b by normal forms; the difference (a polynomial) if not."""
    n = NF(E, tol, known=known)
    return n.plus(n.norm(real_(a)), n.norm(real_(b)), -1)


def prove_equal(E, name, a, b, tol=0.0, fallback=True, known=(), near=0.0):
    """Equality; with near > 0 a constant difference up to near is accepted (documented values are rounded)."""
    d = equal(E, a, b, tol, known)
    if not d or near and list(d) == [()] and abs(d[()]) <= near:
        E.count("normal form")
        return E.prove(name, True)
    if list(d) == [()]:                     # they differ by a constant
        return E.prove(name, False)
    from .core import eq
    return E.prove(name, eq(a, b)) if fallback else E.undecided(name, "difference of the normal forms: %s" % NF(E, tol).show(d))
