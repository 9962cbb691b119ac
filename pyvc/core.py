"""pyvc core: symbolic scalars, facts, path exploration and obligation discharge.

The verifier executes the functions of /repo symbolically from their current
source (see interp.py), one execution per path, and discharges every
obligation with z3 (cvc5 as second opinion).  Universally quantified
hypotheses are kept as Python closures and instantiated at the index and
point terms that occur in the path, so every query is quantifier free.
Machine arithmetic is treated as mathematical (Real/Int), plus explicit
+inf/nan flags where the code uses them.
"""
import math
import os
import subprocess
import tempfile
from fractions import Fraction

import z3


class Unsupported(Exception):
    """The code uses something outside the verifier's subset: undecided, never a violation."""


class PathEnd(Exception):
    """Current path is finished (infeasible, or absorbed by a loop invariant)."""


class PyExc(Exception):
    """A Python exception raised by the code under verification."""

    def __init__(self, name, msg="", value=None):
        Exception.__init__(self, name, msg)
        self.name, self.msg, self.value = name, msg, value


Pt = z3.DeclareSort("Pt")
coord = z3.Function("coord", Pt, z3.IntSort(), z3.RealSort())

_z3num = (z3.ArithRef,)


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def is_sym(x):
    return isinstance(x, (z3.ExprRef, XR))


def is_scalar(x):
    return isinstance(x, (int, float, bool, Fraction, z3.ArithRef, z3.BoolRef, XR))


class XR(object):
    """Extended real: value v, flags inf (+infinity) and nan (z3 Bools or Python bools)."""

    __slots__ = ("v", "inf", "nan")

    def __init__(self, v, inf=False, nan=False):
        self.v, self.inf, self.nan = v, inf, nan

    def __repr__(self):
        return "XR(%s,%s,%s)" % (self.v, self.inf, self.nan)


def b_and(*a):
    r = []
    for x in a:
        if x is False:
            return False
        if x is True:
            continue
        if is_z3(x):
            if z3.is_true(x):
                continue
            if z3.is_false(x):
                return False
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def b_or(*a):
    r = []
    for x in a:
        if x is True:
            return True
        if x is False:
            continue
        if is_z3(x):
            if z3.is_true(x):
                return True
            if z3.is_false(x):
                continue
        r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def b_not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_true(a):
        return False
    if z3.is_false(a):
        return True
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_imp(a, b):
    return b_or(b_not(a), b)


def b_iff(a, b):
    if isinstance(a, bool):
        return b if a else b_not(b)
    if isinstance(b, bool):
        return a if b else b_not(a)
    return a == b


def tobool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def real(x):
    """Scalar -> z3 Real (finite values only)."""
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal("%d/%d" % (x.numerator, x.denominator))
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported("infinite constant in a finite context")
        f = Fraction(repr(x))
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
    if isinstance(x, XR):
        if x.inf is False and x.nan is False:
            return real(x.v)
        raise Unsupported("extended value in a finite context")
    if z3.is_bool(x):
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if z3.is_int(x):
        if z3.is_int_value(x):
            return z3.RealVal(x.as_long())
        return z3.ToReal(x)
    return x


def integer(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float) and x == int(x):
        return z3.IntVal(int(x))
    if z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    if is_z3(x) and z3.is_int(x):
        return x
    raise Unsupported("not an integer: %r" % (x,))


def xr(x):
    if isinstance(x, XR):
        return x
    if isinstance(x, float):
        if math.isnan(x):
            return XR(z3.RealVal(0), False, True)
        if math.isinf(x):
            if x < 0:
                raise Unsupported("-inf")
            return XR(z3.RealVal(0), True, False)
    return XR(real(x), False, False)


def needs_x(*a):
    for x in a:
        if isinstance(x, XR):
            return True
        if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
            return True
    return False


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        if isinstance(a, bool) and isinstance(b, bool):
            return a if a == b else (c if a else b_not(c))
        return z3.If(c, tobool(a), tobool(b))
    if needs_x(a, b):
        a, b = xr(a), xr(b)
        return XR(ite(c, a.v, b.v), b_ite(c, a.inf, b.inf), b_ite(c, a.nan, b.nan))
    if is_z3(a) and a.sort() == Pt:
        return a if a.eq(b) else z3.If(c, a, b)
    if is_intlike(a) and is_intlike(b):
        a, b = integer(a), integer(b)
    else:
        a, b = real(a), real(b)
    return a if a.eq(b) else z3.If(c, a, b)


def b_ite(c, a, b):
    if isinstance(a, bool) and isinstance(b, bool) and a == b:
        return a
    return b_or(b_and(c, a), b_and(b_not(c), b))


def is_intlike(x):
    return isinstance(x, int) or (is_z3(x) and (z3.is_int(x) or z3.is_bool(x)))


def conc(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, XR)


def add(a, b):
    if conc(a) and conc(b):
        return a + b
    if needs_x(a, b):
        a, b = xr(a), xr(b)
        return XR(add(a.v, b.v), b_or(a.inf, b.inf), b_or(a.nan, b.nan))
    if conc(a) and a == 0 and not (isinstance(a, float) and is_intlike(b)):
        return b
    if conc(b) and b == 0 and not (isinstance(b, float) and is_intlike(a)):
        return a
    if is_intlike(a) and is_intlike(b):
        return integer(a) + integer(b)
    return real(a) + real(b)


def neg(a):
    if conc(a):
        return -a
    if isinstance(a, XR):
        if a.inf is False:
            return XR(neg(a.v), False, a.nan)
        raise Unsupported("negation of an extended value")
    if is_intlike(a):
        return -integer(a)
    return -real(a)


def sub(a, b):
    if conc(a) and conc(b):
        return a - b
    if needs_x(a, b):
        a, b = xr(a), xr(b)
        # inf - inf = nan, x - inf = -inf (unsupported unless excluded)
        if b.inf is False:
            return XR(sub(a.v, b.v), a.inf, b_or(a.nan, b.nan))
        # x - inf with x finite would be -inf: represent as nan-flag only when both inf
        return XRsub(a, b)
    if conc(b) and b == 0 and not (isinstance(b, float) and is_intlike(a)):
        return a
    if is_intlike(a) and is_intlike(b):
        return integer(a) - integer(b)
    return real(a) - real(b)


def XRsub(a, b):
    E = Engine.cur
    if E is not None and E.must(b_imp(b.inf, a.inf)):
        return XR(sub(a.v, b.v), b_and(a.inf, b_not(b.inf)), b_or(a.nan, b.nan, b_and(a.inf, b.inf)))
    raise Unsupported("-inf may arise")


def mul(a, b):
    if conc(a) and conc(b):
        return a * b
    if needs_x(a, b):
        a, b = xr(a), xr(b)
        # sign handling: inf * negative = -inf unsupported; inf*0 = nan
        E = Engine.cur
        for p, q in ((a, b), (b, a)):
            if p.inf is not False:
                if not E.must(b_imp(p.inf, b_or(q.nan, q.inf, ge(q.v, 0)))):
                    raise Unsupported("inf times a possibly negative value")
        z = b_or(b_and(a.inf, b_not(b.inf), eq(b.v, 0)), b_and(b.inf, b_not(a.inf), eq(a.v, 0)))
        return XR(mul(a.v, b.v), b_and(b_or(a.inf, b.inf), b_not(z)), b_or(a.nan, b.nan, z))
    for p, q in ((a, b), (b, a)):
        if conc(p):
            if p == 1 and not (isinstance(p, float) and is_intlike(q)):
                return q if not (is_z3(q) and z3.is_bool(q)) else integer(q)
            if p == 0:
                return 0 if (isinstance(p, int) and is_intlike(q)) else 0.0
    if is_z3(a) and z3.is_bool(a) and is_z3(b) and not z3.is_bool(b):
        return ite(a, b, 0)
    if is_z3(b) and z3.is_bool(b) and is_z3(a) and not z3.is_bool(a):
        return ite(b, a, 0)
    if is_intlike(a) and is_intlike(b):
        return integer(a) * integer(b)
    return real(a) * real(b)


def div(a, b):
    if conc(a) and conc(b):
        if b == 0:
            raise PyExc("ZeroDivisionError")
        return a / b
    if needs_x(a, b):
        a, b = xr(a), xr(b)
        if b.inf is not False:
            raise Unsupported("division by an extended value")
        return XR(div(a.v, b.v), a.inf, b_or(a.nan, b.nan))
    if conc(b) and b != 0:
        if b == 1:
            return real(a)
        return real(a) * real(1 / Fraction(repr(float(b))) if not isinstance(b, int) else Fraction(1, b))
    return real(a) / real(b)


def multiple(a, b):
    """a = b*q + r with r a number in [0, b), if a is linear with all coefficients multiples of b; else None."""
    a = z3.simplify(integer(a))
    r, q = 0, []
    for x in (a.children() if z3.is_add(a) else [a]):
        if z3.is_int_value(x):
            r += x.as_long()
        elif z3.is_mul(x) and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() % b == 0:
            k = x.arg(0).as_long() // b
            rest = x.arg(1)
            for y in x.children()[2:]:
                rest = rest * y
            q.append(rest if k == 1 else k * rest)
        else:
            return None
    t = z3.IntVal(r // b)
    for x in q:
        t = t + x
    return z3.simplify(t), r % b


def floordiv(a, b):
    if conc(a) and conc(b):
        return a // b
    if is_intlike(a) and is_intlike(b):
        if isinstance(b, int) and b > 0 and not conc(a):
            m = multiple(a, b)
            if m is not None:
                return m[0]
        return integer(a) / integer(b) if (isinstance(b, int) and b > 0) else _idiv(integer(a), integer(b))
    raise Unsupported("floor division of reals")


def _idiv(a, b):
    E = Engine.cur
    if E.must(b > 0):
        return a / b
    raise Unsupported("integer division by a possibly non-positive value")


def mod(a, b):
    if conc(a) and conc(b):
        return a % b
    if is_intlike(a) and is_intlike(b):
        if isinstance(b, int) and b > 0:
            m = multiple(a, b) if not conc(a) else None
            return integer(a) % integer(b) if m is None else m[1]
        E = Engine.cur
        if is_z3(b) and not z3.is_int_value(b) and E.must(integer(b) > 0):
            # symbolic modulus: the function of the theory, known through the instances that matter
            f = UF1.setdefault("imod", z3.Function("fn_imod", z3.IntSort(), z3.IntSort(), z3.IntSort()))
            x, y = z3.simplify(integer(a)), integer(b)
            r = f(x, y)
            E.assume(z3.And(r >= 0, r < y, z3.Implies(z3.And(x >= 0, x < y), r == x), z3.Implies(z3.And(x >= y, x < 2 * y), r == x - y), z3.Implies(z3.And(x < 0, x >= -y), r == x + y)))
            return r
        if E.must(integer(b) > 0):
            return integer(a) % integer(b)
    raise Unsupported("modulo")


def power(a, b):
    if conc(a) and conc(b):
        return a ** b
    if isinstance(b, float) and b == int(b):
        b = int(b)
    if isinstance(b, int):
        if b < 0:
            return div(1, power(a, -b))
        if b > 40:
            raise Unsupported("large power")
        if isinstance(a, XR):
            a = real(a)
        a = real(a) if not is_intlike(a) else integer(a)
        r = 1
        for _ in range(b):
            r = mul(r, a)
        return r
    if b == 0.5 if conc(b) else False:
        return ufun("sqrt", a)
    if is_intlike(b) or is_z3(b):
        f = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
        return f(real(a), real(b))
    raise Unsupported("power")


UF1 = {}
SIMPLE, SIMPLE_KEEP = {}, []


def ufun(name, x):
    """Transcendental function as an uninterpreted function with axioms added by the engine."""
    if isinstance(x, XR):
        x = real(x)
    if conc(x):
        if name == "sqrt" and x >= 0:
            r = math.isqrt(int(x)) if x == int(x) else None
            if r is not None and r * r == x:
                return float(r)
        if name == "exp" and x == 0:
            return 1.0
        if name == "log" and x == 1:
            return 0.0
        if name == "sin" and x == 0:
            return 0.0
        if name == "cos" and x == 0:
            return 1.0
    f = UF1.setdefault(name, z3.Function("fn_" + name, z3.RealSort(), z3.RealSort()))
    t = z3.simplify(real(x), som=True)
    r = f(t)
    E = Engine.cur
    if E is not None:
        E.ufun_axioms(name, t, r)
    return r


def _cmp(op, a, b):
    if conc(a) and conc(b):
        return {"<": a < b, "<=": a <= b, "==": a == b}[op]
    if needs_x(a, b):
        a, b = xr(a), xr(b)
        nn = b_and(b_not(a.nan), b_not(b.nan))
        if op == "<":
            return b_and(nn, b_not(a.inf), b_or(b.inf, _cmp(op, a.v, b.v)))
        if op == "<=":
            return b_and(nn, b_or(b.inf, b_and(b_not(a.inf), _cmp(op, a.v, b.v))))
        return b_and(nn, b_or(b_and(a.inf, b.inf), b_and(b_not(a.inf), b_not(b.inf), _cmp(op, a.v, b.v))))
    if op == "==" and (isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef))):
        return b_iff(a, b)
    if is_intlike(a) and is_intlike(b):
        a, b = integer(a), integer(b)
    elif isinstance(b, (int, float)) and is_intlike(a) and float(b) == int(b):
        a, b = integer(a), integer(int(b))
    elif isinstance(a, (int, float)) and is_intlike(b) and float(a) == int(a):
        a, b = integer(int(a)), integer(b)
    else:
        a, b = real(a), real(b)
    if a.eq(b):
        return op != "<"
    r = {"<": lambda: a < b, "<=": lambda: a <= b, "==": lambda: a == b}[op]()
    return r


def lt(a, b):
    return _cmp("<", a, b)


def le(a, b):
    return _cmp("<=", a, b)


def gt(a, b):
    return _cmp("<", b, a)


def ge(a, b):
    return _cmp("<=", b, a)


def eq(a, b):
    return _cmp("==", a, b)


def ne(a, b):
    return b_not(eq(a, b))


def smin(a, b):
    """numpy.minimum / min for scalars (nan propagates)."""
    if conc(a) and conc(b):
        return min(a, b)
    if needs_x(a, b):
        x, y = xr(a), xr(b)
        c = lt(XR(x.v, x.inf, False), XR(y.v, y.inf, False))
        r = ite(c, x, y)
        return XR(r.v, r.inf, b_or(x.nan, y.nan))
    return ite(le(a, b), a, b)


def smax(a, b):
    if conc(a) and conc(b):
        return max(a, b)
    if needs_x(a, b):
        x, y = xr(a), xr(b)
        c = lt(XR(x.v, x.inf, False), XR(y.v, y.inf, False))
        r = ite(c, y, x)
        return XR(r.v, r.inf, b_or(x.nan, y.nan))
    return ite(le(b, a), a, b)


def sabs(a):
    if conc(a):
        return abs(a)
    if isinstance(a, XR):
        return XR(sabs(a.v), a.inf, a.nan)
    return ite(ge(a, 0), a, neg(a))


def srnd(x):
    """np.round: nearest integer (half-way cases: either neighbour)."""
    if conc(x):
        return float(round(x))
    if isinstance(x, XR):
        return XR(srnd(x.v), x.inf, x.nan)
    if is_intlike(x):
        return x
    t = real(x)
    if z3.is_to_real(t):
        return t
    if t.decl().kind() == z3.Z3_OP_ITE:
        return ite(t.arg(0), srnd(t.arg(1)), srnd(t.arg(2)))
    r = rnd_f(t)
    E = Engine.cur
    if E is not None:
        E.axiom(z3.And(r - t <= z3.RealVal("1/2"), t - r <= z3.RealVal("1/2"), isint_p(r), z3.Implies(isint_p(t), r == t)))
        E.int_term(r)
    return r


rnd_f = z3.Function("rnd", z3.RealSort(), z3.RealSort())
isint_p = z3.Function("isint", z3.RealSort(), z3.BoolSort())


def is_integral(x):
    """x is an integer (uninterpreted predicate isint; integers that differ are at least one apart)."""
    if conc(x):
        return float(x) == int(x)
    if isinstance(x, XR):
        return b_and(b_not(x.inf), b_not(x.nan), is_integral(x.v))
    if is_intlike(x):
        return True
    x = real(x)
    if z3.is_rational_value(x):
        return x.denominator_as_long() == 1
    k = x.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return True
    if k == z3.Z3_OP_ITE:
        return b_ite(x.arg(0), is_integral(x.arg(1)), is_integral(x.arg(2)))
    E = Engine.cur
    r = isint_p(x)
    if E is not None:
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            E.axiom(tobool(b_imp(b_and(*[is_integral(c) for c in x.children()]), r)))
        E.int_term(x)
    return r


def quick_same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(quick_same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(k in b and quick_same(v, b[k]) for k, v in a.items())
    return isinstance(a, (int, str, float)) and a == b


class Fact(object):
    """Universally quantified hypothesis with triggers inferred from its body."""

    def __init__(self, E, sorts, fn, label):
        self.sorts, self.fn, self.label = sorts, fn, label
        self.done, self.ptr, self.later = {}, {}, []
        self.pats = []
        vs = []
        for k, so in enumerate(sorts):
            vs.append(z3.Const("?%s%d" % (so, k), z3.IntSort() if so == "Int" else Pt))
        lv, fl, gl = E.inst_level, E.fresh_log, E.gen_log
        E.inst_level = 9
        E.fresh_log = None
        cnt = dict(E.counter)
        try:
            phi = fn(*vs)
        finally:
            E.inst_level, E.fresh_log = lv, fl
        if not is_z3(phi):
            return
        ids = {v.get_id(): k for k, v in enumerate(vs)}
        single, partial = [], {}
        stack, seen = [phi], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if not z3.is_app(x):
                continue
            ch = x.children()
            if ch and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                am = [(i, ids[c.get_id()]) for i, c in enumerate(ch) if c.get_id() in ids]
                cov = set(v for _, v in am)
                if cov:
                    nm = x.decl().name()
                    if len(cov) == len(vs):
                        if not any(q[0][0] == nm and q[0][1] == am for q in single):
                            single.append([(nm, am)])
                    partial.setdefault(frozenset(cov), [])
                    if not any(q == (nm, am) for q in partial[frozenset(cov)]):
                        partial[frozenset(cov)].append((nm, am))
            stack.extend(ch)
        self.pats = single
        if not single and len(vs) > 1:
            # one pattern group per way of covering the variables by partial patterns
            need = set(range(len(vs)))
            groups = [[]]
            cover = set()
            for cov, lst in sorted(partial.items(), key=lambda kv: -len(kv[0])):
                if cov <= cover:
                    continue
                groups = [g + [q] for g in groups for q in lst[:2]]
                cover |= cov
            if cover == need:
                self.pats = groups[:8]


class Result(object):
    def __init__(self, name, status, detail="", definite=True):
        self.name, self.status, self.detail, self.definite = name, status, detail, definite


LINEAR = {}


def linearized(t):
    """t with every product of two non-constants, division by a non-constant and power replaced by an uninterpreted function."""
    stack = [t]
    while stack:
        x = stack[-1]
        k = x.get_id()
        if k in LINEAR:
            stack.pop()
            continue
        if not z3.is_app(x):
            LINEAR[k] = (x, x)
            stack.pop()
            continue
        ch = x.children()
        todo = [c for c in ch if c.get_id() not in LINEAR]
        if todo:
            stack += todo
            continue
        stack.pop()
        new = [LINEAR[c.get_id()][1] for c in ch]
        kind = x.decl().kind()
        nl = None
        if kind == z3.Z3_OP_MUL:
            syms = [c for c in new if not (z3.is_int_value(c) or z3.is_rational_value(c))]
            if len(syms) > 1:
                syms.sort(key=lambda c: c.get_id())
                so = x.sort()
                nl = z3.Function("nl!mul%d%s" % (len(syms), so), *([so] * (len(syms) + 1)))(*syms)
                for c in new:
                    if z3.is_int_value(c) or z3.is_rational_value(c):
                        nl = c * nl
        elif kind in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER) and not (z3.is_int_value(new[1]) or z3.is_rational_value(new[1])):
            nl = z3.Function("nl!%d%s%s" % (kind, new[0].sort(), x.sort()), new[0].sort(), new[1].sort(), x.sort())(*new)
        elif kind == z3.Z3_OP_POWER:
            nl = z3.Function("nl!%d%s%s" % (kind, new[0].sort(), x.sort()), new[0].sort(), new[1].sort(), x.sort())(*new)
        if nl is not None:
            LINEAR[k] = (x, nl)
        elif all(a is b or a.eq(b) for a, b in zip(new, ch)):
            LINEAR[k] = (x, x)
        else:
            arr = (z3.Ast * len(new))()
            for i, c in enumerate(new):
                arr[i] = c.as_ast()
            LINEAR[k] = (x, z3.z3._to_expr_ref(z3.Z3_update_term(x.ctx_ref(), x.as_ast(), len(new), arr), x.ctx))
    return LINEAR[t.get_id()][1]


DEEP_COVER = bool(os.environ.get("PYVC_DEEP_COVER"))     # search harder for contradictory assumptions (development only: slow)


class Engine(object):
    cur = None

    def __init__(self, rlimit=4000000, verbose=False):
        self.rlimit = rlimit
        self.verbose = verbose
        self.results = []          # obligations of all paths
        self.funcs = {}            # functions executed symbolically -> number of executions
        self.assumed = set()       # contracts of external functions that were used
        self.n_checks = 0
        self.solver_time = 0.0
        self.paths = 0
        self.backends = {}
        self.max_paths = 4000
        self._seen = set()
        self.deadline = None
        self.fresh_log = None

    # ---------------------------------------------------------------- paths
    def explore(self, thunk):
        """Run thunk() once per feasible path."""
        work = [[]]
        n = 0
        self.covered = {}
        self.stale_reads, self.carried = set(), set()
        while work:
            self.prefix = work.pop()
            self.work = work
            self.log = []
            self.reset_path()
            n += 1
            self.paths += 1
            if n > self.max_paths:
                raise Unsupported("too many paths")
            try:
                thunk()
                self.cover("the function returns")
            except PathEnd:
                pass
            except PyExc:
                if self.check(deep=True) != "unsat":      # an exception on a path that does not exist
                    raise
        return n

    def cover(self, key, expect=False):
        """Guard against vacuous proofs: each key must be reached by a path whose assumptions are not contradictory."""
        c = self.covered.setdefault(key, False)
        if not expect and not c:
            self.solver.set("timeout", 3000)
            try:
                self.covered[key] = self.check(deep=DEEP_COVER) != "unsat"
            finally:
                self.solver.set("timeout", 20000)

    def reset_path(self):
        Engine.cur = self
        self.solver = z3.Solver()
        self.solver.set("rlimit", self.rlimit)
        self.solver.set("timeout", 20000)
        self.counter = {}
        self.facts = []
        self.pool = {}
        self.pool_depth = {}
        self.inst_done = set()
        self.rnd_terms = []
        self.uf_terms = {}
        self.sums = []
        self.where_memo = []
        self.replay = {}           # sizes to try when an obligation fails: passed on to the bounded stand-in, which runs the real code
        self.sum_all, self.sum_lift = {}, {}
        self.registry = []
        self.path_tag = []
        self.stale_reads, self.carried = set(), set()
        self.loop_weak = False     # an inferred invariant was used: failures are not definite
        self.inst_level = 0
        self.scanned = {}
        self.agen = {}
        self.apps = {}
        self.n_scanned = 0
        self.no_fork = False
        self.gen_log = None
        self.fresh_log = None
        self.asserted = []
        self._axset = set()
        self.asserted_refs = []

    def fresh_name(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        r = "%s!%d" % (base, k)
        if self.fresh_log is not None:
            self.fresh_log.append(r)
        return r

    def Int(self, base="i"):
        v = z3.Int(self.fresh_name(base))
        return v

    def Real(self, base="r"):
        return z3.Real(self.fresh_name(base))

    def Bool(self, base="b"):
        return z3.Bool(self.fresh_name(base))

    def Pt(self, base="p"):
        v = z3.Const(self.fresh_name(base), Pt)
        self.touch(v)
        return v

    def Func(self, base, *sorts):
        return z3.Function(self.fresh_name(base), *sorts)

    def axiom(self, c):
        """A valid formula (definition or theory axiom)."""
        k = c.get_id() if is_z3(c) else None
        if k is not None:
            if k in self._axset:
                return
            self._axset.add(k)
        self.assume(c)

    def assume(self, c):
        if c is True or c is None:
            return
        if c is False:
            raise PathEnd()
        self.solver.add(c)
        self.asserted.append(c)
        if is_z3(c):
            self.agen[c.get_id()] = self.inst_level
        if self.gen_log is not None:
            self.gen_log.append(c)

    def assume_forall(self, sorts, fn, label=""):
        f = Fact(self, tuple(sorts), self.at_this_state(fn), label)
        self.facts.append(f)

    def at_this_state(self, fn):
        """The hypothesis speaks about the program state now: instances generated later see this state, not a later one."""
        snap = [(o, o.get_state()) for o in self.registry]

        def g(*v):
            back = []
            for o, st in snap:
                cur = o.get_state()
                if not quick_same(cur, st):
                    back.append((o, cur))
                    o.set_state(st)
            try:
                return fn(*v)
            finally:
                for o, cur in back:
                    o.set_state(cur)
        return g

    def hint(self, *terms):
        """Mention terms so that hypotheses are instantiated for them."""
        for t in terms:
            if is_z3(t):
                self.scan(t, 0)

    def touch(self, t):
        """Register an index/point term for instantiation of universally quantified facts."""
        if isinstance(t, bool):
            return
        if isinstance(t, int):
            t = z3.IntVal(t)
        if not is_z3(t):
            return
        s = t.sort()
        key = "Int" if s == z3.IntSort() else ("Pt" if s == Pt else None)
        if key is None:
            return
        d = self.pool.setdefault(key, {})
        i = t.get_id()
        if i not in d or d[i][1] > self.inst_level:
            if self.inst_level > 2:
                return
            d[i] = (t, self.inst_level)

    def scan(self, t, gen):
        """Index the function applications of a term (triggers of universally quantified facts)."""
        stack = [t]
        while stack:
            x = stack.pop()
            k = x.get_id()
            if k in self.scanned and self.scanned[k][1] <= gen:
                continue
            self.scanned[k] = (x, gen)
            if not z3.is_app(x):
                continue
            ch = x.children()
            if ch and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                self.apps.setdefault(x.decl().name(), []).append((ch, gen))
            stack.extend(ch)

    def add_inst(self, c, gen):
        c = tobool(c)
        self.solver.add(c)
        self.asserted.append(c)
        self.agen[c.get_id()] = gen

    def saturate(self, rounds=4, cap=2):
        while self.n_scanned < len(self.asserted):
            self.scan(self.asserted[self.n_scanned], self.agen.get(self.asserted[self.n_scanned].get_id(), 0))
            self.n_scanned += 1
        self.sum_axioms()
        for _ in range(rounds):
            new = False
            pools = {k: [t for (t, l) in v.values()] for k, v in self.pool.items()}
            for f in list(self.facts):
                if f.pats:
                    wait, f.later = f.later, []
                    for alt in [None] + list(f.pats):
                        for combo, gen in (wait if alt is None else self._matches(f, alt)):
                            key = tuple(t.get_id() for t in combo)
                            if key in f.done or gen > 2:
                                continue
                            if gen > cap:
                                if alt is None or len(alt) == 1:
                                    f.later.append((combo, gen))
                                continue
                            f.done[key] = combo
                            self.inst_level = gen + 1
                            try:
                                c = f.fn(*combo)
                            finally:
                                self.inst_level = 0
                            if c is True or c is None:
                                continue
                            self.add_inst(c, gen + 1)
                            new = True
                else:
                    for combo in self._combos(f.sorts, pools):
                        key = tuple(t.get_id() for t in combo)
                        if key in f.done:
                            continue
                        lv = max([self._lvl(t) for t in combo] or [0])
                        if lv > min(cap, 1):
                            continue
                        f.done[key] = combo
                        self.inst_level = lv + 1
                        try:
                            c = f.fn(*combo)
                        finally:
                            self.inst_level = 0
                        if c is True or c is None:
                            continue
                        self.add_inst(c, lv + 1)
                        new = True
            while self.n_scanned < len(self.asserted):
                self.scan(self.asserted[self.n_scanned], self.agen.get(self.asserted[self.n_scanned].get_id(), 1))
                self.n_scanned += 1
            self.sum_axioms()
            if not new:
                break

    def _matches(self, f, alt):
        """alt: list of (decl name, [(argument position, variable)]) covering all variables."""
        nv = len(f.sorts)
        if len(alt) == 1:
            nm, am = alt[0]
            lst = self.apps.get(nm, [])
            start = f.ptr.get(nm, {}).get(id(am), 0)
            f.ptr.setdefault(nm, {})[id(am)] = len(lst)
            for k in range(start, len(lst)):
                ch, gen = lst[k]
                c = [None] * nv
                for pos, v in am:
                    if c[v] is not None and not c[v].eq(ch[pos]):
                        c = None
                        break
                    c[v] = ch[pos]
                if c is not None:
                    yield tuple(c), gen
            return
        per = []
        for nm, am in alt:
            d = {}
            for ch, gen in self.apps.get(nm, []):
                c = tuple(ch[pos] for pos, v in am)
                k = tuple(x.get_id() for x in c)
                if k not in d or d[k][1] > gen:
                    d[k] = (c, gen)
            per.append((am, list(d.values())))
        def rec(i, cur, gen):
            if i == len(per):
                yield tuple(cur), gen
                return
            am, lst = per[i]
            for c, g in lst:
                n = list(cur)
                ok = True
                for (pos, v), t in zip(am, c):
                    if n[v] is not None and not n[v].eq(t):
                        ok = False
                        break
                    n[v] = t
                if ok:
                    for r in rec(i + 1, n, max(gen, g)):
                        yield r
        for r in rec(0, [None] * nv, 0):
            yield r

    def _lvl(self, t):
        key = "Int" if t.sort() == z3.IntSort() else "Pt"
        return self.pool.get(key, {}).get(t.get_id(), (t, 0))[1]

    def _combos(self, sorts, pools):
        if not sorts:
            yield ()
            return
        for t in pools.get(sorts[0], []):
            for r in self._combos(sorts[1:], pools):
                yield (t,) + r

    # ------------------------------------------------------------- solving
    def check(self, *extra, deep=True):
        import time
        t0 = time.time()
        if self.deadline is not None and t0 > self.deadline:
            raise Unsupported("time limit of this unit")
        for c in extra:
            if is_z3(c):
                self.scan(c, 0)
        r = None
        for cap in self.CAPS:
            if cap > 1:
                if not deep:
                    break
                from .loops import Scope
                with Scope(self):
                    r = self._query(extra, cap)
            else:
                r = self._query(extra, cap)
            if r == "unsat":
                break
        self.n_checks += 1
        self.solver_time += time.time() - t0
        return r
    CAPS = (0, 1, 2)

    def _query(self, extra, cap):
        self.saturate(cap=cap)
        self.solver.push()
        for c in extra:
            self.solver.add(tobool(c))
        r = self.solver.check()
        self.last_model = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.unknown and self.linear_query(extra):
            return "unsat"
        return str(r)

    def linear_query(self, extra):
        """The same query with nonlinear products as uninterpreted functions: unsatisfiable only if the query is."""
        new = [linearized(c) for c in self.asserted if is_z3(c)]
        if all(a is b for a, b in zip(new, (c for c in self.asserted if is_z3(c)))):
            return False
        s = z3.Solver()
        s.set("timeout", 20000)
        s.set("rlimit", self.rlimit)
        s.add(*new)
        for c in extra:
            s.add(linearized(tobool(c)))
        return s.check() == z3.unsat

    def must(self, c):
        """Is c implied on this path?"""
        if isinstance(c, bool):
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.quick(c):
            return True
        return self.check(b_not(c)) == "unsat"

    def known(self, c):
        """must, but for a condition on integer constants only the plain integer assumptions are used."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if self.simple(c):
            return bool(self.quick(c))
        return self.must(c)

    def simple(self, c):
        """Only integer constants, arithmetic and connectives."""
        k = c.get_id()
        r = SIMPLE.get(k)
        if r is None:
            so = c.sort()
            r = so in (z3.IntSort(), z3.BoolSort()) and z3.is_app(c) and (c.decl().kind() != z3.Z3_OP_UNINTERPRETED or c.num_args() == 0) \
                and (not z3.is_mul(c) or sum(1 for x in c.children() if not z3.is_int_value(x)) < 2) and all(self.simple(x) for x in c.children())
            SIMPLE[k] = r
            SIMPLE_KEEP.append(c)
        return r

    def quick(self, c):
        """Decides an integer condition from the plain integer assumptions of the path alone; None if they do not decide it."""
        if not self.simple(c):
            return None
        s = z3.Solver()
        s.set("rlimit", 200000)
        s.add(*[a for a in self.asserted if is_z3(a) and self.simple(a)])
        for v in (True, False):
            s.push()
            s.add(z3.Not(c) if v else c)
            r = s.check()
            s.pop()
            if r == z3.unsat:
                return v
        return None

    def may(self, c):
        if isinstance(c, bool):
            return c
        return self.check(c) != "unsat"

    def branch(self, c, likely=False):
        """Decide a condition; explores both outcomes if both are possible."""
        if isinstance(c, bool):
            return c
        if is_z3(c) and not z3.is_bool(c):
            c = ne(c, 0)
            if isinstance(c, bool):
                return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.log)
        if i < len(self.prefix):
            d = self.prefix[i]
            if d in ("T", "F"):
                self.log.append(d)
                return d == "T"
            self.log.append(d)
            self.assume(c if d else b_not(c))
            return d
        q = self.quick(c)
        if q is not None:
            self.log.append("T" if q else "F")
            return q
        if likely and self.check(b_not(c)) == "unsat":
            self.log.append("T")
            return True
        t = self.check(c, deep=False)
        if t == "unsat":
            self.log.append("F")
            return False
        f = self.check(b_not(c), deep=False)
        if f == "unsat":
            self.log.append("T")
            return True
        if self.no_fork:
            raise Unsupported("branch inside a loop body or comprehension without annotation")
        self.work.append(self.log + [False])
        self.log.append(True)
        self.assume(c)
        return True

    def undetermined(self, c):
        if isinstance(c, bool):
            return False
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c) or self.quick(c) is not None:
            return False
        return self.check(c, deep=False) != "unsat" and self.check(b_not(c), deep=False) != "unsat"

    def choose(self, n):
        """Nondeterministic choice among n alternatives."""
        if self.no_fork:
            raise Unsupported("choice inside a loop body without annotation")
        i = len(self.log)
        if i < len(self.prefix):
            d = self.prefix[i][1]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.work.append(self.log + [("c", k)])
        self.log.append(("c", d))
        return d

    def prove(self, name, goal, definite=True):
        """Obligation: goal holds here. Returns True if discharged."""
        if isinstance(goal, tuple):       # (sorts, fn): universally quantified
            from .loops import Scope
            sorts, fn = goal
            with Scope(self):
                sk = []
                for s in sorts:
                    v = self.Int("sk") if s == "Int" else self.Pt("skp")
                    self.touch(v)
                    sk.append(v)
                n0 = len(self.results)
                self.no_fork = False
                r = self.prove(name, fn(*sk), definite)
            if not r:
                self.assume_forall(sorts, fn)
            return r
            sk = []
            for s in sorts:
                v = self.Int("sk") if s == "Int" else self.Pt("skp")
                self.touch(v)
                sk.append(v)
            goal = fn(*sk)
        tag = tuple(str(x) for x in self.log)
        status, detail = "proved", ""
        if isinstance(goal, bool) or z3.is_true(goal) or z3.is_false(goal):
            ok = goal if isinstance(goal, bool) else z3.is_true(goal)
            self.count("simplifier")
            if not ok:
                r = self.check()
                if r == "unsat":
                    ok = True
                else:
                    status = "refuted" if r == "sat" else "unknown"
                    detail = self.model_text()
        else:
            r = self.check(b_not(goal))
            if r == "unknown":
                r = self.cvc5(b_not(goal))
                if r == "unsat":
                    self.count("cvc5")
            elif r == "unsat":
                self.count("z3")
            if r != "unsat":
                status = "refuted" if r == "sat" else "unknown"
                detail = self.model_text()
        self.results.append(Result(name, status, detail, definite and not self.loop_weak))
        self.results[-1].tag = tag
        if status != "proved":
            self.results[-1].hints = self.witness()
            if self.verbose:
                print("  [%s] %s %s" % (status, name, tag))
        if status != "proved":
            self.assume(goal if not isinstance(goal, bool) else (None if goal else False))
        return status == "proved"

    def undecided(self, name, detail):
        """An obligation that a procedure other than the solver did not settle."""
        self.results.append(Result(name, "unknown", detail, False))
        self.results[-1].tag = tuple(str(x) for x in self.log)
        self.results[-1].hints = self.witness()
        if self.verbose:
            print("  [unknown] %s %s" % (name, detail))
        return False

    def witness(self):
        """Values of the terms named in self.replay (sizes, mostly) that agree with the integer assumptions of this path."""
        if not self.replay:
            return []
        s = z3.Solver()
        s.set("rlimit", 200000)
        s.add(*[a for a in self.asserted if is_z3(a) and self.simple(a)])
        out = []
        for _ in range(3):
            if s.check() != z3.sat:
                break
            m = s.model()
            w, differ = {}, []
            for k, v in self.replay.items():
                if is_z3(v):
                    x = m.eval(v, model_completion=True)
                    differ.append(v != x)
                    w[k] = x.as_long() if z3.is_int_value(x) else str(x)
                else:
                    w[k] = v
            out.append(w)
            if not differ:
                break
            s.add(z3.Or(*differ))
        return out

    def lemma(self, name, goal):
        """Obligation that later obligations may use."""
        r = self.prove(name, goal)
        if r:
            if isinstance(goal, tuple):
                self.assume_forall(goal[0], goal[1], "lemma")
            elif not isinstance(goal, bool):
                self.assume(goal)
        return r

    def count(self, backend):
        self.backends[backend] = self.backends.get(backend, 0) + 1

    def model_text(self):
        m = getattr(self, "last_model", None)
        if m is None:
            return ""
        s = ", ".join("%s=%s" % (d, m[d]) for d in list(m.decls())[:60] if d.arity() == 0)
        return s[:1500]

    def cvc5(self, extra):
        """Second opinion from cvc5 on an unknown query."""
        s = z3.Solver()
        for c in self.asserted:
            s.add(c)
        s.add(tobool(extra))
        txt = "(set-logic ALL)\n" + s.to_smt2()
        if os.environ.get("PYVC_DUMP"):
            open(os.environ["PYVC_DUMP"] + "/q%d.smt2" % self.n_checks, "w").write(txt)
        f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
        f.write(txt)
        f.close()
        try:
            p = subprocess.run(["cvc5", "--rlimit=400000", "--tlimit=20000", f.name], capture_output=True, text=True, timeout=40)
            o = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
        except Exception:
            o = "unknown"
        finally:
            os.unlink(f.name)
        return o if o in ("sat", "unsat") else "unknown"

    # ------------------------------------------------- transcendental axioms
    def int_term(self, x):
        """Two integers are equal or differ by at least one."""
        if any(x.eq(y) for y in self.rnd_terms) or self.inst_level >= 9:
            return
        if len(self.rnd_terms) < 60:
            for y in self.rnd_terms:
                self.axiom(z3.Implies(z3.And(isint_p(x), isint_p(y)), z3.Or(x == y, x + 1 <= y, y + 1 <= x)))
        self.rnd_terms.append(x)

    def ufun_axioms(self, name, t, r):
        lst = self.uf_terms.setdefault(name, [])
        if any(t.eq(t2) for t2, _ in lst):
            return
        f = UF1[name]
        R = z3.RealVal
        A = self.axiom
        if name == "exp":
            A(r > 0)
            A(z3.Implies(t == 0, r == 1))
            A(z3.Implies(t <= 0, r <= 1))
            A(r >= 1 + t)
        elif name == "log":
            A(z3.Implies(t == 1, r == 0))
            A(z3.Implies(t > 0, r <= t - 1))
            A(z3.Implies(t > 1, r > 0))
            A(z3.Implies(z3.And(t > 0, t < 1), r < 0))
        elif name == "sqrt":
            A(z3.Implies(t >= 0, z3.And(r >= 0, r * r == t)))
        elif name in ("sin", "cos"):
            A(z3.And(r >= -1, r <= 1))
        elif name == "Phi":
            A(z3.And(r >= 0, r <= 1))
        elif name == "phi":
            A(r >= 0)
        if name in ("exp", "log", "sqrt", "Phi"):
            for t2, r2 in lst:
                dom = z3.And(t > 0, t2 > 0) if name == "log" else (z3.And(t >= 0, t2 >= 0) if name == "sqrt" else z3.BoolVal(True))
                A(z3.Implies(z3.And(dom, t < t2), r < r2 if name != "Phi" else r <= r2))
                A(z3.Implies(z3.And(dom, t2 < t), r2 < r if name != "Phi" else r2 <= r))
        lst.append((t, r))

    # ----------------------------------------------------------------- sums
    def Sum(self, fn, n, kind="sum"):
        """sum_{t<n} fn(t): prefix function S with S(0)=0, S(k+1)=S(k)+fn(k)."""
        if isinstance(n, int) and n <= 12:
            r = 0.0 if kind == "sum" else 1.0
            for k in range(n):
                r = add(r, fn(k)) if kind == "sum" else mul(r, fn(k))
            return r
        S = self.sum_function(fn, kind)
        n = integer(n)
        self.touch(n)
        r = S(n)
        return r

    def sum_function(self, fn, kind="sum"):
        dep = self.sum_depth = getattr(self, "sum_depth", 0) + 1
        tau = z3.Int("tau!%d" % dep)
        self.inst_level += 5          # do not register tau as an index
        try:
            e = z3.simplify(real(fn(tau)), som=True)
        finally:
            self.inst_level -= 5
            self.sum_depth -= 1
        for rec in self.sums:
            if rec["kind"] == kind and rec["e"].eq(e):
                return rec["S"]
        # the variables a term is generalised over later (see loops.py) are explicit arguments, so that substitution reaches them
        par, seen, stack = {}, set(), [e]
        while stack:
            x = stack.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().split("!")[0] in ("pr", "pk", "gv", "gp", "tau") and not x.eq(tau):
                par[x.decl().name()] = x
            stack.extend(x.children())
        par = [par[k] for k in sorted(par)]
        F = self.Func(kind, *([x.sort() for x in par] + [z3.IntSort(), z3.RealSort()]))
        S = (lambda n: F(*(par + [integer(n)]))) if par else F
        rec = {"S": S, "F": F, "par": par, "e": e, "kind": kind, "fn": fn, "inst": set(), "cmp": set(), "tau": tau}
        self.sums.append(rec)
        self.sum_all[F.name()] = rec
        self.axiom(S(0) == (0 if kind == "sum" else 1))
        return S

    def sum_axioms(self):
        if not self.sums:
            return
        pool = [t for (t, l) in self.pool.get("Int", {}).values() if l <= 1]
        for rec in self.sums:
            for t in pool:
                if t.get_id() in rec["inst"]:
                    continue
                rec["inst"].add(t.get_id())
                self.inst_level = 5
                try:
                    v = real(rec["fn"](t))
                finally:
                    self.inst_level = 0
                S = rec["S"]
                self.axiom(z3.Implies(t >= 0, S(t + 1) == (S(t) + v if rec["kind"] == "sum" else S(t) * v)))
        # two sums with pointwise equal terms are equal: S1(n)=S2(n) unless a term differs below n
        for i in range(len(self.sums)):
            for j in range(i):
                a, b = self.sums[i], self.sums[j]
                if a["kind"] != b["kind"]:
                    continue
                for t in pool:
                    k = (j, t.get_id())
                    if k in a["cmp"]:
                        continue
                    a["cmp"].add(k)
                    w = z3.Int(self.fresh_name("sumw"))
                    self.inst_level = 5
                    try:
                        d = ne(a["fn"](w), b["fn"](w))
                    finally:
                        self.inst_level = 0
                    self.axiom(z3.Or(a["S"](t) == b["S"](t), z3.And(0 <= w, w < t, tobool(d))))
