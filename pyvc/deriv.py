"""Symbolic differentiation of terms (sum, product, quotient, power, chain rule for log, exp, sqrt, sin, cos)."""
import z3

from .core import Unsupported


def diff(t, dvar):
    """Derivative of the real term t; dvar(term) gives the derivative of an atom, or None if it is not one."""
    memo = {}

    def D(x):
        k = x.get_id()
        if k not in memo:
            memo[k] = (x, go(x))
        return memo[k][1]

    def zero(a):
        return z3.is_rational_value(a) and a.numerator_as_long() == 0

    def mul(a, b):
        if zero(a) or zero(b):
            return z3.RealVal(0)
        return a * b

    def go(x):
        v = dvar(x)
        if v is not None:
            return v
        if x.sort() != z3.RealSort():
            raise Unsupported("derivative of a term of sort %s" % x.sort())
        if z3.is_rational_value(x) or (z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED) or z3.is_app_of(x, z3.Z3_OP_TO_REAL):
            return z3.RealVal(0)
        c, k = x.children(), x.decl().kind()
        if k == z3.Z3_OP_ADD:
            ds = [d for d in map(D, c) if not zero(d)]
            return z3.Sum(ds) if len(ds) > 1 else (ds[0] if ds else z3.RealVal(0))
        if k == z3.Z3_OP_SUB:
            r = D(c[0])
            for y in c[1:]:
                r = r - D(y)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -D(c[0])
        if k == z3.Z3_OP_MUL:
            r = z3.RealVal(0)
            for i in range(len(c)):
                p = D(c[i])
                for j in range(len(c)):
                    if j != i:
                        p = mul(p, c[j])
                if not zero(p):
                    r = r + p if not zero(r) else p
            return r
        if k == z3.Z3_OP_DIV:
            a, b = c
            return D(a) / b - mul(a, D(b)) / (b * b) if not zero(D(b)) else D(a) / b
        if k == z3.Z3_OP_POWER and z3.is_rational_value(c[1]):
            return mul(c[1] * c[0] ** (c[1] - 1), D(c[0]))
        if k == z3.Z3_OP_ITE:
            return z3.If(c[0], D(c[1]), D(c[2]))
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            if len(c) == 1:
                a = c[0]
                r = {"fn_log": lambda: D(a) / a, "fn_exp": lambda: mul(x, D(a)), "fn_sqrt": lambda: D(a) / (2 * x)}.get(nm)
                if r is not None:
                    return r() if not zero(D(a)) else z3.RealVal(0)
        raise Unsupported("derivative of %s" % x.decl().name())
    return D(t)
