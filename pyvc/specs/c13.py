"""C13: scaling and rounding utilities (pySOT.utils: to_unit_box, from_unit_box, unit_rescale, round_vars)."""
from .common import *

U = "pySOT.utils:"


def setup(I, integer_bounds=False):
    E = I.E
    d, n = sym_dim(E), E.Int("n")
    E.assume(n >= 0)
    E.touch(n)
    lb, ub = box(E, d)
    x = mat(E, n, d, "x")
    return E, d, n, lb, ub, x


def boxes(I):
    E, d, n, lb, ub, x = setup(I)
    E.assume(n >= 1)
    to, fr = I.get(U + "to_unit_box"), I.get(U + "from_unit_box")
    x0 = x.cell.fn
    z = I.call(to, [x, lb, ub])
    i, j = sk_int(E, "i", 0, n), sk_int(E, "j", 0, d)
    E.prove("to_unit_box: shape", b_and(len(z.shape) == 2, eq(z.shape[0], n), eq(z.shape[1], d)))
    E.prove("to_unit_box: (x-lb)/(ub-lb) in each coordinate", eq(mul(z.at(i, j), sub(ub.at(j), lb.at(j))), sub(x.at(i, j), lb.at(j))))
    E.prove("to_unit_box: lower bound to zero, upper bound to one", b_and(b_imp(eq(x.at(i, j), lb.at(j)), eq(z.at(i, j), 0)), b_imp(eq(x.at(i, j), ub.at(j)), eq(z.at(i, j), 1))))
    i2 = sk_int(E, "i2", 0, n)
    E.prove("to_unit_box: strictly monotone", b_imp(lt(x.at(i, j), x.at(i2, j)), lt(z.at(i, j), z.at(i2, j))))
    y = I.call(fr, [z, lb, ub])
    E.prove("from_unit_box(to_unit_box(x)) = x", eq(y.at(i, j), x.at(i, j)))
    y2 = I.call(fr, [x, lb, ub])
    E.prove("from_unit_box: lb+(ub-lb)*x in each coordinate", eq(y2.at(i, j), add(lb.at(j), mul(sub(ub.at(j), lb.at(j)), x.at(i, j)))))
    E.prove("from_unit_box: monotone", b_imp(lt(x.at(i, j), x.at(i2, j)), lt(y2.at(i, j), y2.at(i2, j))))
    z2 = I.call(to, [y2, lb, ub])
    E.prove("to_unit_box(from_unit_box(x)) = x", eq(z2.at(i, j), x.at(i, j)))
    E.prove("arguments unchanged", x.cell.fn is x0)


def vectors(I):
    """The same for a single point of shape (d,)."""
    E = I.E
    d = sym_dim(E)
    lb, ub = box(E, d)
    x = vec(E, d, "x")
    z = I.call(I.get(U + "to_unit_box"), [x, lb, ub])
    y = I.call(I.get(U + "from_unit_box"), [z, lb, ub])
    j = sk_int(E, "j", 0, d)
    E.prove("vector: shape", b_and(len(z.shape) == 1, eq(z.shape[0], d), len(y.shape) == 1))
    E.prove("vector: to_unit_box", eq(mul(z.at(j), sub(ub.at(j), lb.at(j))), sub(x.at(j), lb.at(j))))
    E.prove("vector: from_unit_box(to_unit_box(x)) = x", eq(y.at(j), x.at(j)))


def rescale(I, two_d):
    E = I.E
    n = E.Int("n")
    E.assume(n >= 1)
    E.touch(n)
    x = fresh_arr(E, (n, 1) if two_d else (n,), "f", False, "x")
    f0 = x.cell.fn
    r = I.call(I.get(U + "unit_rescale"), [x])
    at = (lambda a, k: a.at(k, 0)) if two_d else (lambda a, k: a.at(k))
    i, k = sk_int(E, "i", 0, n), sk_int(E, "k", 0, n)
    l = sk_int(E, "l", 0, n)
    E.prove("unit_rescale: shape", b_and(len(r.shape) == len(x.shape), eq(r.shape[0], n)))
    E.prove("unit_rescale: values lie in [0,1]", b_and(ge(at(r, i), 0), le(at(r, i), 1)))
    diff = E.Int("w")
    E.touch(diff)
    alleq = E.Bool("alleq")
    E.assume_forall(("Int",), lambda m: b_imp(b_and(alleq, rng(m, n)), eq(at(x, m), at(x, i))))
    E.assume(b_imp(b_not(alleq), b_and(rng(diff, n), ne(at(x, diff), at(x, i)))))
    E.prove("unit_rescale: all ones when the entries are equal", b_imp(alleq, eq(at(r, i), 1)))
    # linear shift and scale: (r_i - r_k)/(x_i - x_k) is the same positive number for all pairs
    E.prove("unit_rescale: differences are scaled by a common factor", b_imp(b_not(alleq), eq(mul(sub(at(r, i), at(r, k)), sub(at(x, i), at(x, l))), mul(sub(at(r, i), at(r, l)), sub(at(x, i), at(x, k))))))
    E.prove("unit_rescale: order is kept", b_imp(b_and(b_not(alleq), lt(at(x, i), at(x, k))), lt(at(r, i), at(r, k))))
    ismin = E.Bool("ismin")
    E.assume_forall(("Int",), lambda m: b_imp(b_and(ismin, rng(m, n)), le(at(x, i), at(x, m))))
    E.prove("unit_rescale: smallest entry becomes zero", b_imp(b_and(b_not(alleq), ismin), eq(at(r, i), 0)))
    ismax = E.Bool("ismax")
    E.assume_forall(("Int",), lambda m: b_imp(b_and(ismax, rng(m, n)), ge(at(x, i), at(x, m))))
    E.prove("unit_rescale: largest entry becomes one", b_imp(b_and(b_not(alleq), ismax), eq(at(r, i), 1)))
    E.prove("unit_rescale: argument unchanged", x.cell.fn is f0)


def rounding(I, clip_noninteger=False):
    """round_vars: only integer columns change; nearest integer clipped to the bounds."""
    E, d, n, lb, ub, x = setup(I)
    iv = int_vars(E, d, lb=None if clip_noninteger else lb, ub=ub)
    member = A.enum_of(iv).member
    x0 = x.cell.fn
    lb0, ub0, iv0 = lb.cell.fn, ub.cell.fn, iv.cell.fn
    r = I.call(I.get(U + "round_vars"), [x, iv, lb, ub])
    i, j = E.Int("i"), E.Int("j")
    E.touch(i), E.touch(j)
    inr = b_and(rng(i, n), rng(j, d))
    v, w = x0((i, j)), r.at(i, j)
    E.prove("round_vars: shape", b_and(len(r.shape) == 2, eq(r.shape[0], n), eq(r.shape[1], d)))
    E.prove("round_vars: continuous variables keep their value", b_imp(b_and(inr, b_not(member(j))), eq(v, w)))
    ki = E.Real("kint")
    E.assume(is_integral(ki))
    E.prove("round_vars: integer variables lie in the bounds", b_imp(b_and(inr, member(j)), b_and(le(lb.at(j), w), le(w, ub.at(j)))))
    if not clip_noninteger:
        E.prove("round_vars: integer variables get integer values", b_imp(b_and(inr, member(j)), is_integral(w)))
        E.prove("round_vars: no integer in the bounds is closer", b_imp(b_and(inr, member(j), le(lb.at(j), ki), le(ki, ub.at(j))), le(sabs(sub(w, v)), sabs(sub(ki, v)))))
        E.prove("round_vars: feasible points stay unchanged", b_imp(b_and(inr, le(lb.at(j), v), le(v, ub.at(j)), b_imp(member(j), is_integral(v))), eq(v, w)))
    E.prove("round_vars: bounds and index set are not modified", lb.cell.fn is lb0 and ub.cell.fn is ub0 and iv.cell.fn is iv0)


def units():
    return [unit("to_unit_box/from_unit_box (n x d)", boxes), unit("to_unit_box/from_unit_box (d,)", vectors),
            unit("unit_rescale (n,)", lambda I: rescale(I, False)), unit("unit_rescale (n,1)", lambda I: rescale(I, True)),
            unit("round_vars", rounding)]
