"""C09: GeneticAlgorithm.optimize, all generations (loop invariant), for an arbitrary objective function.

round_vars and the experimental designs are replaced by their contracts (C13, C06).  Ghost state: the number of populations
evaluated and the smallest value of any individual evaluated so far."""
from .common import *
from .cand import problem, feasible, round_contract, RV

GA = "pySOT.utils:GeneticAlgorithm"
ED = "pySOT.experimental_design."


class Run(object):
    pass


def optimize(I, start, ints, two_d, odd):
    E = I.E
    w = Run()
    d, h, ng = sym_dim(E), E.Int("half"), E.Int("num_gen")
    E.assume(b_and(h >= 1, ng >= 0))
    E.touch(h), E.touch(ng)
    n = simp(mul(2, h))
    E.touch(n)
    pop = simp(sub(n, 1)) if odd else n
    p = problem(E, d, ints)
    lb, ub, iv = p.attrs["lb"], p.attrs["ub"], p.attrs["int_var"]
    mem = A.enum_of(iv).member
    F = E.Func("objective", Pt, z3.RealSort())
    w.count, w.low, w.first = 0, None, None
    st = start
    if start == "array":
        st = mat(E, n, d, "start")
        E.assume_forall(("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, n), rng(j, d)), b_and(le(lb.at(j), st.at(i, j)), le(st.at(i, j), ub.at(j)))), "the initial population is in the domain")
    frame = [(a, a.cell.fn) for a in (lb, ub, iv) + ((st,) if start == "array" else ())]

    def objective(X):
        E.prove("individuals are evaluated as a population of the given size", len(X.shape) == 2 and b_and(eq(X.shape[0], n), eq(X.shape[1], d)))
        i, j = sk_int(E, "i", 0, n), sk_int(E, "j", 0, d)
        E.prove("every individual evaluated is feasible", feasible(p, X.at(i, j), j))
        if w.count == 0 and start == "array":
            x = X.at(i, j)
            near = le(mul(2, ite(ge(x, st.at(i, j)), sub(x, st.at(i, j)), sub(st.at(i, j), x))), 1)
            E.prove("the first population is the given one, rounded", ite(mem(j), b_and(is_integral(x), near), eq(x, st.at(i, j))) if ints else eq(x, st.at(i, j)))
        R = A.rows_of(X)
        if not any(X.cell is a.cell for a, f in frame) and X.dims is None:
            # the code goes on with any feasible population whose first row is this one
            M = mat(E, n, d, "evaluated", row=True)
            R2 = M.cell.row
            E.assume_forall(("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, n), rng(j, d)), feasible(p, M.at(i, j), j)), "feasible: just proved")
            if w.count > 0 if conc(w.count) else True:
                E.assume(R2(0) == R(0))
            A.write(X.cell, M.cell.fn, M.cell.row)
            R = R2
        w.count = simp(add(w.count, 1))
        low, k = E.Real("low"), E.Int("k")
        E.touch(k)
        vals = lambda q: F(R(q))
        E.assume_forall(("Int",), lambda q: b_imp(rng(q, n), le(low, vals(q))), "ghost: smallest value")
        E.assume(b_and(rng(k, n), True))
        if w.low is None:
            E.assume(eq(low, vals(k)))
        else:
            E.assume(b_and(le(low, w.low), b_or(eq(low, w.low), eq(low, vals(k)))))
        w.low = low
        zero = E.Int("first")      # row 0, by a name: the individual kept
        E.touch(zero)
        E.assume(eq(zero, 0))
        E.hint(vals(zero))
        if two_d:
            return A.new((n, 1), lambda ix: vals(integer(ix[0])), "f")
        return A.new((n,), lambda ix: vals(integer(ix[0])), "f")

    def design(nm):
        q = ED + nm

        def init(I, func, a):
            E.prove("the initial design has the right size", b_and(eq(a["dim"], d), eq(a["num_pts"], n)))
            return None

        def points(I, func, a):
            P = mat(E, n, d, "design")
            E.assume_forall(("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, n), rng(j, d)), b_and(le(0, P.at(i, j)), le(P.at(i, j), 1))), "design points lie in the unit box")
            return P
        I.contracts[q + ".__init__"] = init
        I.contracts[q + ".generate_points"] = points
    design("slhd:SymmetricLatinHypercube"), design("lhd:LatinHypercube")
    design("symmetric_latin_hypercube:SymmetricLatinHypercube"), design("latin_hypercube:LatinHypercube")
    I.contracts[RV] = round_contract(I, p, [])

    def best_ok(ctx):
        b, v = ctx["best_individual"], ctx["best_value"]
        v = v.at(*[0] * len(v.shape)) if isinstance(v, Arr) else v
        return b, v

    def inv(ctx):
        b, v = best_ok(ctx)
        pp, fv = ctx["population"], ctx["function_values"]
        return [("one population per generation and the initial one", eq(w.count, add(ctx.t, 1))),
                ("the best individual has the dimension of the problem", len(b.shape) == 1 and eq(b.shape[0], d)),
                ("the best individual is feasible", (("Int",), lambda j: b_imp(rng(j, d), feasible(p, b.at(j), j)))),
                ("its value is that of the objective", eq(v, F(A.reify_point(b)))),
                ("no individual evaluated has a smaller value", le(v, w.low)),
                ("values", len(fv.shape) == 1 and eq(fv.shape[0], n)),
                ("size of the population", len(pp.shape) == 2 and b_and(eq(pp.shape[0], n), eq(pp.shape[1], d))),
                ("the population is in the domain", (("Int", "Int"), lambda i, j: b_imp(b_and(rng(i, n), rng(j, d)), b_and(le(lb.at(j), pp.at(i, j)), le(pp.at(i, j), ub.at(j))))))]

    def modifies(ctx):
        w.count, w.low = E.Int("count"), E.Real("low")
        b = fresh_arr(E, (d,), "f", False, "best")
        A.reify_point(b)
        ctx["best_individual"], ctx["best_value"] = b, E.Real("best_value")
        ctx["population"], ctx["function_values"] = mat(E, n, d, "population"), vec(E, n, "function_values")
        ctx["new_population"] = None

    I.loopspecs = {(GA + ".optimize", lambda src: "self.function(" in src): LoopSpec(inv, modifies)}
    o = I.call(I.get(GA), [Builtin("objective", objective), d, lb, ub], dict(pop_size=pop, num_gen=ng, start=st, **({"int_var": iv} if ints is not None else {})))
    r = I.call(I.getattr(o, "optimize"), [])
    E.prove("it returns an individual and a value", isinstance(r, tuple) and len(r) == 2)
    b, v = r
    v = v.at(*[0] * len(v.shape)) if isinstance(v, Arr) else v
    j = sk_int(E, "jr", 0, d)
    E.prove("the individual returned is feasible", b_and(eq(b.shape[0], d), feasible(p, b.at(j), j)))
    E.prove("the value returned is that of the individual", eq(v, F(A.reify_point(b))))
    E.prove("no individual evaluated has a smaller value", le(v, w.low))
    E.prove("the initial population and one per generation are evaluated", eq(w.count, add(ng, 1)))
    E.prove("bounds, integer variables and the initial population are not modified", all(a.cell.fn is f for a, f in frame))


def units():
    r = []
    for start in ("SLHD", "LHD", "Random", "array"):
        for integer in (True, False):
            odd = start == "Random"
            r.append(unit("optimize, start %s%s" % (start, ", integer variables" if integer else ""), lambda I, s=start, i=integer, o=odd: optimize(I, s, i, s in ("SLHD", "Random"), o and s != "array")))
    return r
