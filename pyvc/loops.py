"""pyvc loops.

R1  parallel maps: a loop without annotation whose iterations write disjoint
    slices (or write the same slice idempotently) is replaced by its closed
    form.  Disjointness, self-dependence and idempotence are proved, not
    assumed; a loop that does not pass is Unsupported (undecided).
R2  annotated loops: the specification supplies what the loop modifies and an
    invariant, keyed by function and loop ordinal; establishment and
    preservation are obligations, and so is the frame (nothing else changed).
"""
import ast

import z3
from . import core, arrays as A
from .core import *
from .core import Engine, Unsupported, PathEnd, PyExc, XR, Pt
from .arrays import Arr, Cell


class LoopSpec(object):
    """modifies(ctx): give fresh values to everything the loop changes; inv(ctx): list of (label, goal)."""

    def __init__(self, inv, modifies, decreases=None):
        self.inv, self.modifies, self.decreases = inv, modifies, decreases


class LoopCtx(object):
    def __init__(self, I, env, t, n, pre):
        self.I, self.E, self.env, self.t, self.n, self.pre = I, I.E, env, t, n, pre
        self.allowed = set()
        self.stage = "head"

    def __getitem__(self, name):
        try:
            return self.env.lookup(name)
        except KeyError:
            raise Unsupported("loop invariant refers to missing variable " + name)

    def has(self, name):
        try:
            self.env.lookup(name)
            return True
        except KeyError:
            return False

    def __setitem__(self, name, v):
        self.env.vars[name] = v
        self.env.watch.pop(name, None)

    def fresh_arr(self, shape, dtype="f", row=False, name="hv"):
        return fresh_arr(self.E, shape, dtype, row, name)

    def havoc_cell(self, arr, name="hv"):
        """Arbitrary content for the memory of an existing array."""
        c = arr.cell
        f = fresh_arr(self.E, c.shape, c.dtype, c.row is not None, name)
        A.write(c, f.cell.fn, f.cell.row)
        self.allowed.add(id(c))

    def may_change(self, obj):
        self.allowed.add(id(obj))


def fresh_arr(E, shape, dtype="f", row=False, name="hv"):
    shape = tuple(shape)
    if row and len(shape) == 2:
        R = E.Func(name + "_row", z3.IntSort(), Pt)

        def rowf(i):
            t = R(integer(i))
            E.touch(t)
            return t
        return A.new(shape, lambda idx: coord(rowf(idx[0]), integer(idx[1])), dtype, rowf)
    so = {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[dtype]
    if not shape:
        c = z3.Const(E.fresh_name(name), so)
        return A.new((), lambda idx: c, dtype)
    F = E.Func(name, *([z3.IntSort()] * len(shape) + [so]))
    return A.new(shape, lambda idx: F(*[integer(i) for i in idx]), dtype)


def loop_ordinal(func, s):
    node = func.node
    k = 0
    for n in walk_ordered(node):
        if isinstance(n, (ast.For, ast.While)):
            if n is s:
                return k
            k += 1
    return -1


def walk_ordered(node):
    for c in ast.iter_child_nodes(node):
        yield c
        for x in walk_ordered(c):
            yield x


def spec_of(I, s, env):
    f = env.func
    if f is None or isinstance(f, str):
        return None
    specs = getattr(I, "loopspecs", None)
    if not specs:
        return None
    r = specs.get((f.qual, loop_ordinal(f, s)))
    if r is None:
        for (q, k), sp in specs.items():         # a loop identified by what it does
            if q == f.qual and callable(k) and k(ast.unparse(s)):
                return sp
    return r


# ------------------------------------------------------------------- R2
def merge_if(I, c, body, orelse, env):
    """Both branches of a conditional inside a loop body, under their conditions; effects on scalars and arrays are merged."""
    from .interp import Return, Break, Continue
    E = I.E
    if is_z3(c) and not z3.is_bool(c):
        raise Unsupported("branch on a number inside a loop body")
    pre, pre_vars = snapshot(E), dict(env.vars)
    nreg = len(E.registry)
    outs = []
    for cond, run in ((c, body), (b_not(c), orelse)):
        sc = Scope(E)
        with sc:
            E.assume(cond)
            E.gen_log, E.fresh_log = [], []
            try:
                v = run()
            except (Return, Break, Continue):
                raise Unsupported("jump out of a branch inside a loop body without annotation")
            except PyExc as e:
                raise Unsupported("branch inside a loop body may raise %s" % (e,))
            changed = [(o, o.get_state()) for o, st in pre if not same_state(o.get_state(), st)]
            outs.append((v, changed, dict(env.vars)))
        for o, st in pre:
            o.set_state(st)
        env.vars.clear()
        env.vars.update(pre_vars)
        for phi in sc.gen:
            E.assume(b_imp(cond, phi))
        for f in sc.new_facts:
            E.assume_forall(f.sorts, lambda *v, f=f, cond=cond: b_imp(cond, f.fn(*v)), f.label)
        if E.fresh_log is not None:
            E.fresh_log.extend(sc.fresh)
    (v1, ch1, e1), (v2, ch2, e2) = outs
    for o in {id(o): o for o, _ in ch1 + ch2}.values():
        if not isinstance(o, Cell):
            raise Unsupported("branch inside a loop body changes an object")
        s0 = o.get_state()
        a, b = [dict((id(x), st) for x, st in ch).get(id(o), s0) for ch in (ch1, ch2)]
        if a[0] != b[0] or a[2] != b[2]:
            raise Unsupported("branch inside a loop body changes the shape of an array")
        f, g = a[1], b[1]
        A.write(o, lambda ix, f=f, g=g: ite(c, f(ix), g(ix)), None)

    def one(x, y):
        if x is y:
            return x
        if is_scalar(x) and is_scalar(y):
            return ite(c, x, y)
        return Poison("of a branch")
    for k in set(e1) | set(e2):
        if k in e1 and k in e2:
            env.vars[k] = one(e1[k], e2[k])
        else:
            env.vars[k] = Poison(k)
    v = one(v1, v2)
    if isinstance(v, Poison):
        raise Unsupported("branches with different kinds of values inside a loop body")
    return v


def snapshot(E):
    return [(o, o.get_state()) for o in E.registry]


def same_state(a, b):
    if a is b:
        return True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same_state(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_state(a[k], b[k]) for k in a)
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    if isinstance(a, (int, float, str, bool, type(None))) and isinstance(b, (int, float, str, bool, type(None))):
        return type(a) == type(b) and a == b
    try:
        return bool(a == b) if not (is_z3(a) or is_z3(b)) else False
    except Exception:
        return False


def annotated(I, s, env, spec, it):
    """it: SymIter-like (n, item) for a for loop or None for a while loop."""
    from .interp import Break, Continue
    E = I.E
    q = "%s loop %d" % (env.func.qual, loop_ordinal(env.func, s))
    n = it.n if it is not None else None
    pre = dict(env.vars)
    pre_state = dict((id(o), st) for o, st in snapshot(E))
    ctx0 = LoopCtx(I, env, 0, n, pre)
    ctx0.pre_state = pre_state
    ctx0.stage = "init"
    E.cover(q + ": an iteration ends", True), E.cover(q + ": the loop ends", True)
    for lab, goal in spec.inv(ctx0):
        E.prove("%s: invariant holds initially: %s" % (q, lab), goal)
    mode = E.choose(2)
    if it is not None:
        t = E.Int("it")
        E.touch(t)
        if mode == 0:
            E.assume(b_and(t >= 0, lt(t, n)))
        else:
            E.assume(eq(t, smax(n, 0)))
            t = n if E.must(ge(n, 0)) else t
    else:
        t = E.Int("it")
        E.assume(t >= 0)
        E.touch(t)
    ctx = LoopCtx(I, env, t, n, pre)
    ctx.pre_state = pre_state
    spec.modifies(ctx)
    # variables assigned in the loop that the annotation does not set: they keep their value here, which is right if an iteration
    # leaves it as it is or nobody reads it before it is assigned again; both are recorded (see carried)
    assigned = set(assigned_names(s.body)) | set(names_in_target(getattr(s, "target", None)))
    watched = dict((x, env.vars[x]) for x in assigned if x in pre and x in env.vars and env.vars[x] is pre[x])
    for x in watched:
        env.watch[x] = (q, x)
    for lab, goal in spec.inv(ctx):
        if isinstance(goal, tuple):
            E.assume_forall(goal[0], goal[1], "inv")
        else:
            E.assume(tobool(goal) if isinstance(goal, bool) else goal)
    if mode == 1:
        if it is None:
            if I.truth(I.ev(s.test, env)):
                raise PathEnd()
        E.cover(q + ": the loop ends")
        if s.orelse:
            I.exec_block(s.orelse, env)
        return
    if it is None:
        if not I.truth(I.ev(s.test, env)):
            raise PathEnd()
        d0 = spec.decreases(ctx) if spec.decreases else None
    before = snapshot(E)
    if it is not None:
        v = it.item(t)
        I.assign(s.target, v, env)
    try:
        I.exec_block(s.body, env)
    except Break:
        E.cover(q + ": the loop ends")
        return
    except Continue:
        pass
    E.cover(q + ": an iteration ends")
    for x, v in watched.items():
        if x not in env.vars or not same_value(env.vars[x], v):
            E.carried.add((q, x))
    ctx2 = LoopCtx(I, env, add(t, 1), n, pre)
    ctx2.pre_state = pre_state
    ctx2.stage = "post"
    ctx2.E.touch(z3.simplify(integer(add(t, 1))))
    for lab, goal in spec.inv(ctx2):
        E.prove("%s: invariant is preserved: %s" % (q, lab), goal)
    # frame: everything that existed before the iteration and is not declared modified is unchanged
    for o, st in before:
        if id(o) in ctx.allowed:
            continue
        if not same_state(o.get_state(), st):
            if any(isinstance(v, Arr) and v.cell is o for v in env.vars.values()) or not isinstance(o, Cell) or True:
                if id(o) in pre_state:
                    raise Unsupported("%s changes an object that its annotation does not mention (%r)" % (q, o))
    if it is None and spec.decreases:
        d1 = spec.decreases(ctx2)
        E.prove("%s: terminates" % q, b_and(ge(d0, 0), lt(d1, d0)))
    raise PathEnd()


def same_value(a, b):
    if a is b:
        return True
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    return type(a) is type(b) and isinstance(a, (int, float, str, bool)) and a == b


def names_in_target(t):
    if t is None:
        return []
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [x for e in t.elts for x in names_in_target(e)]
    return []


def assigned_names(body):
    r = []
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    r += names_in_target(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                r += names_in_target(n.target)
            elif isinstance(n, ast.For):
                r += names_in_target(n.target)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                r += names_in_target(n.optional_vars)
            elif isinstance(n, ast.NamedExpr):
                r += names_in_target(n.target)
            elif isinstance(n, ast.FunctionDef):
                r.append(n.name)
    return r


def while_loop(I, s, env, cond, n):
    return None


def for_loop(I, s, env, it):
    spec = spec_of(I, s, env)
    if spec is not None:
        return annotated(I, s, env, spec, it)
    return parallel(I, s, env, it)


# ------------------------------------------------------------------- R1
class Scope(object):
    """Temporary extension of the path: everything asserted inside is dropped afterwards."""

    def __init__(self, E):
        self.E = E

    def __enter__(self):
        E = self.E
        E.solver.push()
        self.saved_where = list(E.where_memo)
        self.saved2 = (dict(E.scanned), {k: list(v) for k, v in E.apps.items()}, E.n_scanned, [(f, dict(f.done), {k: dict(v) for k, v in f.ptr.items()}, list(f.later)) for f in E.facts])
        self.saved = (len(E.asserted), len(E.facts), {k: dict(v) for k, v in E.pool.items()}, set(E.inst_done), set(E._axset),
                      list(E.rnd_terms), {k: list(v) for k, v in E.uf_terms.items()},
                      [dict(r, inst=set(r["inst"]), cmp=set(r["cmp"])) for r in E.sums], getattr(E, "no_fork", False),
                      getattr(E, "gen_log", None), getattr(E, "fresh_log", None))
        E.no_fork = True
        E.gen_log = []
        E.fresh_log = []
        return self

    def __exit__(self, *a):
        E = self.E
        self.gen, self.fresh, self.new_facts = E.gen_log, E.fresh_log, E.facts[self.saved[1]:]
        E.solver.pop()
        del E.asserted[self.saved[0]:]
        del E.facts[self.saved[1]:]
        E.pool, E.inst_done, E._axset, E.rnd_terms, E.uf_terms = self.saved[2:7]
        E.sums = self.saved[7]
        E.where_memo = self.saved_where
        E.scanned, E.apps, E.n_scanned = self.saved2[:3]
        for f, dn, pt, lt_ in self.saved2[3]:
            f.done, f.ptr, f.later = dn, pt, lt_
        E.no_fork, gl, fl = self.saved[8:11]
        E.gen_log, E.fresh_log = gl, fl
        return False


def sort_of(dtype):
    return {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[dtype]


def subterms(t, acc=None, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        yield x
        stack.extend(x.children())


def rewrite(t, handler, cache=None):
    """Bottom-up rewriting: handler(decl, new_args, term) -> term or None."""
    cache = {} if cache is None else cache

    def go(x):
        k = x.get_id()
        if k in cache:
            return cache[k][1]
        ch = [go(c) for c in x.children()]
        r = handler(x.decl(), ch, x) if z3.is_app(x) else x
        if r is None:
            if ch and any(not a.eq(b) for a, b in zip(ch, x.children())):
                r = x.decl()(*ch)
            else:
                r = x
        cache[k] = (x, r)
        return r
    return go(t)


def parts(v):
    """Components of a scalar value as a list of z3 terms, with a rebuild function."""
    if isinstance(v, XR):
        return [real(v.v), tobool(v.inf), tobool(v.nan)], lambda l: XR(l[0], simpb(l[1]), simpb(l[2]))
    if isinstance(v, bool):
        return [z3.BoolVal(v)], lambda l: simpb(l[0])
    if isinstance(v, int):
        return [z3.IntVal(v)], lambda l: l[0]
    if isinstance(v, float) and (v != v or v in (float("inf"),)):
        x = xr(v)
        return parts(x)
    if conc(v):
        return [real(v)], lambda l: l[0]
    return [v], lambda l: l[0]


def simpb(x):
    return True if z3.is_true(x) else (False if z3.is_false(x) else x)


class Gen(object):
    """Turns terms of iteration t0 into terms of iteration t, with h replaced by the original contents."""

    def __init__(self, E, t0, fresh, hmap):
        self.E, self.t0 = E, t0
        self.names = {}
        for nm in fresh:
            self.names[nm] = None
        self.decls = {}
        self.hmap = hmap      # decl name -> function(args) -> term

    def new_decl(self, d):
        k = d.name()
        if k not in self.decls:
            doms = [d.domain(i) for i in range(d.arity())]
            self.decls[k] = z3.Function(self.E.fresh_name(k + "@"), z3.IntSort(), *(doms + [d.range()]))
            if k in getattr(self.E, "sum_all", {}):         # a sum computed by the iteration (used by algebra.py)
                self.E.sum_lift[self.decls[k].name()] = (self.E.sum_all[k], self)
        return self.decls[k]

    def term(self, x, t, extra=()):
        sub = list(extra)
        t = integer(t)

        def handler(d, ch, x):
            for a, b in sub:
                if x.eq(a):
                    return b
            if x.eq(self.t0):
                return t
            nm = d.name()
            if d.kind() != z3.Z3_OP_UNINTERPRETED:
                return None
            if nm in self.hmap:
                r = self.hmap[nm](ch)
                return r
            if nm in self.names:
                return self.new_decl(d)(t, *ch)
            return None
        return rewrite(x, handler)

    def value(self, v, t, extra=()):
        if isinstance(v, (bool, int, float)) and not (isinstance(v, float) and v in (float("inf"),)):
            return v
        l, rb = parts(v)
        return rb([self.term(x, t, extra) for x in l])

    def depends(self, v):
        """Does the value depend on the iteration (t0, fresh symbols or h)?"""
        l, _ = parts(v)
        for x in l:
            for s in subterms(x):
                if s.eq(self.t0):
                    return True
                if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED and (s.decl().name() in self.names or s.decl().name() in self.hmap):
                    return True
        return False

    def uses_fresh(self, v):
        l, _ = parts(v)
        for x in l:
            for s in subterms(x):
                if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED and s.decl().name() in self.names:
                    return True
        return False


class Poison(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<loop variable %s after the loop>" % self.name


def parallel(I, s, env, it):
    from .interp import Break, Continue, Return, PList, SymList, Obj, PDict
    E = I.E
    if has_exit(s.body):
        raise Unsupported("loop with break or return needs an annotated invariant")
    if isinstance(it.n, int) and it.n == 0:
        return
    pre = snapshot(E)
    pre_vars = dict(env.vars)
    anames = [x for x in dict.fromkeys(assigned_names(s.body)) if x in env.vars]
    tnames = names_in_target(s.target)
    havoc = {}            # id(cell) -> (cell, hname, probe parts builder)
    lists = {}            # id(list) -> list object
    nreg = len(E.registry)
    for attempt in range(4):
        accs = {}
        sc = Scope(E)
        changed = []
        with sc:
            t0 = E.cur_t0 = E.Int("t0")
            E.touch(t0)
            E.assume(b_and(t0 >= 0, lt(t0, it.n)))
            E.gen_log = []
            E.fresh_log = []
            hm = {}
            for cid, c in havoc.items():
                hm[cid] = install_havoc(E, c)
            for lid, l in lists.items():
                l.append_log = []
            for x in anames:
                v = env.vars[x]
                if is_scalar(v) and not isinstance(v, XR) and x not in tnames:
                    so = z3.IntSort() if is_intlike(v) and not is_boolish(v) else (z3.BoolSort() if is_boolish(v) else z3.RealSort())
                    a = z3.Const(E.fresh_name("acc_" + x), so)
                    accs[x] = a
                    env.vars[x] = a
            E.fresh_log = []
            mid = [(o, o.get_state()) for o, _ in pre]
            ok = False
            try:
                try:
                    v = it.item(t0)
                    I.assign(s.target, v, env)
                    I.exec_block(s.body, env)
                except Continue:
                    raise Unsupported("continue in a loop without annotation")
                except PyExc as e:
                    raise Unsupported("loop body may raise %s" % (e,))
                for o, st in mid:
                    if not same_state(o.get_state(), st):
                        changed.append(o)
                new = [o for o in changed if id(o) not in havoc and id(o) not in lists]
                result = {}
                if not new:
                    result = collect(I, s, env, it, t0, havoc, hm, lists, accs, tnames)
                ok = True
            finally:
                fresh_now = list(E.fresh_log or [])
                # undo all effects of the trial iteration
                for l in lists.values():
                    l.append_log = None
                for o, st in pre:
                    o.set_state(st)
                del E.registry[nreg:]
                env.vars.clear()
                env.vars.update(pre_vars)
        if not new:
            break
        for o in new:
            if isinstance(o, Cell):
                havoc[id(o)] = o
            elif isinstance(o, (PList, SymList)):
                lists[id(o)] = o
            else:
                raise Unsupported("loop changes an object; it needs an annotated invariant (%r)" % (o,))
    else:
        raise Unsupported("loop effects do not stabilise")
    # ---- generalise
    orig = {}
    hmap = {}
    for cid, c in havoc.items():
        f0 = c.fn
        for k, dn in enumerate(hm[cid]):
            def origf(ch, f0=f0, k=k):
                l, _ = parts(f0(tuple(ch)))
                if k < len(l):
                    return l[k]
                return z3.BoolVal(False)
            hmap[dn] = origf
    G = Gen(E, t0, fresh_now, hmap)
    n = it.n
    for phi in sc.gen:
        if relevant(phi, G):
            E.assume_forall(("Int",), lambda t, phi=phi: b_imp(b_and(t >= 0, lt(t, n)), touched(E, G, G.term(phi, t))), "loop")
    for sorts, fn, lab in [(f.sorts, f.fn, f.label) for f in sc.new_facts]:
        vs = [z3.Int(E.fresh_name("gv")) if so == "Int" else z3.Const(E.fresh_name("gp"), Pt) for so in sorts]
        lv = E.inst_level
        E.inst_level = 9
        fl = E.fresh_log
        E.fresh_log = []
        try:
            phi = fn(*vs)
            inner = E.fresh_log
        finally:
            E.inst_level = lv
            E.fresh_log = fl
        for nm in inner:
            G.names[nm] = None
        if phi is True or phi is None:
            continue
        phi = tobool(phi)
        if not relevant(phi, G):
            E.assume_forall(sorts, fn, lab)
            continue
        E.assume_forall(("Int",) + tuple(sorts), lambda t, *ix, phi=phi, vs=vs: b_imp(b_and(t >= 0, lt(t, n)), touched(E, G, G.term(phi, t, list(zip(vs, ix))))), "loop")
    # ---- results
    for cid, c in havoc.items():
        if cid not in result["cells"]:
            continue
        probes, gv, axis, key, injective = result["cells"][cid]
        member, pos = key_inverse(E, G, key, t0, n)
        f0 = c.fn

        def newf(b, f0=f0, probes=probes, gv=gv, axis=axis, member=member, pos=pos, G=G):
            j = integer(b[axis])
            p = pos(j)
            if is_z3(p):
                E.touch(p)
            cc = b_and(member(j))
            if cc is False:
                return f0(b)
            val = G.value(gv, p, [(q, integer(x)) for q, x in zip(probes, b)])
            return ite(cc, val, f0(b))
        A.write(c, newf, None)
    for lid, l in lists.items():
        extend_list(E, G, l, result["lists"][lid], n)
    for x in tnames + [y for y in assigned_names(s.body)]:
        if not (x in accs and x in result["accs"] and result["accs"][x][0] == "same" or x in result["samevars"]):
            env.watch.pop(x, None)
        if x in accs and x in result["accs"]:
            kind, e = result["accs"][x]
            v0 = pre_vars[x]
            sgen = lambda t, e=e: G.value(e, t)
            if kind == "same":
                continue
            if kind == "sum":
                env.vars[x] = add(v0, E.Sum(sgen, n))
            elif kind == "prod":
                env.vars[x] = mul(v0, E.Sum(sgen, n, "prod"))
            else:
                env.vars[x] = Poison(x)
        elif x in pre_vars and x not in accs and x not in tnames:
            if x in result["samevars"]:
                continue
            env.vars[x] = Poison(x)
        else:
            env.vars[x] = Poison(x)


def is_boolish(v):
    return isinstance(v, (bool, z3.BoolRef))


def has_exit(body):
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, (ast.Return, ast.Raise)):
                return True
            if isinstance(n, ast.Break):
                return True
    return False


def relevant(phi, G):
    return G.depends(phi)


def touched(E, G, phi):
    """Register the integer terms built from generalised symbols for instantiation."""
    names = set(d.name() for d in G.decls.values())
    for x in subterms(phi):
        if z3.is_app(x) and x.decl().name() in names and x.sort() in (z3.IntSort(), Pt):
            E.touch(x)
    return phi


def install_havoc(E, c):
    idx = tuple(z3.Int(E.fresh_name("pr")) for _ in c.shape)
    lv = E.inst_level
    E.inst_level = 9
    try:
        v = c.fn(idx)
    finally:
        E.inst_level = lv
    doms = [z3.IntSort()] * len(c.shape)
    if isinstance(v, XR) or (isinstance(v, float) and v == float("inf")):
        fs = [z3.Function(E.fresh_name("h"), *(doms + [so])) for so in (z3.RealSort(), z3.BoolSort(), z3.BoolSort())]
        A.write(c, lambda b: XR(*[f(*[integer(i) for i in b]) for f in fs]), None)
    else:
        fs = [z3.Function(E.fresh_name("h"), *(doms + [sort_of(c.dtype)]))]
        A.write(c, lambda b: fs[0](*[integer(i) for i in b]), None)
    return [f.name() for f in fs]


def neq(a, b):
    """a differs from b as values (nan equals nan here)."""
    if isinstance(a, XR) or isinstance(b, XR) or needs_x(a, b):
        a, b = xr(a), xr(b)
        return b_or(b_not(b_iff(a.nan, b.nan)), b_and(b_not(a.nan), b_not(b_iff(a.inf, b.inf))), b_and(b_not(a.nan), b_not(a.inf), ne(a.v, b.v)))
    if is_boolish(a) and is_boolish(b):
        return b_not(b_iff(a, b))
    return ne(a, b)


def collect(I, s, env, it, t0, havoc, hm, lists, accs, tnames):
    E = I.E
    res = {"cells": {}, "lists": {}, "accs": {}, "samevars": set()}
    hnames = {}
    for cid, c in havoc.items():
        for nm in hm[cid]:
            hnames[nm] = cid
    cands_items = []
    v = it.item(t0)
    for x in (v if isinstance(v, tuple) else (v,)):
        if is_scalar(x) and is_intlike(x):
            cands_items.append(integer(x))
    cands_items.append(t0)
    # values written per cell
    info = {}
    for cid, c in havoc.items():
        probes = [E.Int("pr") for _ in c.shape]
        for p in probes:
            E.touch(p)
        rng = b_and(*[b_and(p >= 0, lt(p, d)) for p, d in zip(probes, c.shape)])
        gv = c.fn(tuple(probes))
        dn = hm[cid]
        if len(dn) == 3:
            so = (z3.RealSort(), z3.BoolSort(), z3.BoolSort())
        else:
            so = (sort_of(c.dtype),)
        doms = [z3.IntSort()] * len(c.shape)
        hs = [z3.Function(nm, *(doms + [q]))(*probes) for nm, q in zip(dn, so)]
        hv = XR(*hs) if len(hs) == 3 else hs[0]
        keys = list(cands_items)
        for x in subterms_all(gv):
            # equations probe == term inside the written value give further candidates
            if z3.is_eq(x) and x.arg(0).sort() == z3.IntSort():
                for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                    if any(a.eq(p) for p in probes) and not any(b.eq(k) for k in keys) and not contains_any(b, probes):
                        keys.append(b)
        found = None
        for axis in range(len(c.shape)):
            for key in keys:
                if E.must(b_imp(b_and(rng, ne(probes[axis], key)), b_not(neq(gv, hv)))):
                    found = (axis, key)
                    break
            if found:
                break
        if not found:
            raise Unsupported("loop writes are not confined to one slice per iteration; it needs an annotated invariant")
        info[cid] = (c, probes, gv, hv, rng) + found
    for cid, (c, probes, gv, hv, rng, axis, key) in info.items():
        # self-dependence
        for x in subterms_all(gv):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in hnames:
                oc = hnames[x.decl().name()]
                oaxis, okey = info[oc][5], info[oc][6]
                a = x.arg(oaxis)
                if oc == cid and all(p.eq(y) for p, y in zip(probes, x.children())):
                    continue
                if a.eq(okey):
                    continue
                if not E.must(b_imp(b_and(rng, probes[axis] == key), a == okey)):
                    raise Unsupported("loop iterations depend on each other; it needs an annotated invariant")
        # injectivity of the slice index
        G = Gen(E, t0, [], {})
        t1 = E.Int("t1")
        E.touch(t1)
        k1 = G.term(key, t1)
        inj = key.eq(t0) or E.must(b_imp(b_and(t1 >= 0, lt(t1, it.n), t1 != t0), k1 != key))
        if not inj:
            # idempotence: applying the body twice to the same slice changes nothing
            dn = hm[cid]
            if len(dn) != 1 or any(hnames.get(x.decl().name(), cid) != cid for x in subterms_all(gv) if z3.is_app(x)):
                raise Unsupported("several iterations write the same slice")
            G2 = Gen(E, t0, list(E.fresh_log or []), {})
            own = set(p.decl().name() for p in probes) | {t1.decl().name()}
            for nm in list(G2.names):
                if nm in own:
                    del G2.names[nm]
            if G2.uses_fresh(gv):
                raise Unsupported("several iterations write the same slice with different random values")
            gl, _ = parts(gv)

            def twice(d, ch, x):
                if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() == dn[0]:
                    return z3.substitute(gl[0], *[(p, y) for p, y in zip(probes, ch)])
                return None
            # second application at t1 with the same key
            g1 = z3.substitute(gl[0], (t0, t1))
            g2 = rewrite(g1, twice)
            cond = b_and(rng, probes[axis] == key, t1 >= 0, lt(t1, it.n), k1 == key)
            if not (E.must(b_imp(cond, g2 == gl[0])) and E.must(b_imp(cond, g1 == gl[0]))):
                raise Unsupported("several iterations write the same slice with different results")
        res["cells"][cid] = (probes, gv, axis, key, inj)
    for lid, l in lists.items():
        if not l.append_log:
            raise Unsupported("list changed in a loop other than by appending")
        res["lists"][lid] = [pack(E, v) for v in l.append_log]
    for x, a in accs.items():
        v = env.vars.get(x)
        if is_scalar(v) and not isinstance(v, XR):
            if is_z3(v) and v.eq(a):
                res["accs"][x] = ("same", None)
                continue
            vs = v if is_z3(v) else None
            if vs is not None and not contains_any(vs, [a]):
                res["accs"][x] = ("temp", None)
                continue
            if vs is not None:
                d = z3.simplify(real(v) - real(a), som=True) if not is_boolish(v) else None
                if d is not None and not contains_any(d, [a]):
                    if z3.is_int(a) and is_intlike(v):
                        d = z3.simplify(integer(v) - a, som=True)
                    res["accs"][x] = ("sum", d)
                    continue
                same = lambda y: y.eq(a) or z3.is_to_real(y) and y.arg(0).eq(a)
                if z3.is_mul(vs) and sum(1 for y in vs.children() if same(y)) == 1:
                    rest = [y for y in vs.children() if not same(y)]
                    r = rest[0]
                    for y in rest[1:]:
                        r = r * y
                    if not contains_any(r, [a]):
                        res["accs"][x] = ("prod", r)
                        continue
            elif vs is None:
                res["accs"][x] = ("temp", None)
                continue
            raise Unsupported("loop-carried variable %s needs an annotated invariant" % x)
        res["accs"][x] = ("temp", None)
    # no other value may depend on an accumulator
    al = list(accs.values())
    for cid in res["cells"]:
        if any(contains_any(x, al) for x in parts(res["cells"][cid][1])[0]):
            raise Unsupported("array written from a loop-carried variable; it needs an annotated invariant")
    for x, (k, e) in res["accs"].items():
        if e is not None and contains_any(e, [b for y, b in accs.items()]):
            raise Unsupported("loop-carried variables depend on each other")
    for lid in res["lists"]:
        for p in res["lists"][lid]:
            for e in p["terms"]:
                if contains_any(e, al) or any(z3.is_app(y) and y.decl().name() in hnames for y in subterms(e)):
                    raise Unsupported("list element depends on a loop-carried value")
    for x, v in env.vars.items():
        pass
    return res


def subterms_all(v):
    for x in parts(v)[0]:
        for y in subterms(x):
            yield y


def contains_any(t, xs):
    if not is_z3(t):
        return False
    ids = set(x.get_id() for x in xs)
    return any(y.get_id() in ids for y in subterms(t))


def pack(E, v):
    """Description of a value appended at iteration t0, to be generalised."""
    if is_scalar(v):
        l, rb = parts(v)
        return {"kind": "scalar", "terms": l, "rb": rb}
    if isinstance(v, Arr) and len(v.shape) == 1:
        p = z3.Int(E.fresh_name("pk"))
        lv = E.inst_level
        E.inst_level = 9
        try:
            x = v.at(p)
        finally:
            E.inst_level = lv
        l, rb = parts(x)
        pt = v.pt
        d = {"kind": "arr", "terms": l + ([pt] if pt is not None else []), "rb": rb, "p": p, "shape": v.shape, "dtype": v.dtype, "pt": pt, "k": len(l)}
        return d
    raise Unsupported("loop appends %r" % (v,))


def unpack_val(E, G, d, t):
    if d["kind"] == "scalar":
        return d["rb"]([G.term(x, t) for x in d["terms"]])
    terms, k, p = d["terms"], d["k"], d["p"]

    def f(idx):
        return d["rb"]([G.term(x, t, [(p, integer(idx[0]))]) for x in terms[:k]])
    a = A.new(d["shape"], f, d["dtype"])
    if d["pt"] is not None:
        a._pt = (G.term(d["pt"], t), a.cell.version)
    return a


def extend_list(E, G, l, packs, n):
    from .interp import PList, SymList
    m = len(packs)
    if m != 1:
        raise Unsupported("several appends per iteration")
    d = packs[0]
    if isinstance(l, PList):
        old = list(l.items)
        n0 = len(old)

        def get(i):
            if isinstance(i, int) and i < n0:
                return old[i]
            if n0 == 0:
                return unpack_val(E, G, d, i)
            return pick(E, lt(i, n0), lambda: old_at(E, old, i), lambda: unpack_val(E, G, d, simp_(sub(i, n0))))
        l.set_state((SymList, (simp_(add(n0, n)), get, None, "obj" if d["kind"] == "arr" else "scalar")))
    else:
        g0, n0 = l.get, l.n

        def get2(i):
            return pick(E, lt(i, n0), lambda: g0(i), lambda: unpack_val(E, G, d, simp_(sub(i, n0))))
        l.set_state((SymList, (simp_(add(n0, n)), get2, None, l.kind)))


def simp_(x):
    if is_z3(x):
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long()
    return x


def old_at(E, old, i):
    for k in range(len(old) - 1):
        if E.branch(eq(i, k)):
            return old[k]
    return old[-1]


def pick(E, c, a, b):
    x, y = None, None
    if isinstance(c, bool):
        return a() if c else b()
    if E.must(c):
        return a()
    if E.must(b_not(c)):
        return b()
    x, y = a(), b()
    if isinstance(x, Arr) and isinstance(y, Arr) and len(x.shape) == 1 and len(y.shape) == 1 and A.dims_equal(x.shape[0], y.shape[0]):
        f, g = x.fn(), y.fn()
        r = A.new(x.shape, lambda idx: ite(c, f(idx), g(idx)), x.dtype)
        if x.pt is not None and y.pt is not None:
            r._pt = (z3.If(c, x.pt, y.pt), r.cell.version)
        return r
    if is_scalar(x) and is_scalar(y):
        return ite(c, x, y)
    return x if E.branch(c) else y


# ------------------------------------------------------ comprehensions
def sym_comp(I, e, env, gen, it):
    """List comprehension over a symbolic sequence -> SymList."""
    from .interp import SymList
    E = I.E
    pre = snapshot(E)
    nreg = len(E.registry)
    sc = Scope(E)
    n = it.n
    with sc:
        t0 = E.Int("c0")
        E.touch(t0)
        E.assume(b_and(t0 >= 0, lt(t0, n)))
        E.gen_log = []
        E.fresh_log = []
        try:
            I.assign(gen.target, it.item(t0), env)
            conds = []
            for c in gen.ifs:
                v = I.ev(c, env)
                if not is_boolish(v):
                    raise Unsupported("condition in a comprehension")
                conds.append(v)
            v = I.ev(e.elt, env)
            if isinstance(v, Arr):
                v = pack(E, v)
            elif is_scalar(v):
                v = pack(E, v)
            else:
                raise Unsupported("elements of a comprehension: %r" % (v,))
            for o, st in pre:
                if not same_state(o.get_state(), st):
                    raise Unsupported("comprehension with side effects")
            fresh_now = list(E.fresh_log)
        except PyExc as ex:
            raise Unsupported("comprehension may raise %s" % (ex,))
        finally:
            for o, st in pre:
                o.set_state(st)
            del E.registry[nreg:]
    G = Gen(E, t0, fresh_now, {})
    for phi in sc.gen:
        if relevant(phi, G):
            E.assume_forall(("Int",), lambda t, phi=phi: b_imp(b_and(t >= 0, lt(t, n)), touched(E, G, G.term(phi, t))), "comp")
    for sorts, fn, lab in [(f.sorts, f.fn, f.label) for f in sc.new_facts]:
        vs = [z3.Int(E.fresh_name("gv")) if so == "Int" else z3.Const(E.fresh_name("gp"), Pt) for so in sorts]
        lv = E.inst_level
        E.inst_level = 9
        try:
            phi = fn(*vs)
        finally:
            E.inst_level = lv
        if phi is True or phi is None:
            continue
        phi = tobool(phi)
        E.assume_forall(("Int",) + tuple(sorts), lambda t, *ix, phi=phi, vs=vs: b_imp(b_and(t >= 0, lt(t, n)), touched(E, G, G.term(phi, t, list(zip(vs, ix))))), "comp")
    if not gen.ifs:
        return SymList(n, lambda i: unpack_val(E, G, v, i))
    cc = b_and(*conds)
    w = A.where_enum(lambda idx: G.value(cc, idx[0]) if is_z3(cc) else cc, n)
    wf = w.fn()
    return SymList(w.shape[0], lambda i: unpack_val(E, G, v, wf((i,))))


def key_inverse(E, G, key, t0, n):
    if key.eq(t0):
        return (lambda j: b_and(j >= 0, lt(j, n))), (lambda j: j)
    d = z3.simplify(key - t0)
    if not contains_any(d, [t0]) and not G.depends(d):
        return (lambda j: b_and(ge(sub(j, d), 0), lt(sub(j, d), n))), (lambda j: z3.simplify(integer(sub(j, d))))
    d = z3.simplify(key + t0)
    if not contains_any(d, [t0]) and not G.depends(d):
        return (lambda j: b_and(ge(sub(d, j), 0), lt(sub(d, j), n))), (lambda j: z3.simplify(integer(sub(d, j))))
    arr = A.new((n,), lambda idx: G.term(key, idx[0]), "i")
    en = A.enum_of(arr)
    return en.member, en.pos
