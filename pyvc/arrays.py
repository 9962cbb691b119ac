"""pyvc arrays: numpy arrays of symbolic shape with exact view/aliasing semantics."""
import z3
from .core import *
from .core import Engine, Unsupported, PyExc, XR, Pt, coord


class Cell(object):
    """Memory of one array: shape, content (index tuple -> scalar), optional row structure (row -> Pt)."""

    def __init__(self, shape, fn, dtype="f", row=None):
        self.shape, self.fn, self.dtype, self.row = tuple(shape), fn, dtype, row
        self.version = 0
        E = Engine.cur
        if E is not None:
            E.registry.append(self)

    def get_state(self):
        return (self.shape, self.fn, self.dtype, self.row, self.version)

    def set_state(self, s):
        self.shape, self.fn, self.dtype, self.row, self.version = s


class Arr(object):
    """A view of a cell.  dims: per base dimension ('fix', i) or ('dim', viewdim, start, step)."""

    def __init__(self, cell, shape=None, dims=None, pt=None):
        self.cell = cell
        self.shape = tuple(cell.shape if shape is None else shape)
        self.dims = dims          # None: identity
        self._pt = pt if pt is None else (pt, cell.version)
        self.enum = None          # enumeration info for index arrays
        self.tag = None           # provenance

    @property
    def dtype(self):
        return self.cell.dtype

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def pt(self):
        if self._pt is not None and self._pt[1] == self.cell.version:
            return self._pt[0]
        if self.cell.row is not None and len(self.shape) == 1 and self.dims is not None and len(self.dims) == 2:
            a, b = self.dims
            if a[0] == "fix" and b[0] == "dim" and b[2] == 0 and b[3] == 1 and dim_eq(self.shape[0], self.cell.shape[1]):
                return self.cell.row(a[1])
        return None

    def base(self, idx):
        if self.dims is None:
            return tuple(idx)
        r = []
        for d in self.dims:
            if d[0] == "fix":
                r.append(d[1])
            else:
                i = idx[d[1]]
                r.append(add(d[2], mul(d[3], i)) if d[3] != 1 else add(d[2], i))
        return tuple(r)

    def view_of(self, b):
        """base index -> (condition that it belongs to the view, view index)."""
        if self.dims is None:
            return True, tuple(b)
        cond, idx = [], [0] * len(self.shape)
        for k, d in enumerate(self.dims):
            if d[0] == "fix":
                cond.append(eq(b[k], d[1]))
            else:
                if d[3] == 1:
                    i = sub(b[k], d[2])
                elif d[3] == -1:
                    i = sub(d[2], b[k])
                else:
                    i = floordiv(sub(b[k], d[2]), d[3])
                    cond.append(eq(mod(sub(b[k], d[2]), d[3]), 0))
                if not (d[2] == 0 and d[3] == 1 and dim_eq(self.shape[d[1]], self.cell.shape[k])):
                    cond.append(ge(i, 0))
                    cond.append(lt(i, self.shape[d[1]]))
                idx[d[1]] = i
        return b_and(*cond), tuple(idx)

    def fn(self):
        """Pure function view index tuple -> scalar for the current content."""
        f = self.cell.fn
        if self.dims is None:
            return f
        return lambda idx: f(self.base(idx))

    def at(self, *idx):
        return self.cell.fn(self.base(idx))

    def rowfn(self):
        """Pure function row -> Pt (2-D arrays)."""
        if self.cell.row is not None:
            f = self.cell.row
            if self.dims is None:
                return f
            d = self.dims
            if len(self.shape) == 2 and len(d) == 2 and d[1][0] == "dim" and d[1][1] == 1 and d[1][2] == 0 and d[1][3] == 1 and dim_eq(self.shape[1], self.cell.shape[1]):
                if d[0][0] == "dim" and d[0][1] == 0:
                    st, sp = d[0][2], d[0][3]
                    return lambda i: f(add(st, mul(sp, i)))
            if len(self.shape) == 2 and d[0][0] == "fix" and d[1][0] == "dim" and d[1][1] == 1 and d[1][2] == 0 and d[1][3] == 1 and dim_eq(self.shape[1], self.cell.shape[1]):
                return lambda i: f(d[0][1])
        if self.pt is not None and len(self.shape) == 2:
            p = self.pt
            return lambda i: p
        return None


def dim_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    return False


def E_():
    return Engine.cur


def dims_equal(a, b):
    if dim_eq(a, b):
        return True
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return E_().known(integer(a) == integer(b))


def new(shape, fn, dtype="f", row=None):
    return Arr(Cell(shape, fn, dtype, row))


def snap(a):
    return a.fn()


def copy(a):
    r = Arr(Cell(a.shape, a.fn(), a.dtype, a.rowfn() if len(a.shape) == 2 else None))
    if len(a.shape) == 1 and a.pt is not None:
        r._pt = (a.pt, r.cell.version)
    r.enum, r.tag = a.enum, a.tag
    return r


def from_list(items, dtype=None):
    """Array from a concrete Python list of scalars / arrays / lists."""
    items = list(items)
    if any(isinstance(x, (Arr, list, tuple)) or hasattr(x, "items_") for x in items):
        subs = [as_arr(x) for x in items]
        sh = subs[0].shape
        for s in subs[1:]:
            if len(s.shape) != len(sh) or not all(dims_equal(p, q) for p, q in zip(s.shape, sh)):
                raise PyExc("ValueError", "inhomogeneous shape")
        fns = [s.fn() for s in subs]

        def f(idx):
            r = fns[-1](idx[1:])
            for k in range(len(fns) - 2, -1, -1):
                r = ite(eq(idx[0], k), fns[k](idx[1:]), r)
            return r

        row = None
        if len(sh) == 1 and all(s.pt is not None for s in subs):
            pts = [s.pt for s in subs]

            def row(i):
                r = pts[-1]
                for k in range(len(pts) - 2, -1, -1):
                    r = ite(eq(i, k), pts[k], r)
                return r
        r = new((len(items),) + tuple(sh), f, subs[0].dtype, row)
        r.subs = subs
        return r
    dt = dtype or ("b" if items and all(isinstance(x, (bool, z3.BoolRef)) for x in items) else
                   "i" if items and all(is_intlike(x) for x in items) else "f")

    def f(idx):
        i = idx[0]
        if isinstance(i, int):
            return items[i]
        if z3.is_int_value(i):
            return items[i.as_long()]
        if not items:
            return 0.0
        r = items[-1]
        for k in range(len(items) - 2, -1, -1):
            r = ite(eq(i, k), items[k], r)
        return r

    a = new((len(items),), f, dt)
    a.tag = ("list", items)
    return a


def as_arr(x):
    if isinstance(x, Arr):
        return x
    if hasattr(x, "to_arr"):
        return x.to_arr()
    if isinstance(x, (list, tuple)):
        return from_list(x)
    if isinstance(x, bool) or (is_z3(x) and z3.is_bool(x)):
        return new((), lambda idx: x, "b")
    if is_scalar(x):
        return new((), lambda idx: x, "i" if is_intlike(x) else "f")
    raise Unsupported("not an array: %r" % (x,))


def bcast_shape(s, t):
    n = max(len(s), len(t))
    s = (1,) * (n - len(s)) + tuple(s)
    t = (1,) * (n - len(t)) + tuple(t)
    r = []
    for a, b in zip(s, t):
        if isinstance(a, int) and a == 1:
            r.append(b)
        elif isinstance(b, int) and b == 1:
            r.append(a)
        elif dims_equal(a, b):
            r.append(a)
        elif E_().known(eq(a, 1)):
            r.append(b)
        elif E_().known(eq(b, 1)):
            r.append(a)
        elif E_().branch(eq(a, b)):
            r.append(a)
        elif E_().branch(eq(a, 1)):
            r.append(b)
        elif E_().branch(eq(b, 1)):
            r.append(a)
        else:
            raise PyExc("ValueError", "operands could not be broadcast together")
    return tuple(r)


def bcast_fn(a, shape):
    f = a.fn()
    k = len(shape) - len(a.shape)
    one = []
    for j, d in enumerate(a.shape):
        t = shape[k + j]
        one.append((isinstance(d, int) and d == 1) or (not dim_eq(d, t) and E_().known(eq(d, 1)) and not E_().known(eq(t, 1))))

    def g(idx):
        idx = idx[k:]
        return f(tuple(0 if o else i for o, i in zip(one, idx)))
    return g


def elementwise(op, *args, dtype="f"):
    arrs = [as_arr(x) for x in args]
    if all(len(a.shape) == 0 for a in arrs):
        return op(*[a.fn()(()) for a in arrs])
    shape = arrs[0].shape
    for a in arrs[1:]:
        shape = bcast_shape(shape, a.shape)
    fns = [bcast_fn(a, shape) for a in arrs]
    return new(shape, lambda idx: op(*[f(idx) for f in fns]), dtype)


def norm_index(i, n, check=True):
    """Normalise a scalar index; raises IndexError on the paths where it is out of range."""
    E = E_()
    if isinstance(i, int) and isinstance(n, int):
        if i < 0:
            i += n
        if check and not (0 <= i < n):
            raise PyExc("IndexError", "index out of range")
        return i
    if isinstance(i, int) and i < 0:
        i = add(n, i)
    elif is_z3(i):
        E.touch(i)
        if not E.must(i >= 0):
            if E.branch(i < 0):
                i = add(n, i)
    if check:
        ok = b_and(ge(i, 0), lt(i, n))
        if not E.branch(ok, likely=True):
            raise PyExc("IndexError", "index out of range")
    if is_z3(i):
        i = z3.simplify(i)
        if z3.is_int_value(i):
            return i.as_long()
        E.touch(i)
    return i


def norm_slice(s, n):
    """-> (start, length, step) with numpy clamping."""
    E = E_()
    lo, hi, st = s
    if st is None:
        st = 1
    if not isinstance(st, int) or st == 0:
        raise Unsupported("symbolic slice step")

    def clamp(v, default):
        if v is None:
            return default
        if isinstance(v, int) and isinstance(n, int):
            if v < 0:
                v += n
            return max(0, min(v, n))
        if isinstance(v, int) and v == 0:
            return 0
        if dim_eq(v, n):
            return n
        if isinstance(v, int) and v < 0:
            v = add(n, v)
        elif is_z3(v) and not E.must(v >= 0):
            v = ite(lt(v, 0), add(n, v), v)
        if E.must(ge(v, 0)):
            pass
        else:
            v = smax(v, 0)
        if not E.must(le(v, n)):
            v = smin(v, n)
        return v
    if st > 0:
        a, b = clamp(lo, 0), clamp(hi, n)
        if isinstance(a, int) and isinstance(b, int):
            ln = max(0, -(-(b - a) // st))
        else:
            d = sub(b, a)
            if not (isinstance(a, int) and a == 0) and not E.must(ge(d, 0)):
                d = smax(d, 0)
            if st != 1:
                d = floordiv(add(d, st - 1), st)
            ln = d
        if is_z3(ln):
            ln = z3.simplify(ln)
            if z3.is_int_value(ln):
                ln = ln.as_long()
        return a, ln, st
    if st == -1 and lo is None and hi is None:
        return sub(n, 1), n, -1
    raise Unsupported("negative slice")


NEWAXIS = None


def is_index_arr(x):
    return isinstance(x, (Arr, list, tuple)) or hasattr(x, "to_arr")


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    n_idx = sum(1 for k in key if k is not None and k is not Ellipsis)
    if Ellipsis in [k for k in key if not isinstance(k, (Arr,)) and not is_z3(k)]:
        j = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key = key[:j] + (slice(None),) * (len(a.shape) - n_idx) + key[j + 1:]
    else:
        bool_extra = 0
        for k in key:
            if isinstance(k, Arr) and k.dtype == "b":
                bool_extra += len(k.shape) - 1
        key = key + (slice(None),) * (len(a.shape) - n_idx - bool_extra)
    return key


def basic_view(a, key):
    """Basic indexing -> view, or None when fancy."""
    dims = list(a.dims) if a.dims is not None else [("dim", k, 0, 1) for k in range(len(a.shape))]
    vmap = {}
    shape = []
    k = 0
    for it in key:
        if it is None:
            shape.append(1)
            continue
        if k >= len(a.shape):
            raise PyExc("IndexError", "too many indices")
        n = a.shape[k]
        if isinstance(it, slice):
            st, ln, sp = norm_slice((it.start, it.stop, it.step), n)
            vmap[k] = ("dim", len(shape), st, sp)
            shape.append(ln)
        else:
            vmap[k] = ("fix", norm_index(it, n))
        k += 1
    nd = []
    for d in dims:
        if d[0] == "fix":
            nd.append(d)
            continue
        m = vmap[d[1]]
        if m[0] == "fix":
            nd.append(("fix", add(d[2], mul(d[3], m[1]))))
        else:
            nd.append(("dim", m[1], add(d[2], mul(d[3], m[2])), d[3] * m[3]))
    if not shape:
        b = tuple(x[1] for x in nd)
        return a.cell.fn(b)
    return Arr(a.cell, shape, nd)


class Enum(object):
    """Enumeration view of an integer array e of length m: member(i) <-> exists k. e[k]==i, pos(i)=k."""

    def __init__(self, member, pos, injective):
        self.member, self.pos, self.injective = member, pos, injective


def enum_of(idx):
    if idx.enum is not None:
        return idx.enum
    E = E_()
    m = idx.shape[0]
    f = idx.fn()
    if isinstance(m, int) and m <= 8:
        def member(b):
            return b_or(*[eq(f((k,)), b) for k in range(m)])

        def pos(b):
            r = m - 1
            for k in range(m):
                r = ite(eq(f((k,)), b), k, r) if k < m - 1 else r
            # last matching wins in numpy assignment
            r = 0
            for k in range(m):
                r = ite(eq(f((k,)), b), k, r)
            return r
        idx.enum = Enum(member, pos, m <= 1)
        return idx.enum
    M = E.Func("mem", z3.IntSort(), z3.BoolSort())
    P = E.Func("pos", z3.IntSort(), z3.IntSort())

    def fact1(b):
        p = P(b)
        E.touch(p)
        return z3.Implies(M(b), z3.And(p >= 0, p < integer(m), integer(f((p,))) == b))
    E.assume_forall(("Int",), fact1, "enum")

    def fact2(k):
        v = integer(f((k,)))
        E.touch(v)
        return z3.Implies(z3.And(k >= 0, k < integer(m)), M(v))
    E.assume_forall(("Int",), fact2, "enum")
    idx.enum = Enum(lambda b: M(integer(b)), lambda b: P(integer(b)), False)
    return idx.enum


def where_enum(mask, n, label="w"):
    """np.where(mask)[0] for a 1-D mask function of length n: increasing enumeration of the true positions."""
    E = E_()
    if isinstance(n, int) and n <= 4:
        # concrete: branch on every element
        items = [k for k in range(n) if E.branch(mask((k,)))]
        r = from_list(items, "i")
        return r
    # the same condition again: the same positions
    pr = z3.Int("where!probe")
    lv = E.inst_level
    E.inst_level = 9
    try:
        key = tobool(mask((pr,)))
    finally:
        E.inst_level = lv
    key = z3.simplify(z3.And(key, pr < integer(n)))
    for k2, m2, f2, en, tag in E.where_memo:
        if k2.eq(key):
            r = new((m2,), f2, "i")
            r.enum, r.tag = en, tag
            return r
    m = E.Int("cnt")
    E.assume(z3.And(m >= 0, m <= integer(n)))
    W = E.Func("wh", z3.IntSort(), z3.IntSort())
    P = E.Func("whpos", z3.IntSort(), z3.IntSort())

    def fact1(k):
        w = W(k)
        E.touch(w)
        return b_imp(b_and(k >= 0, k < m), b_and(w >= 0, lt(w, n), mask((w,)), P(w) == k))
    E.assume_forall(("Int",), fact1, "where")

    def fact2(i):
        p = P(i)
        E.touch(p)
        return b_imp(b_and(i >= 0, lt(i, n), mask((i,))), b_and(p >= 0, p < m, W(p) == i))
    E.assume_forall(("Int",), fact2, "where")

    def fact3(k, l):
        return b_imp(b_and(k >= 0, k < l, l < m), W(k) < W(l))
    E.assume_forall(("Int", "Int"), fact3, "where")
    E.touch(z3.IntVal(0))
    a = new((m,), lambda idx: W(integer(idx[0])), "i")
    a.enum = Enum(lambda b: b_and(ge(b, 0), lt(b, n), mask((b,))), lambda b: P(integer(b)), True)
    a.tag = ("where", mask, n, m)
    E.where_memo.append((key, m, a.cell.fn, a.enum, a.tag))
    return a


def getitem(a, key):
    E = E_()
    if not isinstance(key, tuple) and hasattr(key, "to_arr"):
        key = key.to_arr()
    key = expand_key(a, key)
    if not any(is_index_arr(k) for k in key):
        return basic_view(a, key)
    key = [as_arr(k) if is_index_arr(k) else k for k in key]
    # 0-d arrays are scalars
    key = [k.at() if isinstance(k, Arr) and len(k.shape) == 0 else k for k in key]
    if not any(isinstance(k, Arr) for k in key):
        return basic_view(a, tuple(key))
    f = a.fn()
    arrs = [k for k in key if isinstance(k, Arr)]
    if any(k.dtype == "b" for k in arrs):
        if len(arrs) != 1:
            raise Unsupported("mixed boolean index")
        m = arrs[0]
        if len(m.shape) == len(a.shape) and len(m.shape) == 2 and isinstance(a.shape[1], int) and a.shape[1] == 1:
            w = where_enum(lambda idx: m.at(idx[0], 0), a.shape[0])
            return new(w.shape, lambda idx: f((w.at(idx[0]), 0)), a.dtype)
        if len(m.shape) != 1:
            raise Unsupported("multi-dimensional boolean index read")
        mf = m.fn()
        w = where_enum(mf, m.shape[0])
        key = [w if k is m else k for k in key]
        arrs = [w]
    # basic part first: reduce scalars and slices
    pos = [i for i, k in enumerate(key) if isinstance(k, Arr)]
    rf = a.rowfn() if len(a.shape) == 2 else None
    if len(arrs) == 1 and len(arrs[0].shape) >= 1:
        p = pos[0]
        ix = arrs[0]
        ix = check_index_arr(ix, a.shape[p], True)
        fx = ix.fn()
        rest = [k for i, k in enumerate(key)]
        # shape: dims before p, ix dims, dims after
        shape, plan = [], []
        for i, k in enumerate(key):
            if i == p:
                plan.append(("ix", len(shape), len(ix.shape)))
                shape.extend(ix.shape)
            elif isinstance(k, slice):
                st, ln, sp = norm_slice((k.start, k.stop, k.step), a.shape[i])
                plan.append(("sl", len(shape), st, sp))
                shape.append(ln)
            elif k is None:
                raise Unsupported("newaxis with fancy index")
            else:
                plan.append(("fix", norm_index(k, a.shape[i])))
        if len(key) > 1 and any(q[0] == "fix" for q in plan) and p != 0 and plan[0][0] == "sl" and False:
            pass

        def g(idx):
            b = []
            for q in plan:
                if q[0] == "ix":
                    v = fx(tuple(idx[q[1]:q[1] + q[2]]))
                    if is_z3(v):
                        E_().touch(v)
                    b.append(v)
                elif q[0] == "sl":
                    b.append(add(q[2], mul(q[3], idx[q[1]])))
                else:
                    b.append(q[1])
            return f(tuple(b))
        row = None
        if rf is not None and p == 0 and len(ix.shape) == 1 and plan[1][0] == "sl" and plan[1][2] == 0 and dim_eq(shape[1], a.shape[1]):
            row = lambda i: rf(fx((i,)))
        r = new(shape, g, a.dtype, row)
        r.gather = (a, ix)
        return r
    # several index arrays broadcast together
    sh = ()
    for k in arrs:
        sh = bcast_shape(sh, k.shape)
    if any(isinstance(k, slice) for k in key):
        raise Unsupported("advanced indexing with slices and several arrays")
    fns = []
    for i, k in enumerate(key):
        if isinstance(k, Arr):
            check_index_arr(k, a.shape[i])
            fns.append(bcast_fn(k, sh))
        else:
            v = norm_index(k, a.shape[i])
            fns.append(lambda idx, v=v: v)
    return new(sh, lambda idx: f(tuple(g(idx) for g in fns)), a.dtype)


def check_index_arr(ix, n, wrap=False):
    """Every entry of the index array is a valid non-negative index, else IndexError is possible."""
    E = E_()
    if ix.dtype == "f" and not (isinstance(ix.shape[0], int) and ix.shape[0] == 0):
        if E.must(eq(ix.shape[0], 0)):
            raise PyExc("IndexError", "arrays used as indices must be of integer type")
        raise PyExc("IndexError", "arrays used as indices must be of integer type")
    if getattr(ix, "checked", None) is not None and dim_eq(ix.checked, n):
        return ix
    sk = [E.Int("ixc") for _ in ix.shape]
    for s in sk:
        E.touch(s)
    v = ix.at(*sk)
    rng = b_and(*[b_and(s >= 0, lt(s, d)) for s, d in zip(sk, ix.shape)])
    good = b_imp(rng, b_and(ge(v, 0), lt(v, n)))
    if wrap and good is not True and E.check(b_not(good), deep=False) != "unsat" and E.must(b_imp(rng, b_and(ge(v, neg(n) if not conc(n) else -n), lt(v, n)))):
        f = ix.fn()                       # negative entries count from the end
        return new(ix.shape, lambda idx: ite(lt(f(idx), 0), add(f(idx), n), f(idx)), "i")
    if not E.must(good):
        if E.branch(E.Bool("ixerr")):
            E.assume(b_and(rng, b_not(b_and(ge(v, neg(n) if not conc(n) else -n), lt(v, n)))))
            if E.check() == "unsat":
                raise PathEnd()
            raise PyExc("IndexError", "index out of range")
        raise Unsupported("possibly negative entries in an index array")
    ix.checked = n
    return ix


def setitem(a, key, val):
    E = E_()
    c = a.cell
    old = c.fn
    if not isinstance(key, tuple) and hasattr(key, "to_arr"):
        key = key.to_arr()
    key = expand_key(a, key)
    key = [as_arr(k) if is_index_arr(k) else k for k in key]
    key = [k.at() if isinstance(k, Arr) and len(k.shape) == 0 else k for k in key]
    va = as_arr(val)
    fancy = [k for k in key if isinstance(k, Arr)]
    if not fancy:
        v = basic_view(a, tuple(key))
        if not isinstance(v, Arr):      # single element
            nd = basic_dims(a, key)
            s = va.at() if len(va.shape) == 0 else va.at(*[0] * len(va.shape))
            s = cast(s, c.dtype)

            def f(b):
                return ite(b_and(*[eq(x, y) for x, y in zip(b, nd)]), s, old(b))
            write(c, f, None)
            return
        sh = bcast_shape(v.shape, va.shape)
        if len(sh) > len(v.shape):
            # extra leading ones on the right-hand side
            va = squeeze_leading(va, len(v.shape))
        g = bcast_fn(va, v.shape)
        dt = c.dtype

        def f(b):
            cond, idx = v.view_of(b)
            if cond is False:
                return old(b)
            return ite(cond, cast(g(idx), dt), old(b))
        # row structure: whole-row write of a point
        row = None
        if len(c.shape) == 2 and len(v.shape) == 1 and v.dims[0][0] == "fix" and v.dims[1][0] == "dim" and dim_eq(v.shape[0], c.shape[1]):
            p = va.pt if len(va.shape) == 1 else (va.rowfn()(0) if va.rowfn() else None)
            if p is None and (len(va.shape) == 1) and dim_eq(va.shape[0], c.shape[1]) and (c.row is not None):
                p = reify_point(va)
            if p is not None:
                orow = c.row or reify_rows_fn(c)
                r0 = v.dims[0][1]
                row = lambda i: ite(eq(i, r0), p, orow(i))
        write(c, f, row)
        return
    # fancy write
    dims = list(a.dims) if a.dims is not None else [("dim", k, 0, 1) for k in range(len(a.shape))]
    if any(k.dtype == "b" for k in fancy):
        if len(fancy) != 1:
            raise Unsupported("mixed boolean write")
        m = fancy[0]
        mf = m.fn()
        if len(m.shape) == len(a.shape) or len(key) == 1 + (len(a.shape) - len(m.shape)):
            if len(m.shape) != len(a.shape):
                full = [k for k in key if not isinstance(k, Arr)]
                if not all(isinstance(k, slice) and k == slice(None) for k in full) or key.index(m) != 0:
                    raise Unsupported("boolean write form")
            for p, q in zip(m.shape, a.shape):
                if not dims_equal(p, q):
                    raise PyExc("IndexError", "boolean index did not match")
            if len(va.shape) == 0:
                s = va.at()

                def val_at(idx):
                    return s
            elif getattr(va, "gather_mask", None) is not None or True:
                w = None
                if len(m.shape) == 1 and len(va.shape) >= 1:
                    w = where_enum(mf, m.shape[0])
                    vf = va.fn()

                    def val_at(idx):
                        return vf((w.enum.pos(idx[0]),) + tuple(idx[1:])) if w.enum else vf((enum_of(w).pos(idx[0]),) + tuple(idx[1:]))
                else:
                    raise Unsupported("boolean write of an array")
            nm = len(m.shape)

            def f(b):
                cond, idx = a.view_of(b)
                cc = b_and(cond, mf(tuple(idx[:nm])))
                if cc is False:
                    return old(b)
                return ite(cc, cast(val_at(idx), c.dtype), old(b))
            write(c, f, None)
            return
        raise Unsupported("boolean write form")
    arrs = fancy
    plan = []
    shape = []
    injective_pos = None
    nd1 = [k for k in arrs if len(k.shape) == 1]
    if len(nd1) != len(arrs):
        # allow shape (1, m) index arrays (a tuple from np.where inside the key)
        key = [lead_view(k) if isinstance(k, Arr) and len(k.shape) == 2 and k.shape[0] == 1 else k for k in key]
        arrs = [k for k in key if isinstance(k, Arr)]
        if any(len(k.shape) != 1 for k in arrs):
            raise Unsupported("write through a multi-dimensional index array")
        if len(va.shape) == 2 and va.shape[0] == 1:
            va = lead_view(va)
    lead = next((k for k in arrs if k.enum is not None and k.enum.injective), arrs[0])
    en = enum_of(lead)
    sh = ()
    for k in arrs:
        sh = bcast_shape(sh, k.shape)
    for i, k in enumerate(key):
        if isinstance(k, Arr):
            check_index_arr(k, a.shape[i])
            plan.append(("ix", k))
        elif isinstance(k, slice):
            st, ln, sp = norm_slice((k.start, k.stop, k.step), a.shape[i])
            if sp != 1:
                raise Unsupported("strided fancy write")
            plan.append(("sl", st, ln))
        else:
            plan.append(("fix", norm_index(k, a.shape[i])))
    if not en.injective and len(arrs) > 1:
        raise Unsupported("write through several non-injective index arrays")
    if not en.injective and len(va.shape) > 0 and not (isinstance(lead.shape[0], int)):
        # the value written last wins; only sound if values agree
        g0 = getattr(va, "gather", None)
        inj_needed = True
    kfn = {id(k): k.fn() for k in arrs}
    sl_shape = [p[2] for p in plan if p[0] == "sl"]
    first_ix = [i for i, p in enumerate(plan) if p[0] == "ix"][0]
    # value dims: numpy puts index dims at the place of the (adjacent) index arrays, or first if a slice separates them
    order = []
    seen = False
    sep = False
    ixs = [i for i, p in enumerate(plan) if p[0] in ("ix",)]
    nonsl = [i for i, p in enumerate(plan) if p[0] in ("ix", "fix")]
    adjacent = nonsl == list(range(nonsl[0], nonsl[-1] + 1))
    if not adjacent:
        order = ["ix"] + [i for i, p in enumerate(plan) if p[0] == "sl"]
    else:
        for i, p in enumerate(plan):
            if p[0] == "sl":
                order.append(i)
            elif not seen:
                order.append("ix")
                seen = True
    vshape = [sh[0] if o == "ix" else plan[o][2] for o in order]
    if len(va.shape) > len(vshape):
        va = squeeze_leading(va, len(vshape))
    bcast_shape(tuple(vshape), va.shape)
    g = bcast_fn(va, tuple(vshape))
    dt = c.dtype
    lead_i = [i for i, p in enumerate(plan) if p[0] == "ix" and p[1] is lead][0]

    def f(b):
        cond, idx = a.view_of(b)
        cs = [cond]
        k = en.pos(idx[lead_i])
        if is_z3(k):
            E_().touch(k)
        cs.append(en.member(idx[lead_i]))
        for i, p in enumerate(plan):
            if p[0] == "fix":
                cs.append(eq(idx[i], p[1]))
            elif p[0] == "sl":
                if not (isinstance(p[1], int) and p[1] == 0):
                    cs.append(ge(idx[i], p[1]))
                if not dim_eq(p[2], a.shape[i]):
                    cs.append(lt(sub(idx[i], p[1]), p[2]))
            elif p[1] is not lead:
                kk = k
                if isinstance(p[1].shape[0], int) and p[1].shape[0] == 1:
                    kk = 0
                cs.append(eq(kfn[id(p[1])]((kk,)), idx[i]))
        cc = b_and(*cs)
        if cc is False:
            return old(b)
        vi = tuple(k if o == "ix" else sub(idx[o], plan[o][1]) for o in order)
        return ite(cc, cast(g(vi), dt), old(b))
    row = None
    if len(c.shape) == 2 and a.dims is None and len(arrs) == 1 and plan[0][0] == "ix" and plan[1][0] == "sl" and plan[1][1] == 0 and dim_eq(plan[1][2], c.shape[1]):
        rf = va.rowfn() if len(va.shape) == 2 else None
        if rf is not None and c.row is not None:
            orow = c.row
            row = lambda i: ite(en.member(i), rf(en.pos(i)), orow(i))
    write(c, f, row)


def lead_view(a):
    if getattr(a, "subs", None) is not None and len(a.subs) == 1 and a.cell.version == 0:
        return a.subs[0]
    return basic_view(a, (0,) + (slice(None),) * (len(a.shape) - 1))


def squeeze_leading(va, n):
    while len(va.shape) > n:
        if not dims_equal(va.shape[0], 1):
            raise PyExc("ValueError", "could not broadcast input array")
        va = lead_view(va)
        if not isinstance(va, Arr):
            return as_arr(va)
    return va


def basic_dims(a, key):
    dims = list(a.dims) if a.dims is not None else [("dim", k, 0, 1) for k in range(len(a.shape))]
    ix = [norm_index(k, n, check=False) for k, n in zip(key, a.shape)]
    r = []
    for d in dims:
        r.append(d[1] if d[0] == "fix" else add(d[2], mul(d[3], ix[d[1]])))
    return r


def int_of(t):
    """The integer term that t is the real of, if it is syntactically one."""
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return t.arg(0)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = int_of(t.arg(1)), int_of(t.arg(2))
        return z3.If(t.arg(0), a, b) if a is not None and b is not None else None
    if z3.is_rational_value(t) and t.denominator_as_long() == 1:
        return z3.IntVal(t.numerator_as_long())
    return None


def cast(s, dtype):
    if dtype == "i" and not is_intlike(s):
        if conc(s):
            return int(s)
        t = real(s)
        k = int_of(t)
        return k if k is not None else z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
    if dtype == "b":
        if isinstance(s, (bool, z3.BoolRef)):
            return s
        return ne(s, 0)
    return s


def write(c, f, row):
    c.fn = f
    c.row = row
    c.version += 1


def reify_point(a):
    """Pt term denoting the 1-D array a."""
    p = a.pt
    if p is not None:
        return p
    E = E_()
    f = a.fn()
    n = a.shape[0]
    p = E.Pt("pt")
    E.assume_forall(("Int",), lambda j: b_imp(b_and(j >= 0, lt(j, n)), eq(coord(p, j), f((j,)))), "reify")
    a._pt = (p, a.cell.version)
    return p


def reify_rows_fn(c):
    if c.row is not None:
        return c.row
    E = E_()
    R = E.Func("row", z3.IntSort(), Pt)
    f, (n, d) = c.fn, c.shape

    def fact(i, j):
        return b_imp(b_and(i >= 0, lt(i, n), j >= 0, lt(j, d)), eq(coord(R(i), j), f((i, j))))
    E.assume_forall(("Int", "Int"), fact, "reify")

    def row(i):
        t = R(integer(i))
        E_().touch(t)
        return t
    c.row = row
    return row


def rows_of(a):
    """row -> Pt for a 2-D array (reifying if needed)."""
    r = a.rowfn()
    if r is not None:
        return r
    if a.dims is None:
        return reify_rows_fn(a.cell)
    b = copy(a)
    return reify_rows_fn(b.cell)


def row_arr(n, d, row):
    """2-D array from a row function."""
    return new((n, d), lambda idx: coord(row(idx[0]), integer(idx[1])), "f", row)


def pt_eq(p, q, d):
    """p == q for points of dimension d; points are determined by their coordinates."""
    E = E_()
    if p.eq(q):
        return z3.BoolVal(True)
    k = (p.get_id(), q.get_id())
    if k not in E._axset:
        E._axset.add(k)
        E.asserted_refs.append((p, q))
        w = z3.Int(E.fresh_name("ptw"))
        E.assume(z3.Or(p == q, z3.And(w >= 0, w < integer(d), coord(p, w) != coord(q, w))))
    return p == q


def pt_arr(p, d):
    """1-D array of a point."""
    a = new((d,), lambda idx: coord(p, integer(idx[0])), "f")
    a._pt = (p, a.cell.version)
    return a


# ------------------------------------------------------------------ reductions
def reduce_minmax(a, axis, which, arg=False, keepdims=False):
    E = E_()
    if axis is None:
        if len(a.shape) != 1:
            if len(a.shape) == 2 and dims_equal(a.shape[1], 1):
                a = basic_view(a, (slice(None), 0))
            elif len(a.shape) == 2 and dims_equal(a.shape[0], 1):
                a = basic_view(a, (0, slice(None)))
            elif len(a.shape) == 2 and not arg:
                return reduce_minmax(reduce_minmax(a, 1, which), 0, which)
            elif len(a.shape) == 0:
                return a.at() if not arg else 0
            else:
                raise Unsupported("reduction over all axes")
        axis = 0
    if axis < 0:
        axis += len(a.shape)
    n = a.shape[axis]
    f = a.fn()
    rest = tuple(s for k, s in enumerate(a.shape) if k != axis)

    def full(r, j):
        r = list(r)
        r.insert(axis, j)
        return tuple(r)
    better = (lambda x, y: lt(x, y)) if which == "min" else (lambda x, y: lt(y, x))
    if isinstance(n, int):
        if n == 0:
            raise PyExc("ValueError", "zero-size array to reduction operation")
        if n <= 4:
            def val(r):
                b, bi = f(full(r, 0)), 0
                for k in range(1, n):
                    x = f(full(r, k))
                    c = better(x, b)
                    b, bi = ite(c, x, b), ite(c, k, bi)
                return bi if arg else b
            if not rest:
                return val(())
            return _keep(new(rest, val, "i" if arg else a.dtype), axis, keepdims)
    else:
        if not E.branch(n > 0):
            raise PyExc("ValueError", "zero-size array to reduction operation")
    W = E.Func("arg" + which, *([z3.IntSort()] * len(rest) + [z3.IntSort()])) if rest else None

    def wit(r):
        if rest:
            t = W(*[integer(x) for x in r])
        else:
            t = w0
        E_().touch(t)
        return t
    if not rest:
        w0 = E.Int("arg" + which)
        E.touch(w0)
        E.assume(b_and(w0 >= 0, lt(w0, n)))

    def rng(r):
        return b_and(*[b_and(ge(x, 0), lt(x, s)) for x, s in zip(r, rest)])

    def fact(*ix):
        r, j = ix[:-1], ix[-1]
        w = wit(r)
        x, y = f(full(r, w)), f(full(r, j))
        nan = x.nan if isinstance(x, XR) else False
        nany = y.nan if isinstance(y, XR) else False
        opt = b_or(nan, b_and(b_not(nany), b_not(better(y, x))))
        first = b_imp(b_and(lt(j, w), b_not(nan)), better(x, y))
        return b_imp(b_and(rng(r), ge(j, 0), lt(j, n)), b_and(opt, first))
    E.assume_forall(("Int",) * (len(rest) + 1), fact, which)
    if rest:
        def fact0(*r):
            w = wit(r)
            return b_imp(rng(r), b_and(w >= 0, lt(w, n)))
        E.assume_forall(("Int",) * len(rest), fact0, which)

    def val(r):
        w = wit(r)
        return w if arg else f(full(r, w))
    if not rest:
        r = val(())
        return r
    return _keep(new(rest, val, "i" if arg else a.dtype), axis, keepdims)


def _keep(r, axis, keepdims):
    if not keepdims:
        return r
    key = [slice(None)] * len(r.shape)
    key.insert(axis, None)
    v = basic_view(r, tuple(key))
    return v


def reduce_bool(a, axis, which):
    """np.all / np.any."""
    E = E_()
    if len(a.shape) == 0:
        return a.at()
    f = a.fn()
    as_b = lambda x: cast(x, "b")
    if axis is None:
        sh = a.shape
        if all(isinstance(n, int) for n in sh):
            import itertools
            vals = [as_b(f(ix)) for ix in itertools.product(*[range(n) for n in sh])]
            return b_and(*vals) if which == "all" else b_or(*vals)
        return quant_bool(lambda idx: as_b(f(idx)), sh, which)
    if axis < 0:
        axis += len(a.shape)
    if getattr(a, "roweq", None) is not None and axis == 1 and which == "all":
        rf, p, n = a.roweq
        r = new((n,), lambda idx: rf(idx[0]) == p, "b")
        r.roweq_src = a.roweq
        return r
    n = a.shape[axis]
    rest = tuple(s for k, s in enumerate(a.shape) if k != axis)

    def full(r, j):
        r = list(r)
        r.insert(axis, j)
        return tuple(r)
    if isinstance(n, int) and n <= 12:
        def val(r):
            vals = [as_b(f(full(r, j))) for j in range(n)]
            return b_and(*vals) if which == "all" else b_or(*vals)
        return new(rest, val, "b")
    B = E.Func("all", *([z3.IntSort()] * len(rest) + [z3.BoolSort()]))
    W = E.Func("allw", *([z3.IntSort()] * len(rest) + [z3.IntSort()]))

    def lit(x):
        return x if which == "all" else b_not(x)

    def fact(*ix):
        r, j = ix[:-1], ix[-1]
        b = B(*r)
        return b_imp(b_and(b, ge(j, 0), lt(j, n)), lit(as_b(f(full(r, j)))))

    def fact2(*r):
        w = W(*r)
        E_().touch(w)
        return b_or(B(*r), b_and(w >= 0, lt(w, n), b_not(lit(as_b(f(full(r, w)))))))
    E.assume_forall(("Int",) * (len(rest) + 1), fact, which)
    E.assume_forall(("Int",) * len(rest), fact2, which)
    return new(rest, lambda r: (B(*[integer(x) for x in r]) if which == "all" else b_not(B(*[integer(x) for x in r]))), "b")


def quant_bool(f, sh, which):
    """Bool equal to forall/exists over the index space."""
    E = E_()
    b = E.Bool(which)
    ws = [E.Int("qw") for _ in sh]
    for w in ws:
        E.touch(w)
    lit = (lambda x: x) if which == "all" else b_not
    B = b if which == "all" else b_not(b)

    def fact(*ix):
        return b_imp(b_and(B, *[b_and(ge(i, 0), lt(i, n)) for i, n in zip(ix, sh)]), lit(f(ix)))
    E.assume_forall(("Int",) * len(sh), fact, which)
    E.assume(b_or(B, b_and(*([b_and(ge(w, 0), lt(w, n)) for w, n in zip(ws, sh)] + [b_not(lit(f(tuple(ws))))]))))
    return b
