"""pyvc models (assumed contracts) of numpy, scipy, math, os, ... used by /repo."""
import math

import z3
from . import core, arrays as A
from .core import *
from .core import Engine, Unsupported, PathEnd, PyExc, XR, Pt, coord
from .arrays import Arr, Cell
from .interp import *
from .interp import PFunc, PClass, PList, SymList, SymIter, PDict, Obj, Bound, Builtin, ExtMod, BlackHole, Opaque, SType, Rng, EXC, exc_isa, PModule

TYPES = {"numpy.ndarray": "ndarray", "abc.ABC": "ABC", "numpy.float64": "float64", "numpy.int64": "int64",
         "sklearn.gaussian_process.GaussianProcessRegressor": "GaussianProcessRegressor",
         "numpy.linalg.LinAlgError": "LinAlgError", "scipy.linalg.LinAlgError": "LinAlgError", "numpy.integer": "npinteger", "numpy.floating": "npfloating",
         "numbers.Number": "Number", "numbers.Integral": "Integral", "collections.deque": "deque", "numpy.bool_": "bool", "numpy.number": "npnumber"}

CONST = {"numpy.inf": math.inf, "numpy.nan": math.nan, "numpy.pi": math.pi, "math.pi": math.pi, "math.inf": math.inf, "math.e": math.e,
         "numpy.newaxis": None, "math.nan": math.nan, "dill.HIGHEST_PROTOCOL": 4, "numpy.e": math.e, "numpy.Inf": math.inf, "numpy.NaN": math.nan}


class TypedDummy(object):
    """A value of a given Python type that is not looked into (argument validation)."""

    def __init__(self, tname):
        self.tname = tname

    def __repr__(self):
        return "<some %s>" % self.tname


def shape_of(x):
    r = []
    for s in (x if isinstance(x, (tuple, list)) else (x.items if isinstance(x, PList) else (x,))):
        if isinstance(s, float) or (is_z3(s) and z3.is_real(s)):
            raise PyExc("TypeError", "float as a dimension")
        r.append(simp(s))
    return tuple(r)


def nat(n):
    """A dimension must be non-negative."""
    E = Engine.cur
    if isinstance(n, int):
        if n < 0:
            raise PyExc("ValueError", "negative dimensions")
        return n
    if not E.must(n >= 0):
        if not E.branch(n >= 0):
            raise PyExc("ValueError", "negative dimensions")
    return n


class Model(object):
    def __init__(self, I):
        self.I = I
        self.E = I.E
        self.table = {}
        for k in dir(self):
            if k.startswith("f_"):
                self.table[k[2:].replace("__", ".")] = getattr(self, k)
        alias = {"numpy.amin": "numpy.min", "numpy.amax": "numpy.max", "numpy.absolute": "numpy.abs", "numpy.fabs": "numpy.abs", "numpy.product": "numpy.prod",
                 "numpy.random.random": "numpy.random.rand1", "numpy.random.random_sample": "numpy.random.rand1", "numpy.around": "numpy.round",
                 "numpy.rint": "numpy.round", "numpy.round_": "numpy.round", "numpy.asanyarray": "numpy.asarray", "numpy.row_stack": "numpy.vstack", "numpy.mod": "numpy.remainder",
                 "numpy.float_power": "numpy.power", "math.pow": "numpy.power", "math.floor": "numpy.mfloor", "math.ceil": "numpy.mceil",
                 "math.isinf": "numpy.isinf", "math.isnan": "numpy.isnan", "math.isfinite": "numpy.isfinite", "math.fabs": "numpy.abs",
                 "math.sqrt": "numpy.sqrt", "math.log": "numpy.log", "math.exp": "numpy.exp", "math.sin": "numpy.sin", "math.cos": "numpy.cos",
                 "scipy.spatial.distance.sqeuclidean": "scipy.spatial.distance.sqeuclidean"}
        for a, b in alias.items():
            if b in self.table:
                self.table[a] = self.table[b]
        self.dist_fn = z3.Function("dist", Pt, Pt, z3.RealSort())
        self.extra = {}            # dotted name -> handler, set by specs

    # ---------------------------------------------------------------- names
    def ext(self, path):
        if path in CONST:
            return CONST[path]
        if path in self.extra:
            return Builtin(path, lambda *a, **k: self.call(path, list(a), k)) if callable(self.extra[path]) else self.extra[path]
        if path in TYPES:
            return SType(TYPES[path])
        if path.startswith("poap.") and path.split(".")[1] in ("strategy", "controller") and len(path.split(".")) > 2:
            return self.poap(path)
        if path.startswith("logging"):
            return BlackHole()
        if path.startswith("matplotlib"):
            return BlackHole()
        return ExtMod(path)

    def poap(self, path):
        m = self.I.load_ext(".".join(path.split(".")[:2]))
        return m.env[path.split(".")[2]]

    def call(self, path, args, kw):
        E = self.E
        if path in self.extra:
            r = self.extra[path](*args, **kw)
            if r is not NotImplemented:
                return r
        h = self.table.get(path)
        if h is None:
            if path.split(".")[0] in ("logging", "warnings", "traceback"):
                return BlackHole()
            raise Unsupported("external function " + path)
        E.assumed.add(path)
        args = [self.conv(a) for a in args]
        kw = {k: self.conv(v) for k, v in kw.items()}
        try:
            return h(*args, **kw)
        except TypeError as e:
            if "argument" in str(e):
                raise Unsupported("%s: %s" % (path, e))
            raise

    def conv(self, a):
        return a

    def arr(self, x):
        if isinstance(x, (PList, SymList)):
            return x.to_arr()
        if isinstance(x, Rng):
            return self.f_numpy__arange(x.lo, x.hi, x.step)
        if x is None or isinstance(x, (str, Opaque, Obj)):
            raise Unsupported("array from %r" % (x,))
        if isinstance(x, float):
            return A.new((), lambda idx: x, "f")
        return A.as_arr(x)

    # ---------------------------------------------------------- arithmetic
    def arith(self, op, a, b):
        E = self.E
        a, b = self.arr(a), self.arr(b)
        if op in ("BitAnd", "BitOr"):
            return A.elementwise(b_and if op == "BitAnd" else b_or, a, b, dtype="b")
        f = {"Add": add, "Sub": sub, "Mult": mul, "Pow": power, "Mod": mod, "FloorDiv": floordiv}.get(op)
        dt = "f" if "f" in (a.dtype, b.dtype) else "i"
        if op == "Div":
            f, dt = self.np_div, "f"
        if f is None:
            raise Unsupported("array operator " + op)
        if op == "Mult" and a.dtype == "b" and b.dtype == "b":
            return A.elementwise(b_and, a, b, dtype="b")
        if op == "Sub" and a.dtype == "b" and b.dtype == "b":
            raise PyExc("TypeError", "boolean subtract")
        if a.dtype == "b":
            a = A.elementwise(lambda x: ite(x, 1, 0), a, dtype="i")
        if isinstance(b, Arr) and b.dtype == "b" or (not isinstance(b, Arr)):
            b = A.elementwise(lambda x: ite(x, 1, 0) if isinstance(x, (bool, z3.BoolRef)) else x, b, dtype="i")
        a, b = A.as_arr(a), A.as_arr(b)
        if op == "Pow" and (a.dtype == "i" and len(b.shape) == 0 and conc(b.at()) and b.at() < 0):
            raise PyExc("ValueError", "integers to negative integer powers")
        if dt == "f" and op in ("Add", "Sub", "Mult", "Pow"):
            g = f
            f = lambda x, y: g(x, y)
        r = A.elementwise(f, a, b, dtype=dt)
        if isinstance(r, Arr):
            if a.shape == r.shape or b.shape == r.shape:
                pass
            self.mul_ones(op, a, b, r)
        return r

    def mul_ones(self, op, a, b, r):
        """ones((n,d)) * row and the like: every row of the result is the same point."""
        if op in ("Mult", "Add") and len(r.shape) == 2:
            for x, y in ((a, b), (b, a)):
                if getattr(x, "const", None) == (1 if op == "Mult" else 0) and len(y.shape) == 1 and y.pt is not None:
                    p = y.pt
                    r.cell.row = lambda i: p

    def np_div(self, a, b):
        E = self.E
        if conc(b) and b == 0:
            if conc(a) and a == 0:
                return math.nan
            raise Unsupported("division by zero in an array")
        if is_sym(b) and not isinstance(b, XR) and E.inst_level == 0 and not getattr(E, "quiet_div", False):
            if conc(a) or is_sym(a):
                pass
        return div(a, b)

    def cmp(self, nm, a, b):
        a, b = self.arr(a), self.arr(b)
        f = {"Lt": lt, "LtE": le, "Gt": gt, "GtE": ge, "Eq": eq, "NotEq": ne}[nm]
        try:
            r = A.elementwise(f, a, b, dtype="b")
        except PyExc:
            if nm in ("Eq", "NotEq"):
                raise PyExc("ValueError", "operands could not be broadcast")
            raise
        if nm == "Eq" and isinstance(r, Arr):
            for x, y in ((a, b), (b, a)):
                if len(x.shape) == 2 and len(y.shape) in (1, 2) and len(r.shape) == 2:
                    rf = x.rowfn()
                    p = y.pt if len(y.shape) == 1 else (y.rowfn()(0) if y.rowfn() and A.dim_eq(y.shape[0], 1) else None)
                    if rf is not None and p is not None:
                        r.roweq = (rf, p, r.shape[0])
                        break
        return r

    # --------------------------------------------------------------- values
    def value_attr(self, o, name):
        I = self.I
        if isinstance(o, SymList) and name in LIST_METHODS:
            return Bound(lambda s, a, k: LIST_METHODS[name](self, s, *a, **k), o)
        if isinstance(o, PList) and name in LIST_METHODS:
            return Bound(lambda s, a, k: LIST_METHODS[name](self, s, *a, **k), o)
        if isinstance(o, PDict):
            if name == "get":
                return Builtin("get", lambda k, d=None: o.d.get(k, d))
            if name == "items":
                return Builtin("items", lambda: PList([(k, v) for k, v in o.d.items()]))
            if name == "keys":
                return Builtin("keys", lambda: PList(list(o.d)))
            if name == "values":
                return Builtin("values", lambda: PList(list(o.d.values())))
            if name == "update":
                return Builtin("update", lambda x=None, **k: o.d.update({**(x.d if x else {}), **k}))
            if name == "pop":
                def pop(k, *d):
                    if k in o.d:
                        return o.d.pop(k)
                    if d:
                        return d[0]
                    raise PyExc("KeyError")
                return Builtin("pop", pop)
        if isinstance(o, str):
            if name in ("format", "join", "strip", "lower", "upper", "split", "endswith", "startswith", "replace"):
                def sm(*a, **k):
                    if all(isinstance(x, (str, int, float)) for x in a) and "\x00" not in o and name != "format":
                        r = getattr(o, name)(*a)
                        return PList(r) if isinstance(r, list) else r
                    return "\x00"
                return Builtin("str." + name, sm)
        if isinstance(o, Arr):
            return self.arr_attr(o, name)
        if is_scalar(o):
            return self.scalar_attr(o, name)
        if isinstance(o, BlackHole):
            return BlackHole()
        if isinstance(o, SType):
            if name == "__name__":
                return o.name
            raise Unsupported("attribute of type")
        if isinstance(o, (Bound, PFunc, Builtin)):
            raise Unsupported("attribute of function")
        if isinstance(o, PyExc):
            return "\x00"
        if o is None or isinstance(o, (PList, SymList, PDict, tuple, str, TypedDummy)):
            raise PyExc("AttributeError", name)
        raise Unsupported("attribute %s of %r" % (name, o))

    def scalar_attr(self, o, name):
        m = {"shape": (), "ndim": 0, "size": 1}
        if name in m:
            if isinstance(o, (int,)) and not isinstance(o, bool):
                raise PyExc("AttributeError", name)
            return m[name]
        if name in ("copy", "item", "ravel", "min", "max", "sum", "mean", "flatten", "squeeze", "tolist", "reshape", "astype", "all", "any"):
            if name in ("ravel", "flatten"):
                return Builtin(name, lambda: A.from_list([o]))
            if name == "reshape":
                return Builtin(name, lambda *s: self.f_numpy__reshape(o, s if len(s) > 1 else s[0]))
            if name == "astype":
                return Builtin(name, lambda t: self.construct(t, [o], {}))
            return Builtin(name, lambda *a, **k: o)
        if name in ("real",):
            return o
        raise PyExc("AttributeError", name)

    def arr_attr(self, o, name):
        I = self.I
        if name == "shape":
            return tuple(o.shape)
        if name == "ndim":
            return len(o.shape)
        if name == "size":
            r = 1
            for s in o.shape:
                r = mul(r, s)
            return r
        if name == "T":
            return self.transpose(o)
        if name == "dtype":
            return SType({"f": "float", "i": "int", "b": "bool"}[o.dtype])
        if name == "flat":
            return self.f_numpy__ravel(o)
        meth = {"all": "numpy.all", "any": "numpy.any", "min": "numpy.min", "max": "numpy.max", "argmin": "numpy.argmin", "argmax": "numpy.argmax",
                "copy": "numpy.copy", "ravel": "numpy.ravel", "flatten": "numpy.flatten", "sum": "numpy.sum", "prod": "numpy.prod", "mean": "numpy.mean",
                "std": "numpy.std", "dot": "numpy.dot", "transpose": "numpy.transpose", "squeeze": "numpy.squeeze", "round": "numpy.round", "clip": "numpy.clip",
                "nonzero": "numpy.nonzero"}
        if name in meth:
            return Bound(lambda s, a, k: self.call(meth[name], [s] + list(a), k), o)
        if name == "reshape":
            return Bound(lambda s, a, k: self.f_numpy__reshape(s, a[0] if len(a) == 1 else tuple(a)), o)
        if name == "astype":
            return Bound(lambda s, a, k: self.astype(s, a[0]), o)
        if name == "tolist":
            return Bound(lambda s, a, k: self.tolist(s), o)
        if name == "item":
            return Bound(lambda s, a, k: s.at(*[0] * len(s.shape)) if not a else A.getitem(s, a[0]), o)
        if name == "fill":
            return Bound(lambda s, a, k: A.setitem(s, tuple([slice(None)] * len(s.shape)), a[0]), o)
        if name in ("append", "pop", "extend", "remove", "insert"):
            raise PyExc("AttributeError", name)
        if name == "sort":
            raise Unsupported("in-place sort")
        raise Unsupported("ndarray." + name)

    def astype(self, a, t):
        dt = self.dt(t)
        r = A.elementwise(lambda x: A.cast(x, dt) if dt != "f" else x, A.as_arr(a), dtype=dt)
        if dt == "f" and isinstance(r, Arr) and a.dtype == "f":
            return A.copy(a)
        return r

    def dt(self, t):
        if t is None:
            return "f"
        nm = t.name if isinstance(t, (SType, Builtin)) else str(t)
        if nm in ("float", "float64", "npfloating"):
            return "f"
        if nm in ("int", "int64", "npinteger"):
            return "i"
        if nm == "bool":
            return "b"
        raise Unsupported("dtype %r" % (t,))

    def tolist(self, a):
        if len(a.shape) == 1 and isinstance(a.shape[0], int):
            return PList([a.at(k) for k in range(a.shape[0])])
        if len(a.shape) == 1:
            f = a.fn()
            return SymList(a.shape[0], lambda k: f((k,)))
        raise Unsupported("tolist")

    def transpose(self, a):
        if len(a.shape) < 2:
            return a
        dims = list(a.dims) if a.dims is not None else [("dim", k, 0, 1) for k in range(len(a.shape))]
        n = len(a.shape)
        nd = [d if d[0] == "fix" else ("dim", n - 1 - d[1], d[2], d[3]) for d in dims]
        return Arr(a.cell, tuple(reversed(a.shape)), nd)

    # ------------------------------------------------------------- objects
    def init_ext_bases(self, o):
        for c in o.cls.mro:
            if isinstance(c, SType) and c.name == "deque":
                raise Unsupported("deque subclass")

    def ext_class_attr(self, c, name):
        return None

    def obj_attr(self, o, name):
        if isinstance(o.cls, SType) and o.cls.name in EXTCLS:
            return EXTCLS[o.cls.name](self, o, name)
        return NotImplemented

    def obj_setattr(self, o, name, v):
        h = o.ext.get("on_setattr")
        if h:
            h(o, name, v)

    def construct(self, t, args, kw):
        n = t.name
        if n == "int":
            if not args:
                return 0
            v = args[0]
            if isinstance(v, Arr):
                v = v.at(*[0] * len(v.shape))
            if conc(v):
                return int(v)
            if is_intlike(v):
                return integer(v)
            if is_scalar(v):
                return A.cast(v, "i")
            if isinstance(v, str):
                return int(v)
            raise PyExc("TypeError")
        if n in ("float", "float64"):
            v = args[0]
            if isinstance(v, Arr):
                v = v.at(*[0] * len(v.shape))
            if isinstance(v, str):
                return float(v)
            if conc(v):
                return float(v)
            return v if isinstance(v, XR) else real(v)
        if n == "bool":
            return self.I.truthy(args[0])
        if n == "list":
            if not args:
                return PList([])
            s = self.I.iterate(args[0])
            if isinstance(s, SymIter):
                return SymList(s.n, s.item)
            return PList(s)
        if n == "tuple":
            return tuple(self.I.iterate_conc(args[0])) if args else ()
        if n == "dict":
            return PDict(list(kw.items()) + (list(args[0].d.items()) if args else []))
        if n == "set":
            return PList(self.I.iterate_conc(args[0]) if args else [])
        if n == "str":
            return args[0] if isinstance(args[0], str) else "\x00"
        if n in EXC:
            return PyExc(n, "")
        if n == "deque":
            d = PList(self.I.iterate_conc(args[0]) if args else [])
            return d
        if n == "object":
            return Obj(t)
        if n == "ndarray":
            raise Unsupported("ndarray constructor")
        if n == "type":
            return self.type_of(args[0])
        raise Unsupported("constructor " + n)

    def type_of(self, v):
        if isinstance(v, Obj):
            return v.cls
        for n in ("bool", "int", "float", "str", "list", "tuple", "ndarray", "NoneType"):
            if self.isinst(v, SType(n)) is True:
                return SType(n)
        raise Unsupported("type()")

    def isinst(self, v, t):
        if isinstance(t, tuple):
            return b_or(*[self.isinst(v, x) for x in t])
        if isinstance(t, PClass):
            return isinstance(v, Obj) and isinstance(v.cls, PClass) and t in v.cls.mro
        if isinstance(t, (SType, Builtin)):
            n = t.name
            if isinstance(v, TypedDummy):
                return n == v.tname or (n, v.tname) in (("int", "bool"), ("float", "float64"), ("Number", "int"), ("Number", "float"))
            if isinstance(v, Obj):
                if isinstance(v.cls, SType):
                    return v.cls.name == n or n == "object"
                return t in v.cls.mro or n == "object"
            if n == "ndarray":
                return isinstance(v, Arr)
            if n == "list":
                return isinstance(v, (PList, SymList))
            if n == "tuple":
                return isinstance(v, tuple)
            if n == "dict":
                return isinstance(v, PDict)
            if n == "str":
                return isinstance(v, str)
            if n == "bool":
                return isinstance(v, (bool, z3.BoolRef))
            if n in ("int", "Integral"):
                return isinstance(v, (int, z3.BoolRef)) or (is_z3(v) and z3.is_int(v))
            if n in ("float", "float64", "npfloating"):
                return (isinstance(v, (float, XR)) or (is_z3(v) and z3.is_real(v)))
            if n in ("npinteger", "int64"):
                return False
            if n in ("Number", "npnumber"):
                return is_scalar(v)
            if n == "NoneType":
                return v is None
            if n in EXC:
                return isinstance(v, PyExc) and exc_isa(v.name, n)
            return False
        raise Unsupported("isinstance %r" % (t,))

    def str_concat(self, a, b):
        raise Unsupported("string concatenation")

    def opaque_eq(self, a, b):
        return None

    def ctx_enter(self, m):
        if isinstance(m, BlackHole):
            return m
        if isinstance(m, Obj):
            if isinstance(m.cls, PClass):
                f, _ = m.cls.find("__enter__")
                return self.I.call_func(f, [m], {})
            h = m.ext.get("enter")
            return h() if h else m
        raise Unsupported("context manager")

    def ctx_exit(self, m):
        if isinstance(m, Obj):
            if isinstance(m.cls, PClass):
                f, _ = m.cls.find("__exit__")
                return self.I.call_func(f, [m, None, None, None], {})
            h = m.ext.get("exit")
            if h:
                h()

    # ==================================================== numpy: construction
    def filled(self, shape, v, dt="f"):
        shape = tuple(nat(s) for s in shape_of(shape))
        r = A.new(shape, lambda idx: v, dt)
        r.const = v
        return r

    def f_numpy__zeros(self, shape, dtype=None, order=None):
        dt = self.dt(dtype)
        return self.filled(shape, {"f": 0.0, "i": 0, "b": False}[dt], dt)

    def f_numpy__ones(self, shape, dtype=None, order=None):
        dt = self.dt(dtype)
        return self.filled(shape, {"f": 1.0, "i": 1, "b": True}[dt], dt)

    def f_numpy__full(self, shape, fill_value, dtype=None):
        dt = self.dt(dtype) if dtype is not None else ("i" if is_intlike(fill_value) else "f")
        if not is_scalar(fill_value):
            r = self.filled(shape, 0.0, dt)
            A.setitem(r, tuple([slice(None)] * len(r.shape)), self.arr(fill_value))
            return r
        return self.filled(shape, fill_value, dt)

    def f_numpy__empty(self, shape, dtype=None):
        shape = tuple(nat(s) for s in shape_of(shape))
        dt = self.dt(dtype)
        E = self.E
        if any(isinstance(s, int) and s == 0 for s in shape):
            r = A.new(shape, lambda idx: 0.0 if dt == "f" else 0, dt)
            if len(shape) == 2:
                p0 = z3.Const("nullpt", Pt)
                r.cell.row = lambda i: p0
                r.cell.mset = lambda p: 0
            return r
        f = E.Func("empty", *([z3.IntSort()] * len(shape) + [z3.RealSort() if dt == "f" else z3.IntSort()]))
        return A.new(shape, lambda idx: f(*[integer(i) for i in idx]), dt)

    def f_numpy__zeros_like(self, a, dtype=None):
        a = self.arr(a)
        return self.f_numpy__zeros(a.shape, dtype or SType({"f": "float", "i": "int", "b": "bool"}[a.dtype]))

    def f_numpy__ones_like(self, a, dtype=None):
        a = self.arr(a)
        return self.f_numpy__ones(a.shape, dtype or SType({"f": "float", "i": "int", "b": "bool"}[a.dtype]))

    def f_numpy__full_like(self, a, v, dtype=None):
        return self.f_numpy__full(self.arr(a).shape, v, dtype or SType("float"))

    def f_numpy__tril(self, a, k=0):
        a = self.arr(a)
        f = a.fn()
        return A.new(a.shape, lambda ix: ite(le(ix[1], add(ix[0], k)), f(ix), 0.0), a.dtype)

    def f_numpy__triu(self, a, k=0):
        a = self.arr(a)
        f = a.fn()
        return A.new(a.shape, lambda ix: ite(ge(ix[1], add(ix[0], k)), f(ix), 0.0), a.dtype)

    def f_numpy__eye(self, n, m=None):
        if isinstance(n, tuple):
            n = n[0]
        n = nat(simp(n))
        return A.new((n, n), lambda idx: ite(eq(idx[0], idx[1]), 1.0, 0.0))

    def f_numpy__arange(self, a, b=None, step=1, dtype=None):
        lo, hi = (0, a) if b is None else (a, b)
        if not (isinstance(step, int) and step == 1 and is_intlike(lo) and is_intlike(hi)):
            raise Unsupported("arange")
        n = simp(sub(hi, lo))
        if is_z3(n) and not self.E.must(n >= 0):
            n = smax(n, 0)
        r = A.new((n,), lambda idx: add(lo, idx[0]), "i")
        r.enum = A.Enum(lambda b_: b_and(ge(b_, lo), lt(b_, hi)), lambda b_: simp(sub(b_, lo)) if True else None, True)
        return r

    def f_numpy__array(self, x, dtype=None, copy=True, ndmin=0):
        a = self.arr(x)
        r = A.copy(a) if len(a.shape) else a
        if isinstance(x, (PList, tuple)) and not len(x.items if isinstance(x, PList) else x):
            r = A.new((0,), lambda idx: 0.0, "f")
        if dtype is not None and self.dt(dtype) != r.dtype:
            r = self.astype(r, dtype)
        return r

    def f_numpy__asarray(self, x, dtype=None):
        if isinstance(x, Arr) and (dtype is None or self.dt(dtype) == x.dtype):
            return x
        return self.f_numpy__array(x, dtype)

    def f_numpy__copy(self, a):
        a = self.arr(a)
        if len(a.shape) == 0:
            return a.at()
        r = A.copy(a)
        if getattr(a.cell, "mset", None) is not None and a.dims is None:
            r.cell.mset = a.cell.mset
        return r

    def f_numpy__atleast_2d(self, a):
        a = self.arr(a)
        if len(a.shape) >= 2:
            return a
        if len(a.shape) == 0:
            v = a.at()
            return A.new((1, 1), lambda idx: v, a.dtype)
        p = a.pt
        r = A.basic_view(a, (None, slice(None)))
        if p is not None:
            r._pt = (p, r.cell.version)
        return r

    def f_numpy__atleast_1d(self, a):
        a = self.arr(a)
        return A.new((1,), lambda idx, v=a.at(): v, a.dtype) if len(a.shape) == 0 else a

    def f_numpy__expand_dims(self, a, axis):
        a = self.arr(a)
        key = [slice(None)] * len(a.shape)
        if axis < 0:
            axis += len(a.shape) + 1
        key.insert(axis, None)
        if not a.shape:
            return A.new((1,), lambda idx, v=a.at(): v, a.dtype)
        return A.basic_view(a, tuple(key))

    def f_numpy__squeeze(self, a, axis=None):
        a = self.arr(a)
        key = []
        for k, s in enumerate(a.shape):
            one = (isinstance(s, int) and s == 1)
            if not isinstance(s, int):
                if self.E.known(eq(s, 1)):
                    one = True
                elif axis is None and not self.E.known(ne(s, 1)):
                    one = self.E.branch(eq(s, 1))
            key.append(0 if (one and (axis is None or axis == k or axis == k - len(a.shape))) else slice(None))
        r = A.basic_view(a, tuple(key))
        return r if isinstance(r, Arr) else A.as_arr(r)

    def f_numpy__ravel(self, a, order=None):
        a = self.arr(a)
        if len(a.shape) == 1:
            return a
        if len(a.shape) == 0:
            return A.new((1,), lambda idx, v=a.at(): v, a.dtype)
        if len(a.shape) == 2:
            if A.dims_equal(a.shape[0], 1):
                p = a.rowfn()(0) if a.rowfn() else None
                r = A.basic_view(a, (0, slice(None)))
                if p is not None and r.pt is None:
                    r._pt = (p, r.cell.version)
                return r
            if A.dims_equal(a.shape[1], 1):
                return A.basic_view(a, (slice(None), 0))
            if isinstance(a.shape[1], int):
                d = a.shape[1]
                f = a.fn()
                return A.new((mul(a.shape[0], d),), lambda idx: f((floordiv(idx[0], d), mod(idx[0], d))), a.dtype)
        raise Unsupported("ravel")

    def f_numpy__flatten(self, a, order=None):
        return A.copy(self.f_numpy__ravel(a))

    def f_numpy__reshape(self, a, shape, order=None):
        a = self.arr(a)
        sh = shape_of(shape)
        src = [s for s in a.shape if not (isinstance(s, int) and s == 1)]
        if len(a.shape) == 1 or len(src) <= 1:
            flat = self.f_numpy__ravel(a)
            n = flat.shape[0]
            tgt = []
            big = 0
            for s in sh:
                if isinstance(s, int) and s == 1:
                    tgt.append(1)
                elif (isinstance(s, int) and s == -1) or A.dims_equal(s, n):
                    tgt.append(n)
                    big += 1
                else:
                    raise Unsupported("reshape")
            if big == 1:
                k = [i for i, s in enumerate(tgt) if not (isinstance(s, int) and s == 1)]
                key = tuple(slice(None) if (i == (k[0] if k else 0)) else None for i in range(len(sh)))
                p = flat.pt
                r = A.basic_view(flat, key)
                if p is not None and len(sh) == 2 and len(key) == 2 and key[0] is None:
                    r._pt = (p, r.cell.version)
                return r
            if big == 0 and A.dims_equal(n, 1):
                key = tuple([slice(None)] + [None] * (len(sh) - 1))
                return A.basic_view(flat, key)
        if len(sh) == len(a.shape) and all(A.dims_equal(p, q) for p, q in zip(sh, a.shape)):
            return a
        if len(sh) == 1 and isinstance(sh[0], int) and sh[0] == -1:
            return self.f_numpy__ravel(a)
        raise Unsupported("reshape")

    def f_numpy__transpose(self, a, axes=None):
        return self.transpose(self.arr(a))

    def f_numpy__vstack(self, t):
        parts = [self.arr(x) for x in self.I.iterate_conc(t)]
        parts = [self.f_numpy__atleast_2d(p) for p in parts]
        return self.f_numpy__concatenate(tuple(parts), 0)

    def f_numpy__hstack(self, t):
        parts = [self.f_numpy__atleast_1d(self.arr(x)) for x in self.I.iterate_conc(t)]
        return self.f_numpy__concatenate(tuple(parts), 0 if len(parts[0].shape) == 1 else 1)

    def f_numpy__append(self, a, b, axis=None):
        if axis is None:
            return self.f_numpy__concatenate((self.f_numpy__ravel(a), self.f_numpy__ravel(b)), 0)
        return self.f_numpy__concatenate((a, b), axis)

    def f_numpy__concatenate(self, t, axis=0):
        parts = [self.arr(x) for x in self.I.iterate_conc(t)]
        nd = len(parts[0].shape)
        if axis < 0:
            axis += nd
        for p in parts[1:]:
            if len(p.shape) != nd:
                raise PyExc("ValueError", "all the input array dimensions must match")
            for k in range(nd):
                if k != axis and not A.dims_equal(p.shape[k], parts[0].shape[k]):
                    if isinstance(p.shape[k], int) and isinstance(parts[0].shape[k], int) or not self.E.branch(eq(p.shape[k], parts[0].shape[k])):
                        raise PyExc("ValueError", "all the input array dimensions must match")
        fns = [p.fn() for p in parts]
        offs = [0]
        for p in parts:
            offs.append(simp(add(offs[-1], p.shape[axis])))

        def f(idx):
            i = idx[axis]
            r = None
            for k in range(len(parts) - 1, -1, -1):
                if isinstance(parts[k].shape[axis], int) and parts[k].shape[axis] == 0:
                    continue
                j = list(idx)
                j[axis] = sub(i, offs[k]) if not (isinstance(offs[k], int) and offs[k] == 0) else i
                if is_z3(j[axis]):
                    j[axis] = simp(j[axis])
                v = fns[k](tuple(j))
                r = v if r is None else ite(lt(i, offs[k + 1]), v, r)
            return 0.0 if r is None else r
        shape = list(parts[0].shape)
        shape[axis] = offs[-1]
        dt = "f" if any(p.dtype == "f" for p in parts) else parts[0].dtype
        row = None
        if nd == 2 and axis == 0:
            rfs = []
            for p in parts:
                rf = p.rowfn()
                if rf is None and isinstance(p.shape[0], int) and p.shape[0] == 1 and any(q.rowfn() is not None for q in parts):
                    v = A.basic_view(p, (0, slice(None)))
                    pt = A.reify_point(v)
                    rf = lambda i, pt=pt: pt
                rfs.append(rf)
            if all(r is not None for r in rfs):
                def row(i):
                    r = None
                    for k in range(len(parts) - 1, -1, -1):
                        if isinstance(parts[k].shape[0], int) and parts[k].shape[0] == 0:
                            continue
                        v = rfs[k](simp(sub(i, offs[k])))
                        r = v if r is None else ite(lt(i, offs[k + 1]), v, r)
                    return r if r is not None else z3.Const("nullpt", Pt)
        r = A.new(shape, f, dt, row)
        if row is not None:
            ms = []
            for p, rf in zip(parts, rfs):
                m = getattr(p.cell, "mset", None) if p.dims is None else None
                if m is None and isinstance(p.shape[0], int) and p.shape[0] <= 3:
                    m = lambda q, p=p, rf=rf: _isum([ite(A.pt_eq(rf(k), q, p.shape[1]), 1, 0) for k in range(p.shape[0])])
                ms.append(m)
            if all(m is not None for m in ms):
                r.cell.mset = lambda q: _isum([m(q) for m in ms])
        return r

    def f_numpy__delete(self, a, obj, axis=None):
        E = self.E
        a = self.arr(a)
        if axis is None:
            if len(a.shape) != 1:
                raise Unsupported("delete without axis")
            axis = 0
        if axis != 0:
            raise Unsupported("delete axis")
        n = a.shape[0]
        f = a.fn()
        rf = a.rowfn() if len(a.shape) == 2 else None
        ms = getattr(a.cell, "mset", None) if a.dims is None else None
        if isinstance(obj, slice):
            raise Unsupported("delete slice")
        if is_scalar(obj):
            ix = A.from_list([A.norm_index(obj, n)])
        else:
            if isinstance(obj, tuple):
                obj = A.from_list(list(obj))
            ix = self.arr(obj)
            if len(ix.shape) == 2 and A.dims_equal(ix.shape[0], 1):
                ix = A.basic_view(ix, (0, slice(None)))
        m = ix.shape[0]
        if not isinstance(m, int):
            for k in (0, 1):
                if E.must(eq(m, k)):
                    m = k
        if isinstance(m, int) and m == 0:
            return self.f_numpy__copy(a)
        if is_z3(m) and E.must(m <= 1):
            m = 1 if E.branch(m == 1) else 0
            if m == 0:
                return self.f_numpy__copy(a)
        if isinstance(m, int) and m == 1:
            k = A.norm_index(ix.at(0), n)
            E.touch(k)

            def g(idx):
                i = idx[0]
                return ite(lt(i, k), f(tuple(idx)), f((add(i, 1),) + tuple(idx[1:])))
            row = None
            if rf is not None:
                def row(i):
                    j = ite(lt(i, k), i, add(i, 1))
                    if is_z3(j):
                        E_().touch(j)
                    return rf(j)
            r = A.new((simp(sub(n, 1)),) + tuple(a.shape[1:]), g, a.dtype, row)
            if ms is not None and rf is not None:
                pk = rf(k)
                dd = a.shape[1]
                r.cell.mset = lambda q: sub(ms(q), ite(A.pt_eq(pk, q, dd), 1, 0))
            return r
        # general: keep the positions not listed
        en = A.enum_of(ix)
        keep = A.where_enum(lambda idx: b_not(en.member(idx[0])), n)
        r = A.getitem(a, (keep,) + (slice(None),) * (len(a.shape) - 1))
        if ms is not None and rf is not None:
            M = E.Func("mset", Pt, z3.IntSort())
            r.cell.mset = lambda q: M(q)
            E.assume_forall(("Pt",), lambda q: z3.And(M(q) >= 0, M(q) <= integer(ms(q))), "delete")
            tag = ix.tag
            # every listed row is removed, every other row is kept
            E.assume_forall(("Pt",), lambda q: z3.Implies(M(q) == 0, z3.BoolVal(True)))
            mset_axioms(r)
        return r

    def f_numpy__where(self, c, x=None, y=None):
        E = self.E
        c = self.arr(c)
        if x is not None:
            r = A.elementwise(lambda p, a, b: ite(self.I.truthy(p), a, b), c, self.arr(x), self.arr(y), dtype="f" if "f" in (self.arr(x).dtype, self.arr(y).dtype) else "i")
            return r
        if len(c.shape) == 1:
            if getattr(c, "roweq_src", None) is not None:
                pass
            f = c.fn()
            return (A.where_enum(lambda idx: self.I.truthy(f(idx)), c.shape[0]),)
        if len(c.shape) == 2 and A.dims_equal(c.shape[0], 1):
            f = c.fn()
            w = A.where_enum(lambda idx: self.I.truthy(f((0, idx[0]))), c.shape[1])
            return (A.new(w.shape, lambda idx: 0, "i"), w)
        if len(c.shape) == 2 and A.dims_equal(c.shape[1], 1):
            f = c.fn()
            w = A.where_enum(lambda idx: self.I.truthy(f((idx[0], 0))), c.shape[0])
            return (w, A.new(w.shape, lambda idx: 0, "i"))
        raise Unsupported("where on a matrix")

    def f_numpy__nonzero(self, c):
        return self.f_numpy__where(c)

    def f_numpy__flatnonzero(self, c):
        return self.f_numpy__where(self.f_numpy__ravel(c))[0]

    # ============================================================ elementwise
    def ew(self, f, *a, dtype="f"):
        return A.elementwise(f, *[self.arr(x) for x in a], dtype=dtype)

    def f_numpy__multiply(self, a, b):
        return self.arith("Mult", a, b) if isinstance(a, (Arr, PList)) or isinstance(b, (Arr, PList)) else mul(a, b)

    def f_numpy__add(self, a, b):
        return self.arith("Add", a, b)

    def f_numpy__subtract(self, a, b):
        return self.arith("Sub", a, b)

    def f_numpy__divide(self, a, b):
        return self.arith("Div", a, b)

    def f_numpy__negative(self, a):
        return self.ew(neg, a)

    def f_numpy__power(self, a, b):
        if is_scalar(a) and is_scalar(b):
            return power(a, b)
        return self.arith("Pow", a, b)

    def f_numpy__square(self, a):
        return self.ew(lambda x: mul(x, x), a)

    def f_numpy__remainder(self, a, b):
        return self.ew(mod, a, b, dtype="i")

    def f_numpy__maximum(self, a, b, out=None):
        return self._out(self.ew(smax, a, b, dtype=self._dt2(a, b)), out)

    def f_numpy__minimum(self, a, b, out=None):
        return self._out(self.ew(smin, a, b, dtype=self._dt2(a, b)), out)

    def _dt2(self, a, b):
        return "i" if self.arr(a).dtype == "i" and self.arr(b).dtype == "i" else "f"

    def _out(self, r, out):
        if out is None:
            return r
        A.setitem(out, tuple([slice(None)] * len(out.shape)), r)
        return out

    def f_numpy__clip(self, a, lo=None, hi=None, a_min=None, a_max=None, out=None):
        lo = lo if lo is not None else a_min
        hi = hi if hi is not None else a_max
        r = a
        if lo is not None:
            r = self.ew(smax, r, lo)
        if hi is not None:
            r = self.ew(smin, r, hi)
        return self._out(r, out)

    def f_numpy__round(self, a, decimals=0):
        if decimals != 0:
            raise Unsupported("round to decimals")
        a = self.arr(a)
        return self.ew(srnd, a, dtype=a.dtype)

    def f_numpy__floor(self, a):
        return self.ew(lambda x: float(math.floor(x)) if conc(x) else (real(x) if is_intlike(x) else z3.ToReal(z3.ToInt(real(x)))), a)

    def f_numpy__mfloor(self, a):
        return math.floor(a) if conc(a) else z3.ToInt(real(a))

    def f_numpy__ceil(self, a):
        return self.ew(lambda x: float(math.ceil(x)) if conc(x) else z3.ToReal(-z3.ToInt(-real(x))), a)

    def f_numpy__mceil(self, a):
        return math.ceil(a) if conc(a) else -z3.ToInt(-real(a))

    def f_numpy__abs(self, a):
        return self.ew(sabs, a)

    def f_numpy__sign(self, a):
        return self.ew(lambda x: ite(gt(x, 0), 1.0, ite(lt(x, 0), -1.0, 0.0)), a)

    def _uf(name):
        def g(self, a):
            return self.ew(lambda x: self.uf(name, x), a)
        return g

    def uf(self, name, x):
        return ufun(name, x)
    f_numpy__exp = _uf("exp")
    f_numpy__log = _uf("log")
    f_numpy__sqrt = _uf("sqrt")
    f_numpy__sin = _uf("sin")
    f_numpy__cos = _uf("cos")
    f_scipy__stats__norm__cdf = _uf("Phi")
    f_scipy__stats__norm__pdf = _uf("phi")

    def f_numpy__less(self, a, b):
        return self.cmp("Lt", a, b)

    def f_numpy__less_equal(self, a, b):
        return self.cmp("LtE", a, b)

    def f_numpy__greater(self, a, b):
        return self.cmp("Gt", a, b)

    def f_numpy__greater_equal(self, a, b):
        return self.cmp("GtE", a, b)

    def f_numpy__equal(self, a, b):
        return self.cmp("Eq", a, b)

    def f_numpy__not_equal(self, a, b):
        return self.cmp("NotEq", a, b)

    def f_numpy__logical_and(self, a, b):
        return self.ew(lambda x, y: b_and(self.I.truthy(x), self.I.truthy(y)), a, b, dtype="b")

    def f_numpy__logical_or(self, a, b):
        return self.ew(lambda x, y: b_or(self.I.truthy(x), self.I.truthy(y)), a, b, dtype="b")

    def f_numpy__logical_not(self, a):
        return self.ew(lambda x: b_not(self.I.truthy(x)), a, dtype="b")

    def f_numpy__isfinite(self, a):
        return self.ew(lambda x: (math.isfinite(x) if conc(x) else (b_and(b_not(x.inf), b_not(x.nan)) if isinstance(x, XR) else True)), a, dtype="b")

    def f_numpy__isinf(self, a):
        return self.ew(lambda x: (math.isinf(x) if conc(x) else (b_and(x.inf, b_not(x.nan)) if isinstance(x, XR) else False)), a, dtype="b")

    def f_numpy__isnan(self, a):
        return self.ew(lambda x: (math.isnan(x) if conc(x) else (x.nan if isinstance(x, XR) else False)), a, dtype="b")

    # ============================================================= reductions
    def _mm(which, arg=False):
        def g(self, a, axis=None, keepdims=False, out=None):
            a = self.arr(a)
            if a.dtype == "b":
                a = A.elementwise(lambda x: ite(x, 1, 0), a, dtype="i")
            return A.reduce_minmax(a, axis, which, arg, keepdims)
        return g
    f_numpy__min = _mm("min")
    f_numpy__max = _mm("max")
    f_numpy__argmin = _mm("min", True)
    f_numpy__argmax = _mm("max", True)

    def f_numpy__all(self, a, axis=None, keepdims=False):
        return A.reduce_bool(self.arr(a), axis, "all")

    def f_numpy__any(self, a, axis=None, keepdims=False):
        return A.reduce_bool(self.arr(a), axis, "any")

    def f_numpy__sum(self, a, axis=None, keepdims=False, dtype=None):
        a = self.arr(a)
        isb = a.dtype == "b"
        val = (lambda x: ite(x, 1, 0)) if isb else (lambda x: x)
        f = a.fn()
        if axis is None:
            if len(a.shape) == 0:
                return val(a.at())
            if len(a.shape) == 1:
                return self.sum1(lambda t: val(f((t,))), a.shape[0], "i" if a.dtype in "ib" else "f")
            if len(a.shape) == 2:
                for k in (0, 1):
                    if A.dims_equal(a.shape[k], 1):
                        return self.sum1(lambda t: val(f((t, 0) if k == 1 else (0, t))), a.shape[1 - k])
                return self.sum1(lambda r: self.sum1(lambda c: val(f((r, c))), a.shape[1]), a.shape[0])
            raise Unsupported("sum")
        if axis < 0:
            axis += len(a.shape)
        n = a.shape[axis]
        rest = tuple(s for k, s in enumerate(a.shape) if k != axis)

        def full(r, j):
            r = list(r)
            r.insert(axis, j)
            return tuple(r)
        if isb and not isinstance(n, int):
            # count of true entries: zero iff none is true
            E = self.E
            C = E.Func("count", *([z3.IntSort()] * (len(rest) + 1)))
            W = E.Func("countw", *([z3.IntSort()] * (len(rest) + 1)))

            def fact(*ix):
                r, j = ix[:-1], ix[-1]
                return b_imp(b_and(ge(j, 0), lt(j, n), f(full(r, j))), C(*r) > 0)

            def fact2(*r):
                w = W(*r)
                E_().touch(w)
                return b_and(C(*r) >= 0, le(C(*r), n), b_imp(C(*r) > 0, b_and(w >= 0, lt(w, n), f(full(r, w)))))
            E.assume_forall(("Int",) * (len(rest) + 1), fact, "count")
            E.assume_forall(("Int",) * len(rest), fact2, "count")
            if not rest:
                return C()
            r = A.new(rest, lambda idx: C(*[integer(i) for i in idx]), "i")
        else:
            if not rest:
                return self.sum1(lambda t: val(f((t,))), n)
            r = A.new(rest, lambda idx: self.sum1(lambda t: val(f(full(idx, t))), n), "i" if a.dtype in "ib" else "f")
        return A._keep(r, axis, keepdims)

    def sum1(self, fn, n, dt="f"):
        return self.E.Sum(fn, n)

    def f_numpy__prod(self, a, axis=None):
        a = self.arr(a)
        f = a.fn()
        if len(a.shape) != 1:
            raise Unsupported("prod")
        return self.E.Sum(lambda t: f((t,)), a.shape[0], "prod")

    def f_numpy__mean(self, a, axis=None):
        a = self.arr(a)
        if axis is None and len(a.shape) in (1, 2):
            n = a.shape[0] if len(a.shape) == 1 else mul(a.shape[0], a.shape[1])
            return div(self.f_numpy__sum(a), n)
        raise Unsupported("mean")

    def f_numpy__std(self, a, axis=None):
        raise Unsupported("std")

    def f_numpy__median(self, a, axis=None):
        raise Unsupported("median")

    def f_numpy__dot(self, a, b):
        a, b = self.arr(a), self.arr(b)
        f, g = a.fn(), b.fn()
        if len(a.shape) == 1 and len(b.shape) == 1:
            if not A.dims_equal(a.shape[0], b.shape[0]):
                raise PyExc("ValueError", "shapes not aligned")
            return self.E.Sum(lambda t: mul(f((t,)), g((t,))), a.shape[0])
        if len(a.shape) == 2 and len(b.shape) in (1, 2):
            n = a.shape[1]
            if not A.dims_equal(n, b.shape[0]):
                raise PyExc("ValueError", "shapes not aligned")
            if len(b.shape) == 2:
                return A.new((a.shape[0], b.shape[1]), lambda idx: self.E.Sum(lambda t: mul(f((idx[0], t)), g((t, idx[1]))), n))
            return A.new((a.shape[0],), lambda idx: self.E.Sum(lambda t: mul(f((idx[0], t)), g((t,))), n))
        if len(a.shape) == 0 or len(b.shape) == 0:
            return self.arith("Mult", a, b)
        raise Unsupported("dot")

    f_numpy__matmul = f_numpy__dot

    def f_numpy__linalg__norm(self, a, ord=None):
        a = self.arr(a)
        f = a.fn()
        if len(a.shape) != 1 or ord not in (None, 2):
            raise Unsupported("norm")
        return ufun("sqrt", self.E.Sum(lambda t: mul(f((t,)), f((t,))), a.shape[0]))

    def f_numpy__fill_diagonal(self, a, v):
        old = a.fn()
        if a.dims is not None:
            raise Unsupported("fill_diagonal on a view")
        A.write(a.cell, lambda b: ite(eq(b[0], b[1]), v, old(b)), None)
        return None

    def f_numpy__array_equal(self, a, b):
        if a is None or b is None:
            return a is b
        a, b = self.arr(a), self.arr(b)
        if len(a.shape) != len(b.shape):
            return False
        for p, q in zip(a.shape, b.shape):
            if not A.dims_equal(p, q):
                if not self.E.branch(eq(p, q)):
                    return False
        if len(a.shape) == 1 and a.pt is not None and b.pt is not None:
            return a.pt == b.pt
        r = A.elementwise(eq, a, b, dtype="b")
        return A.reduce_bool(r, None, "all") if isinstance(r, Arr) else r

    def f_numpy__intersect1d(self, a, b, assume_unique=False):
        """Sorted values in both arrays."""
        E = self.E
        a, b = self.arr(a), self.arr(b)
        for x in (a, b):
            if isinstance(x.shape[0], int) and x.shape[0] == 0:
                return A.new((0,), lambda idx: 0, "i")
        ea, eb = A.enum_of(a), A.enum_of(b)
        m = E.Int("isn")
        W = E.Func("isect", z3.IntSort(), z3.IntSort())
        P = E.Func("isectpos", z3.IntSort(), z3.IntSort())
        E.assume(m >= 0)

        def f1(k):
            w = W(k)
            E.touch(w)
            return b_imp(b_and(k >= 0, k < m), b_and(ea.member(w), eb.member(w), P(w) == k))

        def f2(v):
            p = P(v)
            E.touch(p)
            return b_imp(b_and(ea.member(v), eb.member(v)), b_and(p >= 0, p < m, W(p) == v))
        E.assume_forall(("Int",), f1, "intersect1d")
        E.assume_forall(("Int",), f2, "intersect1d")
        E.touch(z3.IntVal(0))
        E.hint(W(0))
        r = A.new((m,), lambda idx: W(integer(idx[0])), "i")
        r.enum = A.Enum(lambda v: b_and(ea.member(v), eb.member(v)), lambda v: P(integer(v)), True)
        return r

    def f_numpy__union1d(self, a, b):
        """Sorted values in one of the arrays (of integers), each once."""
        E = self.E
        a, b = self.arr(a), self.arr(b)
        if a.dtype == "f" and a.shape[0] != 0 or b.dtype == "f" and b.shape[0] != 0:
            raise Unsupported("union1d of reals")
        mem = [A.enum_of(x).member for x in (a, b) if not (isinstance(x.shape[0], int) and x.shape[0] == 0)]
        member = lambda v: b_or(*[f(v) for f in mem]) if mem else False
        m = E.Int("unn")
        E.assume(m >= 0)
        E.touch(m)
        U = E.Func("union", z3.IntSort(), z3.IntSort())
        P = E.Func("unionpos", z3.IntSort(), z3.IntSort())

        def f1(k):
            w = U(k)
            E.touch(w)
            # increasing integers: the distance of two entries is at least that of their positions
            return b_imp(b_and(k >= 0, k < m), b_and(member(w), P(w) == k, w >= U(0) + k, U(m - 1) - w >= m - 1 - k))

        def f2(v):
            p = P(v)
            E.touch(p)
            return b_imp(member(v), b_and(p >= 0, p < m, U(p) == v))
        E.assume_forall(("Int",), f1, "union1d")
        E.assume_forall(("Int",), f2, "union1d")
        E.assume_forall(("Int", "Int"), lambda k, l: b_imp(b_and(k >= 0, k < l, l < m), U(k) < U(l)), "union1d: increasing")
        # as many values as entries: no entry occurs twice
        na, nb = a.shape[0], b.shape[0]
        E.assume(tobool(le(m, add(na, nb))))
        full = eq(m, add(na, nb))
        fa, fb = a.fn(), b.fn()
        if not (conc(na) and na == 0) and not (conc(nb) and nb == 0):
            ea, eb = A.enum_of(a), A.enum_of(b)
            E.assume_forall(("Int",), lambda v: b_imp(full, b_not(b_and(ea.member(v), eb.member(v)))), "union1d: full")
        for f, n in ((fa, na), (fb, nb)):
            if not (conc(n) and n == 0):
                E.assume_forall(("Int", "Int"), lambda k, l, f=f, n=n: b_imp(b_and(full, k >= 0, lt(k, l), lt(l, n)), ne(f((k,)), f((l,)))), "union1d: full")
        E.touch(z3.IntVal(0))
        E.touch(z3.simplify(m - 1))
        r = A.new((m,), lambda idx: U(integer(idx[0])), "i")
        r.enum = A.Enum(member, lambda v: P(integer(v)), True)
        if getattr(E, "unions", None) is not None:
            E.unions.append(r)
        return r

    def f_numpy__isin(self, a, b):
        a, b = self.arr(a), self.arr(b)
        eb = A.enum_of(b)
        return A.elementwise(lambda v: eb.member(v), a, dtype="b")

    f_numpy__in1d = f_numpy__isin

    def f_numpy__finfo(self, t=None):
        o = Obj(SType("finfo"))
        o.attrs["eps"] = 2.220446049250313e-16
        return o

    def f_numpy__array_str(self, *a, **k):
        return "\x00"

    def f_numpy__set_printoptions(self, *a, **k):
        return None

    def f_numpy__isscalar(self, x):
        return is_scalar(x)

    def f_numpy__ndim(self, x):
        return len(self.arr(x).shape)

    def f_numpy__shape(self, x):
        return tuple(self.arr(x).shape)

    def f_numpy__linspace(self, a, b, n=50):
        return A.new((n,), lambda idx: add(a, div(mul(sub(b, a), idx[0]), sub(n, 1))))

    # ================================================================= random
    def rnd_arr(self, shape, sort="f", bounds=None, base="rand"):
        E = self.E
        shape = tuple(nat(s) for s in shape)
        f = E.Func(base, *([z3.IntSort()] * len(shape) + [z3.RealSort() if sort == "f" else z3.IntSort()]))
        if bounds is not None:
            E.assume_forall(("Int",) * len(shape), lambda *ix: b_imp(b_and(*[b_and(ge(i, 0), lt(i, s)) for i, s in zip(ix, shape)]), bounds(ix, f(*ix))), base)
        return A.new(shape, lambda idx: f(*[integer(i) for i in idx]), sort)

    def f_numpy__random__rand(self, *shape):
        if not shape:
            v = self.E.Real("rand")
            self.E.assume(z3.And(v >= 0, v < 1))
            return v
        return self.rnd_arr(shape, "f", lambda ix, v: b_and(v >= 0, v < 1))

    def f_numpy__random__rand1(self, size=None):
        if size is None:
            return self.f_numpy__random__rand()
        return self.f_numpy__random__rand(*shape_of(size))

    def f_numpy__random__randn(self, *shape):
        if not shape:
            return self.E.Real("randn")
        return self.rnd_arr(shape, "f", None, "randn")

    def f_numpy__random__randint(self, low, high=None, size=None, dtype=None):
        lo, hi = (0, low) if high is None else (low, high)
        h = self.extra.get("hook:randint")
        if h:
            h(lo, hi)
        if not self.E.must(lt(lo, hi)):
            if not self.E.branch(lt(lo, hi)):
                raise PyExc("ValueError", "low >= high")
        if size is None:
            v = self.E.Int("randint")
            self.E.assume(b_and(ge(v, lo), lt(v, hi)))
            self.E.touch(v)
            return v
        def fact(ix, v):
            if v.decl().name() not in str(ix):        # positions drawn at random are positions to look at
                E_().touch(v)
            return b_and(ge(v, lo), lt(v, hi))
        r = self.rnd_arr(shape_of(size), "i", fact, "randint")
        r.randint = (lo, hi)
        return r

    def f_numpy__random__uniform(self, low=0.0, high=1.0, size=None):
        l, h = self.arr(low), self.arr(high)
        sh = A.bcast_shape(l.shape, h.shape)
        if size is not None:
            sh2 = shape_of(size)
            A.bcast_shape(sh, sh2)
            sh = sh2
        lf, hf = A.bcast_fn(l, sh), A.bcast_fn(h, sh)
        if sh == ():
            v = self.E.Real("unif")
            self.E.assume(b_imp(le(lf(()), hf(())), b_and(ge(v, lf(())), le(v, hf(())))))
            return v
        return self.rnd_arr(sh, "f", lambda ix, v: b_imp(le(lf(ix), hf(ix)), b_and(ge(v, lf(ix)), le(v, hf(ix)))), "unif")

    def f_numpy__random__normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            return self.E.Real("normal")
        return self.rnd_arr(shape_of(size), "f", None, "normal")

    def f_numpy__random__shuffle(self, a):
        E = self.E
        n = a.shape[0]
        f = a.fn()
        if len(a.shape) != 1:
            raise Unsupported("shuffle of a matrix")
        p, q = E.Func("perm", z3.IntSort(), z3.IntSort()), E.Func("perminv", z3.IntSort(), z3.IntSort())

        def fact(i):
            E.touch(p(i))
            E.touch(q(i))
            return b_imp(b_and(i >= 0, lt(i, n)), b_and(p(i) >= 0, lt(p(i), n), q(p(i)) == i, q(i) >= 0, lt(q(i), n), p(q(i)) == i))
        E.assume_forall(("Int",), fact, "shuffle")
        src = A.new((n,), lambda idx: f((p(integer(idx[0])),)), a.dtype)
        A.setitem(a, (slice(None),), src)
        return None

    def f_numpy__random__permutation(self, a):
        if is_intlike(a):
            r = self.f_numpy__arange(a)
            r = A.copy(r)
            r.enum = None
        else:
            r = A.copy(self.arr(a))
        self.f_numpy__random__shuffle(r)
        return r

    def f_numpy__random__seed(self, *a):
        return None

    def f_scipy__stats__truncnorm__rvs(self, a, b, loc=0.0, scale=1.0, size=None):
        """Truncated normal: loc + scale*z with a <= z <= b (requires a < b and scale > 0)."""
        E = self.E
        if not all(is_scalar(x) for x in (a, b, loc, scale)):
            raise Unsupported("truncnorm with array arguments")
        E.prove("truncnorm: scale > 0", gt(scale, 0))
        E.prove("truncnorm: a < b", lt(a, b))
        lo = add(loc, mul(scale, a))
        hi = add(loc, mul(scale, b))
        rec = {"a": a, "b": b, "loc": loc, "scale": scale}
        sh = () if size is None else shape_of(size)
        h = self.extra.get("hook:truncnorm")
        if h:
            h(rec)
        if sh == ():
            v = E.Real("tn")
            E.assume(b_and(ge(v, lo), le(v, hi)))
            return v
        if rec.get("differs"):        # a continuous distribution: the draw differs from the centre with probability one
            return self.rnd_arr(sh, "f", lambda ix, v: b_and(ge(v, lo), le(v, hi), ne(v, loc)), "tn")
        return self.rnd_arr(sh, "f", lambda ix, v: b_and(ge(v, lo), le(v, hi)), "tn")

    def f_scipy__stats__truncnorm(self, a, b, loc=0.0, scale=1.0):
        o = Obj(SType("frozen_truncnorm"))
        o.ext["p"] = (a, b, loc, scale)
        return o

    # ================================================================== scipy
    def points_of(self, a):
        return A.rows_of(a)

    def D(self, p, q):
        E = self.E
        d = self.dist_fn
        t = d(p, q)
        E.axiom(z3.And(t >= 0, d(q, p) == t))
        E.axiom(z3.Implies(p == q, t == 0))
        return t

    def f_scipy__spatial__distance__cdist(self, a, b, metric="euclidean"):
        a, b = self.arr(a), self.arr(b)
        if metric != "euclidean":
            raise Unsupported("cdist metric")
        if len(a.shape) != 2 or len(b.shape) != 2:
            raise PyExc("ValueError", "cdist needs 2-dimensional arrays")
        if not A.dims_equal(a.shape[1], b.shape[1]):
            raise PyExc("ValueError", "cdist dimension mismatch")
        ra, rb = self.points_of(a), self.points_of(b)
        r = A.new((a.shape[0], b.shape[0]), lambda idx: self.D(ra(idx[0]), rb(idx[1])))
        r.cdist = (a, b)
        return r

    def f_scipy__spatial__distance__euclidean(self, a, b):
        a, b = self.arr(a), self.arr(b)
        return self.D(A.reify_point(a), A.reify_point(b))

    # =================================================================== misc
    def f_copy__copy(self, o):
        if isinstance(o, PList):
            return PList(o.items)
        if isinstance(o, SymList):
            return SymList(o.n, o.get, o.mset, o.kind)
        if isinstance(o, Obj):
            c = Obj(o.cls, o.attrs)
            c.ext = dict(o.ext)
            return c
        if isinstance(o, Arr):
            return self.f_numpy__copy(o)
        if isinstance(o, PDict):
            return PDict(o.d.items())
        return o

    def f_itertools__product(self, *its, repeat=1):
        import itertools
        ls = [self.I.iterate_conc(x) for x in its]
        if not isinstance(repeat, int):
            raise Unsupported("product with a symbolic number of factors")
        return PList([tuple(x) for x in itertools.product(*ls, repeat=repeat)])

    def f_os__path__split(self, p):
        raise Unsupported("os.path.split")

    def f_six__add_metaclass(self, m):
        return Builtin("deco", lambda c: c)

    def f_warnings__warn(self, *a, **k):
        return None

    def f_math__isqrt(self, a):
        return math.isqrt(a)

    def f_collections__deque(self, it=None):
        return PList(self.I.iterate_conc(it) if it is not None else [])


def _isum(xs):
    r = 0
    for x in xs:
        r = add(r, x)
    return r


def E_():
    return Engine.cur


def mset_axioms(a):
    """Link the multiset view of a 2-D array with its rows."""
    E = Engine.cur
    n, rf, ms = a.shape[0], a.rowfn(), a.cell.mset
    W = E.Func("mwit", Pt, z3.IntSort())

    def f1(q):
        w = W(q)
        E_().touch(w)
        m = ms(q)
        return b_and(ge(m, 0), b_imp(ge(m, 1), b_and(w >= 0, lt(w, n), rf(w) == q)), le(m, n))

    def f2(i):
        return b_imp(b_and(i >= 0, lt(i, n)), ge(ms(rf(i)), 1))
    E.assume_forall(("Pt",), f1, "mset")
    E.assume_forall(("Int",), f2, "mset")


# --------------------------------------------------------------------- lists
def l_append(M, s, v):
    if s.append_log is not None:
        s.append_log.append(v)
        return
    if isinstance(s, PList):
        s.items.append(v)
        return
    g, n, ms = s.get, s.n, s.mset
    p = v.pt if isinstance(v, Arr) and len(v.shape) == 1 else None
    if s.kind == "pt":
        if not isinstance(v, Arr):
            raise Unsupported("append to a list of points")
        p = A.reify_point(v)
        # the list keeps a reference; the content is fixed here (arrays in the queue are not modified later)
        d = v.shape[0]

        def get(i):
            t = ite(eq(i, n), p, ptof(g(i)))
            return A.pt_arr(t, d)
        s.get = get
        s.n = simp(add(n, 1))
        s.mset = (lambda q: add(ms(q), ite(A.pt_eq(p, q, d), 1, 0))) if ms is not None else None
        s.appended = getattr(s, "appended", ()) + (v,)
        return
    if s.kind == "dint":
        # list of distinct integers; the position of x (when present) is mset(x)
        if not M.E.must(b_not(dint_has(s, v))):
            raise Unsupported("append of a value that may be in the list already")
        s.get = lambda i: ite(eq(i, n), v, g(i))
        s.mset = lambda x: ite(eq(x, v), n, ms(x))
        s.n = simp(add(n, 1))
        return
    if s.kind == "scalar":
        s.get = lambda i: ite(eq(i, n), v, g(i))
        s.n = simp(add(n, 1))
        return
    h = getattr(s, "on_append", None)
    if h:
        h(s, v)
        return
    raise Unsupported("append to a symbolic list of objects")


def ptof(a):
    p = a.pt
    return p if p is not None else A.reify_point(a)


def dint_has(s, x):
    k = s.mset(x)
    return b_and(ge(k, 0), lt(k, s.n), eq(s.get(k), x))


def l_pop(M, s, i=None):
    if s.append_log is not None:
        raise Unsupported("list read in the loop that extends it")
    if hasattr(s, "pop_at"):
        return s.pop_at(M, i)
    if isinstance(s, PList):
        if not s.items:
            raise PyExc("IndexError", "pop from empty list")
        if i is None:
            return s.items.pop()
        if isinstance(i, int):
            try:
                return s.items.pop(i)
            except IndexError:
                raise PyExc("IndexError", "pop index out of range")
        raise Unsupported("pop of a symbolic index")
    E = M.E
    n, g, ms = s.n, s.get, s.mset
    if not E.branch(gt(n, 0)):
        raise PyExc("IndexError", "pop from empty list")
    last = i is None or (isinstance(i, int) and i == -1)
    if last:
        k = simp(sub(n, 1))
        s.n = k
        v = g(k)
    elif isinstance(i, int) and i == 0:
        v = g(0)
        s.get = lambda j: g(simp(add(j, 1)))
        s.n = simp(sub(n, 1))
    else:
        raise Unsupported("pop of a symbolic index")
    if s.kind == "pt":
        E.touch(k if last else z3.IntVal(0))
        p = ptof(v)
        E.touch(p)
        if ms is not None:
            E.assume(ge(ms(p), 1))
            dd = v.shape[0]
            s.mset = lambda q: sub(ms(q), ite(A.pt_eq(p, q, dd), 1, 0))
    return v


def l_extend(M, s, o):
    for x in M.I.iterate_conc(o):
        l_append(M, s, x)


def l_remove(M, s, v):
    if isinstance(s, PList):
        for k, x in enumerate(s.items):
            if x is v or M.E.branch(M.I.truthy(M.I.compare(__import__("ast").Eq(), x, v))):
                del s.items[k]
                return
        raise PyExc("ValueError", "list.remove(x): x not in list")
    if s.kind == "dint":
        M.E.touch(v)
        if not M.E.branch(dint_has(s, v)):
            raise PyExc("ValueError", "list.remove(x): x not in list")
        g, ms, n = s.get, s.mset, s.n
        k = ms(v)
        M.E.touch(k)
        s.get = lambda i: ite(lt(i, k), g(i), g(simp(add(i, 1))))
        s.mset = lambda x: ite(eq(x, v), -1, ite(gt(ms(x), k), sub(ms(x), 1), ms(x)))
        s.n = simp(sub(n, 1))
        return
    h = getattr(s, "on_remove", None)
    if h:
        return h(s, v)
    raise Unsupported("remove from a symbolic list")


def l_clear(M, s):
    if isinstance(s, PList):
        s.items.clear()
    else:
        s.n = 0
        s.mset = (lambda q: 0) if s.mset is not None else None


def l_insert(M, s, i, v):
    if isinstance(s, PList) and isinstance(i, int):
        s.items.insert(i, v)
        return
    if isinstance(s, SymList) and isinstance(i, int) and i == 0 and s.kind == "pt":
        g, n, ms = s.get, s.n, s.mset
        p = A.reify_point(v)
        d = v.shape[0]
        s.get = lambda k: A.pt_arr(ite(eq(k, 0), p, ptof(g(simp(sub(k, 1))))), d)
        s.n = simp(add(n, 1))
        s.mset = (lambda q: add(ms(q), ite(A.pt_eq(p, q, d), 1, 0))) if ms is not None else None
        return
    raise Unsupported("insert")


def l_copy(M, s):
    return PList(s.items) if isinstance(s, PList) else SymList(s.n, s.get, s.mset, s.kind)


def l_index(M, s, v):
    if isinstance(s, PList):
        for k, x in enumerate(s.items):
            if x is v or M.E.branch(M.I.truthy(M.I.compare(__import__("ast").Eq(), x, v))):
                return k
        raise PyExc("ValueError")
    raise Unsupported("index")


def l_popleft(M, s):
    return l_pop(M, s, 0)


def l_reverse(M, s):
    if isinstance(s, PList):
        s.items.reverse()
        return
    raise Unsupported("reverse")


def l_sort(M, s, **k):
    raise Unsupported("sort")


LIST_METHODS = {"append": l_append, "pop": l_pop, "extend": l_extend, "remove": l_remove, "clear": l_clear, "insert": l_insert, "copy": l_copy,
                "index": l_index, "popleft": l_popleft, "reverse": l_reverse, "sort": l_sort}


def _frozen(M, o, name):
    if name == "rvs":
        a, b, loc, sc = o.ext["p"]
        return Builtin("rvs", lambda size=None: M.f_scipy__stats__truncnorm__rvs(a, b, loc, sc, size))
    return NotImplemented


EXTCLS = {"frozen_truncnorm": _frozen}


# ------------------------------------------------------------------- builtins
def builtins(I):
    E = I.E

    def b_len(x):
        if getattr(x, "append_log", None) is not None:
            raise Unsupported("list read in the loop that extends it")
        if isinstance(x, PList):
            return len(x.items)
        if isinstance(x, SymList):
            return x.n
        if isinstance(x, (tuple, str)):
            return len(x)
        if isinstance(x, PDict):
            return len(x.d)
        if isinstance(x, Arr):
            if not x.shape:
                raise PyExc("TypeError", "len() of unsized object")
            return x.shape[0]
        if isinstance(x, Rng):
            return smax(sub(x.hi, x.lo), 0)
        if isinstance(x, Obj) and isinstance(x.cls, PClass):
            f, _ = x.cls.find("__len__")
            if f is not None:
                return I.call_func(f, [x], {})
        if x is None or is_scalar(x):
            raise PyExc("TypeError", "no len()")
        raise Unsupported("len of %r" % (x,))

    def b_range(*a):
        a = [x.at() if isinstance(x, Arr) and not x.shape else x for x in a]
        for x in a:
            if not is_intlike(x):
                raise PyExc("TypeError", "range needs integers")
        if len(a) == 1:
            return Rng(0, a[0])
        return Rng(a[0], a[1], a[2] if len(a) > 2 else 1)

    def seqmm(which):
        def g(*a, **kw):
            if "key" in kw:
                raise Unsupported("min/max key")
            if len(a) == 1:
                x = a[0]
                if isinstance(x, SymList):
                    x = x.to_arr()
                if isinstance(x, Arr) and not isinstance(x.shape[0], int):
                    return A.reduce_minmax(x, None if len(x.shape) == 1 else 0, which)
                items = I.iterate(x)
                if isinstance(items, SymIter):
                    it = items.item
                    return A.reduce_minmax(A.new((items.n,), lambda idx: it(idx[0])), 0, which)
                if not items:
                    if "default" in kw:
                        return kw["default"]
                    raise PyExc("ValueError", "min() arg is an empty sequence")
            else:
                items = list(a)
            r = items[0]
            for x in items[1:]:
                # Python min(a, b): b if b < a else a
                r = ite(lt(x, r), x, r) if which == "min" else ite(lt(r, x), x, r)
            return r
        return g

    def b_all(x, which="all"):
        if isinstance(x, Arr):
            r = A.reduce_bool(x, None, which) if len(x.shape) == 1 else None
            if r is None:
                raise Unsupported("all over a matrix")
            return r
        if isinstance(x, SymList):
            g = x.get
            return A.quant_bool(lambda ix: I.truthy(g(ix[0])), (x.n,), which)
        items = I.iterate(x)
        if isinstance(items, SymIter):
            it = items.item
            return A.quant_bool(lambda ix: I.truthy(it(ix[0])), (items.n,), which)
        v = [I.truthy(i) for i in items]
        return b_and(*v) if which == "all" else b_or(*v)

    def b_sum(x, start=0):
        if isinstance(x, SymList):
            x = x.to_arr()
        if isinstance(x, Arr):
            if len(x.shape) == 1:
                return add(I.np.f_numpy__sum(x), start)
            raise Unsupported("sum over a matrix")
        items = I.iterate(x)
        if isinstance(items, SymIter):
            it = items.item
            return add(E.Sum(lambda t: it(t), items.n), start)
        r = start
        for i in items:
            r = I.binop(__import__("ast").Add(), r, i)
        return r

    def b_enumerate(x, start=0):
        s = I.iterate(x)
        if isinstance(s, SymIter):
            it = s.item
            return SymIter(s.n, lambda t: (add(start, t), it(t)), ("enumerate", s))
        return PList([(add(start, k), v) for k, v in enumerate(s)])

    def b_zip(*xs):
        ss = [I.iterate(x) for x in xs]
        if any(isinstance(s, SymIter) for s in ss):
            n = None
            for s in ss:
                m = s.n if isinstance(s, SymIter) else len(s)
                n = m if n is None else (n if A.dims_equal(n, m) else smin(n, m))
            its = [s.item if isinstance(s, SymIter) else (lambda t, s=s: I.getitem(PList(s), t)) for s in ss]
            return SymIter(n, lambda t: tuple(f(t) for f in its))
        return PList(list(zip(*ss)))

    def b_reversed(x):
        s = I.iterate(x)
        if isinstance(s, SymIter):
            it, n = s.item, s.n
            return SymIter(n, lambda t: it(simp(sub(sub(n, 1), t))))
        return PList(list(reversed(s)))

    def b_isinstance(v, t):
        return I.np.isinst(v, t)

    def b_hasattr(o, n):
        try:
            I.getattr(o, n)
            return True
        except PyExc:
            return False

    def b_getattr(o, n, *d):
        try:
            return I.getattr(o, n)
        except PyExc:
            if d:
                return d[0]
            raise

    def b_setattr(o, n, v):
        I.setattr(o, n, v)

    def b_sorted(x, **k):
        s = I.iterate_conc(x)
        if k or not all(conc(v) for v in s):
            raise Unsupported("sorted")
        return PList(sorted(s))

    def b_abs(x):
        return I.np.f_numpy__abs(x) if isinstance(x, Arr) else sabs(x)

    def b_map(f, *xs):
        ss = [I.iterate_conc(x) for x in xs]
        return PList([I.call(f, list(a)) for a in zip(*ss)])

    def b_open(*a, **k):
        return I.np.call("builtins.open", list(a), k)

    def b_round(x, n=None):
        if n is not None:
            raise Unsupported("round digits")
        r = srnd(x)
        return A.cast(r, "i") if not isinstance(r, Arr) else r

    def b_pow(a, b):
        return power(a, b)

    def b_type(x):
        return I.np.type_of(x)

    def b_super(*a):
        raise Unsupported("super()")

    def b_callable(x):
        return isinstance(x, (PFunc, Bound, Builtin, PClass))

    def b_id(x):
        return id(x)

    def b_filter(*a):
        raise Unsupported("filter")

    fns = dict(filter=b_filter, len=b_len, range=b_range, min=seqmm("min"), max=seqmm("max"), all=b_all, any=lambda x: b_all(x, "any"), sum=b_sum, enumerate=b_enumerate,
               zip=b_zip, reversed=b_reversed, isinstance=b_isinstance, hasattr=b_hasattr, getattr=b_getattr, setattr=b_setattr, sorted=b_sorted, abs=b_abs, map=b_map,
               print=lambda *a, **k: None, open=b_open, round=b_round, pow=b_pow, callable=b_callable, id=b_id, iter=lambda x: x, repr=lambda x: "\x00")
    r = {k: Builtin(k, v) for k, v in fns.items()}
    for t in ("int", "float", "bool", "str", "list", "tuple", "dict", "set", "object", "type"):
        r[t] = SType(t)
    for t in EXC:
        r[t] = SType(t)
    r["NotImplemented"] = Opaque("NotImplemented")
    r["__name__"] = "pySOT"
    return r
