"""Lists of mutable records of symbolic length: element i is an object whose attributes are functions of i.

The elements are distinct objects (the representation invariant of the lists modelled this way); reading or writing an attribute of
element i reads or updates the function.  A list that is shortened invalidates the elements read from it before."""
import z3
from .core import *
from .core import Engine, Unsupported, PyExc
from . import arrays as A
from .interp import Obj, OptVal, SymList, Opaque, simp


class Fields(dict):
    def __init__(self, heap, i):
        self.heap, self.i, self.gen = heap, i, heap.gen

    def __contains__(self, name):
        return name in self.heap.kinds

    def __getitem__(self, name):
        if self.gen != self.heap.gen:
            raise Unsupported("element of a list that was shortened")
        return self.heap.read(name, self.i)

    def get(self, name, default=None):
        return self[name] if name in self else default

    def __setitem__(self, name, v):
        if self.gen != self.heap.gen:
            raise Unsupported("element of a list that was shortened")
        self.heap.write(name, self.i, v)

    def items(self):
        raise Unsupported("attributes of a record")


class Heap(SymList):
    """kinds: attribute -> "num", "row", "optnum" or "optrow"; fields: attribute -> function (or pair of functions has, value)."""

    def __init__(self, cls, n, d, kinds, fields):
        self.cls, self.d, self.kinds, self.f, self.gen = cls, d, kinds, dict(fields), 0
        SymList.__init__(self, n, self.element, None, "obj")

    def element(self, i):
        o = Obj.__new__(Obj)
        o.cls, o.ext = self.cls, {}
        o.attrs = Fields(self, simp(i) if is_z3(i) else i)
        return o

    def get_state(self):
        return (Heap, (self.n, dict(self.f), self.gen))

    def set_state(self, s):
        self.n, self.f, self.gen = s[1][0], dict(s[1][1]), s[1][2]

    def value(self, name, i):
        """(has, value) of an attribute; rows as points."""
        k, f = self.kinds[name], self.f[name]
        i = integer(i)
        if k.startswith("opt"):
            return f[0](i), f[1](i)
        return True, f(i)

    def read(self, name, i):
        E = Engine.cur
        k = self.kinds[name]
        E.touch(i)
        h, v = self.value(name, i)
        v = A.pt_arr(v, self.d) if k.endswith("row") else v
        if not k.startswith("opt"):
            return v
        if getattr(E, "no_fork", False):
            return OptVal(h, v)
        return v if E.branch(h) else None

    def write(self, name, i, v):
        if name not in self.kinds:
            raise Unsupported("new attribute %s of a record" % name)
        k, i = self.kinds[name], integer(i)
        h = v is not None
        if not h and not k.startswith("opt"):
            raise Unsupported("None in a record")
        if isinstance(v, OptVal):
            raise Unsupported("optional value stored")
        if h and k.endswith("row"):
            if not isinstance(v, A.Arr) or len(v.shape) != 1 or not A.dims_equal(v.shape[0], self.d):
                raise Unsupported("value of a record")
            v = A.reify_point(v)
        elif h and not is_scalar(v):
            raise Unsupported("value of a record")
        if k.startswith("opt"):
            h0, f0 = self.f[name]
            self.f = dict(self.f)            # never updated in place: specifications keep old versions
            self.f[name] = (lambda j: b_ite(eq(j, i), h, h0(j)) if is_z3(eq(j, i)) else (h if eq(j, i) else h0(j)),
                            (lambda j: ite(eq(j, i), v, f0(j))) if h else f0)
        else:
            f0 = self.f[name]
            self.f = dict(self.f)
            self.f[name] = lambda j: ite(eq(j, i), v, f0(j))

    def on_append(self, s, o):
        if not isinstance(o, Obj) or o.cls is not self.cls:
            raise Unsupported("element of another class")
        at, n = dict(o.attrs), self.n
        if set(at) != set(self.kinds):
            raise Unsupported("attributes of a record")
        self.n = simp(add(n, 1))
        for name, v in at.items():
            self.write(name, n, v)
        o.attrs = Fields(self, n)

    def pop_at(self, M, i):
        E, n = M.E, self.n
        i = simp(sub(n, 1)) if i is None else A.norm_index(i, n)
        i = integer(i)
        E.touch(i)

        def shift(f):
            return lambda j: f(integer(simp(j))) if False else pick(lt(j, i), lambda: f(j), lambda: f(integer(simp(add(j, 1)))))
        self.f = dict(self.f)
        for name, f in list(self.f.items()):
            self.f[name] = (shift(f[0]), shift(f[1])) if isinstance(f, tuple) else shift(f)
        self.n = simp(sub(n, 1))
        self.gen += 1
        return Opaque("popped")


def pick(c, a, b):
    if c is True:
        return a()
    if c is False:
        return b()
    return ite(c, a(), b())
