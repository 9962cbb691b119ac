"""pyvc interpreter: symbolic execution of the Python source of /repo.

The source is parsed on every run from REPO; nothing is transcribed.  What is
dropped: log output, doc strings, type annotations, warnings.  Everything the
interpreter does not know raises Unsupported (undecided), never a verdict.
"""
import ast
import builtins as _builtins
from fractions import Fraction
import os

import z3
from . import core, arrays as A
from .core import *
from .core import Engine, Unsupported, PathEnd, PyExc, XR, Pt, coord
from .arrays import Arr, Cell

REPO = os.environ.get("PYVC_REPO", "/repo")


class Return(Exception):
    def __init__(self, value):
        self.value = value


class Break(Exception):
    pass


class Continue(Exception):
    pass


class BlackHole(object):
    """Result of logging calls and the like: any use gives another one."""


class Opaque(object):
    """A value about which nothing is known except its identity."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Opaque(%s)" % self.name


class ExtMod(object):
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "ext:" + self.path


class PModule(object):
    def __init__(self, name):
        self.name, self.env = name, {}


class PClass(object):
    def __init__(self, name, bases, env, module):
        self.name, self.bases, self.env, self.module = name, bases, env, module
        self.mro = self._mro()

    def _mro(self):
        r = [self]
        for b in self.bases:
            for c in (b.mro if isinstance(b, PClass) else [b]):
                if c in r:
                    r.remove(c)
                r.append(c)
        return r

    def find(self, name):
        for c in self.mro:
            if isinstance(c, PClass) and name in c.env:
                return c.env[name], c
        return None, None

    def __repr__(self):
        return "<class %s>" % self.name


class PFunc(object):
    def __init__(self, node, module, closure, cls=None, name=None):
        self.node, self.module, self.closure, self.cls = node, module, closure, cls
        self.name = name or getattr(node, "name", "<lambda>")
        self.defaults, self.kwdefaults = [], []
        self.kind = "func"     # func, property, setter pair, staticmethod
        self.setter = None

    @property
    def qual(self):
        return "%s:%s%s" % (self.module.name, (self.cls.name + "." if self.cls else ""), self.name)

    def __repr__(self):
        return "<func %s>" % self.qual


class Bound(object):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __eq__(self, o):
        return isinstance(o, Bound) and o.func is self.func and o.self_ is self.self_

    def __hash__(self):
        return hash((id(self.func), id(self.self_)))

    def __repr__(self):
        return "<bound %s>" % self.func


class Builtin(object):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class Obj(object):
    """Instance of a repo class (or of a modelled external class)."""

    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, dict(attrs or {})
        self.ext = {}      # model-private data
        E = Engine.cur
        if E is not None:
            E.registry.append(self)

    def get_state(self):
        return (dict(self.attrs), dict(self.ext))

    def set_state(self, s):
        a, e = dict(s[0]), dict(s[1])
        self.attrs.clear()
        self.attrs.update(a)
        self.ext.clear()
        self.ext.update(e)

    def __repr__(self):
        return "<%s object>" % (self.cls.name if isinstance(self.cls, PClass) else self.cls)


class PList(object):
    """Concrete-length Python list."""

    def __init__(self, items):
        self.items = list(items)
        E = Engine.cur
        if E is not None:
            E.registry.append(self)

    items_ = property(lambda s: s.items)
    append_log = None

    def get_state(self):
        return (PList, list(self.items))

    def set_state(self, s):
        set_list_state(self, s)

    def to_arr(self):
        return A.from_list(self.items)

    def __repr__(self):
        return "PList(%r)" % (self.items,)


class PDict(object):
    def __init__(self, items=()):
        self.d = dict(items)
        E = Engine.cur
        if E is not None:
            E.registry.append(self)

    def get_state(self):
        return dict(self.d)

    def set_state(self, s):
        self.d = dict(s)


class SymList(object):
    """List of symbolic length.  get(i) -> element; mset: Pt -> multiplicity (lists of points)."""

    def __init__(self, n, get, mset=None, kind="obj"):
        self.n, self.get, self.mset, self.kind = n, get, mset, kind
        E = Engine.cur
        if E is not None:
            E.registry.append(self)

    append_log = None

    def get_state(self):
        return (SymList, (self.n, self.get, self.mset, self.kind))

    def set_state(self, s):
        set_list_state(self, s)

    def to_arr(self):
        e = self.get(z3.Int("probe"))
        if is_scalar(e):
            g = self.get
            return A.new((self.n,), lambda idx: g(idx[0]), "i" if is_intlike(e) else "f")
        if isinstance(e, Arr) and len(e.shape) == 1:
            g = self.get
            row = None
            if e.pt is not None:
                row = lambda i: g(i).pt
            return A.new((self.n, e.shape[0]), lambda idx: g(idx[0]).at(idx[1]), e.dtype, row)
        raise Unsupported("list to array")

    def __repr__(self):
        return "SymList(n=%s)" % (self.n,)


def set_list_state(l, s):
    """A list may change between the concrete and the symbolic representation."""
    l.__class__ = s[0]
    if s[0] is PList:
        l.items = list(s[1])
    else:
        l.n, l.get, l.mset, l.kind = s[1]


class Rng(object):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class SymIter(object):
    """Symbolic iterable: length n, item(t)."""

    def __init__(self, n, item, src=None):
        self.n, self.item, self.src = n, item, src


class SType(object):
    """Name of a Python/external type used in isinstance or as a constructor."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, SType) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "<type %s>" % self.name


EXC = {"BaseException": None, "Exception": "BaseException", "ValueError": "Exception", "TypeError": "Exception",
       "AttributeError": "Exception", "AssertionError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError",
       "LookupError": "Exception", "IOError": "Exception", "OSError": "Exception", "ImportError": "Exception",
       "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "ZeroDivisionError": "ArithmeticError",
       "ArithmeticError": "Exception", "LinAlgError": "ValueError", "StopIteration": "Exception", "NameError": "Exception",
       "KeyboardInterrupt": "BaseException", "UnboundLocalError": "NameError", "FileNotFoundError": "OSError"}


def exc_isa(name, base):
    if base == "IOError":
        base = "OSError"
    while name is not None:
        if name == "IOError":
            name = "OSError"
        if name == base:
            return True
        name = EXC.get(name, "Exception" if name != "BaseException" else None)
    return False


class Env(object):
    """Variables of one function activation (locals) with enclosing scopes."""

    def __init__(self, module, parent=None, func=None):
        self.vars, self.module, self.parent, self.func = {}, module, parent, func
        self.globals_ = set()
        self.nonlocals = set()
        self.watch = {}      # variables of a loop whose annotation does not mention them: name -> (loop, name)

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                if name in e.watch:
                    Engine.cur.stale_reads.add(e.watch[name])
                return e.vars[name]
            e = e.parent
        if name in self.module.env:
            return self.module.env[name]
        raise KeyError(name)


class Interp(object):
    def __init__(self, E):
        self.E = E
        self.modules = {}
        self.contracts = {}       # qualified name -> handler(interp, func, args, kwargs)
        self.depth = 0
        from . import npmodel
        self.np = npmodel.Model(self)
        self.loop_hooks = []      # candidate invariant generators
        self.unroll_limit = 40
        self.builtins = self._builtins()
        self.loop_iter = 0
        self.module_sources = {}

    # ------------------------------------------------------------- modules
    def load_ext(self, name):
        """A pure Python dependency whose source is interpreted like the code of /repo (POAP)."""
        import glob
        r = glob.glob("/opt/venv/lib/python3*/site-packages/" + name.split(".")[0])
        if not r:
            raise Unsupported("source of " + name)
        return self.load(name, os.path.dirname(r[0]))

    def get_ext(self, mod, name):
        return self.load_ext(mod).env[name]

    def load(self, name, root=None):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(root or REPO, *name.split("."))
        if os.path.isdir(path):
            f = os.path.join(path, "__init__.py")
            pkg = True
        else:
            f = path + ".py"
            pkg = False
        if not os.path.exists(f):
            raise PyExc("ImportError", name)
        src = open(f).read()
        self.module_sources[name] = f
        m = PModule(name)
        m.pkg = pkg
        self.modules[name] = m
        m.env["__name__"] = name
        tree = ast.parse(src)
        env = Env(m)
        env.vars = m.env
        cur, Engine.cur = Engine.cur, None if Engine.cur is None else Engine.cur
        try:
            for st in tree.body:
                self.exec(st, env)
        finally:
            Engine.cur = cur
        return m

    def get(self, dotted):
        """'pySOT.utils:round_vars' or 'pySOT.strategy:SRBFStrategy'."""
        m, n = dotted.split(":")
        v = self.load(m).env
        parts = n.split(".")
        r = v[parts[0]]
        for p in parts[1:]:
            r = r.find(p)[0]
        return r

    def do_import(self, st, env):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.name.split(".")[0] == "pySOT":
                    self.load(a.name)
                    top = a.name.split(".")[0]
                    env.vars[a.asname or top] = self.load(a.name if a.asname else top)
                else:
                    env.vars[a.asname or a.name.split(".")[0]] = ExtMod(a.name if a.asname else a.name.split(".")[0])
            return
        mod = st.module or ""
        if st.level:
            base = env.module.name.split(".")
            if not getattr(env.module, "pkg", False):
                base = base[:-1]
            base = base[:len(base) - (st.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        if mod.split(".")[0] == "pySOT":
            m = self.load(mod)
            for a in st.names:
                if a.name in m.env:
                    env.vars[a.asname or a.name] = m.env[a.name]
                else:
                    env.vars[a.asname or a.name] = self.load(mod + "." + a.name)
        else:
            for a in st.names:
                env.vars[a.asname or a.name] = self.np.ext(mod + "." + a.name)

    # ---------------------------------------------------------- statements
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        return m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Import(self, s, env):
        self.do_import(s, env)

    s_ImportFrom = s_Import

    def s_Global(self, s, env):
        env.globals_.update(s.names)

    def s_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def s_FunctionDef(self, s, env):
        f = PFunc(s, env.module, env if (env.func is not None) else None)
        f.defaults = [self.ev(d, env) for d in s.args.defaults]
        f.kwdefaults = [None if d is None else (self.ev(d, env),) for d in s.args.kw_defaults]
        v = f
        for d in reversed(s.decorator_list):
            if isinstance(d, ast.Name) and d.id == "property":
                f.kind = "property"
            elif isinstance(d, ast.Name) and d.id == "staticmethod":
                f.kind = "static"
            elif isinstance(d, ast.Attribute) and d.attr == "setter":
                old = env.vars[d.value.id]
                old.setter = f
                f.cls = old.cls
                v = old
            else:
                nm = ast.unparse(d)
                if "abstractmethod" in nm:
                    f.abstract = True
                else:
                    raise Unsupported("decorator " + nm)
        env.vars[s.name] = v

    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        cenv = Env(env.module, env if env.func is not None else None)
        cenv.func = None
        for st in s.body:
            self.exec(st, cenv)
        c = PClass(s.name, bases, cenv.vars, env.module)
        for v in cenv.vars.values():
            if isinstance(v, PFunc) and v.cls is None:
                v.cls = c
                if v.setter is not None:
                    v.setter.cls = c
        env.vars[s.name] = c

    def s_Return(self, s, env):
        raise Return(None if s.value is None else self.ev(s.value, env))

    def s_Break(self, s, env):
        raise Break()

    def s_Continue(self, s, env):
        raise Continue()

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                i = self.ev(t.slice, env)
                if isinstance(o, PList):
                    if isinstance(i, int):
                        del o.items[i]
                        continue
                raise Unsupported("del item")
            else:
                raise Unsupported("del")

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.globals_:
                env.module.env[t.id] = v
            elif t.id in env.nonlocals:
                e = env.parent
                while e is not None:
                    if t.id in e.vars:
                        e.vars[t.id] = v
                        e.watch.pop(t.id, None)
                        return
                    e = e.parent
            else:
                env.vars[t.id] = v
                env.watch.pop(t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts))
            for tt, vv in zip(t.elts, vals):
                self.assign(tt, vv, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            self.setitem(o, i, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, (tuple, list)):
            r = list(v)
        elif isinstance(v, PList):
            r = list(v.items)
        elif isinstance(v, Arr):
            if not (isinstance(v.shape[0], int)):
                raise Unsupported("unpacking a symbolic array")
            r = [A.getitem(v, k) for k in range(v.shape[0])]
        else:
            raise Unsupported("unpack %r" % (v,))
        if len(r) != n:
            raise PyExc("ValueError", "unpack")
        return r

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            try:
                old = env.lookup(t.id)
            except KeyError:
                raise PyExc("UnboundLocalError", t.id)
            new = self.inplace(s.op, old, self.ev(s.value, env))
            self.assign(t, new, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(s.op, old, self.ev(s.value, env)))
        else:
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            old = self.getitem(o, i)
            v = self.ev(s.value, env)
            if isinstance(old, Arr):
                # numpy: o[i] = o[i] op v (gathered copy for fancy indices, view otherwise)
                new = self.binop(s.op, old, v)
                self.setitem(o, i, new)
            else:
                self.setitem(o, i, self.inplace(s.op, old, v))

    def inplace(self, op, old, v):
        if isinstance(old, Arr):
            new = self.binop(op, old, v)
            new = A.as_arr(new)
            if len(new.shape) != len(old.shape):
                raise PyExc("ValueError", "non-broadcastable output operand")
            if old.dtype == "i" and new.dtype == "f":
                raise PyExc("TypeError", "cannot cast in place")
            if len(old.shape) == 0:
                return new.at()
            A.setitem(old, tuple([slice(None)] * len(old.shape)), A.copy(new))
            return old
        if isinstance(old, PList) and isinstance(op, ast.Add):
            if isinstance(v, PList):
                old.items.extend(v.items)
                return old
            if isinstance(v, tuple):
                old.items.extend(v)
                return old
            raise Unsupported("list +=")
        return self.binop(op, old, v)

    def s_If(self, s, env):
        c = self.truthy(self.ev(s.test, env))
        if self.E.no_fork and self.E.undetermined(c):
            from . import loops
            return loops.merge_if(self, c, lambda: self.exec_block(s.body, env), lambda: self.exec_block(s.orelse, env), env)
        if self.E.branch(c):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise PyExc("AssertionError")

    def s_Raise(self, s, env):
        if s.exc is None:
            raise getattr(env, "current_exc", PyExc("RuntimeError"))
        v = self.ev(s.exc, env)
        if isinstance(v, PyExc):
            raise v
        if isinstance(v, SType):
            raise PyExc(v.name)
        if isinstance(v, Obj) and isinstance(v.cls, SType):
            raise PyExc(v.cls.name, value=v)
        raise Unsupported("raise %r" % (v,))

    def s_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ty = self.ev(h.type, env)
                        ok = any(isinstance(t, SType) and exc_isa(e.name, t.name) for t in (ty if isinstance(ty, tuple) else (ty,)))
                    if ok:
                        if h.name:
                            env.vars[h.name] = e
                        env.current_exc = e
                        self.exec_block(h.body, env)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        finally:
            if s.finalbody:
                self.exec_block(s.finalbody, env)

    def s_With(self, s, env):
        mgrs = []
        for it in s.items:
            m = self.ev(it.context_expr, env)
            v = self.np.ctx_enter(m)
            mgrs.append(m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        try:
            self.exec_block(s.body, env)
        finally:
            for m in reversed(mgrs):
                self.np.ctx_exit(m)

    def s_While(self, s, env):
        n = 0
        from . import loops
        spec = loops.spec_of(self, s, env)
        if spec is not None:
            return loops.annotated(self, s, env, spec, None)
        while True:
            c = self.ev(s.test, env)
            if isinstance(c, (Arr, PList, SymList, tuple, str, type(None))):
                b = self.truth(c)
                conc_ = True
            elif isinstance(c, (bool, int, float)):
                b, conc_ = bool(c), True
            else:
                b, conc_ = None, False
            if not conc_:
                from . import loops
                r = loops.while_loop(self, s, env, c, n)
                if r is not None:
                    return
                b = self.truth(c)
            if not b:
                break
            n += 1
            if n > self.unroll_limit:
                raise Unsupported("while loop does not finish within the unrolling limit")
            try:
                self.exec_block(s.body, env)
            except Break:
                return
            except Continue:
                pass
        self.exec_block(s.orelse, env)

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        seq = self.iterate(it)
        if isinstance(seq, SymIter):
            from . import loops
            loops.for_loop(self, s, env, seq)
            return
        if len(seq) > 4 * self.unroll_limit:
            raise Unsupported("long loop")
        if isinstance(it, PList):      # a list is read while it may grow or shrink
            def live():
                k = 0
                while k < len(it.items):
                    if k > 4 * self.unroll_limit:
                        raise Unsupported("long loop")
                    yield it.items[k]
                    k += 1
            seq = live()
        for v in seq:
            self.assign(s.target, v, env)
            try:
                self.exec_block(s.body, env)
            except Break:
                return
            except Continue:
                continue
        self.exec_block(s.orelse, env)

    # ------------------------------------------------------------ iteration
    def iterate(self, it):
        """-> list of values, or SymIter."""
        no_log(it)
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, PList):
            return list(it.items)
        if isinstance(it, PDict):
            return list(it.d)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, Rng):
            if all(isinstance(x, int) for x in (it.lo, it.hi, it.step)):
                return list(range(it.lo, it.hi, it.step))
            lo, hi, st = it.lo, it.hi, it.step
            if not isinstance(st, int) or st == 0:
                raise Unsupported("range step")
            n = sub(hi, lo) if st > 0 else sub(lo, hi)
            if abs(st) != 1:
                n = floordiv(add(n, abs(st) - 1), abs(st))
            if not self.E.must(ge(n, 0)):
                n = smax(n, 0)
            if is_z3(n):
                n = z3.simplify(n)
                if z3.is_int_value(n):
                    return [add(lo, mul(st, k)) for k in range(n.as_long())]
            return SymIter(n, lambda t: simp(add(lo, mul(st, t))), it)
        if isinstance(it, Arr):
            n = it.shape[0] if it.shape else None
            if n is None:
                raise PyExc("TypeError", "iteration over a 0-d array")
            if isinstance(n, int):
                return [A.getitem(it, k) for k in range(n)]
            c = A.copy(it) if False else it
            return SymIter(n, lambda t: unchecked_get(c, t), it)
        if isinstance(it, SymList):
            if isinstance(it.n, int):
                return [it.get(k) for k in range(it.n)]
            g = it.get
            return SymIter(it.n, lambda t: g(t), it)
        if isinstance(it, SymIter):
            return it
        if isinstance(it, BlackHole):
            return []
        raise Unsupported("iteration over %r" % (it,))

    # ---------------------------------------------------------- expressions
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        try:
            return env.lookup(e.id)
        except KeyError:
            if e.id in self.builtins:
                return self.builtins[e.id]
            if hasattr(_builtins, e.id):
                raise Unsupported("builtin %s" % e.id)
            raise PyExc("NameError", e.id)

    def e_Tuple(self, e, env):
        r = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                r.extend(self.iterate_conc(self.ev(x.value, env)))
            else:
                r.append(self.ev(x, env))
        return tuple(r)

    def e_List(self, e, env):
        return PList(self.e_Tuple(e, env))

    def e_Set(self, e, env):
        return PList(self.e_Tuple(e, env))

    def e_Dict(self, e, env):
        return PDict([(self.ev(k, env), self.ev(v, env)) for k, v in zip(e.keys, e.values)])

    def e_JoinedStr(self, e, env):
        parts = []
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                v = self.ev(x.value, env)
                if isinstance(v, Opaque) and hasattr(v, "t") and x.format_spec is None:
                    r = None
                    for y in e.values:
                        z = y.value if not isinstance(y, ast.FormattedValue) else self.ev(y.value, env)
                        r = z if r is None else self.binop(ast.Add(), r, z)
                    return r
                parts.append(str(v) if isinstance(v, (str, int, float)) and x.conversion in (-1, 115) and x.format_spec is None else "\x00")
            else:
                parts.append(x.value)
        return "".join(parts)

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        return self.getitem(self.ev(e.value, env), self.ev(e.slice, env))

    def e_Slice(self, e, env):
        g = lambda x: None if x is None else self.ev(x, env)
        return slice(g(e.lower), g(e.upper), g(e.step))

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, (z3.BoolRef,)):
                return b_not(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Arr):
                r = A.elementwise(neg, v, dtype=v.dtype)
                return r
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Arr) and v.dtype == "b":
                return A.elementwise(b_not, v, dtype="b")
            if isinstance(v, z3.BoolRef):
                return b_not(v)
        raise Unsupported("unary op")

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        if isinstance(op, ast.MatMult):
            return self.np.call("numpy.dot", [a, b], {})
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(op, ast.Add) and isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(op, ast.Mod):
                return "\x00"
            if isinstance(a, (str, Opaque)) and isinstance(b, (str, Opaque)) and isinstance(op, ast.Add):
                return self.np.str_concat(a, b)
            raise Unsupported("string operation")
        if isinstance(a, PList) and isinstance(b, PList) and isinstance(op, ast.Add):
            return PList(a.items + b.items)
        if isinstance(op, ast.Mult) and (isinstance(a, PList) or isinstance(b, PList)):
            l, k = (a, b) if isinstance(a, PList) else (b, a)
            if isinstance(k, int):
                return PList(l.items * k)
            if len(l.items) == 1 and is_z3(k):
                v = l.items[0]
                return SymList(smax(k, 0), lambda i: v)
            raise Unsupported("list repetition")
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, (PList, SymList)):
            if not isinstance(b, Arr):
                raise PyExc("TypeError", "unsupported operand")
            a = a.to_arr()
        if isinstance(b, (PList, SymList)):
            if not isinstance(a, Arr):
                raise PyExc("TypeError", "unsupported operand")
            b = b.to_arr()
        if a is None or b is None:
            raise PyExc("TypeError", "unsupported operand NoneType")
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.np.arith(type(op).__name__, a, b)
        if isinstance(a, (Obj, Opaque, BlackHole)) or isinstance(b, (Obj, Opaque, BlackHole)):
            raise Unsupported("operator on %r, %r" % (a, b))
        if not (is_scalar(a) and is_scalar(b)):
            raise Unsupported("operator on %r, %r" % (a, b))
        return self.scalar_op(type(op).__name__, a, b)

    def scalar_op(self, op, a, b):
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mult":
            return mul(a, b)
        if op == "Div":
            if is_sym(b) and not isinstance(b, XR):
                if not self.E.must(ne(b, 0)):
                    if self.E.branch(eq(b, 0)):
                        raise PyExc("ZeroDivisionError")
            return div(a, b)
        if op == "FloorDiv":
            return floordiv(a, b)
        if op == "Mod":
            return mod(a, b)
        if op == "Pow":
            return power(a, b)
        if op in ("BitAnd", "BitOr") and all(isinstance(x, (bool, z3.BoolRef)) for x in (a, b)):
            return b_and(a, b) if op == "BitAnd" else b_or(a, b)
        if conc(a) and conc(b):
            return {"BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b, "LShift": lambda: a << b, "RShift": lambda: a >> b}[op]()
        if op == "LShift" and isinstance(a, int) and a == 1:
            return power(2, b)
        raise Unsupported("operator " + op)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, z3.ExprRef) else False
            if not isand and t:
                return v if not isinstance(v, z3.ExprRef) else True
        return v

    def e_IfExp(self, e, env):
        c = self.truthy(self.ev(e.test, env))
        if self.E.no_fork and self.E.undetermined(c):
            from . import loops
            return loops.merge_if(self, c, lambda: self.ev(e.body, env), lambda: self.ev(e.orelse, env), env)
        return self.ev(e.body if self.E.branch(c) else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Compare(self, e, env):
        l = self.ev(e.left, env)
        r = None
        for op, c in zip(e.ops, e.comparators):
            rv = self.ev(c, env)
            x = self.compare(op, l, rv)
            if len(e.ops) == 1:
                return x
            if not self.truth(x):
                return False
            l = rv
            r = x
        return True

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b)
            return (b_not(r) if isinstance(op, ast.IsNot) else r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return b_not(r) if isinstance(op, ast.NotIn) else r
        nm = type(op).__name__
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None or isinstance(a, (str, Opaque)) or isinstance(b, (str, Opaque)):
                return nm == "NotEq"
            return self.np.cmp(nm, a, b)
        if isinstance(a, np_scalar_types) and isinstance(b, np_scalar_types):
            f = {"Lt": lt, "LtE": le, "Gt": gt, "GtE": ge, "Eq": eq, "NotEq": ne}[nm]
            return f(a, b)
        if nm in ("Eq", "NotEq"):
            r = self.equal(a, b)
            return r if nm == "Eq" else b_not(r)
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[nm]
        if isinstance(a, PList) and isinstance(b, PList):
            raise Unsupported("comparison of lists")
        if a is None or b is None or isinstance(a, (str, PList)) or isinstance(b, (str, PList)):
            raise PyExc("TypeError", "not comparable")
        raise Unsupported("comparison of %r and %r" % (a, b))

    def equal(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            if "\x00" in a or "\x00" in b:
                raise Unsupported("comparison of formatted strings")
            return a == b
        if a is None or b is None:
            return a is b
        if isinstance(a, (PList, tuple)) and isinstance(b, (PList, tuple)):
            x = a.items if isinstance(a, PList) else a
            y = b.items if isinstance(b, PList) else b
            if len(x) != len(y):
                return False
            return b_and(*[self.truthy(self.compare(ast.Eq(), p, q)) for p, q in zip(x, y)])
        if isinstance(a, Bound) or isinstance(b, Bound):
            return a == b
        if isinstance(a, (Obj, SType, PClass, PFunc)) or isinstance(b, (Obj, SType, PClass, PFunc)):
            return a is b or (isinstance(a, SType) and a == b)
        if is_scalar(a) and isinstance(b, str) or is_scalar(b) and isinstance(a, str):
            return False
        if isinstance(a, SymList) and isinstance(b, PList) and not b.items:
            return eq(a.n, 0)
        if isinstance(b, SymList) and isinstance(a, PList) and not a.items:
            return eq(b.n, 0)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if a is b:
                return True
            raise Unsupported("comparison of opaque values")
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            o = self.np.opaque_eq(a, b)
            if o is not None:
                return o
        raise Unsupported("equality of %r and %r" % (a, b))

    def identical(self, a, b):
        if a is None or b is None:
            for x in (a, b):
                if isinstance(x, OptVal):
                    return b_not(x.has)
            return a is None and b is None
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, z3.BoolRef) and isinstance(b, bool) or isinstance(b, z3.BoolRef) and isinstance(a, bool):
            return b_iff(a, b)
        if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
            return type(a) == type(b) and a == b
        return a is b

    def contains(self, c, x):
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, PDict):
            return x in c.d
        if isinstance(c, (PList, tuple, list)):
            items = c.items if isinstance(c, PList) else c
            r = False
            for it in items:
                if it is x:
                    return True
                v = self.compare(ast.Eq(), it, x)
                r = b_or(r, self.truthy(v))
            return r
        if isinstance(c, Arr) and len(c.shape) == 1 and is_scalar(x):
            return A.reduce_bool(A.elementwise(eq, c, x, dtype="b"), None, "any")
        if isinstance(c, Rng):
            return b_and(le(c.lo, x), lt(x, c.hi))
        raise Unsupported("membership test")

    def truthy(self, v):
        """Truth value as a formula."""
        if isinstance(v, (bool, z3.BoolRef)):
            return v
        if is_scalar(v):
            return ne(v, 0)
        if v is None:
            return False
        if isinstance(v, (PList,)):
            return len(v.items) > 0
        if isinstance(v, PDict):
            return len(v.d) > 0
        if isinstance(v, SymList):
            return gt(v.n, 0)
        if isinstance(v, (str, tuple)):
            return len(v) > 0
        if isinstance(v, Arr):
            if all(isinstance(s, int) and s == 1 for s in v.shape) or not v.shape:
                return self.truthy(v.at(*[0] * len(v.shape)))
            if len(v.shape) == 1 and is_z3(v.shape[0]):
                if self.E.must(eq(v.shape[0], 1)):
                    return self.truthy(v.at(0))
            if any(isinstance(s, int) and s > 1 for s in v.shape):
                raise PyExc("ValueError", "truth value of an array is ambiguous")
            raise Unsupported("truth of an array")
        if isinstance(v, (Obj, PFunc, Bound, PClass, Builtin, SType, Opaque)):
            return True
        if isinstance(v, Rng):
            return gt(v.hi, v.lo)
        raise Unsupported("truth of %r" % (v,))

    def truth(self, v):
        return self.E.branch(self.truthy(v))

    def e_Lambda(self, e, env):
        f = PFunc(e, env.module, env)
        f.defaults = [self.ev(d, env) for d in e.args.defaults]
        f.kwdefaults = []
        return f

    def e_ListComp(self, e, env):
        return self.comp(e, env)

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env)

    def e_SetComp(self, e, env):
        return self.comp(e, env)

    def comp(self, e, env):
        sub_ = Env(env.module, env, env.func or "comp")
        out = []
        if len(e.generators) == 1:
            g = e.generators[0]
            seq = self.iterate(self.ev(g.iter, env))
            if isinstance(seq, SymIter):
                from . import loops
                return loops.sym_comp(self, e, sub_, g, seq)
        self._comp(e, sub_, 0, out)
        return PList(out)

    def _comp(self, e, env, k, out):
        if k == len(e.generators):
            out.append(self.ev(e.elt, env))
            return
        g = e.generators[k]
        seq = self.iterate(self.ev(g.iter, env))
        if isinstance(seq, SymIter):
            raise Unsupported("nested symbolic comprehension")
        for v in seq:
            self.assign(g.target, v, env)
            if all(self.truth(self.ev(c, env)) for c in g.ifs):
                self._comp(e, env, k + 1, out)

    def e_Call(self, e, env):
        # super()
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            ee = env
            while ee.func is None or not isinstance(ee.func, PFunc) or ee.func.cls is None:
                ee = ee.parent
                if ee is None:
                    raise Unsupported("super outside method")
            cls = ee.func.cls
            self_ = ee.vars[ee.func.node.args.args[0].arg]
            f = self.super_attr(cls, self_, e.func.attr)
        else:
            f = self.ev(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate_conc(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                kw.update(d.d)
            else:
                kw[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kw)

    def iterate_conc(self, v):
        s = self.iterate(v)
        if isinstance(s, SymIter):
            raise Unsupported("symbolic sequence")
        return s

    def super_attr(self, cls, self_, name):
        mro = self_.cls.mro if isinstance(self_, Obj) else cls.mro
        i = mro.index(cls)
        for c in mro[i + 1:]:
            if isinstance(c, PClass):
                if name in c.env:
                    return Bound(c.env[name], self_)
            else:
                v = self.np.ext_class_attr(c, name)
                if v is not None:
                    return Bound(v, self_)
        if name == "__init__":
            return Builtin("object.__init__", lambda *a, **k: None)
        raise PyExc("AttributeError", name)

    # --------------------------------------------------------------- calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, PFunc):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.func, PFunc):
                return self.call_func(f.func, [f.self_] + list(args), kw)
            return f.func(f.self_, args, kw)
        if isinstance(f, PClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, Builtin):
            return f.fn(*args, **kw)
        if isinstance(f, ExtMod):
            return self.np.call(f.path, args, kw)
        if isinstance(f, SType):
            return self.np.construct(f, args, kw)
        if isinstance(f, BlackHole):
            return BlackHole()
        if callable(f):
            return f(args, kw)
        if isinstance(f, Obj) and isinstance(f.cls, PClass):
            m, c = f.cls.find("__call__")
            if m is not None:
                return self.call_func(m, [f] + list(args), kw)
        if f is None:
            raise PyExc("TypeError", "not callable")
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, cls, args, kw):
        if any(isinstance(c, SType) and c.name in EXC for c in cls.mro):
            return PyExc(cls.name)
        for c in cls.mro:
            if isinstance(c, PClass):
                for v in c.env.values():
                    if isinstance(v, PFunc) and getattr(v, "abstract", False):
                        impl, owner = cls.find(v.name)
                        if impl is v and any(isinstance(b, SType) and b.name == "ABC" for b in cls.mro):
                            raise PyExc("TypeError", "abstract class")
        o = Obj(cls)
        self.np.init_ext_bases(o)
        init, _ = cls.find("__init__")
        if init is not None:
            self.call_func(init, [o] + list(args), kw)
        else:
            for c in cls.mro:
                if not isinstance(c, PClass):
                    v = self.np.ext_class_attr(c, "__init__")
                    if v is not None:
                        v(o, args, kw)
                        break
        return o

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vars_ = {}
        args = list(args)
        if len(args) > len(names) and a.vararg is None:
            raise PyExc("TypeError", "too many arguments to %s" % f.name)
        for n, v in zip(names, args):
            vars_[n] = v
        if a.vararg is not None:
            vars_[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in konly:
                if k in vars_:
                    raise PyExc("TypeError", "multiple values for " + k)
                vars_[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyExc("TypeError", "unexpected argument " + k)
        if a.kwarg is not None:
            vars_[a.kwarg.arg] = PDict(extra.items())
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vars_:
                j = i - (len(names) - nd)
                if j < 0:
                    raise PyExc("TypeError", "missing argument %s of %s" % (n, f.name))
                vars_[n] = f.defaults[j]
        for n, d in zip(konly, f.kwdefaults):
            if n not in vars_:
                if d is None:
                    raise PyExc("TypeError", "missing argument " + n)
                vars_[n] = d[0]
        return vars_

    def call_func(self, f, args, kw):
        h = self.contracts.get(f.qual)
        if h is not None:
            r = h(self, f, self.bind(f, args, kw))
            if r is not NotImplemented:
                return r
        self.E.funcs[f.qual] = self.E.funcs.get(f.qual, 0) + 1
        env = Env(f.module, f.closure, f)
        env.vars = self.bind(f, args, kw)
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported("recursion")
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            if is_generator(f.node):
                raise Unsupported("generator function")
            try:
                self.exec_block(f.node.body, env)
            except Return as r:
                return r.value
            return None
        finally:
            self.depth -= 1

    # ---------------------------------------------------------- attributes
    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return PDict(o.attrs.items())
            if isinstance(o.cls, PClass):
                v, c = o.cls.find(name)
                if v is not None:
                    if isinstance(v, PFunc):
                        if v.kind == "property":
                            return self.call_func(v, [o], {})
                        if v.kind == "static":
                            return v
                        return Bound(v, o)
                    return v
            v = self.np.obj_attr(o, name)
            if v is not NotImplemented:
                return v
            raise PyExc("AttributeError", name)
        if isinstance(o, PModule):
            if name in o.env:
                return o.env[name]
            try:
                return self.load(o.name + "." + name)
            except PyExc:
                raise PyExc("AttributeError", name)
        if isinstance(o, ExtMod):
            return self.np.ext(o.path + "." + name)
        if isinstance(o, PClass):
            v, c = o.find(name)
            if v is not None:
                return v
            if name == "__name__":
                return o.name
            raise PyExc("AttributeError", name)
        if isinstance(o, BlackHole):
            return BlackHole()
        return self.np.value_attr(o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if isinstance(o.cls, PClass):
                p, c = o.cls.find(name)
                if isinstance(p, PFunc) and p.kind == "property":
                    if p.setter is None:
                        raise PyExc("AttributeError", name)
                    self.call_func(p.setter, [o, v], {})
                    return
            self.np.obj_setattr(o, name, v)
            o.attrs[name] = v
            return
        if isinstance(o, (PClass, PModule)):
            raise Unsupported("assignment to a class or module attribute")
        if isinstance(o, Arr) and name == "shape":
            raise Unsupported("shape assignment")
        if isinstance(o, BlackHole):
            return
        raise Unsupported("setattr on %r" % (o,))

    def getitem(self, o, i):
        no_log(o)
        if isinstance(o, Arr):
            return A.getitem(o, self.key(i))
        if isinstance(o, PList):
            if isinstance(i, slice):
                if all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                    return PList(o.items[i])
                raise Unsupported("symbolic list slice")
            if isinstance(i, int):
                try:
                    return o.items[i]
                except IndexError:
                    raise PyExc("IndexError")
            if is_z3(i) and z3.is_int(i):
                i = A.norm_index(i, len(o.items))
                if isinstance(i, int):
                    return o.items[i]
                if all(is_scalar(x) for x in o.items):
                    r = o.items[-1]
                    for k in range(len(o.items) - 2, -1, -1):
                        r = ite(eq(i, k), o.items[k], r)
                    return r
                for k in range(len(o.items) - 1):
                    if self.E.branch(eq(i, k)):
                        return o.items[k]
                return o.items[-1]
            if is_scalar(i) or isinstance(i, (Arr, tuple)):
                raise PyExc("TypeError", "list indices must be integers")
        if isinstance(o, SymList):
            if isinstance(i, slice):
                st, ln, sp = A.norm_slice((i.start, i.stop, i.step), o.n)
                g = o.get
                return SymList(ln, lambda k: g(add(st, mul(sp, k))), None, o.kind)
            i = A.norm_index(i, o.n)
            return o.get(i)
        if isinstance(o, (tuple, str)):
            if isinstance(i, slice):
                return o[i]
            if isinstance(i, int):
                try:
                    return o[i]
                except IndexError:
                    raise PyExc("IndexError")
            raise Unsupported("symbolic tuple index")
        if isinstance(o, PDict):
            if i in o.d:
                return o.d[i]
            raise PyExc("KeyError", str(i))
        if o is None:
            raise PyExc("TypeError", "None is not subscriptable")
        if is_scalar(o):
            raise PyExc("TypeError", "scalar is not subscriptable")
        raise Unsupported("getitem on %r" % (o,))

    def key(self, i):
        if isinstance(i, tuple):
            return tuple(self.key1(x) for x in i)
        return self.key1(i)

    def key1(self, x):
        if isinstance(x, PList):
            return A.from_list(x.items, "i" if not x.items else None)
        if isinstance(x, SymList):
            return x.to_arr()
        if isinstance(x, tuple):     # e.g. the result of np.where used as one index
            return A.from_list(list(x))
        if isinstance(x, XR):
            raise PyExc("IndexError", "only integers are valid indices")
        if isinstance(x, float) or (is_z3(x) and z3.is_real(x)):
            raise PyExc("IndexError", "only integers are valid indices")
        return x

    def setitem(self, o, i, v):
        if isinstance(o, Arr):
            if isinstance(v, (PList, SymList)):
                v = v.to_arr()
            if v is None:
                raise PyExc("TypeError", "None assigned to array")
            k = self.key(i)
            A.setitem(o, k, v)
            return
        if isinstance(o, PList):
            if isinstance(i, int):
                try:
                    o.items[i] = v
                    return
                except IndexError:
                    raise PyExc("IndexError")
            raise Unsupported("symbolic list store")
        if isinstance(o, SymList):
            i = A.norm_index(i, o.n)
            g = o.get
            if is_scalar(v):
                o.get = lambda k: ite(eq(k, i), v, g(k))
                o.mset = None
                return
            raise Unsupported("store into a symbolic list")
        if isinstance(o, PDict):
            o.d[i] = v
            return
        raise Unsupported("setitem on %r" % (o,))

    # ------------------------------------------------------------ builtins
    def _builtins(self):
        from . import npmodel
        return npmodel.builtins(self)


class OptVal(object):
    """A value or None, where no case distinction is possible."""

    def __init__(self, has, value):
        self.has, self.value = has, value


np_scalar_types = (int, float, Fraction, z3.ArithRef, z3.BoolRef, XR)


def no_log(o):
    if getattr(o, "append_log", None) is not None:
        raise Unsupported("list read in the loop that extends it")


def is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def simp(x):
    if is_z3(x):
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long()
    return x


def unchecked_get(a, t):
    """Element/row t of an array, with t known to be in range."""
    dims = list(a.dims) if a.dims is not None else [("dim", k, 0, 1) for k in range(len(a.shape))]
    nd = []
    for d in dims:
        if d[0] == "fix":
            nd.append(d)
        elif d[1] == 0:
            nd.append(("fix", simp(add(d[2], mul(d[3], t)))))
        else:
            nd.append(("dim", d[1] - 1, d[2], d[3]))
    if is_z3(t):
        Engine.cur.touch(t)
    if len(a.shape) == 1:
        return a.cell.fn(tuple(x[1] for x in nd))
    return Arr(a.cell, a.shape[1:], nd)
