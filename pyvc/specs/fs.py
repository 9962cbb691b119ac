"""A file system as ghost state: what a process that reads the disk after a crash would find (C17, C18).

Assumed of the operating system (POSIX, one directory): open for writing empties the file; what is written is on disk only when the file
was closed or flushed (before that, any part of it may be); rename and replace put the new file in place of the old one in one step.
Assumed of dill: load of a file written completely by one dump returns the object in the state it had at the dump."""
from .common import *
from ..interp import Opaque, SType


class SStr(Opaque):
    """A string value with a z3 String term."""

    def __init__(self, t):
        Opaque.__init__(self, "str")
        self.t = t


class Content(object):
    def __init__(self, kind, obj=None, version=None):
        self.kind, self.obj, self.version = kind, obj, version     # kind: absent, partial, snapshot

    def __repr__(self):
        return "%s %s" % (self.kind, self.version)


class FS(object):
    def __init__(self, I, version):
        self.I, self.E = I, I.E
        E = self.E
        self.version = version               # obj -> current version of the object
        S = z3.StringSort()
        self.join = E.Func("join", S, S, S)
        self.dirname, self.base = z3.String("dirname"), z3.String("base")
        E.assume(z3.Not(z3.Contains(self.base, z3.StringVal("/"))))
        self.fname = SStr(self.join(self.dirname, self.base))
        self.files = []                      # [(term, Content)]
        self.trace, self.on_point = [], None
        n = I.np
        n.str_concat = lambda a, b: SStr(z3.Concat(self.term(a), self.term(b)))
        n.opaque_eq = lambda a, b: self.term(a) == self.term(b) if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)) else None
        x = n.extra
        x["os.path.split"] = self.split
        x["os.path.dirname"] = lambda p: self.split(p)[0]
        x["os.path.basename"] = lambda p: self.split(p)[1]
        x["os.path.join"] = self.path_join
        for k in ("os.path.isfile", "os.path.exists"):
            x[k] = lambda p: self.get(p).kind != "absent"
        for k in ("os.rename", "os.replace"):
            x[k] = self.rename
        for k in ("os.remove", "os.unlink"):
            x[k] = self.remove
        x["os.fsync"] = lambda h: h.ext["sync"]() if isinstance(h, Obj) and "sync" in h.ext else None
        x["builtins.open"] = self.open
        x["dill.dump"] = self.dump
        x["dill.dumps"] = self.dumps
        x["dill.load"] = self.load
        x["dill.HIGHEST_PROTOCOL"] = 4
        x["copy.copy"] = lambda o: PList(list(o.items)) if isinstance(o, PList) else o

    # ------------------------------------------------------------- strings
    def term(self, s):
        if isinstance(s, SStr):
            return s.t
        if isinstance(s, str):
            if "\x00" in s:
                raise Unsupported("formatted string as a path")
            return z3.StringVal(s)
        raise Unsupported("path %r" % (s,))

    def split(self, p):
        t = self.term(p)
        if not self.E.must(t == self.fname.t):
            raise Unsupported("os.path.split of another path")
        return (SStr(self.dirname), SStr(self.base))

    def path_join(self, *a):
        if len(a) != 2:
            raise Unsupported("os.path.join")
        d, b = self.term(a[0]), self.term(a[1])
        self.E.prove("file names have no directory separator", z3.Not(z3.Contains(b, z3.StringVal("/"))))
        # two file names in one directory are one file exactly if they are equal
        r = self.join(d, b)
        for t, d2, b2 in self.joined():
            self.E.assume(z3.Implies(z3.And(d == d2, r == t), b == b2))
        self._joined.append((r, d, b))
        return SStr(r)

    def joined(self):
        if not hasattr(self, "_joined"):
            self._joined = [(self.fname.t, self.dirname, self.base)]
        return list(self._joined)

    # --------------------------------------------------------------- state
    def find(self, p):
        t = self.term(p)
        for k, (u, c) in enumerate(self.files):
            if self.E.branch(t == u):
                return k
        raise Unsupported("state of another file")

    def get(self, p):
        return self.files[self.find(p)][1]

    def put(self, p, c, what):
        t = self.term(p)
        for k, (u, _) in enumerate(self.files):
            if self.E.branch(t == u):
                self.files[k] = (u, c)
                break
        else:
            self.files.append((t, c))
        self.trace.append(what)
        if self.on_point:
            self.on_point(what)

    def main(self):
        return self.files[0][1]

    # ----------------------------------------------------------- operations
    def open(self, p, mode="r", *a, **k):
        if mode in ("rb", "r"):
            c = self.get(p)
            if c.kind == "absent":
                raise PyExc("FileNotFoundError", "no such file")
            h = Obj(SType("file"))
            h.ext.update(content=c, path=p, exit=lambda: None)
            h.attrs["close"] = Builtin("close", lambda: None)
            h.attrs["read"] = Builtin("read", lambda: c)
            return h
        if mode not in ("wb", "xb", "wb+", "w+b"):
            raise Unsupported("open mode " + str(mode))
        if mode == "xb" and self.get(p).kind != "absent":
            raise PyExc("FileExistsError", "file exists")
        self.put(p, Content("partial"), "open for writing")
        h = Obj(SType("file"))
        st = {"data": None, "n": 0, "closed": False}

        def write(c):
            if st["closed"]:
                raise PyExc("ValueError", "I/O operation on closed file")
            st["n"] += 1
            st["data"] = c if st["n"] == 1 else Content("partial")
            self.put(p, Content("partial"), "write")

        def sync():
            if not st["closed"]:
                self.put(p, st["data"] or Content("partial"), "flush")

        def close():
            if not st["closed"]:
                st["closed"] = True
                self.put(p, st["data"] or Content("partial"), "close")
        h.ext.update(write=write, sync=sync, exit=close, path=p)
        h.attrs.update(write=Builtin("write", lambda c: write(c if isinstance(c, Content) else self.bad())), flush=Builtin("flush", sync),
                       close=Builtin("close", close), fileno=Builtin("fileno", lambda: h))
        return h

    def bad(self):
        raise Unsupported("write of something else")

    def dump(self, o, h, *a, **k):
        if not (isinstance(h, Obj) and "write" in h.ext):
            raise Unsupported("dump to something else")
        h.ext["write"](Content("snapshot", o, self.version(o)))

    def dumps(self, o, *a, **k):
        return Content("snapshot", o, self.version(o))

    def load(self, h, *a, **k):
        c = h.ext.get("content")
        if c is None or c.kind == "absent":
            raise Unsupported("load")
        if c.kind == "partial":
            raise PyExc("EOFError", "truncated snapshot")
        return c.obj

    def rename(self, a, b):
        c = self.get(a)
        if c.kind == "absent":
            raise PyExc("FileNotFoundError", "no such file")
        i = self.find(a)
        t = self.term(b)
        if self.E.branch(self.term(a) == t):
            return
        self.files[i] = (self.files[i][0], Content("absent"))
        self.put(b, c, "rename")

    def remove(self, p):
        if self.get(p).kind == "absent":
            raise PyExc("FileNotFoundError", "no such file")
        self.put(p, Content("absent"), "remove")
