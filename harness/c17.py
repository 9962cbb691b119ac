"""C17 checkpoints: fault injection at every file operation of save, and currency of the file after every event."""
import builtins
import io
import os
import shutil
import tempfile

import dill
import numpy as np
from poap.controller import Controller, SerialController
from pySOT.controller import CheckpointController
from . import gen, hist
from .common import Inconclusive, Violation, case, require

NAMES = ["rename", "replace", "remove", "unlink", "link", "symlink", "truncate", "fsync", "mkdir", "rmdir", "write", "ftruncate"]


class Fault:
    """Counts file operations and stops the process (or raises) at the k-th, half way through a write."""

    def __init__(self, k, mode):
        self.k, self.mode, self.n = k, mode, 0

    def hit(self):
        self.n += 1
        return self.n == self.k

    def stop(self):
        if self.mode == "exit":
            os._exit(77)
        raise OSError(28, "no space left on device (injected)")


class File:
    def __init__(self, f, fault):
        self.__dict__["f"], self.__dict__["fault"] = f, fault

    def write(self, data):
        if self.fault.hit():
            b = bytes(data) if not isinstance(data, str) else data
            self.f.write(b[: len(b) // 2])
            self.f.flush()
            self.fault.stop()
        return self.f.write(data)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def flush(self):
        if self.fault.hit():
            self.fault.stop()
        return self.f.flush()

    def close(self):
        if not self.f.closed and self.fault.hit():
            if self.fault.mode == "exit":
                self.fault.stop()
            self.f.close()
            self.fault.stop()
        return self.f.close()

    def truncate(self, *a):
        if self.fault.hit():
            self.fault.stop()
        return self.f.truncate(*a)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, n):
        return getattr(self.f, n)

    def __iter__(self):
        return iter(self.f)


def child(strategy, fname, k, mode):
    """Run strategy.save(fname) in a child process with a fault at operation k; -> (stopped, operations)"""
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            fault = Fault(k, mode)
            real_open, funcs = builtins.open, {n: getattr(os, n) for n in NAMES if hasattr(os, n)}

            def fopen(file, m="r", *a, **kw):
                if isinstance(m, str) and any(c in m for c in "wax+"):
                    if fault.hit():
                        fault.stop()
                    f = real_open(file, m, *a, **kw)
                    if fault.hit():  # opened (truncated), nothing written yet
                        if mode != "exit":
                            f.close()
                        fault.stop()
                    return File(f, fault)
                return real_open(file, m, *a, **kw)

            def wrap(n, fn):
                def g(*a, **kw):
                    if fault.hit():
                        fault.stop()
                    return fn(*a, **kw)
                return g
            builtins.open = io.open = fopen
            for n, fn in funcs.items():
                setattr(os, n, wrap(n, fn))
            try:
                strategy.save(fname)
                code = 60
            except OSError:
                code = 71
            finally:
                builtins.open = io.open = real_open
                for n, fn in funcs.items():
                    setattr(os, n, fn)
        except BaseException:
            code = 72
        os._exit(code)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st)


def load(path):
    with open(path, "rb") as f:
        return dill.load(f)


def same(a, b):
    return (np.array_equal(a.X, b.X) and np.array_equal(a.fX, b.fX) and np.array_equal(a.Xpend, b.Xpend) and a.num_evals == b.num_evals
            and a.pending_evals == b.pending_evals and len(a.batch_queue) == len(b.batch_queue) and a.phase == b.phase and a.terminate == b.terminate)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c17_")
        self.old = os.getcwd()
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d)


def location(r, d):
    k = r.randint(4)
    if k == 0:
        return "run.pysot"
    if k == 1:
        os.makedirs(os.path.join(d, "sub dir"))
        return os.path.join("sub dir", "run.pysot")
    if k == 2:
        os.makedirs(os.path.join(d, "a", "b"))
        return os.path.join(d, "a", "b", "state")
    os.makedirs(os.path.join(d, "x"))
    return os.path.join(".", "x", "..", "x", "run.pysot")


@case("C17", n=24, cpu=60)
def crash_during_save(ctx):
    r = ctx.rng
    cfg = hist.config(ctx, which=str(r.choice(["SRBF", "DYCORS", "SOP", "EI", "LCB"])), num_cand=5)
    h = hist.History(ctx, cfg, checks=())
    h.run(r.randint(0, 25))
    earlier = r.rand() < 0.75
    with Scratch() as d:
        fname = location(r, d)
        ctx.note(fname=fname, earlier=earlier)
        old = None
        if earlier:
            h.s.save(fname)
            require(os.path.isfile(fname), "no file after save")
            old = load(fname)
            require(same(old, h.s), "the saved snapshot is not the state of the strategy")
            h.stopped = False
            if not h.s.terminate:
                h.run(r.randint(1, 8))
        new = dill.loads(dill.dumps(h.s))
        content = open(fname, "rb").read() if earlier else None
        stops = 0
        for mode in ("exit", "raise"):
            for k in range(1, 60):
                for f in os.listdir(os.path.dirname(os.path.abspath(fname))):  # back to the state before this attempt
                    os.unlink(os.path.join(os.path.dirname(os.path.abspath(fname)), f)) if os.path.isfile(os.path.join(os.path.dirname(os.path.abspath(fname)), f)) else None
                if earlier:
                    with open(fname, "wb") as f:
                        f.write(content)
                code = child(h.s, fname, k, mode)
                if code in (77, 71):
                    stops += 1
                ctx.event(mode, k, code)
                if code == 72:
                    raise Inconclusive("save failed in the child process")
                if not os.path.isfile(fname):
                    require(not earlier, "the checkpoint is gone after a %s at operation %d" % ("crash" if mode == "exit" else "write error", k))
                    require(code != 60, "no checkpoint after save")
                else:
                    try:
                        got = load(fname)
                    except Exception as e:
                        raise Violation("the checkpoint cannot be loaded after a %s at operation %d of save: %s" % ("crash" if mode == "exit" else "write error", k, e))
                    require(same(got, new) or (old is not None and same(got, old)), "the checkpoint is neither the earlier nor the new snapshot")
                if code == 60:
                    require(same(load(fname), new), "after an undisturbed save the file is not the new snapshot")
                    break
        if stops < 4:
            raise Inconclusive("the injected faults did not reach the file operations of save")


class Scripted(Controller):
    """A controller whose events are decided by the case; several evaluations may be outstanding."""

    def __init__(self, ctx, value, workers, p_reject, p_fail, limit):
        super().__init__()
        self.ctx, self.value, self.workers, self.p_reject, self.p_fail, self.limit = ctx, value, workers, p_reject, p_fail, limit
        self.out, self.after, self.n = [], None, 0

    def run(self):
        try:
            return self._run()
        finally:
            self.call_term_callbacks()
            if self.after:
                self.after("terminated", None)

    def _run(self):
        r = self.ctx.rng
        for _ in range(self.limit):
            if len(self.out) < self.workers and (r.rand() < 0.6 or not self.out):
                p = self.strategy.propose_action()
                if p is None:
                    pass
                elif p.action == "terminate":
                    p.accept()
                    return self.best_point()
                elif r.rand() < self.p_reject:
                    p.reject()
                    continue
                else:
                    p.record = self.new_feval(p.args)
                    p.accept()
                    self.out.append(p.record)
                    continue
            if self.out:
                rec = self.out.pop(r.randint(len(self.out)))
                if r.rand() < 0.2:
                    rec.running()
                how = "complete" if r.rand() >= self.p_fail else ["kill", "cancel"][r.randint(2)]
                self.n += 1
                if how == "complete":
                    rec.complete(self.value(rec.params[0]))
                else:
                    getattr(rec, how)()
                if self.after:
                    self.after(how, rec)
        return self.best_point()


@case("C17", n=40, cpu=60)
def current_after_every_event(ctx):
    r = ctx.rng
    cfg = hist.config(ctx, which=str(r.choice(["SRBF", "DYCORS", "SOP"])), num_cand=5)
    cfg["max_evals"] = cfg["num_pts"] + int(r.choice([2, 6, 15]))
    s, sur, D = hist.build(cfg, ctx)
    done = []

    def value(x):
        return float(gen.hashed(x)[0])
    with Scratch() as d:
        fname = location(r, d)
        c = Scripted(ctx, value, cfg["workers"], cfg["p_reject"], cfg["p_fail"], r.randint(5, 60))
        c.strategy = s
        extra = len(s.X)

        def after(how, rec):
            ctx.event(how)
            if how == "complete":
                done.append(rec)
            if not os.path.isfile(fname):
                raise Violation("no checkpoint on disk after an evaluation was %s" % how if rec is not None else "no checkpoint on disk after termination")
            try:
                got = load(fname)
            except Exception as e:
                raise Violation("the checkpoint cannot be loaded after event %s: %s" % (how, e))
            require(got.num_evals == len(done) and len(got.X) == extra + len(done), "after event %s the checkpoint holds %d of %d completed evaluations" % (how, got.num_evals, len(done)))
            require(got.pending_evals == len(c.out), "after event %s the checkpoint lists %d outstanding evaluations, there are %d" % (how, got.pending_evals, len(c.out)))
            require(same(got, s), "after event %s the checkpoint is not the state of the strategy" % how)
        c.after = after
        CheckpointController(c, fname=fname).run()


@case("C17", n=12, cpu=60)
def library_controller(ctx):
    """With the serial controller: read the checkpoint whenever the objective function is called."""
    r = ctx.rng
    cfg = hist.config(ctx, which=str(r.choice(["SRBF", "DYCORS"])), num_cand=5, asynchronous=True, use_restarts=True)
    cfg["max_evals"] = cfg["num_pts"] + 6
    s, sur, D = hist.build(cfg, ctx)
    with Scratch() as d:
        fname = location(r, d)
        n = [0]

        def f(x):
            if n[0]:
                require(os.path.isfile(fname), "no checkpoint after the first completed evaluation")
                require(load(fname).num_evals == n[0], "the checkpoint holds %d of %d completed evaluations" % (load(fname).num_evals, n[0]))
            n[0] += 1
            return float(gen.hashed(x)[0])
        c = SerialController(f)
        c.strategy = s
        CheckpointController(c, fname=fname).run()
        got = load(fname)
        require(got.num_evals == cfg["max_evals"] and got.terminate, "the final checkpoint is not the state at termination")


@case("C17", n=30)
def no_overwrite(ctx):
    r = ctx.rng
    cfg = hist.config(ctx, which="SRBF", num_cand=5)
    s, sur, D = hist.build(cfg, ctx)
    with Scratch() as d:
        fname = location(r, d)
        with open(fname, "wb") as f:
            f.write(b"precious")
        n = [0]

        def f(x):
            n[0] += 1
            return 0.0
        c = SerialController(f, skip=True)
        c.strategy = s
        try:
            CheckpointController(c, fname=fname).run()
        except (IOError, OSError):
            pass
        else:
            raise Violation("a fresh run started although a checkpoint exists at %s" % fname)
        require(n[0] == 0, "evaluations were started")
        require(open(fname, "rb").read() == b"precious", "the existing checkpoint was changed")
