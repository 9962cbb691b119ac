"""C17: checkpoints are complete, current and loadable."""
from .fs import *

CC = "pySOT.controller.controller:CheckpointController"
SB = "pySOT.strategy.surrogate_strategy:SurrogateBaseStrategy"
STRATS = ["pySOT.strategy.srbf_strategy:SRBFStrategy", "pySOT.strategy.dycors_strategy:DYCORSStrategy", "pySOT.strategy.ei_strategy:EIStrategy",
          "pySOT.strategy.lcb_strategy:LCBStrategy", "pySOT.strategy.sop_strategy:SOPStrategy"]


def save(I, cls):
    """save(), run twice on a disk in any state a crash may have left, looked at after every single operation."""
    E = I.E
    cur = {"v": 1}
    s = Obj(I.get(cls))
    fs = FS(I, lambda o: cur["v"])
    have = E.choose(2) == 1
    stale = E.choose(2) == 1
    fs.files = [(fs.fname.t, Content("snapshot", s, 0) if have else Content("absent"))]
    t = fs.path_join(SStr(fs.dirname), SStr(z3.Concat(z3.StringVal("temp_"), fs.base))).t
    fs.files.append((t, Content("partial" if stale else "absent")))      # an earlier process may have stopped while it was writing

    def at(what):
        c = fs.main()
        ok = c.kind == "snapshot" and c.obj is s and c.version in (fs.before, cur["v"]) or c.kind == "absent" and fs.before is None
        E.prove("if the process stops now, the checkpoint is absent only if none was ever finished, and otherwise complete (%s)" % what, ok)
    fs.on_point = at
    for k in (1, 2):
        cur["v"] = k
        fs.before = fs.main().version if fs.main().kind == "snapshot" else None
        try:
            I.call(I.getattr(s, "save"), [fs.fname])
        except PyExc as e:
            E.prove("saving succeeds (%s)" % e.args[0], False)
            return
        c = fs.main()
        E.prove("after saving, the checkpoint is the complete current state of the strategy", c.kind == "snapshot" and c.obj is s and c.version == k)
    r = fs.load(fs.open(fs.fname, "rb"))
    E.prove("the checkpoint is loaded as the strategy", r is s)


class Run(object):
    """poap's controller, a checkpoint controller, and a strategy of which only save and its event callback matter."""

    def __init__(self, I, others):
        self.I, self.E = I, I.E
        self.v, self.saved = 0, []
        self.ran = 0
        self.fname = Opaque("fname")
        self.strategy = Obj(SType("strategy"))
        self.strategy.attrs["save"] = Builtin("save", self.save)
        self.ctl = I.call(I.get_ext("poap.controller", "Controller"), [])
        self.ctl.attrs["strategy"] = self.strategy
        self.result = Opaque("best")
        self.ctl.attrs["run"] = Builtin("run", self.run)
        self.noop = Builtin("observer", lambda rec: None)
        add = I.getattr(self.ctl, "add_feval_callback")
        hook = Builtin("attach", lambda rec: I.call(I.getattr(rec, "add_callback"), [self.noop]))
        if others & 1:
            I.call(add, [hook])
        self.cc = I.call(I.get(CC), [self.ctl, self.fname])
        if others & 2:
            I.call(add, [hook])

    def run(self):
        self.ran += 1
        return self.result

    def save(self, fname):
        self.E.prove("checkpoints are written to the file given", fname is self.fname)
        self.saved.append(self.v)

    def event(self, rec):
        self.v += 1


def update(I, how, first):
    """An evaluation ends; the callbacks of the strategy, of the checkpoint controller and of others come in any order."""
    E = I.E
    others = E.choose(8)
    R = Run(I, others)
    rec = I.call(I.getattr(R.ctl, "new_feval"), [(Opaque("x"),)])
    cb = I.getattr(rec, "add_callback")
    S = Builtin("strategy", R.event)
    if first:                      # a callback that was there before those of the controller
        rec.attrs["callbacks"] = PList([S] + list(rec.attrs["callbacks"].items))
    else:
        I.call(cb, [S])
    if others & 4:
        I.call(cb, [R.noop])
    if E.choose(2):
        I.call(I.getattr(rec, "running"), [])
    v0 = R.v
    I.call(I.getattr(rec, how), [E.Real("value")] if how == "complete" else [])
    E.prove("the strategy is told once", R.v == v0 + 1)
    E.prove("once an evaluation was reported %s, the checkpoint has the state including that event" % {"complete": "completed", "kill": "killed", "cancel": "cancelled"}[how], bool(R.saved) and R.saved[-1] == R.v)


def terminated(I):
    E = I.E
    R = Run(I, E.choose(4))
    R.v = 1
    I.call(I.getattr(R.ctl, "call_term_callbacks"), [])
    E.prove("once the run terminated, the checkpoint has the final state", bool(R.saved) and R.saved[-1] == R.v)


def run(I):
    E = I.E
    R = Run(I, 0)
    fs = FS(I, lambda o: 0)
    R.cc.attrs["fname"] = fs.fname
    have = E.choose(2) == 1
    fs.files = [(fs.fname.t, Content("snapshot" if have else "absent", R.strategy, 0))]
    fs.on_point = lambda what: E.prove("a fresh run does not touch an existing checkpoint (%s)" % what, not have)
    try:
        r = I.call(I.getattr(R.cc, "run"), [])
    except PyExc as e:
        E.prove("a fresh run is refused only if there is a checkpoint", have)
        E.prove("a refused run is not started", R.ran == 0)
        E.cover("a run is refused")
        return
    E.cover("a run is started")
    E.prove("a fresh run refuses to overwrite an existing checkpoint", not have)
    E.prove("the run is started once and its result returned", R.ran == 1 and r is R.result)


def units():
    r = [unit("save (%s)" % c.split(":")[1], lambda I, c=c: save(I, c)) for c in STRATS]
    for how in ("complete", "kill", "cancel"):
        for first in (False, True):
            r.append(unit("update: %s, strategy %s" % (how, "first" if first else "later"), lambda I, how=how, f=first: update(I, how, f)))
    return r + [unit("termination", terminated), unit("run", run)]
