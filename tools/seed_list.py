"""The planted bugs: written from the property texts and the code, each needing something specific to manifest."""
S = "pySOT/strategy/surrogate_strategy.py"
IMPORTS = """
from pySOT.experimental_design import SymmetricLatinHypercube, LatinHypercube
from pySOT.optimization_problems import Ackley, OptimizationProblem
from pySOT.surrogate import RBFInterpolant, GPRegressor, CubicKernel, LinearTail, ConstantTail, LinearKernel, TPSKernel
from pySOT.strategy import SRBFStrategy, DYCORSStrategy, SOPStrategy, RandomStrategy, EIStrategy, LCBStrategy
np.random.seed(1); random.seed(1)


def make(cls=SRBFStrategy, max_evals=20, n=8, dim=2, **kw):
    p = Ackley(dim=dim)
    return cls(max_evals=max_evals, opt_prob=p, exp_design=SymmetricLatinHypercube(dim=dim, num_pts=n),
               surrogate=RBFInterpolant(dim=dim, lb=p.lb, ub=p.ub), **kw), p

"""
SEEDS = [
    dict(id="c01-budget-counts-lost", property="C01", drv=True,
         needs="an accepted evaluation that is killed or fails during the run",
         breaks="the budget test counts accepted evaluations, so a lost evaluation uses up budget and the run stops early",
         edits=[(S, "if self.num_evals + self.pending_evals >= self.max_evals:  # Budget exhausted",
                 "if self.accepted_count >= self.max_evals:  # Budget exhausted")],
         demo=IMPORTS + """
s, p = make(max_evals=12)
d = Drv(s); n = done = 0
for _ in range(200):
    a = d.propose()
    if a.action == "terminate":
        break
    r = d.accept(a); n += 1
    if n in (9, 10):
        d.kill(r)
    else:
        d.complete(r, p.eval(r.params[0])); done += 1
assert done == 12, done
"""),
    dict(id="c02-killed-design-point-lost", property="C02", drv=True,
         needs="an evaluation of the initial design that is killed (a cancelled one is queued again)",
         breaks="killed points of the initial design are not queued again, so the design is incomplete",
         edits=[(S, """        xx = record.params[0]
        self.batch_queue.append(xx)
        self.remove_pending(xx)
        self.fevals.append(record)""", """        xx = record.params[0]
        if not record.is_killed:
            self.batch_queue.append(xx)
        self.remove_pending(xx)
        self.fevals.append(record)""")],
         demo=IMPORTS + """
s, p = make()
d = Drv(s)
r = d.accept(d.propose()); d.kill(r)
assert len(s.batch_queue) == 8, len(s.batch_queue)
"""),
    dict(id="c02-sync-reject-order", property="C02", drv=True,
         needs="a refused proposal of a synchronous batch while another point of the batch is refused or pending",
         breaks="a refused point of a synchronous batch is only queued again if the rest of the batch is already waiting",
         edits=[(S, "        if not self.asynchronous:  # Add back to the queue in synchronous case",
                 "        if not self.asynchronous and not (self.batch_queue and self.pending_evals):  # Add back to the queue")],
         demo=IMPORTS + """
s, p = make(asynchronous=False, batch_size=4, max_evals=40)
d = Drv(s)
for _ in range(8):
    r = d.accept(d.propose()); d.complete(r, p.eval(r.params[0]))
a = d.propose(); d.accept(a)
b = d.propose(); x = b.args[0].copy(); d.reject(b)
assert any(np.array_equal(x, y) for y in s.batch_queue)
"""),
    dict(id="c03-restart-keeps-values", property="C03", drv=True,
         needs="an asynchronous restart while evaluations of the old run are outstanding which then complete",
         breaks="adaptive evaluations started before a restart enter the surrogate and the data of the new run",
         edits=[(S, """    def on_adapt_accept(self, proposal):
        \"\"\"Handle accepted proposal from sampling phase.\"\"\"
        self.accepted_count += 1
        proposal.record.add_callback(self.on_adapt_update)
        proposal.record.ev_id = self.get_ev()""", """    def on_adapt_accept(self, proposal):
        \"\"\"Handle accepted proposal from sampling phase.\"\"\"
        self.accepted_count += 1
        proposal.record.add_callback(self.on_adapt_update)
        proposal.record.ev_id = self.get_ev() + self.pending_evals""")],
         demo=IMPORTS + """
s, p = make(max_evals=60)
d = Drv(s)
for _ in range(8):
    r = d.accept(d.propose()); d.complete(r, p.eval(r.params[0]))
rs = [d.accept(d.propose()) for _ in range(3)]
s.converged = True
q = d.accept(d.propose())
for r in rs:
    d.complete(r, p.eval(r.params[0]))
assert len(s._X) == 0 and s.surrogate.num_pts == 0, len(s._X)
"""),
    dict(id="c04-restart-keeps-best", property="C04", drv=True,
         needs="a restart after convergence whose new run does not improve on the old one",
         breaks="after convergence a new run keeps the step-size state of the old run when the best value was improved",
         edits=[("pySOT/strategy/srbf_strategy.py", """        super().sample_initial()
        self.status = 0  # Status counter
        self.failcount = 0  # Failure counter
        self.sampling_radius = 0.2
        self._fbest = np.inf  # Current best function value""", """        super().sample_initial()
        self.status = 0  # Status counter
        self.failcount = 0  # Failure counter
        self.sampling_radius = 0.2
        self._fbest = np.inf if len(self.fX) == 0 else min(self.fX.ravel())  # Current best function value""")],
         demo=IMPORTS + """
s, p = make(max_evals=60)
d = Drv(s)
for _ in range(8):
    r = d.accept(d.propose()); d.complete(r, p.eval(r.params[0]))
s.converged = True
for _ in range(8):
    r = d.accept(d.propose()); d.complete(r, 100.0 + p.eval(r.params[0]))
r = d.accept(d.propose()); d.complete(r, 150.0)
assert s.failcount == 0 and s.status == 1, (s.failcount, s.status)
"""),
    dict(id="c05-round-first-row-only", property="C05", drv=True,
         needs="integer variables and a set of points whose first row happens to be integral (e.g. the first candidate leaves them alone)",
         breaks="rounding is skipped for all points if the first one needs none, so non-integer points are proposed",
         edits=[("pySOT/utils.py", "    if len(int_var) > 0:\n        # Round the original",
                 "    if len(int_var) > 0 and np.any(x[:1, int_var] != np.round(x[:1, int_var])):\n        # Round the original")],
         demo=IMPORTS + """
from pySOT.auxiliary_problems import candidate_dycors
class P:
    dim = 2; lb = np.zeros(2); ub = np.array([10.0, 1.0]); int_var = np.array([0]); cont_var = np.array([1])
class M:
    def predict(self, x): return -np.abs(x[:, :1] - np.round(x[:, :1]))
for k in range(60):
    np.random.seed(k)
    x = candidate_dycors(1, P(), M(), np.array([[3.0, 0.25]]), np.array([[1.0]]), [1.0], 0.5, num_cand=10)
    assert x[0, 0] == round(x[0, 0]), x
"""),
    dict(id="c06-slhd-odd-shuffle", property="C06", drv=True,
         needs="an odd number of points",
         breaks="the middle row of an odd symmetric design takes part in the shuffle, so levels repeat and the symmetry is lost",
         edits=[("pySOT/experimental_design/slhd.py", "            np.random.shuffle(points[:middleind, j])",
                 "            np.random.shuffle(points[: (self.num_pts + 1) // 2, j])")],
         demo=IMPORTS + """
for _ in range(30):
    X = SymmetricLatinHypercube(dim=3, num_pts=7, iterations=20).generate_points()
    for j in range(3):
        assert np.allclose(np.sort(X[:, j]), np.arange(7) / 6.0), X[:, j]
"""),
    dict(id="c07-merit-stale-distance", property="C07", drv=True,
         needs="a batch of at least two points",
         breaks="a selected point only changes the distances of candidates within the tolerance, the merit of the others is stale",
         edits=[("pySOT/auxiliary_problems/candidate_srbf.py", "        dmerit = np.minimum(dmerit, ds)",
                 "        dmerit = np.where(ds < dtol, np.minimum(dmerit, ds), dmerit)")],
         demo=IMPORTS + """
from pySOT.auxiliary_problems.candidate_srbf import weighted_distance_merit
class Flat:
    def predict(self, x):
        return np.zeros((len(x), 1)) + x[:, :1] * 1e-9
cand = np.array([[10.0], [9.0], [5.0], [1.0]])
out = weighted_distance_merit(2, Flat(), np.array([[0.0]]), np.array([[0.0]]), cand, [0.0, 0.0])
assert out.ravel().tolist() == [10.0, 5.0], out
"""),
    dict(id="c08-lcb-target-first-only", property="C08", drv=True,
         needs="a batch whose first point passes the target and a later one does not",
         breaks="the confidence bound search tests the target only for the first point of a batch",
         edits=[("pySOT/auxiliary_problems/lcb_ga.py", "        x_best, f_min = ga.optimize()",
                 "        x_best, f_min = ga.optimize()\n        if i > 0:\n            lcb_target = None")],
         demo=IMPORTS + """
from pySOT.auxiliary_problems import lcb_ga
class M:
    def predict(self, x): return np.abs(x[:, :1] - 0.5)
    def predict_std(self, x): return np.zeros((len(x), 1))
class P:
    dim = 1; lb = np.zeros(1); ub = np.ones(1); int_var = np.array([]); cont_var = np.array([0])
out = lcb_ga(2, P(), M(), np.array([[0.0]]), np.array([[0.5]]), dtol=0.2, lcb_target=0.1)
assert out is None, out
"""),
    dict(id="c09-ga-elite-mutated", property="C09", drv=True,
         needs="the elite individual being hit by a mutation that makes it worse in the last generations",
         breaks="the best individual is put back before the mutation, so it can be lost and a worse one is returned",
         edits=[("pySOT/utils.py", "            population += perturbation  # Add perturbation",
                 "            population[0, :] = best_individual\n            population += perturbation  # Add perturbation"),
                ("pySOT/utils.py", "            # Keep the best individual\n            population[0, :] = best_individual\n", "")],
         demo=IMPORTS + """
from pySOT.utils import GeneticAlgorithm as GA
for k in range(40):
    np.random.seed(k)
    seen = []
    def f(x):
        v = np.sum((x - 0.3) ** 2, axis=1); seen.append(v.min()); return v
    x, v = GA(f, 2, np.zeros(2), np.ones(2), pop_size=6, num_gen=8).optimize()
    assert v == min(seen), (v, min(seen))
"""),
    dict(id="c10-nmax-boundary", property="C10", drv=True,
         needs="the requested number of ranked points being reached exactly at the end of a front",
         breaks="one more front is ranked although the requested number of points was reached",
         edits=[("pySOT/utils.py", "    while count < nmax and len(P) > 0:", "    while count <= nmax and len(P) > 0:")],
         demo=IMPORTS + """
from pySOT.utils import nd_sorting
F = np.array([[0.0, 1.0, 2.0, 3.0], [0.0, 1.0, 2.0, 3.0]])
assert list(nd_sorting(F, 2)) == [1, 2, np.inf, np.inf], nd_sorting(F, 2)
"""),
    dict(id="c11-tabu-keeps-failures", property="C11", drv=True,
         needs="a center failing four times, staying tabu for five updates and being released",
         breaks="a released tabu point keeps its failure count and is therefore tabu again after its next failure",
         edits=[("pySOT/strategy/sop_strategy.py", """        \"\"\"Reset memory attributes\"\"\"
        self._nfail = 0""", """        \"\"\"Reset memory attributes\"\"\"
        self._nfail = min(self._nfail, 3) if self._ntabu > 4 else 0""")],
         demo=IMPORTS + """
s, p = make(SOPStrategy, max_evals=200, ncenters=4)
d = Drv(s)
for _ in range(8):
    r = d.accept(d.propose()); d.complete(r, p.eval(r.params[0]))
had = set()
for k in range(150):
    a = d.propose()
    if a.action == "terminate": break
    r = d.accept(a); d.complete(r, 1000.0 + p.eval(r.params[0]))
    for i, e in enumerate(s.evals):
        if e.ntabu > 0: had.add(i)
        elif i in had:
            had.discard(i)
            assert e.nfail == 0, (k, i, e.nfail)
"""),
    dict(id="c12-status-not-reset", property="C12", drv=True,
         needs="a successful update right after unsuccessful ones",
         breaks="a success after failures does not restart the count of consecutive successes",
         edits=[("pySOT/strategy/srbf_strategy.py", "            self.status = max(1, self.status + 1)",
                 "            self.status = self.status + 1")],
         demo=IMPORTS + """
s, p = make(max_evals=60)
d = Drv(s)
for _ in range(8):
    r = d.accept(d.propose()); d.complete(r, p.eval(r.params[0]))
for v in (10.0, 10.0, 10.0, 5.0):
    r = d.accept(d.propose()); d.complete(r, v)
assert s.status == 1, s.status
"""),
    dict(id="c13-rescale-near-equal", property="C13", drv=True,
         needs="values that differ by less than about 1e-5 of their size",
         breaks="values that are nearly equal are treated as equal and the order is lost",
         edits=[("pySOT/utils.py", "    if x_max == x_min:\n        return np.ones(x.shape)",
                 "    if np.isclose(x_max, x_min):\n        return np.ones(x.shape)")],
         demo=IMPORTS + """
from pySOT.utils import unit_rescale
assert unit_rescale(np.array([1000.0, 1000.001])).tolist() == [0.0, 1.0]
"""),
    dict(id="c14-extension-without-eta", property="C14", drv=True,
         needs="points added after a first fit, with a regularization that matters",
         breaks="the diagonal of the points added later is regularized with eta scaled by the number of new points",
         edits=[("pySOT/surrogate/rbf.py", "self.eta * np.eye(numnew)", "self.eta * np.eye(numnew) / numnew")],
         demo=IMPORTS + """
rng = np.random.RandomState(0)
X = rng.rand(12, 2); f = rng.rand(12, 1)
a = RBFInterpolant(2, np.zeros(2), np.ones(2), eta=0.1); a.add_points(X, f)
b = RBFInterpolant(2, np.zeros(2), np.ones(2), eta=0.1); b.add_points(X[:8], f[:8]); b.predict(X[:1]); b.add_points(X[8:], f[8:])
assert np.allclose(a.predict(X), b.predict(X), atol=1e-7)
"""),
    dict(id="c15-gradient-near-data", property="C15", drv=True,
         needs="a gradient evaluated closer than 1e-3 (in the unit box) to a data point",
         breaks="the distances are cut off at 1e-3, so the gradient close to data points is not the gradient of the prediction",
         edits=[("pySOT/surrogate/rbf.py", "        ds[ds < np.finfo(float).eps] = np.finfo(float).eps  # Avoid 0*inf",
                 "        ds[ds < 1e-3] = 1e-3  # Avoid 0*inf")],
         demo=IMPORTS + """
rng = np.random.RandomState(0)
X = rng.rand(12, 2); f = rng.rand(12, 1)
a = RBFInterpolant(2, np.zeros(2), np.ones(2), kernel=LinearKernel(), tail=LinearTail(2)); a.add_points(X, f)
x = X[3] + np.array([2e-4, 1e-4]); h = 1e-7
g = a.predict_deriv(x).ravel()
for i in range(2):
    e = np.zeros(2); e[i] = h
    fd = ((a.predict(x + e) - a.predict(x - e)) / (2 * h)).item()
    assert abs(fd - g[i]) < 1e-3 * (1 + abs(fd)), (fd, g)
"""),
    dict(id="c16-values-transformed-in-place", property="C16", drv=True,
         needs="an output transformation that works in place, and a refit",
         breaks="the polynomial model passes its stored values to the output transformation, which may change them",
         edits=[("pySOT/surrogate/poly.py", "fX = self.output_transformation(self.fX.copy())", "fX = self.output_transformation(self.fX)")],
         demo=IMPORTS + """
from pySOT.surrogate import PolyRegressor
def cap(f):
    m = np.median(f); f[f > m] = m; return f
rng = np.random.RandomState(0)
X = rng.rand(12, 2); f = rng.rand(12, 1)
a = PolyRegressor(2, np.zeros(2), np.ones(2), output_transformation=cap); a.add_points(X, f.copy()); a.predict(X)
assert np.array_equal(a.fX, f)
"""),
    dict(id="c17-remove-before-rename", property="C17", drv=True,
         needs="the process being stopped between two system calls of the checkpoint replacement",
         breaks="the previous checkpoint is removed before the new one is in place, so a crash leaves no checkpoint",
         edits=[(S, "        os.rename(temp_fname, fname)",
                 "        if os.path.exists(fname):\n            os.remove(fname)\n        os.rename(temp_fname, fname)")],
         demo=IMPORTS + """
import os, tempfile, shutil, dill
tmp = tempfile.mkdtemp()
try:
    f = os.path.join(tmp, "cp.pysot")
    s, p = make()
    s.save(f)
    s.num_evals = 5
    class Crash(Exception): pass
    real = {}
    def crash(*a, **k):
        raise Crash()
    for n in ("rename", "replace"):
        real[n] = getattr(os, n)
        setattr(os, n, crash)
    try:
        s.save(f)
    except Crash:
        pass
    finally:
        for n in real:
            setattr(os, n, real[n])
    dill.loads(open(f, "rb").read())
finally:
    shutil.rmtree(tmp)
"""),
    dict(id="c18-resume-counts-lost", property="C18", drv=True,
         needs="evaluations that were killed before the checkpoint",
         breaks="a resumed run counts killed evaluations as completed, so it makes fewer evaluations than the budget",
         edits=[(S, "        # Remove everything that was pending\n        self.pending_evals = 0",
                 "        # Remove everything that was pending\n        self.num_evals = len(self.fevals)\n        self.pending_evals = 0")],
         demo=IMPORTS + """
s, p = make()
d = Drv(s)
for k in range(6):
    r = d.accept(d.propose())
    if k == 2: d.kill(r)
    else: d.complete(r, p.eval(r.params[0]))
n = s.num_evals
s.resume()
assert s.num_evals == n == 5, s.num_evals
"""),
    dict(id="c19-zakharov-high-dim", property="C19", drv=True,
         needs="dimension greater than ten",
         breaks="the weights of the Zakharov function repeat after ten coordinates",
         edits=[("pySOT/optimization_problems/zakharov.py", "(1 + np.arange(self.dim)) * x) ** 4", "(1 + np.arange(self.dim) % 10) * x) ** 4")],
         demo=IMPORTS + """
from pySOT.optimization_problems import Zakharov
x = np.ones(12); s = 0.5 * np.arange(1, 13).sum()
assert np.isclose(Zakharov(12).eval(x), 12 + s ** 2 + s ** 4)
"""),
    dict(id="c20-bounds-any", property="C20", drv=True,
         needs="bounds that are equal in one coordinate",
         breaks="a problem whose lower and upper bound coincide in a coordinate is accepted",
         edits=[("pySOT/utils.py", "    if not (all(obj.lb[i] < obj.ub[i] for i in range(obj.dim))):",
                 "    if any(obj.lb > obj.ub):")],
         demo=IMPORTS + """
from pySOT.utils import check_opt_prob
p = Ackley(2); p.ub = np.array([20.0, p.lb[1]])
try:
    check_opt_prob(p)
except Exception:
    pass
else:
    raise AssertionError("accepted")
"""),
    dict(id="c21-scale-all-variables", property="C21", drv=True,
         needs="integer variables and a sampling radius so small that radius times range is below one",
         breaks="the standard deviation of integer variables is raised to one for all variables of the subset",
         edits=[("pySOT/auxiliary_problems/candidate_srbf.py", "        scalefactors[ind] = np.maximum(scalefactors[ind], 1.0)",
                 "        scalefactors = np.maximum(scalefactors, 1.0)")],
         demo=IMPORTS + """
from pySOT.auxiliary_problems import candidate_srbf
import scipy.stats as stats
seen = {}
real = stats.truncnorm.rvs
def rvs(*a, **k):
    seen[float(k["loc"])] = k["scale"]; return real(*a, **k)
stats.truncnorm.rvs = rvs
class P:
    dim = 2; lb = np.zeros(2); ub = np.array([10.0, 1.0]); int_var = np.array([0]); cont_var = np.array([1])
class M:
    def predict(self, x): return x[:, :1]
candidate_srbf(1, P(), M(), np.array([[3.0, 0.25]]), np.array([[1.0]]), [0.5], sampling_radius=0.05, num_cand=10)
assert seen[3.0] == 1.0 and abs(seen[0.25] - 0.05) < 1e-12, seen
"""),
]
