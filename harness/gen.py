"""Random problems, designs and surrogates that implement the interfaces of the library."""
import numpy as np
from pySOT.experimental_design import ExperimentalDesign
from pySOT.optimization_problems import OptimizationProblem
from pySOT.surrogate import GPRegressor, Surrogate


class Prob(OptimizationProblem):
    def __init__(self, dim, lb, ub, int_var, f=None):
        self.dim = dim
        self.lb = np.asarray(lb, dtype=float)
        self.ub = np.asarray(ub, dtype=float)
        self.int_var = np.asarray(int_var, dtype=int)
        self.cont_var = np.setdiff1d(np.arange(dim), self.int_var)
        self.info = "problem"
        self.min = 0
        self.f = f

    def eval(self, x):
        return self.f(x) if self.f else float(np.sum(np.asarray(x) ** 2))


def problem(rng, dim=None, dmax=6, ints=None):
    d = int(dim if dim is not None else rng.randint(1, dmax + 1))
    scale = 10.0 ** rng.randint(-2, 3, size=d)
    lb = np.round(rng.uniform(-5, 5, size=d), 2) * scale
    ub = lb + np.maximum(0.3, np.round(rng.uniform(0.3, 8, size=d), 2)) * scale
    if rng.rand() < 0.3:  # an interval that does not contain 0
        k = rng.randint(d)
        lb[k], ub[k] = 1.0 + rng.randint(0, 3), 4.5 + rng.randint(0, 3)
    m = ints if ints is not None else rng.randint(0, d + 1) if rng.rand() < 0.6 else 0
    iv = np.sort(rng.choice(d, size=m, replace=False)) if m else np.array([], dtype=int)
    for j in iv:
        lb[j] = rng.randint(-6, 4)
        ub[j] = lb[j] + rng.randint(1, 8)
    return Prob(d, lb, ub, iv)


def points(rng, prob, n, on_bounds=True):
    x = prob.lb + (prob.ub - prob.lb) * rng.rand(n, prob.dim)
    if on_bounds and n:
        m = rng.rand(n, prob.dim)
        x = np.where(m < 0.08, prob.lb, np.where(m > 0.92, prob.ub, x))
    x = np.clip(x, prob.lb, prob.ub)
    if len(prob.int_var):
        x[:, prob.int_var] = np.clip(np.round(x[:, prob.int_var]), prob.lb[prob.int_var], prob.ub[prob.int_var])
    return x


def feasible(prob, x, what, req):
    x = np.atleast_2d(x)
    req(x.shape[1] == prob.dim, "%s: wrong dimension %s" % (what, x.shape))
    req(bool(np.all(np.isfinite(x))), "%s: not finite" % what, point=x)
    req(bool(np.all(x >= prob.lb)) and bool(np.all(x <= prob.ub)), "%s: outside the bounds" % what, point=x, lb=prob.lb, ub=prob.ub)
    iv = prob.int_var
    if len(iv):
        req(bool(np.all(x[:, iv] == np.round(x[:, iv]))), "%s: integer variable with a non-integer value" % what, point=x, int_var=iv)


class Design(ExperimentalDesign):
    """Random feasible design; remembers what it handed out."""

    def __init__(self, rng, prob, num_pts):
        self.dim, self.num_pts, self.rng, self.prob = prob.dim, num_pts, rng, prob
        self.given = []

    def generate_points(self, lb=None, ub=None, int_var=None):
        x = points(self.rng, self.prob, self.num_pts)
        self.given.append(x.copy())
        return x


def hashed(x, k=0.0):
    """A bumpy deterministic function of the rows of x."""
    x = np.atleast_2d(np.asarray(x, dtype=float))
    w = np.arange(1, x.shape[1] + 1)
    return np.sin(3.1 * x @ w + k) + 0.1 * np.cos(x * 1.7).sum(axis=1)


class Model(Surrogate):
    """Cheap surrogate built on the base class; keeps a log of what it was given."""

    def __init__(self, dim, lb, ub, k=0.0):
        self.calls = []
        self.k = k
        super().__init__(dim=dim, lb=lb, ub=ub)

    def reset(self):
        self.calls.append(("reset",))
        super().reset()

    def add_points(self, xx, fx):
        self.calls.append(("add", np.array(xx, copy=True), np.array(fx, copy=True)))
        super().add_points(xx, fx)

    def predict(self, xx):
        return hashed(xx, self.k).reshape(-1, 1)

    def predict_deriv(self, xx):
        return np.zeros(np.atleast_2d(xx).shape)


class GPModel(GPRegressor):
    """A Gaussian process regressor by type with cheap predictions."""

    def __init__(self, dim, lb, ub, k=0.0):
        self.calls = []
        self.k = k
        super().__init__(dim=dim, lb=lb, ub=ub)

    def reset(self):
        self.calls.append(("reset",))
        super().reset()

    def add_points(self, xx, fx):
        self.calls.append(("add", np.array(xx, copy=True), np.array(fx, copy=True)))
        super().add_points(xx, fx)

    def predict(self, xx):
        return hashed(xx, self.k).reshape(-1, 1)

    def predict_std(self, xx):
        return 0.3 + 0.2 * np.abs(hashed(xx, self.k + 1.0)).reshape(-1, 1)


def surrogate(prob, gp=False, k=0.0):
    return (GPModel if gp else Model)(prob.dim, prob.lb, prob.ub, k)
