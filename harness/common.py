"""Bounded stand-in and replay machinery: cases are deterministic functions of (case name, seed)."""
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

import numpy as np

REPO = os.environ.get("PYVC_REPO", "/repo")
HARNESS = os.path.dirname(os.path.abspath(__file__))


# sizes from the verifier's counterexamples: the cases try them first (check.py passes them on)
HINTS = json.loads(os.environ.get("VERIF_HINTS") or "[]")


def hint(r, **want):
    """A counterexample of the verifier that has the given values, or {}."""
    c = [h for h in HINTS if all(h.get(k) == v for k, v in want.items())]
    c = [h for h in c if all(not isinstance(v, int) or abs(v) <= 300 for v in h.values())]
    return c[r.randint(len(c))] if c and r.rand() < 0.8 else {}


class Violation(Exception):
    def __init__(self, msg, **data):
        super().__init__(msg)
        self.data = data


class Inconclusive(Exception):
    """The case cannot judge this code (an internal name it needs is not there)."""


class Hang(BaseException):
    pass


class Case:
    def __init__(self, name, fn, n, cpu):
        self.name, self.fn, self.n, self.cpu = name, fn, n, cpu


CASES = {}


def case(prop, n=20, name=None, cpu=60):
    def deco(fn):
        CASES.setdefault(prop, []).append(Case(name or fn.__name__, fn, n, cpu))
        return fn
    return deco


def require(cond, msg, **data):
    if not cond:
        raise Violation(msg, **data)


def attr(obj, name):
    """An attribute that is not part of the tested interface: its absence makes the case inconclusive."""
    if not hasattr(obj, name):
        raise Inconclusive("no attribute %s" % name)
    return getattr(obj, name)


def show(x):
    if isinstance(x, np.ndarray):
        return {"array": x.tolist()} if x.size <= 400 else {"shape": list(x.shape)}
    if isinstance(x, (np.integer, np.floating, np.bool_)):
        return x.item()
    if isinstance(x, dict):
        return {str(k): show(v) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple)):
        return [show(v) for v in list(x)[:200]]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:300]


def close(a, b, tol=1e-9, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    s = np.maximum(1.0, np.maximum(np.abs(a), np.abs(b))) if scale is None else scale
    with np.errstate(all="ignore"):
        return bool(np.all((a == b) | (np.abs(a - b) <= tol * s)))


def blame(tb):
    """True if the exception came out of the code under test: its innermost relevant frame is in REPO."""
    frames = traceback.extract_tb(tb)
    last = None
    for f in frames:
        fn = os.path.abspath(f.filename)
        if fn.startswith(os.path.join(REPO, "pySOT") + os.sep):
            last = "repo"
        elif fn.startswith(HARNESS):
            last = "harness"
    return last == "repo"


def seed_of(case_name, k, base):
    return int(hashlib.sha256(("%s|%d|%d" % (case_name, k, base)).encode()).hexdigest()[:8], 16)


class Ctx:
    """What a case may use: its random generator, notes (for the replay file), and a flag for trivial runs."""

    def __init__(self, seed, thorough=False):
        self.seed = seed
        self.rng = np.random.RandomState(seed)
        self.notes = {}
        self.log = []
        self.nontrivial = 1
        self.thorough = thorough

    def note(self, **kw):
        self.notes.update(kw)

    def event(self, *a):
        self.log.append(a)


def run_case(c, seed, thorough=False):
    """-> (status, message, inputs); status in ok/violation/inconclusive/error"""
    ctx = Ctx(seed, thorough)
    np.random.seed((seed * 2654435761 + 12345) % (2 ** 32))  # not the stream of ctx.rng
    random.seed(seed)

    def on_alarm(sig, frm):
        raise Hang()
    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, c.cpu)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                c.fn(ctx)
        return "ok", "", ctx
    except Violation as e:
        ctx.note(**e.data)
        return "violation", str(e), ctx
    except Inconclusive as e:
        return "inconclusive", str(e), ctx
    except Hang:
        if blame(sys.exc_info()[2]):
            return "violation", "no result after %d s of processor time: %s" % (c.cpu, traceback.format_exc()[-1500:]), ctx
        return "inconclusive", "time limit", ctx
    except Exception as e:
        text = traceback.format_exc()
        if isinstance(e, (MemoryError, OSError)) and not blame(sys.exc_info()[2]):
            return "inconclusive", text[-1500:], ctx
        if blame(sys.exc_info()[2]):
            return "violation", "the code raised %s: %s\n%s" % (type(e).__name__, e, text[-2500:]), ctx
        return "error", text[-2500:], ctx
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
