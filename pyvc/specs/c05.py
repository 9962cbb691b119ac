"""C05: proposed points are feasible: the candidate searches (see cand.py)."""
from .cand import *
from .gen import gen_units
from .life import history_units
from .c11 import generate
from .rnd import rnd_units


def units():
    r = []
    for w in ("srbf", "dycors", "uniform"):
        for sub_ in (False, True):
            r.append(unit("candidate_%s, %s" % (w, "subset" if sub_ else "all coordinates"), lambda I, w=w, s=sub_: points(I, w, s)))
    r.append(unit("candidate_dycors, given center", lambda I: points(I, "dycors", False, best="given")))
    r.append(unit("candidate_srbf, default number of candidates", lambda I: points(I, "srbf", False, num_cand=False)))
    return r + gen_units("C05") + history_units("C05", ("propose_action", "reject", "kill", "complete")) + rnd_units("C05") + [unit("SOP: generate_evals", lambda I: generate(I, "C05"))]
