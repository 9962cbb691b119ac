"""C21: coordinate perturbation."""
from .gen import *
from .cand import *
from .c11 import generate


def units():
    r = gen_units("C21", ("SRBF", "DYCORS"))
    for w in ("srbf", "dycors", "uniform"):
        for b in (False, True):
            for c in ("default", "given"):
                if c == "given" and w != "dycors":
                    continue
                r.append(unit("candidate_%s, %s, %s center" % (w, "subset" if b else "all coordinates", c), lambda I, w=w, b=b, c=c: points(I, w, b, best=c)))
    for b in (False, True):
        for c in ("default", "given"):
            r.append(unit("candidate_dycors selects, %s, %s center" % ("subset" if b else "all coordinates", c), lambda I, b=b, c=c: selected(I, b, best=c)))
    return r + [unit("SOP: generate_evals", lambda I: generate(I, "C21"))]
