"""C04: the optimization never stalls and restarts are clean (one evaluation followed through its life, see strat.py and life.py)."""
from .life import history_units
from .rnd import rnd_units


def units():
    return history_units("C04") + rnd_units("C04")
