"""C01: the budget is never exceeded and is used up (one evaluation followed through its life, see strat.py and life.py)."""
from .life import history_units
from .rnd import rnd_units


def units():
    return history_units("C01") + rnd_units("C01")
