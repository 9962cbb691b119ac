"""C03: the surrogate holds exactly the evaluations of the current run (one evaluation followed through its life, see strat.py and life.py)."""
from .life import history_units


def units():
    return history_units("C03")
