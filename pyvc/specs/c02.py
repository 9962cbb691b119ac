"""C02: every evaluation is accounted for exactly once (one evaluation followed through its life, see strat.py and life.py)."""
from .life import history_units
from .rnd import rnd_units


def units():
    return history_units("C02") + rnd_units("C02")
