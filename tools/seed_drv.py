import logging, random, sys
import numpy as np
logging.disable(logging.CRITICAL)
from poap.strategy import EvalRecord


class Drv:
    """Plays a controller: proposals are accepted or refused, evaluations finish in any order."""

    def __init__(self, strategy):
        self.s, self.out = strategy, []

    def propose(self):
        return self.s.propose_action()

    def accept(self, p):
        p.record = EvalRecord(p.args)
        p.accept()
        self.out.append(p.record)
        return p.record

    def reject(self, p):
        p.reject()

    def complete(self, r, v):
        self.out.remove(r)
        r.complete(v)

    def kill(self, r):
        self.out.remove(r)
        r.kill()


