"""Axioms about the uninterpreted functions the code's libraries provide."""
from . import terms as tm
from .terms import ZERO, ONE, TRUE, lift
from .core import CTX, axiom


def install():
    def floor(t):
        v = tm.fn('floor', t)
        return [tm.le(v, t), tm.lt(t, tm.add(v, ONE))]
    CTX.axioms['floor'] = [floor]
