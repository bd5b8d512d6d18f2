"""Loops with a symbolic number of iterations: no summary is computed;
the checks instantiate container sizes."""
from .values import NeedConcrete


def symloop(I, seg, bind, body):
    raise NeedConcrete("loop over a symbolic number of elements at %s" % (I.loc,))


def symwhile(I, s):
    raise NeedConcrete("while loop with an undecided condition at %s" % (I.loc,))
