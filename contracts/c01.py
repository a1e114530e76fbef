"""C01: the 1D transform yields every path once, in order and correctly labelled."""
from . import c02


def cases(tier):
    return c02.transform_cases('labels', tier)
