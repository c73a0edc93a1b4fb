"""Ways a value reaches a parameter (reference)."""
import numpy as np


def assign(o, name, v):
    setattr(o, name, v)
    return getattr(o, name)


def array(xs):
    return np.array(xs)
