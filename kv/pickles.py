"""Picklable user functions and the helper that unpickles in a fresh process."""

import numpy as np


class F:
    """x' = A x + b + e sin(B x) [+ G w], picklable, compares by value."""

    def __init__(self, A, b, B, e, G=None, obs=False):
        self.A, self.b, self.B, self.e, self.G, self.obs = A, b, B, e, G, obs

    def __call__(self, x, w=None):
        y = self.A.dot(x) + self.b + self.e * (np.cos if self.obs else np.sin)(self.B.dot(x))
        if w is not None:
            y = y + (w if self.G is None else self.G.dot(w))
        return y


def f_plain(x):
    return 0.9 * x + 0.1 * np.sin(x)


def g_plain(x):
    return np.atleast_1d(x[0] + 0.1 * np.cos(x[-1]))


def f_noise(x, w):
    return 0.9 * x + 0.1 * np.sin(x) + w


def g_noise(x, v):
    return np.atleast_1d(x[0] + 0.1 * np.cos(x[-1])) + v


CHILD = r"""
import pickle, sys
import numpy as np
kf, Z, seed = pickle.load(sys.stdin.buffer)
np.seterr(all="ignore")
import warnings; warnings.simplefilter("ignore")
from kv.props.p20 import operations
sys.stdout.buffer.write(pickle.dumps(operations(kf, Z, seed)))
"""
