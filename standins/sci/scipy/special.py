import math

import numpy as np


def gamma(x):
    return float(math.gamma(x)) if np.ndim(x) == 0 else np.vectorize(math.gamma)(x)


def comb(n, k, exact=False, repetition=False):
    if repetition:
        raise NotImplementedError
    if exact:
        n, k = int(n), int(k)
        return math.comb(n, k) if 0 <= k <= n else 0
    if np.ndim(n) or np.ndim(k):
        return np.vectorize(lambda a, b: float(math.comb(int(a), int(b))))(n, k)
    return float(math.comb(int(n), int(k)))
