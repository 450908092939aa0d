import math
import numpy as np
def gamma(x):
    return np.vectorize(math.gamma, otypes=[float])(x) if np.ndim(x) else math.gamma(x)
def gammaln(x):
    return np.vectorize(math.lgamma, otypes=[float])(x) if np.ndim(x) else math.lgamma(x)
def comb(n, k, exact=False, repetition=False):
    if exact:
        return math.comb(int(n), int(k)) if 0 <= k <= n else 0
    return float(math.comb(int(n), int(k)))
def factorial(n, exact=False):
    return math.factorial(int(n)) if exact else math.gamma(n + 1)
