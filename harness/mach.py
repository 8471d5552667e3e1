"""Reference posterior odds of single entries, written from the model definition."""
import math

import numpy as np

from . import ref


def agreements(X, pred):
    """observed entries that agree minus those that don't, divided by two"""
    return int(np.sum(np.asarray(X, dtype=np.int64) * pred))


def child_score(X, factors, k, idx, model, product=None):
    """
    (number of correct predictions with the entry at 1) - (with the entry at -1)
    over observed entries; only row idx[0] along axis k is affected
    """
    row, l = idx
    Xr = np.take(np.asarray(X, dtype=np.int64), [row], axis=k)
    out = {}
    for s in (-1, 1):
        fs = [np.asarray(f) for f in factors]
        r = fs[k][[row], :].copy()
        r[0, l] = s
        fs[k] = r
        pred = product(fs) if product is not None else ref.product(fs, model)
        out[s] = int(np.sum((Xr != 0) & (Xr == pred)))
    return out[1] - out[-1]


def chunked_child_score(X, factors, k, idx, model, block=2000):
    """the same for large data: split along the largest other axis"""
    other = [a for a in range(len(factors)) if a != k]
    a = max(other, key=lambda i: np.asarray(factors[i]).shape[0])
    n = np.asarray(factors[a]).shape[0]
    total = 0
    for i in range(0, n, block):
        fs = list(factors)
        fs[a] = np.asarray(factors[a])[i:i + block]
        total += child_score(np.take(X, range(i, min(n, i + block)), axis=a), fs, k, idx, model)
    return total


def parent_score(factors, idx, model):
    """model output of a parent layer at an entry (-1/1)"""
    fs = [np.asarray(f)[[i], :] for f, i in zip(factors, idx)]
    return int(ref.product(fs, model).ravel()[0])


def logit(p):
    return math.log(p) - math.log1p(-p)
