"""
Reference models, written from the definitions (truth tables, exact probabilities),
independent of the repository's code.
"""
import math

import numpy as np


def op_from_count(name, c, K):
    """truth of a symmetric operator from the number c of true inputs among K"""
    if name == 'AND':
        return c == K
    if name == 'NAND':
        return c != K
    if name == 'OR':
        return c > 0
    if name == 'NOR':
        return c == 0
    if name == 'XOR':
        return c == 1
    if name == 'NXOR':
        return c != 1
    raise ValueError(name)


def product(factors, model):
    """crisp product in -1/1; factors: list of [n_i, L] arrays with entries -1/1"""
    outer, inner = model.split('-')
    K = len(factors)
    L = factors[0].shape[1]
    c = 0
    for i, f in enumerate(factors):
        sh = [1] * K + [L]
        sh[i] = f.shape[0]
        c = c + (np.asarray(f) == 1).astype(np.int64).reshape(sh)
    hit = op_from_count(inner, c, K)
    out = op_from_count(outer, hit.sum(axis=-1), L)
    return np.where(out, 1, -1)


def op_prob(name, ps):
    """probability that the operator holds for independent inputs"""
    none = np.ones(np.shape(ps[0]))     # no input is true
    one = np.zeros(np.shape(ps[0]))     # exactly one is
    every = np.ones(np.shape(ps[0]))    # all are
    for p in ps:
        one = one * (1 - p) + none * p
        none = none * (1 - p)
        every = every * p
    return {'AND': every, 'NAND': 1 - every, 'OR': 1 - none, 'NOR': none,
            'XOR': one, 'NXOR': 1 - one}[name]


def fuzzy_product(factors, model):
    """
    exact probability that the product is one, factors holding probabilities
    """
    outer, inner = model.split('-')
    K = len(factors)
    L = factors[0].shape[1]
    shape = [f.shape[0] for f in factors]
    hits = []
    for l in range(L):
        ps = []
        for i, f in enumerate(factors):
            sh = [1] * K
            sh[i] = shape[i]
            ps.append(np.broadcast_to(np.asarray(f, dtype=float)[:, l].reshape(sh), shape))
        hits.append(op_prob(inner, ps))
    return op_prob(outer, hits)


def sigmoid(x):
    x = np.asarray(x, dtype=float)
    return np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))),
                    np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))))


def logit(p):
    return math.log(p) - math.log1p(-p)


# --- max model

def max_product(Z, U, lbda):
    """probability of a one: largest reliability among active dimensions"""
    act = (Z[:, None, :] == 1) & (U[None, :, :] == 1)
    lam = np.asarray(lbda, dtype=float)
    val = np.where(act, lam[None, None, :-1], -1.)
    if val.shape[2] == 0:
        return np.full(act.shape[:2], lam[-1])
    best = val.max(axis=2)
    return np.where(act.any(axis=2), best, lam[-1])


def max_fuzzy(PZ, PU, lbda):
    lam = np.asarray(lbda, dtype=float)
    order = np.argsort(-lam[:-1], kind='stable')
    out = np.zeros((PZ.shape[0], PU.shape[0]))
    none = np.ones_like(out)
    for l in order:
        p = PZ[:, l][:, None] * PU[:, l][None, :]
        out += none * p * lam[l]
        none = none * (1 - p)
    return out + none * lam[-1]


def max_lbda(Z, U, X):
    """greedy Laplace smoothed hit rates"""
    N, L = Z.shape
    act = (Z[:, None, :] == 1) & (U[None, :, :] == 1)
    free = np.ones(X.shape, dtype=bool)
    todo = list(range(L))
    lam = np.zeros(L + 1)
    while todo:
        rates = []
        for l in todo:
            m = act[:, :, l] & free
            ones = int(np.sum(X[m] == 1))
            zeros = int(np.sum(X[m] == -1))
            rates.append((ones + 1) / (ones + zeros + 2))
        best = int(np.argmax(rates))
        l = todo.pop(best)
        lam[l] = rates[best]
        free &= ~act[:, :, l]
    ones = int(np.sum(X[free] == 1))
    zeros = int(np.sum(X[free] == -1))
    lam[L] = (ones + 1) / (ones + zeros + 2)
    lam[L] = lam.min()
    return lam


# --- q-threshold model

def q_product(Z, U, q):
    c = (Z == 1).astype(np.int64) @ (U == 1).astype(np.int64).T
    return np.where(c >= np.asarray(q).reshape(1, -1), 1, -1)


# --- noise parameter

def smoothed_lbda(pred, X, a, b):
    n = int(np.sum(X != 0))
    P = int(np.sum((X != 0) & (pred == X)))
    p = (P + a) / (n + a + b)
    return max(0., math.log(P + a) - math.log(n - P + b)), P, n


_tuned = {}


def density(model, L, K, f):
    """exact probability that an entry of the product is one"""
    outer, inner = model.split('-')
    p = op_prob(inner, [np.array(float(f))] * K)
    return float(op_prob(outer, [p] * L))


def tuned_density(model, K, L):
    """factor density that brings the density of the product closest to one half"""
    key = (model, K, L)
    if key not in _tuned:
        grid = np.linspace(.04, .96, 47)
        _tuned[key] = float(min(grid, key=lambda f: (abs(density(model, L, K, f) - .5), abs(f - .5))))
    return _tuned[key]
