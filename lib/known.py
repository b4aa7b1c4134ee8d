"""Regions of inputs in which known findings (see DESIGN.md) change what a training run does."""
import numpy as np

from model import cond_mask


def majority(x):
    v, c = np.unique(x, return_counts=True)
    return v[c == c.max()]


def ordinal_first_bin(d, r, q):
    """K12: the search for conditions on an ordinal feature goes wrong, if all examples with the smallest (largest) value that
    is less (greater) than the most frequent one have zero weights."""
    if not q.zeros or not any(op.startswith('ord') for op, _, _ in r.conds) and not any(
            c is not None and c[1].startswith('ord') for _, c in q.steps):
        return False
    steps = [c for _, c in q.steps if c is not None]
    if not steps:  # beam search
        return True
    cov = np.ones(d.n, dtype=bool)
    w = q.w(d.n)
    for f, op, t, _ in steps:
        if op.startswith('ord'):
            x = d.X[:, f]
            ok = ~np.isnan(x)
            v = np.where(ok, np.trunc(np.where(ok, x, 0)), 0)
            for mj in majority(v[ok]):
                lo, hi = cov & ok & (v < mj), cov & ok & (v > mj)
                for s, pick in ((lo, np.min), (hi, np.max)):
                    if s.any() and not (w[s & (v == pick(v[s]))] > 0).any():
                        return True
        cov = cov & cond_mask(d.X[:, f], op, t)
    return False


def _k1(x, t):
    """Is `t` a threshold that is affected by K1, if `x` are the values of the examples that are covered?"""
    x = x[~np.isnan(x)].astype(np.float64)
    t = float(t)
    for pos in (x[x >= 0], x[x > 0]):
        if len(pos):
            v, c = np.unique(pos, return_counts=True)
            # the distance up to which values are considered to be the same is 1.2e-7
            if v[0] <= t and (len(v) == 1 or t <= v[1]) and (c[0] == 1 or (len(v) > 1 and v[1] - v[0] < 3e-7 * max(1, v[1]))):
                return True
    if (x < 0).any() and not (x > 0).any() and x[x < 0].max() <= t <= 0:
        return True
    return False


def numerical_first_value(d, r, q):
    """K1: splits right above the smallest value that is greater than (or equal to) zero, or between zero and the largest
    negative value if there are no positive ones, may be wrong."""
    steps = [(op, f, t) for f, op, t, _ in (c for _, c in q.steps if c is not None)]
    if steps:
        cov = np.ones(d.n, dtype=bool)
        for op, f, t in steps:
            if op.startswith('num') and _k1(d.X[cov, f], t):
                return True
            cov = cov & cond_mask(d.X[:, f], op, t)
        return False
    if len(r.conds) > 5:
        return True
    masks = [cond_mask(d.X[:, f], op, t) for op, f, t in r.conds]
    for k, (op, f, t) in enumerate(r.conds):
        if op.startswith('num'):
            for s in range(1 << len(masks)):
                if not s >> k & 1:
                    cov = np.ones(d.n, dtype=bool)
                    for j, mk in enumerate(masks):
                        if s >> j & 1:
                            cov &= mk
                    if _k1(d.X[cov, f], t):
                        return True
    return False


def any_of(d, r, q):
    return 'k12' if ordinal_first_bin(d, r, q) else 'k1' if numerical_first_value(d, r, q) else None
