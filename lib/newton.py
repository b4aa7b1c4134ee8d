"""Reference implementation of the losses, their derivatives and the Newton steps of boosted rules (numpy, float64)."""
import numpy as np


class Loss:
    """`Y` holds labels (classification) or targets (regression); all methods take the n x m matrix of scores."""

    def __init__(self, name, Y, regression=False):
        self.base, dec = name.rsplit('-decomposable', 1)[0], not name.endswith('non-decomposable')
        if self.base.endswith('-non'):
            self.base = self.base[:-4]
        self.dec = dec
        self.Y = np.asarray(Y)
        self.n, self.m = self.Y.shape
        self.reg = regression
        self.pos = self.Y > 0
        self.T = self.Y.astype(np.float64) if regression else np.where(self.pos, 1.0, -1.0)

    def errors(self, S):
        """(e, e') with a loss of e² per output for the squared losses."""
        if self.base == 'squared-error':
            return S - self.T, np.ones_like(S)
        e = np.where(self.pos, np.where(S < 1, S - 1, 0.0), np.where(S > 0, S, 0.0))
        return e, (e != 0).astype(float)

    def loss(self, S):
        """The loss of each example."""
        if self.base == 'logistic':
            x = np.where(self.pos, -S, S)
            if self.dec:
                return np.logaddexp(0, x).mean(axis=1)
            a = np.hstack([np.zeros((self.n, 1)), x])
            mx = a.max(axis=1)
            return mx + np.log(np.exp(a - mx[:, None]).sum(axis=1))
        e, _ = self.errors(S)
        q = (e * e)
        return q.mean(axis=1) if self.dec else np.sqrt(q.sum(axis=1))

    def derivatives(self, S):
        """(g: n x m, h: n x m, H: n x m x m or None)"""
        if self.base == 'logistic':
            if self.dec:
                p = 1 / (1 + np.exp(-S))
                return p - self.pos, p * (1 - p), None
            sg = np.where(self.pos, -1.0, 1.0)
            x = sg * S
            mx = np.maximum(x.max(axis=1), 0)[:, None]
            z = np.exp(x - mx)
            p = z / (z.sum(axis=1, keepdims=True) + np.exp(-mx))
            a = sg * p
            H = -a[:, :, None] * a[:, None, :]
            h = p * (1 - p)
            ix = np.arange(self.m)
            H[:, ix, ix] = h
            return a, h, H
        e, _ = self.errors(S)
        if self.dec:
            return e, np.ones_like(e), None
        q = (e * e).sum(axis=1, keepdims=True)
        r = np.sqrt(q)
        with np.errstate(all='ignore'):
            g = np.where(r > 0, e / r, 0)
            H = np.where(r[:, :, None] > 0, -e[:, :, None] * e[:, None, :] / r[:, :, None] ** 3, 0)
            h = np.where(r > 0, (q - e * e) / r ** 3, 0)
        if self.base == 'squared-hinge':
            h = np.where(e == 0, 1.0, h)
        ix = np.arange(self.m)
        H[:, ix, ix] = h
        return g, h, H


def soft(g, l1):
    """The negative gradient, shrunk by the L1 regularization."""
    return np.where(g > l1, -g + l1, np.where(g < -l1, -g - l1, 0.0))


def scores(g, h, l1, l2):
    """Output-wise scores."""
    d = h + l2
    with np.errstate(all='ignore'):
        s = soft(g, l1) / d
    return np.where(np.isfinite(s), s, 0.0)


def rhs(g, l1):
    """Right-hand side of the linear system of a non-decomposable loss."""
    r = -g
    return np.where(np.abs(r) > l1, r - np.sign(r) * l1, r)


def quality(s, g, h, l1, l2):
    """Output-wise quality (the smaller, the better), summed up."""
    return float((g * s + .5 * h * s * s + l1 * np.abs(s) + .5 * l2 * s * s).sum())


def quality_full(s, g, H, l1, l2):
    return float(g @ s + .5 * s @ H @ s + l1 * np.abs(s).sum() + .5 * l2 * (s * s).sum())
