"""Independent implementations of the measures that are documented for the testbed (numpy only)."""
import numpy as np


def _prf(tp, fp, fn):
    p = tp / (tp + fp) if tp + fp > 0 else 1.0
    r = tp / (tp + fn) if tp + fn > 0 else 1.0
    f = 2 * tp / (2 * tp + fp + fn) if tp + fp + fn > 0 else 1.0
    j = tp / (tp + fp + fn) if tp + fp + fn > 0 else 1.0
    return np.array([p, r, f, j])


def _counts(y, z, axis=None):
    y, z = y.astype(bool), z.astype(bool)
    return (y & z).sum(axis=axis), (~y & z).sum(axis=axis), (y & ~z).sum(axis=axis)


def binary(y, z):
    y, z = np.asarray(y) != 0, np.asarray(z) != 0
    res = {}
    if y.shape[1] == 1:
        y, z = y[:, 0], z[:, 0]
        acc = float(np.mean(y == z))
        res['Accuracy'], res['0/1 Loss'] = acc, 1 - acc
        for n, v in zip(('Precision', 'Recall', 'F1', 'Jaccard'), _prf(*_counts(y, z))):
            res[n] = v
        return res, {n: True for n in res}
    h = float(np.mean(y != z))
    s = float(np.mean(np.all(y == z, axis=1)))
    res['Hamming Loss'], res['Hamming Accuracy'] = h, 1 - h
    res['Subset Accuracy'], res['Subset 0/1 Loss'] = s, 1 - s
    names = ('Precision', 'Recall', 'F1', 'Jaccard')
    for pre, axis in (('Micro', None), ('Macro', 0), ('Example-wise', 1)):
        c = _counts(y, z, axis)
        v = _prf(*c) if axis is None else np.mean([_prf(*t) for t in zip(*c)], axis=0)
        for n, w in zip(names, v):
            res[pre + ' ' + n] = w
    return res, {n: True for n in res}


def regression(y, s):
    y, s = np.asarray(y, dtype=np.float64), np.asarray(s, dtype=np.float64)
    e = np.abs(y - s)
    res = {'Mean Absolute Error': e.mean(axis=0).mean(), 'Mean Squared Error': (e**2).mean(axis=0).mean(),
           'Median Absolute Error': np.median(e, axis=0).mean(),
           'Mean Absolute Percentage Error': (e / np.maximum(np.abs(y), np.finfo(np.float64).eps)).mean(axis=0).mean()}
    return res, {n: False for n in res}


def ranking(y, s):
    y, s = np.asarray(y) != 0, np.asarray(s, dtype=np.float64)
    n, q = y.shape
    rl, cov, lrap, dcg, ndcg = [], [], [], [], []
    disc = 1 / np.log2(np.arange(q) + 2)

    def dcg_of(g, sc):  # averaged over ties
        order = np.argsort(-sc, kind='stable')
        g, sc = g[order], sc[order]
        total, i = 0.0, 0
        while i < q:
            j = i
            while j < q and sc[j] == sc[i]:
                j += 1
            total += g[i:j].mean() * disc[i:j].sum()
            i = j
        return total

    for a, b in zip(y, s):
        pos, neg = b[a], b[~a]
        if len(pos) == 0 or len(neg) == 0:
            rl.append(0.0)
            lrap.append(1.0)
        else:
            rl.append(np.mean(pos[:, None] <= neg[None, :]))
            lrap.append(np.mean([np.sum(pos >= t) / np.sum(b >= t) for t in pos]))
        cov.append(np.sum(b >= pos.min()) if len(pos) else 0.0)
        d = dcg_of(a.astype(float), b)
        ideal = dcg_of(a.astype(float), a.astype(float))
        dcg.append(d)
        ndcg.append(d / ideal if ideal > 0 else 0.0)
    res = {'Ranking Loss': np.mean(rl), 'Coverage Error': np.mean(cov),
           'Label Ranking Average Precision': np.mean(lrap), 'Discounted Cumulative Gain': np.mean(dcg),
           'NDCG': np.mean(ndcg)}
    per = {n: False for n in res}
    per['NDCG'] = True
    return res, per


def evaluate(y, z, prediction_type, classification=True):
    """Returns the value of each measure and whether it is given as a percentage."""
    if not classification:
        return regression(y, z)
    if prediction_type == 'binary':
        return binary(y, z)
    if y.shape[1] > 1:
        r, p = ranking(y, z)
        r2, p2 = regression(y, z)
        return {**r, **r2}, {**p, **p2}
    z = np.asarray(z)
    return regression(y, z[:, -1:])


def label_stats(y):
    y = np.asarray(y) != 0
    rel = y.sum(axis=0)
    nz = rel[rel > 0]
    return {'Outputs': y.shape[1], 'Output Density': 100 * y.mean(), 'Output Sparsity': 100 * (1 - y.mean()),
            'Label Imbalance Ratio': float(np.mean(nz.max() / nz)) if len(nz) else 0.0,
            'Label Cardinality': float(y.sum(axis=1).mean()), 'Distinct Label Vectors': len({tuple(r) for r in y.tolist()})}
