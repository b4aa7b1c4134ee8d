"""Reference semantics of how labels and probabilities are derived from scores (numpy only)."""
import itertools

import numpy as np


def logistic(s):
    s = np.asarray(s, dtype=np.float64)
    with np.errstate(over='ignore'):
        return np.where(s >= 0, 1 / (1 + np.exp(-np.abs(s))), np.exp(-np.abs(s)) / (1 + np.exp(-np.abs(s))))


def bins_of(model, n):
    """The bins of an isotonic calibration model as n lists of (threshold, probability), or None if there is no model."""
    if model is None or not hasattr(model, 'visit'):
        return None
    from mlrl.common.cython.probability_calibration import IsotonicProbabilityCalibrationModelVisitor
    res = [[] for _ in range(n)]

    class V(IsotonicProbabilityCalibrationModelVisitor):
        def visit_bin(self, index, threshold, probability):
            res[int(index)].append((float(threshold), float(probability)))
    model.visit(V())
    return res


def label_vectors(space):
    """[(tuple of relevant label indices, frequency)] in the order in which they are stored, or None."""
    if space is None or not hasattr(space, 'visit'):
        return None
    from mlrl.common.cython.output_space_info import LabelVectorSetVisitor
    res = []

    class V(LabelVectorSetVisitor):
        def visit_label_vector(self, label_vector, frequency):
            res.append((tuple(int(v) for v in np.asarray(label_vector)), int(frequency)))
    space.visit(V())
    return res


def calibrate(bins, p):
    """Linear interpolation between the bins, (0, 0) and (1, 1).  NaN: not defined (known finding K6), or so steep that
    the result depends on rounding."""
    if not bins:
        return p
    r = [_calibrate(bins, min(1.0, max(0.0, q))) for q in (p, p - 1e-12 - 1e-9 * p, p + 1e-12 + 1e-9 * p)]
    return r[0] if abs(r[1] - r[2]) < 1e-6 else float('nan')


def _calibrate(bins, p):
    prev = (0.0, 0.0)
    for t, q in bins:
        if p <= t:
            if t == prev[0]:
                return float('nan')
            return prev[1] + (p - prev[0]) / (t - prev[0]) * (q - prev[1])
        prev = (t, q)
    if prev[0] == 1.0:
        return float('nan')
    return prev[1] + (p - prev[0]) / (1 - prev[0]) * (1 - prev[1])


def marginals(scores, mbins):
    P = logistic(scores)
    if mbins is None:
        return P
    return np.array([[calibrate(mbins[j], p) for j, p in enumerate(row)] for row in P]).reshape(P.shape)


def joint(P, vectors, jbins):
    """The (calibrated) joint probability of each label vector: n x number of label vectors."""
    n, m = P.shape
    J = np.empty((n, len(vectors)))
    for k, (v, _) in enumerate(vectors):
        y = np.zeros(m, dtype=bool)
        y[list(v)] = True
        J[:, k] = np.prod(np.where(y, P, 1 - P), axis=1)
        if jbins is not None:
            J[:, k] = [calibrate(jbins[k], p) for p in J[:, k]]
    return J


def normalize(J):
    s = J.sum(axis=1, keepdims=True)
    # a sum that is close to zero cannot be computed accurately
    return np.where(s < 1e-8, np.nan, np.divide(J, s, out=np.zeros_like(J), where=s != 0))


def as_matrix(vectors, m):
    V = np.zeros((len(vectors), m), dtype=int)
    for k, (v, _) in enumerate(vectors):
        V[k, list(v)] = 1
    return V


def subsets(m):
    return np.array(list(itertools.product((0, 1), repeat=m)), dtype=int)


def expected_f1(H, V, J):
    """n x len(H): the expected F1-measure of each of the label vectors in H."""
    inter = H @ V.T
    size = H.sum(axis=1)[:, None] + V.sum(axis=1)[None, :]
    F = np.where(size == 0, 1.0, 2 * inter / np.where(size == 0, 1, size))
    return J @ F.T


def distance(loss, V, S):
    """n x len(V): the loss of the scores S with respect to each of the label vectors in V."""
    n = S.shape[0]
    D = np.empty((n, len(V)))
    for k, y in enumerate(V):
        y = y.astype(bool)
        if loss.startswith('logistic'):
            x = np.where(y, -S, S)
            if loss.endswith('non-decomposable'):
                a = np.hstack([np.zeros((n, 1)), x])
                mx = a.max(axis=1)
                D[:, k] = mx + np.log(np.exp(a - mx[:, None]).sum(axis=1))
            else:
                D[:, k] = np.logaddexp(0, x).mean(axis=1)
        else:
            if loss.startswith('squared-error'):
                e = (np.where(y, 1.0, -1.0) - S) ** 2
            else:
                e = np.where(y, np.where(S < 1, (1 - S) ** 2, 0), np.where(S > 0, S ** 2, 0))
            D[:, k] = np.sqrt(e.sum(axis=1)) if loss.endswith('non-decomposable') else e.mean(axis=1)
    return D
