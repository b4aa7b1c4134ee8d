"""The ways of obtaining predictions that a configuration supports, and comparisons of their results."""
import numpy as np
import scipy.sparse as sp


def arr(P):
    return P.toarray() if sp.issparse(P) else np.asarray(P)


def predictors(rng, cfg, prob=.5):
    """Adds a random combination of predictors and calibrators to a configuration of the BOOMER classifier."""
    if not cfg.get('loss', 'logistic').startswith('logistic'):  # there are no probabilities
        if rng.random() < prob:
            cfg['binary_predictor'] = str(rng.choice(['output-wise', 'example-wise']))
        return cfg
    if rng.random() < prob:
        cfg['binary_predictor'] = str(rng.choice(['output-wise', 'example-wise', 'gfm',
                                                  'output-wise{based_on_probabilities=true}',
                                                  'example-wise{based_on_probabilities=true}',
                                                  'output-wise{based_on_probabilities=true,use_probability_calibration=false}']))
    if rng.random() < prob:
        cfg['probability_predictor'] = str(rng.choice(['output-wise', 'marginalized',
                                                       'output-wise{use_probability_calibration=false}']))
    if rng.random() < prob * .6:
        cfg['marginal_probability_calibration'] = str(rng.choice(['isotonic', 'isotonic{use_holdout_set=false}']))
    if rng.random() < prob * .6:
        cfg['joint_probability_calibration'] = str(rng.choice(['isotonic', 'isotonic{use_holdout_set=false}']))
    return cfg


CALLS = {
    'labels': lambda c, A, **kw: c.predict(A, **kw),
    'scores': lambda c, A, **kw: c.predict(A, predict_scores=True, **kw),
    'proba': lambda c, A, **kw: c.predict_proba(A, **kw),
}
INC = {
    'labels': lambda c, A, **kw: c.predict_incrementally(A, **kw),
    'scores': lambda c, A, **kw: c.predict_incrementally(A, predict_scores=True, **kw),
    'proba': lambda c, A, **kw: c.predict_proba_incrementally(A, **kw),
}


def supported(kind, cfg):
    """Probabilities are only supported by logistic losses (the default), and not by SeCo and regressors."""
    if kind == 'seco':
        return ['labels']
    if kind == 'reg':
        return ['labels']
    return ['labels', 'scores'] + (['proba'] if cfg.get('loss', 'logistic').startswith('logistic') else [])


def snapshot(kind, cfg, c, Q, **kw):
    return {n: arr(CALLS[n](c, Q, **kw)) for n in supported(kind, cfg)}


def diff(a, b, tol=0.0):
    """None, or what is different between two snapshots (NaN equals NaN)."""
    for n in a:
        x, y = a[n], b.get(n)
        if y is None or x.shape != y.shape:
            return f'{n}: shape {None if y is None else y.shape} instead of {x.shape}'
        x, y = x.astype(np.float64), y.astype(np.float64)
        ok = (x == y) | (np.isnan(x) & np.isnan(y))
        if tol:
            ok |= np.isclose(x, y, rtol=tol, atol=tol)
        if not ok.all():
            r, j = [int(v[0]) for v in np.nonzero(~ok)]
            return f'{n}: example {r} output {j}: {y[r, j]!r} instead of {x[r, j]!r} ({int((~ok).sum())} differ)'
    return None
