"""P01: no memory error and no undefined behaviour, whatever the data, the configuration and the sequence of API calls."""
import os
import pickle

import numpy as np

import gen
from model import extract

FLAVORS = ('asan', )
PROBES = 3
CASES = {'quick': 2500, 'thorough': 30000}
CASE_TIMEOUT = 40
RULE = 'random data set x random configuration x random sequence of API calls, run under AddressSanitizer, ' \
       'UndefinedBehaviorSanitizer and libstdc++ assertions; non-trivial: a model with at least one condition was ' \
       'learned and used for predictions; distinct by (configuration, model size)'
ASSUMPTIONS = ['errors are those detected by GCC 13 ASan/UBSan and libstdc++ assertions in the C++ libraries',
               'Cython glue code and BLAS/LAPACK are not instrumented', 'leaks are not reported']
REQUIRE = {'fits': 300, 'predictions': 300, 'conditions': 300}


def probe(i, ctx):
    """Inputs that show known findings."""
    rng = np.random.default_rng(3)
    if i == 0:  # beam search + feature binning: out-of-bounds access
        X = rng.normal(size=(40, 4)).astype(np.float32)
        Y = (rng.random((40, 3)) < .4).astype(np.uint8)
        gen.learner('clf', dict(rule_induction='top-down-beam-search{beam_width=4}', feature_binning='equal-width',
                                max_rules=10, feature_sampling='none')).fit(X, Y)
    elif i == 1:  # nominal feature in a sparse matrix with explicitly stored elements equal to the sparse value
        X = rng.integers(0, 4, (40, 3)).astype(np.float32)
        Y = (rng.random((40, 3)) < .4).astype(np.uint8)
        c = gen.learner('clf', dict(max_rules=10, feature_sampling='none', feature_format='sparse'))
        c.nominal_feature_indices = [0, 1, 2]
        c.fit(gen.to_sparse(X, 'csr', 0.0, rng, .4), Y)
    else:  # beam search on nominal features + rule pruning: the conditions cannot be replayed
        for k in range(60):
            X = rng.integers(0, 4, (30, 3)).astype(np.float32)
            Y = (rng.random((30, 3)) < .4).astype(np.uint8)
            c = gen.learner('seco', dict(max_rules=10, random_state=k + 1, rule_pruning='irep',
                                         rule_induction='top-down-beam-search{beam_width=4}'))
            c.nominal_feature_indices = [0, 1, 2]
            c.fit(X, Y)


def matrices(rng, A, explicit=True):
    k = int(rng.integers(5))
    if k == 0:
        return np.ascontiguousarray(A)
    if k == 1:
        return np.asfortranarray(A)
    return gen.to_sparse(A, 'csr' if k in (2, 3) else 'csc', 0.0, rng, float(rng.choice([0, 0.3])) if explicit else 0.0)


def outputs(rng, Y):
    k = int(rng.integers(4))
    if k == 0:
        return np.ascontiguousarray(Y)
    if k == 1:
        return np.asfortranarray(Y)
    return gen.to_sparse(Y, 'csr' if k == 2 else 'csc')


SIZES = [dict(), dict(), dict(), dict(), dict(n=(1, 3)), dict(n=(2, 4), m=(6, 12)), dict(n=(2, 10), m=(8, 40)),
         dict(f=(1, 1)), dict(m=(1, 1)), dict(n=(150, 300), f=(2, 4)), dict(f=(15, 30), n=(5, 30)),
         dict(n=(60, 140), m=(33, 70), f=(1, 3))]


def run_case(i, rng, ctx):
    if i < PROBES:
        return probe(i, ctx)
    kw = SIZES[int(rng.integers(len(SIZES)))]
    kind, d, cfg = gen.random_learner(rng, data_kw=kw, rules=(1, 10), p=dict(
        head=.75, lbin=.35, fbin=.3, holdout=.35, prune=.35, osamp=.35, stat=.5, irep=.3, seqopt=.25))
    if kind == 'clf':
        if rng.random() < .4:
            cfg['binary_predictor'] = str(rng.choice(['output-wise', 'example-wise', 'gfm',
                                                      'output-wise{based_on_probabilities=true}']))
        if rng.random() < .4:
            cfg['probability_predictor'] = str(rng.choice(['output-wise', 'marginalized']))
        if rng.random() < .3:
            cfg['marginal_probability_calibration'] = 'isotonic'
        if rng.random() < .3:
            cfg['joint_probability_calibration'] = 'isotonic'
    ctx.describe(f'{kind} {cfg} {d.desc()}')
    try:
        c = gen.learner(kind, cfg, d)
        c.fit(matrices(rng, d.X, not (d.nominal or d.ordinal)), outputs(rng, d.Y))
        ctx.obs('fits')
        rules = extract(c.model_, used=bool(rng.integers(2)))
        ctx.obs('conditions', sum(len(r.conds) for r in rules))
        Q = np.vstack([d.X, d.Xq])
        for _ in range(int(rng.integers(1, 4))):
            u = rng.random()
            k = int(rng.integers(0, len(rules) + 2))
            A = matrices(rng, Q[:int(rng.integers(1, Q.shape[0] + 1))])
            try:
                if u < .3:
                    c.predict(A, max_rules=k)
                elif u < .5:
                    c.predict(A, max_rules=k, predict_scores=True)
                elif u < .7:
                    c.predict_proba(A, max_rules=k)
                elif u < .85:
                    inc = c.predict_incrementally(A)
                    while inc.has_next():
                        inc.apply_next(int(rng.integers(1, 4)))
                elif u < .92:
                    inc = c.predict_proba_incrementally(A)
                    while inc.has_next():
                        inc.apply_next(int(rng.integers(1, 4)))
                else:
                    c = pickle.loads(pickle.dumps(c))
                    c.predict(A)
                ctx.obs('predictions')
            except (RuntimeError, ValueError, AttributeError, NotImplementedError, TypeError) as e:
                ctx.obs('rejected_calls')  # e.g. probabilities are not supported by SeCo or by hinge losses
                ctx.info[type(e).__name__] = str(e)
    except (RuntimeError, ValueError) as e:
        ctx.obs('rejected_fits')
        if os.environ.get('VERIF_SHOW'):
            raise
        return
    if any(r.conds for r in rules):
        ctx.distinct(sorted(cfg.items()), len(rules))
