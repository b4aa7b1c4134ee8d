"""P07: labels and probabilities are what the chosen predictor is documented to derive from the scores."""
from collections import Counter

import numpy as np

import deriv as D
import gen
from calls import arr
from model import extract, sum_scores

CASES = {'quick': 2600, 'thorough': 50000}
RULE = 'random BOOMER classifier x random binary/probability predictor and calibrators x query examples, several ' \
       'max_rules and sparse/dense predictions; labels and probabilities are recomputed from the rules; non-trivial: ' \
       'both labels are predicted; distinct by (rules, predictor)'
ASSUMPTIONS = ['predictions whose decision is closer than 1e-9 to a tie may go either way',
               'calibration models, known label vectors and rules are read through the public visitors',
               'examples for which the interpolation of a calibration model is 0/0 are left out (known finding K6)']
REQUIRE = {'labels_checked': 20000, 'probabilities_checked': 5000, 'gfm': 50, 'example-wise': 50, 'marginalized': 50,
           'calibrated': 100, 'known_vectors': 500}
TOL = 1e-9


def choose(rng, cfg):
    """(binary, based on probabilities, calibrated), (probability, calibrated)"""
    loss = cfg.get('loss', 'logistic-decomposable')
    logi = loss.startswith('logistic')
    ndec = loss.endswith('non-decomposable')
    b = str(rng.choice(['auto', 'output-wise', 'example-wise'] + (['gfm', 'gfm'] if logi else [])))
    bp, bc = False, True
    kw = {}
    if b in ('output-wise', 'example-wise') and logi and rng.random() < .6:
        bp = bool(rng.random() < .7)
        kw['based_on_probabilities'] = str(bp).lower()
    if b != 'auto' and logi and rng.random() < .5:
        bc = bool(rng.random() < .5)
        kw['use_probability_calibration'] = str(bc).lower()
    if b != 'auto' or rng.random() < .5:
        cfg['binary_predictor'] = gen.opt(b, **kw)
    if b == 'auto':
        b = 'example-wise' if ndec else 'output-wise'
    if b == 'gfm':
        bp = True
    p, pc = None, True
    if logi:
        p = str(rng.choice(['auto', 'output-wise', 'marginalized']))
        kw = {}
        if p != 'auto' and rng.random() < .5:
            pc = bool(rng.random() < .5)
            kw['use_probability_calibration'] = str(pc).lower()
        if p != 'auto' or rng.random() < .5:
            cfg['probability_predictor'] = gen.opt(p, **kw)
        if p == 'auto':
            p = 'marginalized' if ndec else 'output-wise'
        for k in ('marginal', 'joint'):
            if rng.random() < .4:
                cfg[k + '_probability_calibration'] = str(rng.choice(['isotonic', 'isotonic{use_holdout_set=false}']))
    return loss, (b, bp, bc), (p, pc)


def run_case(i, rng, ctx):
    kind, d, cfg = gen.random_learner(rng, kinds=('clf',), rules=(1, 14), data_kw=dict(n=(5, 50), m=(1, 6)),
                                      p=dict(loss=.7, fmt=.7, isamp=.2, fsamp=.2, lbin=.1, shrink=.7))
    loss, (b, bp, bc), (p, pc) = choose(rng, cfg)
    ctx.describe(f'{cfg} {d.desc()}')
    c = gen.learner(kind, cfg, d)
    c.fit(d.X, d.Y)
    rules = extract(c.model_)
    m = d.Y.shape[1]
    vectors = D.label_vectors(c.output_space_info_)
    if b in ('example-wise', 'gfm') or p == 'marginalized':
        want = Counter(tuple(int(v) for v in np.nonzero(y)[0]) for y in d.Y)
        if vectors is None or Counter(dict(vectors)) != want or len(vectors) != len(want):
            ctx.fail('known-label-vectors', f'stored {vectors}, the training data has {dict(want)}')
        ctx.obs('known_vectors', len(vectors))
    mb = D.bins_of(c.marginal_probability_calibration_model_, m)
    jb = D.bins_of(c.joint_probability_calibration_model_, len(vectors) if vectors else 0) if vectors else None
    A = np.vstack([d.X, d.Xq, np.zeros((1, d.f), dtype=np.float32)])
    for k in [0] + ([int(rng.integers(1, len(rules) + 1))] if rules else []):
        S = sum_scores(rules, A, m, k)
        got = arr(c.predict(A, max_rules=k)).reshape(A.shape[0], -1)
        if got.shape != S.shape or not np.isin(got, (0, 1)).all():
            ctx.fail('not-binary', f'{got.shape}: {np.unique(got)}')
        got = got.astype(int)
        labels(ctx, loss, b, bp, bc, S, got, vectors, mb, jb)
        ctx.obs('labels_checked', got.size)
        ctx.obs(b)
        if p is not None:
            pr = np.asarray(c.predict_proba(A, max_rules=k))
            if m == 1:
                if pr.shape != (A.shape[0], 2) or not np.allclose(pr.sum(axis=1), 1, atol=1e-12, equal_nan=True):
                    ctx.fail('probabilities-of-classes', f'{pr.shape} {pr[:3]}')
                pr = pr[:, 1:]
            proba(ctx, p, pc, S, pr, vectors, mb, jb)
            ctx.obs('probabilities_checked', pr.size)
            ctx.obs(p)
    if mb or jb:
        ctx.obs('calibrated')
    if len(np.unique(got)) == 2:
        ctx.distinct(([r.key() for r in rules], b, bp, bc, p, pc))


def labels(ctx, loss, b, bp, bc, S, got, vectors, mb, jb):
    m = S.shape[1]
    name = f'{b} based_on_probabilities={bp} calibration={bc} {loss}'
    if not bc:
        mb = jb = None
    if b == 'output-wise':
        if bp:
            v, t = D.marginals(S, mb), 0.5
        else:
            v, t = S, (0.5 if loss.startswith('squared-hinge') else 0.0)
        bad = ~np.isnan(v) & (np.abs(v - t) > TOL) & ((v > t) != (got == 1))
        exact = v == t
        if not bp:  # a score that is exactly at the threshold is not relevant
            bad |= exact & (got == 1) & (S == 0)
        if bad.any():
            r, j = [int(q[0]) for q in np.nonzero(bad)]
            ctx.fail('label-differs', f'{name}: score {S[r, j]} value {v[r, j]} threshold {t} predicted {got[r, j]}')
        return
    V = D.as_matrix(vectors, m)
    if b == 'example-wise':
        q = -D.joint(D.marginals(S, mb), vectors, jb) if bp else D.distance(loss, V, S)
        cand = V
    else:
        J = D.normalize(D.joint(D.marginals(S, mb), vectors, jb))
        cand = D.subsets(m)
        q = -D.expected_f1(cand, V, J)
    ok = ~np.isnan(q).any(axis=1)
    best = np.where(ok, np.where(np.isnan(q), 0, q).min(axis=1), 0)
    for r in np.nonzero(ok)[0]:
        hit = np.nonzero((cand == got[r]).all(axis=1))[0]
        if not len(hit):
            ctx.fail('unknown-label-vector', f'{name}: predicted {got[r].tolist()}, known {[v for v, _ in vectors]}')
        elif q[r, hit[0]] > best[r] + TOL * max(1, abs(best[r])):
            ctx.fail('label-vector-not-optimal', f'{name}: scores {S[r].tolist()} predicted {got[r].tolist()} with '
                     f'{q[r, hit[0]]}, but {cand[int(np.argmin(q[r]))].tolist()} has {best[r]} (lower is better)')


def proba(ctx, p, pc, S, pr, vectors, mb, jb):
    if not pc:
        mb = jb = None
    P = D.marginals(S, mb)
    if p == 'output-wise':
        want = P
    else:
        J = D.normalize(D.joint(P, vectors, jb))
        want = J @ D.as_matrix(vectors, S.shape[1])
    if pr.shape != want.shape:
        ctx.fail('probability-shape', f'{pr.shape} instead of {want.shape}')
    ok = ~np.isnan(want)
    if (ok & ~((pr >= 0) & (pr <= 1 + 1e-12))).any():
        ctx.fail('probability-out-of-range', f'{p}: {pr[ok & ~((pr >= 0) & (pr <= 1 + 1e-12))][:5].tolist()}')
    bad = ok & ~np.isclose(pr, want, rtol=1e-7, atol=1e-9)
    if bad.any():
        r, j = [int(q[0]) for q in np.nonzero(bad)]
        ctx.fail('probability-differs', f'{p} calibration={pc}: example {r} label {j}: {pr[r, j]} instead of '
                 f'{want[r, j]}, scores {S[r].tolist()}')
