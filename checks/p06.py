"""P06: predicted scores / labels are exactly what the visible rules say, for every query example."""
import numpy as np

import gen
from model import covers, decision_list, extract, sum_scores

PROBES = 1
CASES = {'quick': 2400, 'thorough': 40000}
RULE = 'random data set x random configuration (BOOMER classifier/regressor, SeCo); non-trivial: the model has at ' \
       'least one rule with a body and the predictions are not all equal; distinct by (rules, predictions)'
ASSUMPTIONS = ['conditions are read through the public rule-model visitor', 'scores are compared with rtol 1e-9',
               'feature values are float32 and discrete features hold integers (or NaN)']
REQUIRE = {'conditions_checked': 300, 'nan_values_tested': 100}


def queries(rng, d, rules):
    """Training examples, held-out examples and examples at/around the thresholds of the model's conditions."""
    Q = [d.X, d.Xq]
    conds = [(o, f, t) for r in rules for o, f, t in r.conds]
    if conds:
        base = np.vstack(Q)
        k = min(12, 2 + len(conds))
        P = base[rng.integers(0, base.shape[0], k)].copy()
        for i in range(k):
            for _ in range(int(rng.integers(1, 4))):
                o, f, t = conds[rng.integers(len(conds))]
                t32 = np.float32(t)
                if o.startswith('num'):
                    c = [t32, np.nextafter(t32, np.float32(np.inf)), np.nextafter(t32, np.float32(-np.inf)), np.float32(0),
                         np.float32(np.nan)]
                else:
                    c = [t32, t32 + 1, t32 - 1, np.float32(0), np.float32(np.nan), np.float32(-7)]
                P[i, f] = c[rng.integers(len(c))]
        Q.append(P)
    # the features the model uses are left out (missing) or set to zero in some
    P = np.vstack(Q)[:4].copy()
    P[rng.random(P.shape) < 0.3] = np.nan
    Q.append(P)
    Q.append(np.zeros((1, d.f), dtype=np.float32))
    A = np.vstack(Q).astype(np.float32)
    return np.where(A == 0, np.float32(0), A)


def variants(rng, A):
    yield 'dense', A, {}
    for v in (0.0, float(rng.choice([1.0, -0.5, 2.0]))):
        yield f'csr(value={v})', gen.to_sparse(A, 'csr', v, rng, explicit=float(rng.choice([0, 0.2]))), \
            dict(sparse_feature_value=v)


def probe_sparse_list(ctx):
    """Known finding: sparse predictions of a decision list ignore negative decisions of earlier rules."""
    X = np.array([[1.0], [1.0], [1.0], [1.0], [0.0], [0.0]], dtype=np.float32)
    Y = np.array([[1], [1], [1], [1], [0], [0]], dtype=np.uint8)
    res = []
    for fmt in ('dense', 'sparse'):
        c = gen.learner('seco', dict(random_state=1, prediction_format=fmt, feature_sampling='none'))
        c.fit(X, Y)
        p = c.predict(X)
        res.append(p.toarray() if hasattr(p, 'toarray') else np.asarray(p))
    if not np.array_equal(res[0], res[1]):
        ctx.fail('sparse-prediction-differs', f'dense {res[0].ravel().tolist()} sparse {res[1].ravel().tolist()}')


def run_case(i, rng, ctx):
    if i == 0:
        return probe_sparse_list(ctx)
    kind, d, cfg = gen.random_learner(rng, rules=(1, 12), p=dict(fsamp=.3, isamp=.3))
    if kind == 'seco':
        cfg['prediction_format'] = 'dense'  # see the probe
    ctx.describe(f'{kind} {cfg} {d.desc()}')
    c = gen.learner(kind, cfg, d)
    c.fit(d.X, d.Y)
    rules = extract(c.model_)
    m = d.Y.shape[1]
    A = queries(rng, d, rules)
    ctx.obs('rules', len(rules))
    ctx.obs('conditions_checked', sum(len(r.conds) for r in rules))
    ctx.obs('nan_values_tested', int(np.isnan(A).sum()))
    ks = [0] + ([int(rng.integers(1, len(rules) + 2))] if rules else [])
    sig = []
    for k in ks:
        if kind == 'seco':
            # the default rule decides last, but counts as one of the rules
            want = decision_list(truncate(rules, k), A, m)
        else:
            want = sum_scores(rules, A, m, k)
        for name, Q, kw in variants(rng, A):
            if kind == 'seco':
                got = c.predict(Q, max_rules=k, **kw)
                got = got.toarray() if hasattr(got, 'toarray') else np.asarray(got)
                ok = got.shape == want.shape and np.array_equal(got.astype(int), want)
            else:
                got = np.asarray(c.predict(Q, predict_scores=True, max_rules=k, **kw)) if kind == 'clf' else np.asarray(
                    c.predict(Q, max_rules=k, **kw))
                got = got.reshape(A.shape[0], -1) if got.size == want.size else got
                ok = got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-9)
            ctx.obs('predictions', want.size)
            if not ok:
                where = ''
                if got.shape == want.shape:
                    r, j = [int(v[0]) for v in np.nonzero(~np.isclose(got.astype(float), want.astype(float), rtol=1e-9, atol=1e-9))]
                    where = f'example {A[r].tolist()} output {j}: predicted {got[r, j]}, rules say {want[r, j]}; ' \
                        f'covering: {[q for q in range(len(rules)) if covers(rules[q], A[r:r+1])[0]]}'
                else:
                    where = f'shape {got.shape} instead of {want.shape}'
                ctx.fail('prediction-differs-from-rules', f'{name} max_rules={k}: {where}\nrules: {rules}')
        sig.append(np.unique(want, axis=0).shape[0])
    if any(r.conds for r in rules) and sig[0] > 1:
        ctx.distinct([r.key() for r in rules])


def truncate(rules, k):
    """The first k rules of a decision list: its default rule is part of it and always comes last."""
    if not k or k >= len(rules):
        return rules
    if rules and rules[-1].empty:
        return rules[:k - 1] + rules[-1:]
    return rules[:k]
