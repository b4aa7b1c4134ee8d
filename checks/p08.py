"""P08: predictions obtained incrementally are identical to those obtained with a limit on the number of rules."""
import gc

import numpy as np

import gen
from calls import CALLS, INC, arr, predictors, supported
from model import extract
from worker import Skip

CASES = {'quick': 1600, 'thorough': 40000}
RULE = 'random model x predictor x sequence of step sizes; after each step the result is compared with a non-incremental ' \
       'prediction that is limited to the same number of rules; non-trivial: at least two steps with different results; ' \
       'distinct by (model, steps, predictor)'
ASSUMPTIONS = ['scores and probabilities are compared with a tolerance of 1e-9 (sums are accumulated in the same order)']
REQUIRE = {'steps': 1000, 'compared_labels': 200, 'compared_scores': 200, 'compared_proba': 100}


def equal(a, b):
    if a.shape != b.shape:
        return False
    a, b = a.astype(np.float64), b.astype(np.float64)
    return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | np.isclose(a, b, rtol=1e-9, atol=1e-9)))


def run_case(i, rng, ctx):
    kind, d, cfg = gen.random_learner(rng, kinds=('clf', 'clf', 'clf', 'reg', 'seco'), rules=(1, 14),
                                      p=dict(loss=.4, isamp=.2, fsamp=.3, default=.4, prune=.3))
    if kind == 'clf':
        predictors(rng, cfg)
    cfg['prediction_format'] = str(rng.choice(['dense', 'sparse', 'auto']))
    if kind == 'seco':
        cfg['prediction_format'] = 'dense'
    c = gen.learner(kind, cfg, d)
    c.fit(d.X, d.Y)
    rules = extract(c.model_)
    total = len(rules)
    Q = np.vstack([d.X, d.Xq])
    Q = Q[rng.permutation(Q.shape[0])[:int(rng.integers(1, min(40, Q.shape[0]) + 1))]]
    A = Q if rng.random() < .5 else gen.to_sparse(Q, 'csr')
    call = str(rng.choice(supported(kind, cfg)))
    limit = 0 if rng.random() < .5 else int(rng.integers(1, total + 3))
    ctx.describe(f'{call} max_rules={limit} {kind} {cfg} {d.desc()} rules={total}')
    inc = INC[call](c, A, max_rules=limit)
    top = min(total, limit) if limit else total
    # reference predictions are made up front, as the estimator may be gone or changed later
    want = {k: arr(CALLS[call](c, A, max_rules=k)) for k in range(1, top + 1)}
    fate = int(rng.integers(5))
    if fate == 0:  # re-fit the estimator with other data while it is used
        c.fit(d.X[::-1].copy(), 1 - d.Y if kind != 'reg' else -d.Y)
    elif fate == 1:
        del c, A
        gc.collect()
    seen, kept, sizes = 0, [], []
    if inc.get_num_next() != top:
        ctx.fail('number-of-remaining-rules', f'{inc.get_num_next()} instead of {top} at the beginning')
    while True:
        if bool(inc.has_next()) != (seen < top):
            ctx.fail('has-next', f'has_next() is {inc.has_next()} after {seen} of {top} rules')
        if seen >= top:
            break
        step = int(rng.choice([1, 1, 2, 3, 5, 100]))
        got = inc.apply_next(step)
        sizes.append(step)
        seen = min(top, seen + step)
        if inc.get_num_next() != top - seen:
            ctx.fail('number-of-remaining-rules', f'{inc.get_num_next()} instead of {top - seen} after {seen} rules')
        g = arr(got)
        ctx.obs('steps')
        ctx.obs('compared_' + call)
        if not equal(g, want[seen]):
            ctx.fail('incremental-differs', f'{call} after {seen} rules (steps {sizes}): {g.tolist()} instead of '
                     f'{want[seen].tolist()}')
        kept.append((got, g.copy(), seen))
    for got, g, k in kept:
        if not equal(arr(got), g):
            ctx.fail('earlier-result-changed', f'the result obtained after {k} rules was changed by later steps')
    if fate >= 2:
        # several predictors of the same estimator do not influence each other
        a, b = INC[call](c, A, max_rules=limit), INC[call](c, A, max_rules=limit)
        ka = kb = 0
        while ka < top or kb < top:
            if kb >= top or (ka < top and rng.random() < .5):
                s = int(rng.integers(1, 4))
                ka = min(top, ka + s)
                r, k = arr(a.apply_next(s)), ka
            else:
                s = int(rng.integers(1, 4))
                kb = min(top, kb + s)
                r, k = arr(b.apply_next(s)), kb
            ctx.obs('interleaved_steps')
            if not equal(r, want[k]):
                ctx.fail('interleaved-differs', f'{call} after {k} rules')
    if len(sizes) > 1:
        ctx.distinct([r.key() for r in rules], sizes, call)
