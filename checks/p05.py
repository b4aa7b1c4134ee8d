"""P05: models and predictions depend on the values of the data only, not on the representation of matrices."""
import numpy as np
import scipy.sparse as sp

import gen
from model import extract

PROBES = 1
CASES = {'quick': 2400, 'thorough': 40000}
RULE = 'random data set x configuration; the model and the predictions of a reference representation are compared with those ' \
       'of other representations of the same values; non-trivial: the model has a condition; distinct by model'
ASSUMPTIONS = ['dense and sparse training matrices are compared where sums of statistics are exact and outside the region of '
               'known finding K1 (numerical features without zeros)', 'explicitly stored elements that are equal '
               'to the sparse value are used for numerical features and for queries only (K7)',
               'the order in which label vectors are stratified is unspecified']
REQUIRE = {'representations': 500, 'predictions': 500}


def dense_variants(rng, A):
    A = np.asarray(A)
    yield 'C', np.ascontiguousarray(A)
    yield 'F', np.asfortranarray(A)
    yield 'float64', A.astype(np.float64)
    big = np.zeros((A.shape[0] * 2, A.shape[1] * 2), dtype=A.dtype)
    big[::2, ::2] = A
    yield 'strided', big[::2, ::2]
    yield 'reversed', np.ascontiguousarray(A[::-1, ::-1])[::-1, ::-1]
    ro = np.array(A)
    ro.setflags(write=False)
    yield 'readonly', ro
    if not np.isnan(A).any() and np.all(A == np.round(A)) and np.abs(A).max(initial=0) < 100:
        yield 'int64', A.astype(np.int64)
        yield 'int8', A.astype(np.int8)


def shuffle_csr(rng, M):
    """The same compressed matrix, but with unsorted indices within its rows/columns."""
    M = M.copy()
    for r in range(len(M.indptr) - 1):
        a, b = M.indptr[r], M.indptr[r + 1]
        p = a + rng.permutation(b - a)
        M.indices[a:b] = M.indices[p]
        M.data[a:b] = M.data[p]
    M.has_sorted_indices = False
    return M


def duplicated(rng, M):
    """The same matrix in COO format, where some elements are stored as a sum of two."""
    M = M.tocoo()
    k = rng.random(M.nnz) < .4
    k &= np.isfinite(M.data)
    half = np.where(k, 0, M.data).astype(M.data.dtype)
    extra = np.where(k, M.data, 0).astype(M.data.dtype)
    return sp.coo_matrix((np.concatenate([half, extra[k]]), (np.concatenate([M.row, M.row[k]]),
                                                          np.concatenate([M.col, M.col[k]]))), shape=M.shape)


def sparse_variants(rng, A, value=0.0, explicit=True, unsorted=True):
    for fmt in ('csr', 'csc'):
        M = gen.to_sparse(A, fmt, value)
        yield fmt, M
        if unsorted:
            yield fmt + '-unsorted', shuffle_csr(rng, M)
        yield fmt + '_array', (sp.csr_array if fmt == 'csr' else sp.csc_array)(M)
        if explicit:
            yield fmt + '-explicit', gen.to_sparse(A, fmt, value, rng, .3)
    C = gen.to_sparse(A, 'coo', value)
    yield 'coo', C
    yield 'float64', C.tocsr().astype(np.float64)
    if value == 0.0:
        yield 'lil', C.tolil()
        yield 'dok', C.todok()
    if explicit and value == 0.0:
        yield 'coo-duplicates', duplicated(rng, C)


def pick(rng, it, k):
    it = list(it)
    for j in rng.permutation(len(it))[:k]:
        yield it[j]


def arr(P):
    return P.toarray() if sp.issparse(P) else np.asarray(P)


def same(a, b, tol):
    if len(a) != len(b):
        return f'{len(a)} rules instead of {len(b)}'
    for k, (r, s) in enumerate(zip(a, b)):
        if sorted(r.conds) != sorted(s.conds) or not np.array_equal(r.indices(), s.indices()):
            return f'rule {k}: {r} instead of {s}'
        if not (np.array_equal(r.scores, s.scores) or (tol and np.allclose(r.scores, s.scores, rtol=tol, atol=tol))):
            return f'scores of rule {k}: {r} instead of {s}'
    return None


def fit(kind, cfg, d, X, Y, **kw):
    c = gen.learner(kind, cfg, d)
    c.fit(X, Y, **kw)
    return c


def check_models(ctx, name, c, rules, tol=0.0):
    e = same(extract(c.model_), rules, tol)
    ctx.obs('representations')
    if e:
        ctx.fail('model-depends-on-representation', f'{name}: {e}')


def probe_regression(ctx):
    """Known finding: partial heads update the wrong statistics if regression scores are given in a dense matrix."""
    rng = np.random.default_rng(1)
    d = gen.data(rng, task='reg', n=(40, 40), f=(3, 3), m=(3, 3), nan=0, disc=0, kinds=['neg'])
    cfg = dict(random_state=1, max_rules=5, head_type='single', feature_sampling='none')
    ref = extract(fit('reg', dict(cfg, output_format='dense'), d, d.X, d.Y).model_)
    check_models(ctx, 'sparse outputs', fit('reg', dict(cfg, output_format='sparse'), d, d.X, gen.to_sparse(d.Y, 'csr')), ref,
                 1e-9)


def run_case(i, rng, ctx):
    if i == 0:
        return probe_regression(ctx)
    mode = ('features', 'outputs', 'query', 'cross')[i % 4]
    if mode == 'cross':
        return cross(i, rng, ctx)
    kind, d, cfg = gen.random_learner(rng, rules=(1, 8), p=dict(fsamp=.3, isamp=.3))
    cfg['prediction_format'] = 'dense'
    cfg['feature_format'] = 'dense'
    cfg['output_format'] = 'dense'
    if kind == 'reg' and mode == 'outputs':  # see the probe
        cfg['head_type'] = 'complete'
        cfg.pop('output_sampling', None)
    if mode == 'outputs':  # the order of strata of label vectors is unspecified
        for k in ('instance_sampling', 'holdout'):
            if 'example-wise' in cfg.get(k, ''):
                cfg[k] = cfg[k].replace('example-wise', 'output-wise')
    ctx.describe(f'{mode} {kind} {cfg} {d.desc()}')
    c0 = fit(kind, cfg, d, d.X, d.Y)
    rules = extract(c0.model_)
    if mode == 'features':
        # as everything is converted into dense matrices, all representations have to be equivalent
        for name, X in pick(rng, dense_variants(rng, d.X), 2):
            check_models(ctx, 'dense ' + name, fit(kind, cfg, d, X, d.Y), rules)
        v = float(rng.choice([0, 0, 1, -0.5]))
        for name, X in pick(rng, sparse_variants(rng, d.X, v), 2):
            check_models(ctx, f'sparse({v}) {name} -> dense',
                         fit(kind, cfg, d, X, d.Y, sparse_feature_value=v), rules)
        # all sparse representations are equivalent, too
        cs = dict(cfg, feature_format='sparse')
        ref = fit(kind, cs, d, gen.to_sparse(d.X, 'csc', v), d.Y, sparse_feature_value=v)
        rr = extract(ref.model_)
        for name, X in pick(rng, sparse_variants(rng, d.X, v, explicit=False, unsorted=False), 2):
            check_models(ctx, f'sparse({v}) {name}', fit(kind, cs, d, X, d.Y, sparse_feature_value=v), rr)
    elif mode == 'outputs':
        for name, Y in pick(rng, dense_variants(rng, d.Y), 2):
            check_models(ctx, 'dense outputs ' + name, fit(kind, cfg, d, d.X, Y), rules)
        if kind != 'reg':
            check_models(ctx, 'bool outputs', fit(kind, cfg, d, d.X, d.Y.astype(bool)), rules)
        if d.m == 1:
            check_models(ctx, '1d outputs', fit(kind, cfg, d, d.X, d.Y[:, 0]), rules)
        for fmt in ('dense', 'sparse'):
            cs = dict(cfg, output_format=fmt)
            for name, Y in pick(rng, sparse_variants(rng, d.Y.astype(np.float32) if kind == 'reg' else d.Y), 2):
                check_models(ctx, f'outputs {name} -> {fmt}', fit(kind, cs, d, d.X, Y), rules)
    else:
        Q = np.vstack([d.X, d.Xq])
        res = {}
        calls = ['predict']
        if kind == 'clf':
            calls.append('scores')
            if cfg.get('loss', '').startswith('logistic'):
                calls.append('proba')

        def run(call, c, A, **kw):
            if call == 'predict':
                return arr(c.predict(A, **kw))
            if call == 'scores':
                return arr(c.predict(A, predict_scores=True, **kw))
            return arr(c.predict_proba(A, **kw))

        for call in calls:
            res[call] = run(call, c0, Q)
        v = float(rng.choice([0, 0, 1, -0.5]))
        todo = [('dense ' + n, A, {}, 'dense') for n, A in pick(rng, dense_variants(rng, Q), 2)]
        for fmt in ('dense', 'sparse'):
            todo += [(f'sparse({v}) {n} -> {fmt}', A, dict(sparse_feature_value=v), fmt)
                     for n, A in pick(rng, sparse_variants(rng, Q, v), 3)]
        # subsets and permutations of the examples
        p = rng.permutation(Q.shape[0])[:max(1, Q.shape[0] // 2)]
        for call in calls:
            got = run(call, c0, Q[p])
            ctx.obs('predictions')
            if not np.array_equal(got, res[call][p]):
                ctx.fail('prediction-depends-on-other-examples', f'{call}: {got.tolist()} vs. {res[call][p].tolist()}')
        for name, A, kw, fmt in todo:
            c0.feature_format = fmt
            for call in calls:
                got = run(call, c0, A, **kw)
                ctx.obs('predictions')
                if got.shape != res[call].shape or not np.array_equal(got, res[call]):
                    ctx.fail('prediction-depends-on-representation', f'{call} {name}: {got.tolist()} instead of '
                             f'{res[call].tolist()}')
        if kind == 'clf':
            c1 = gen.learner(kind, dict(cfg, prediction_format='sparse'), d)
            c1.fit(d.X, d.Y)
            P = c1.predict(Q)
            ctx.obs('sparse_predictions')
            if not sp.issparse(P):
                ctx.fail('sparse-prediction-is-dense', str(type(P)))
            if not np.array_equal(P.toarray(), res['predict']):
                ctx.fail('sparse-prediction-differs', f'{P.toarray().tolist()} instead of {res["predict"].tolist()}')
    if any(r.conds for r in rules):
        ctx.distinct(mode, [r.key() for r in rules])


def cross(i, rng, ctx):
    """Dense vs. sparse training matrices and statistics, where all sums are exact."""
    kind = str(rng.choice(['clf', 'reg', 'seco']))
    d = gen.data(rng, task='reg' if kind == 'reg' else 'clf', disc=0,
                 kinds=['neg', 'pos', 'cont', 'near'])
    cfg = dict(random_state=int(rng.integers(1, 1000)), prediction_format='dense')
    if kind == 'reg':
        d.Y = np.round(d.Y).astype(np.float32)
    if kind == 'seco':
        cfg.update(max_rules=int(rng.integers(1, 8)), rule_pruning=str(rng.choice(['none', 'irep'])))
    else:
        loss = 'squared-error-decomposable' if kind == 'reg' else str(
            rng.choice(['squared-error-decomposable', 'squared-hinge-decomposable']))
        cfg.update(max_rules=1, default_rule='false', loss=loss, feature_sampling='none',
                   head_type=str(rng.choice(['single', 'complete', 'partial-fixed{output_ratio=0.5}'])),
                   l2_regularization_weight=float(rng.choice([0, 1])))
    ctx.describe(f'cross {kind} {cfg} {d.desc()}')
    ref = extract(fit(kind, dict(cfg, feature_format='dense', output_format='dense'), d, d.X, d.Y).model_)
    Xs = gen.to_sparse(d.X, 'csc', 0.0)
    check_models(ctx, 'sparse features', fit(kind, dict(cfg, feature_format='sparse'), d, Xs, d.Y), ref)
    Ys = gen.to_sparse(d.Y, 'csr', 0.0)
    check_models(ctx, 'sparse features and outputs',
                 fit(kind, dict(cfg, feature_format='sparse', output_format='sparse'), d, Xs, Ys), ref)
    check_models(ctx, 'unsorted sparse features and outputs',
                 fit(kind, dict(cfg, feature_format='sparse', output_format='sparse'), d, shuffle_csr(rng, Xs),
                     shuffle_csr(rng, Ys)), ref)
    check_models(ctx, 'auto', fit(kind, dict(cfg, feature_format='auto', output_format='auto'), d, Xs, Ys), ref)
    if kind == 'clf' and cfg['loss'].startswith('squared-hinge') and cfg['head_type'] != 'complete':
        check_models(ctx, 'sparse statistics', fit(kind, dict(cfg, statistic_format='sparse', output_format='sparse'), d,
                                                   d.X, Ys), ref)
    if any(r.conds for r in ref):
        ctx.distinct('cross', [r.key() for r in ref])
