"""Random data sets and random (valid) configurations.  Everything is derived from a numpy Generator."""
import numpy as np
import scipy.sparse as sp


def _col(rng, n, kind, nan):
    if kind == 'cont':
        x = rng.normal(size=n)
    elif kind == 'grid':
        x = rng.integers(-3, 4, size=n) * 0.5
    elif kind == 'const':
        x = np.full(n, float(rng.integers(-1, 2)))
    elif kind == 'spos':
        x = np.where(rng.random(n) < 0.35, rng.random(n) + 0.1, 0.0)
    elif kind == 'smix':
        x = np.where(rng.random(n) < 0.4, rng.normal(size=n), 0.0)
    elif kind == 'sneg':
        x = np.where(rng.random(n) < 0.35, -rng.random(n) - 0.1, 0.0)
    elif kind == 'bin':
        x = (rng.random(n) < rng.choice([0.1, 0.5, 0.9])).astype(float)
    elif kind == 'big':
        x = rng.normal(size=n) * rng.choice([1e-20, 1e-3, 1e6, 1e20])
    elif kind == 'near':
        x = 1.0 + rng.integers(0, 4, size=n) * np.float64(np.finfo(np.float32).eps)
    elif kind == 'int':
        x = rng.integers(0, rng.integers(2, 6), size=n).astype(float)
    elif kind == 'nint':
        x = rng.integers(-2, 4, size=n).astype(float)
    elif kind == 'gap':  # integer codes that are not contiguous
        x = rng.choice(np.array([0, 3, 4, 10, -5]), size=n).astype(float)
    elif kind == 'neg':
        x = -rng.random(n) - 0.1
    elif kind == 'nneg':  # no negative values, but many zeros
        x = np.where(rng.random(n) < 0.5, rng.random(n), 0.0)
    elif kind == 'pos':
        x = rng.random(n) + 0.1
    elif kind == 'const0':
        x = np.zeros(n)
    elif kind == 'neglow':  # only negative codes
        x = rng.integers(-5, 0, size=n).astype(float)
    else:
        raise ValueError(kind)
    x = x.astype(np.float32)
    if nan > 0:
        x[rng.random(n) < nan] = np.nan
    return x


NUM_KINDS = ['cont', 'cont', 'grid', 'spos', 'smix', 'sneg', 'bin', 'const', 'big', 'near', 'int']
DISC_KINDS = ['int', 'nint', 'bin', 'gap', 'int', 'neglow', 'const']


class Data:
    __slots__ = ('X', 'Y', 'Xq', 'nominal', 'ordinal', 'kinds', 'task', 'n', 'f', 'm')

    def desc(self):
        return f'n={self.n} f={self.f} m={self.m} kinds={",".join(self.kinds)} nom={self.nominal} ord={self.ordinal} ' \
               f'nan={int(np.isnan(self.X).sum())}'


def data(rng, task='clf', n=(5, 60), f=(1, 6), m=(1, 5), nan=0.25, disc=0.3, kinds=None, nq=None, label_noise=None):
    d = Data()
    d.task = task
    d.n = int(rng.integers(n[0], n[1] + 1))
    d.f = int(rng.integers(f[0], f[1] + 1))
    d.m = int(rng.integers(m[0], m[1] + 1))
    d.nominal, d.ordinal, d.kinds = [], [], []
    mode = rng.random()
    cols = []
    with_nan = rng.random() < nan
    nq = nq or max(8, d.n // 2)
    tot = d.n + nq
    for j in range(d.f):
        u = rng.random()
        typ = 'num'
        if disc > 0:
            if mode < 0.5:
                typ = 'num'
            elif mode < 0.58:
                typ = 'nom'
            elif mode < 0.66:
                typ = 'ord'
            elif u < disc:
                typ = 'nom'
            elif u < 2 * disc:
                typ = 'ord'
        k = str(rng.choice(DISC_KINDS if typ != 'num' else (kinds or NUM_KINDS)))
        nn = 0.0
        if with_nan:
            nn = float(rng.choice([0, 0, 0.1, 0.4, 1.0], p=[.3, .2, .3, .17, .03]))
        cols.append(_col(rng, tot, k, nn))
        d.kinds.append(typ[0] + k)
        if typ == 'nom':
            d.nominal.append(j)
        elif typ == 'ord':
            d.ordinal.append(j)
    A = np.stack(cols, axis=1)
    A = np.where(A == 0, np.float32(0), A)  # no negative zeros
    # labels that depend on the features
    Z = np.where(np.isnan(A), 0, A).astype(np.float64)
    sd = Z.std(axis=0)
    Z = np.where(sd > 0, (Z - Z.mean(axis=0)) / np.where(sd > 0, sd, 1), 0)
    W = rng.normal(size=(d.f, d.m)) * (rng.random((d.f, d.m)) < 0.6)
    S = Z @ W + (0.5 if label_noise is None else label_noise) * rng.normal(size=(tot, d.m))
    if task == 'clf':
        q = rng.choice([0.1, 0.3, 0.5, 0.8], size=d.m)
        Y = np.stack([S[:, j] > np.quantile(S[:, j], 1 - q[j]) for j in range(d.m)], axis=1).astype(np.uint8)
        if rng.random() < 0.12:
            Y[:, rng.integers(d.m)] = rng.integers(0, 2)
        if rng.random() < 0.05:
            Y[:, :] = rng.integers(0, 2)
        if d.m > 1 and rng.random() < 0.15:
            Y[:, 0] = Y[:, -1]
        if d.n > 3 and rng.random() < 0.2:
            Y[rng.integers(d.n), :] = 0
    else:
        Y = (S * rng.choice([0.1, 1, 10]) + rng.choice([0, 0, 3])).astype(np.float32)
        if rng.random() < 0.3:
            Y = np.where(rng.random(Y.shape) < 0.5, 0, Y).astype(np.float32)
        if rng.random() < 0.2:
            Y = np.round(Y)
    d.X, d.Xq = A[:d.n].copy(), A[d.n:].copy()
    d.Y = Y[:d.n].copy()
    return d


def opt(name, **kw):
    if not kw:
        return name
    return name + '{' + ','.join(f'{k}={v}' for k, v in kw.items()) + '}'


LOSSES_CLF = ['logistic-decomposable', 'logistic-non-decomposable', 'squared-error-decomposable',
              'squared-error-non-decomposable', 'squared-hinge-decomposable', 'squared-hinge-non-decomposable']
LOSSES_REG = ['squared-error-decomposable', 'squared-error-non-decomposable']


def rule_induction(rng, beam=True, extra=True):
    kw = {}
    if extra and rng.random() < 0.4:
        kw['min_coverage'] = int(rng.integers(1, 6))
    if extra and rng.random() < 0.3:
        kw['min_support'] = float(np.round(rng.uniform(0.01, 0.4), 3))
    if rng.random() < 0.5:
        kw['max_conditions'] = int(rng.integers(2, 5)) if rng.random() < .7 else 1
    if rng.random() < 0.3:
        kw['max_head_refinements'] = int(rng.integers(1, 4))
    if rng.random() < 0.3:
        kw['recalculate_predictions'] = str(rng.choice(['true', 'false']))
    if beam and rng.random() < 0.25:
        kw['beam_width'] = int(rng.integers(2, 6))
        if rng.random() < 0.4:
            kw['resample_features'] = str(rng.choice(['true', 'false']))
        if kw.get('max_conditions') == 1:
            kw['max_conditions'] = 2
        return opt('top-down-beam-search', **kw)
    return opt('top-down-greedy', **kw)


def sampling_opts(rng):
    kw = {}
    if rng.random() < 0.6:
        kw['sample_size'] = float(np.round(rng.uniform(0.1, 0.95), 3))
    if rng.random() < 0.3:
        kw['min_samples'] = int(rng.integers(1, 6))
    if rng.random() < 0.2:
        kw['max_samples'] = int(kw.get('min_samples', 1) + rng.integers(0, 10))
    return kw


def instance_sampling(rng, task):
    opts = ['none', 'with-replacement', 'without-replacement']
    if task == 'clf':
        opts += ['stratified-output-wise', 'stratified-example-wise']
    o = str(rng.choice(opts))
    return o if o == 'none' else opt(o, **sampling_opts(rng))


def feature_sampling(rng):
    if rng.random() < 0.4:
        return 'none'
    kw = sampling_opts(rng)
    if rng.random() < 0.2:
        kw['num_retained'] = int(rng.integers(0, 3))
    return opt('without-replacement', **kw)


def output_sampling(rng):
    o = str(rng.choice(['none', 'without-replacement', 'round-robin']))
    if o == 'without-replacement':
        kw = sampling_opts(rng)
        if kw.get('min_samples', 1) > 1 or rng.random() < 0.5:  # the documented default of max_samples is 1
            kw.setdefault('max_samples', int(rng.choice([0, kw.get('min_samples', 1), kw.get('min_samples', 1) + 2])))
        return opt(o, **kw)
    return o


def holdout(rng, task):
    opts = ['none', 'random']
    if task == 'clf':
        opts += ['stratified-output-wise', 'stratified-example-wise']
    o = str(rng.choice(opts))
    if o == 'none':
        return o
    return opt(o, holdout_set_size=float(np.round(rng.uniform(0.15, 0.5), 3)))


def feature_binning(rng):
    o = str(rng.choice(['none', 'equal-width', 'equal-frequency']))
    if o == 'none':
        return o
    kw = {}
    if rng.random() < 0.7:
        kw['bin_ratio'] = float(np.round(rng.uniform(0.1, 0.9), 2))
    if rng.random() < 0.5:
        kw['min_bins'] = int(rng.integers(2, 5))
        if rng.random() < 0.5:
            kw['max_bins'] = kw['min_bins'] + int(rng.integers(0, 6))
    return opt(o, **kw)


def head_type(rng, m, partial=True):
    o = str(rng.choice(['single', 'complete', 'partial-fixed', 'partial-dynamic'] if partial else ['single', 'complete']))
    if o == 'partial-fixed':
        kw = {}
        if rng.random() < 0.7:
            kw['output_ratio'] = float(np.round(rng.uniform(0.05, 0.95), 2))
        if rng.random() < 0.5:
            kw['min_outputs'] = int(rng.integers(2, max(3, m + 1)))
            if rng.random() < 0.5:
                kw['max_outputs'] = kw['min_outputs'] + int(rng.integers(0, 3))
        return opt(o, **kw)
    if o == 'partial-dynamic':
        kw = {}
        if rng.random() < 0.6:
            kw['threshold'] = float(np.round(rng.uniform(0.05, 0.95), 2))
        if rng.random() < 0.6:
            kw['exponent'] = float(rng.choice([1.0, 2.0, 3.0, 4.0]))
        return opt(o, **kw)
    return o


def pruning(rng, holdout_ok=True):
    o = str(rng.choice(['post-pruning', 'pre-pruning']))
    kw = {}
    if rng.random() < 0.4 and holdout_ok:
        kw['use_holdout_set'] = str(rng.choice(['true', 'false']))
    kw['min_rules'] = int(rng.integers(1, 6))
    if o == 'post-pruning':
        kw['interval'] = int(rng.integers(1, 4))
    else:
        kw['aggregation'] = str(rng.choice(['min', 'max', 'avg']))
        kw['update_interval'] = int(rng.integers(1, 3))
        kw['stop_interval'] = kw['update_interval'] * int(rng.integers(1, 3))
        kw['num_past'] = int(rng.integers(1, 5))
        kw['num_recent'] = int(rng.integers(1, 5))
        kw['min_improvement'] = float(np.round(rng.uniform(0, 0.3), 3))
        if rng.random() < 0.6:
            kw['remove_unused_rules'] = str(rng.choice(['true', 'false']))
    return opt(o, **kw)


def boomer(rng, task='clf', m=3, rules=(1, 15), p=None):
    """A random configuration of BOOMER; `p` overrides the probability with which an aspect is varied."""
    q = dict(loss=.8, head=.6, induction=.5, isamp=.35, fsamp=.35, osamp=.25, fbin=.2, lbin=.15, holdout=.2, prune=.2,
             irep=.12, seqopt=.1, default=.3, reg=.3, shrink=.6, stat=.3, fmt=.5, par=.3, beam=True, l1=True)
    q.update(p or {})

    def on(k):
        return rng.random() < q[k]

    c = dict(random_state=int(rng.integers(1, 1000)), max_rules=int(rng.integers(rules[0], rules[1] + 1)))
    if on('loss'):
        c['loss'] = str(rng.choice(LOSSES_CLF if task == 'clf' else LOSSES_REG))
    if on('head'):
        c['head_type'] = head_type(rng, m)
    if on('induction'):
        c['rule_induction'] = rule_induction(rng, beam=q['beam'])
    if on('isamp'):
        c['instance_sampling'] = instance_sampling(rng, task)
    if on('fsamp'):
        c['feature_sampling'] = feature_sampling(rng)
    if on('osamp'):
        c['output_sampling'] = output_sampling(rng)
    if on('fbin') and 'beam' not in c.get('rule_induction', ''):  # see known finding K2
        c['feature_binning'] = feature_binning(rng)
    if task == 'clf' and on('lbin'):
        c['label_binning'] = str(rng.choice(['none', 'auto', 'equal-width', 'equal-width{bin_ratio=0.5,min_bins=2}']))
    if on('holdout'):
        c['holdout'] = holdout(rng, task)
    if on('prune'):
        c['global_pruning'] = pruning(rng)
    if on('irep') and 'beam' not in c.get('rule_induction', ''):  # see known finding K5
        c['rule_pruning'] = 'irep'
    if on('seqopt') and 'beam' not in c.get('rule_induction', ''):  # see known finding K5
        kw = {}
        if rng.random() < .6:
            kw['num_iterations'] = int(rng.integers(1, 4))
        if rng.random() < .5:
            kw['refine_heads'] = str(rng.choice(['true', 'false']))
        if rng.random() < .5:
            kw['resample_features'] = str(rng.choice(['true', 'false']))
        c['sequential_post_optimization'] = opt('true', **kw)
    if on('default'):
        c['default_rule'] = str(rng.choice(['true', 'false', 'auto']))
    if on('reg'):
        # without L2 regularization, the system of linear equations of a non-decomposable loss can be singular
        nd = c.get('loss', '').endswith('non-decomposable')
        c['l2_regularization_weight'] = float(rng.choice([0.25, 1.0, 5.0] if nd else [0.0, 0.25, 1.0, 5.0]))
        if q['l1'] and rng.random() < .3:
            c['l1_regularization_weight'] = float(rng.choice([0.0, 0.1, 1.0]))
    if on('shrink'):
        c['shrinkage'] = float(rng.choice([0.1, 0.5, 1.0]))
    if on('stat'):
        c['statistic_format'] = str(rng.choice(['dense', 'sparse', 'auto']))
    if on('fmt'):
        c['feature_format'] = str(rng.choice(['dense', 'sparse', 'auto']))
        c['output_format'] = str(rng.choice(['dense', 'sparse', 'auto']))
        c['prediction_format'] = str(rng.choice(['dense', 'sparse', 'auto']))
    if on('par'):
        for k in ('parallel_rule_refinement', 'parallel_statistic_update', 'parallel_prediction'):
            c[k] = str(rng.choice(['false', 'true{num_preferred_threads=2}', 'true{num_preferred_threads=3}', 'true']))
    return c


HEURISTICS = ['accuracy', 'precision', 'recall', 'laplace', 'weighted-relative-accuracy', 'f-measure{beta=0.25}',
              'f-measure{beta=2.0}', 'm-estimate{m=22.466}', 'm-estimate{m=1.0}', 'f-measure{beta=0}', 'm-estimate{m=0}']


def seco(rng, m=3, rules=(1, 15), p=None):
    q = dict(head=.6, induction=.5, isamp=.35, fsamp=.35, osamp=.2, fbin=.2, holdout=.2, irep=.4, heur=.7, lift=.6,
             fmt=.5, par=.3, seqopt=0.05, beam=True)
    q.update(p or {})

    def on(k):
        return rng.random() < q[k]

    c = dict(random_state=int(rng.integers(1, 1000)), max_rules=int(rng.integers(rules[0], rules[1] + 1)))
    if on('head'):
        c['head_type'] = str(rng.choice(['single', 'partial']))
        if c['head_type'] == 'partial' and on('lift'):
            o = str(rng.choice(['peak', 'kln', 'none']))
            if o == 'peak':
                kw = {}
                if rng.random() < .7:
                    kw['peak_label'] = int(rng.integers(1, m + 1))
                if rng.random() < .7:
                    kw['max_lift'] = float(rng.choice([1.0, 1.08, 1.5, 2.0]))
                if rng.random() < .7:
                    kw['curvature'] = float(rng.choice([0.5, 1.0, 2.0]))
                o = opt(o, **kw)
            elif o == 'kln':
                o = opt(o, k=float(rng.choice([0.01, 0.04, 0.5])))
            c['lift_function'] = o
    if on('induction'):
        c['rule_induction'] = rule_induction(rng, beam=q['beam'])
        if 'recalculate' in c['rule_induction']:
            pass
    if on('heur'):
        c['heuristic'] = str(rng.choice(HEURISTICS))
        c['pruning_heuristic'] = str(rng.choice(HEURISTICS))
    if on('isamp'):
        c['instance_sampling'] = instance_sampling(rng, 'clf')
    if on('fsamp'):
        c['feature_sampling'] = feature_sampling(rng)
    if on('osamp'):
        c['output_sampling'] = output_sampling(rng)
    if on('fbin') and 'beam' not in c.get('rule_induction', ''):
        c['feature_binning'] = feature_binning(rng)
    if on('holdout'):
        c['holdout'] = holdout(rng, 'clf')
    if on('irep'):
        c['rule_pruning'] = str(rng.choice(['irep', 'none']))
    if 'beam' in c.get('rule_induction', ''):
        c['rule_pruning'] = 'none'
    if on('seqopt') and 'beam' not in c.get('rule_induction', ''):
        c['sequential_post_optimization'] = 'true'
    if on('fmt'):
        c['feature_format'] = str(rng.choice(['dense', 'sparse', 'auto']))
        c['output_format'] = str(rng.choice(['dense', 'sparse', 'auto']))
        c['prediction_format'] = str(rng.choice(['dense', 'sparse', 'auto']))
    if on('par'):
        for k in ('parallel_rule_refinement', 'parallel_statistic_update', 'parallel_prediction'):
            c[k] = str(rng.choice(['false', 'true{num_preferred_threads=2}', 'true{num_preferred_threads=3}', 'true']))
    return c


def learner(kind, cfg, d=None):
    from mlrl.boosting.boosting_learners import BoomerClassifier, BoomerRegressor
    from mlrl.seco.seco_learners import SeCoClassifier
    cls = {'clf': BoomerClassifier, 'reg': BoomerRegressor, 'seco': SeCoClassifier}[kind]
    c = cls(**cfg)
    if d is not None:
        c.set_nominal_feature_indices(d.nominal if d.nominal else None)
        c.set_ordinal_feature_indices(d.ordinal if d.ordinal else None)
    return c


def random_learner(rng, kinds=('clf', 'clf', 'reg', 'seco'), data_kw=None, rules=(1, 15), p=None):
    kind = str(rng.choice(list(kinds)))
    d = data(rng, task='reg' if kind == 'reg' else 'clf', **(data_kw or {}))
    pp = {k: v for k, v in (p or {}).items()}
    if kind == 'seco':
        cfg = seco(rng, d.m, rules, {k: v for k, v in pp.items()})
    else:
        cfg = boomer(rng, kind, d.m, rules, pp)
        if kind == 'reg' and cfg.get('loss', '').endswith('non-decomposable'):
            # the derivatives of this loss are only right for targets that are -1 or 1 (known finding)
            d.Y = np.where(d.Y > 0, 1, -1).astype(d.Y.dtype)
            if cfg.get('head_type') == 'single':
                cfg['head_type'] = 'complete'
    return kind, d, cfg


def to_sparse(A, fmt, value=0.0, rng=None, explicit=0.0):
    """A sparse matrix whose implicit elements have the given value; optionally keeps some of them explicitly."""
    A = np.asarray(A)
    if value != value:
        keep = ~np.isnan(A)
    else:
        keep = ~(A == np.asarray(value, dtype=A.dtype))
    if explicit > 0:
        keep |= rng.random(A.shape) < explicit
    r, c = np.nonzero(keep)
    M = sp.coo_matrix((A[r, c], (r, c)), shape=A.shape)
    # coo -> csr/csc sums duplicates (there are none) and keeps explicit zeros
    return M.tocsr() if fmt == 'csr' else M.tocsc() if fmt == 'csc' else M
