"""P18: invalid parameters and inputs are rejected, valid ones arrive unchanged in the configuration."""
import contextlib
import io
import logging
import shutil
import sys
import tempfile

import numpy as np
import scipy.sparse as sp

PROBES = 1
CASES = {'quick': 6000, 'thorough': 60000}
RULE = ('A recording subclass of the configuration classes of BOOMER and SeCo observes which settings arrive at the C++ '
        'configuration when an estimator with random settings is trained. A table of the documented ranges decides '
        'whether training must be rejected (with a Python exception naming the parameter, the option or the value) or '
        'accepted (all getters of the configuration must return the given values and the documented defaults). '
        'Inputs of incompatible shape must be rejected as well. After each rejection the estimator is used again and '
        'must behave like one that was never given the invalid value; a crash or a timeout is a violation.')
ASSUMPTIONS = ['float values given for integer parameters of estimators are truncated (as by int())',
               'labels other than 0 and 1 are converted to 8 bit integers and are not considered invalid',
               'NaN is only considered invalid for parameters with a documented range']
REQUIRE = {'rejected-range': 200, 'rejected-syntax': 100, 'accepted': 500, 'rejected-input': 200}

U32 = 2**32 - 1


class F:
    """A numerical setting: lower/upper bound, whether the bound itself is valid, extra valid values."""

    def __init__(self, kind, lo, hi=None, lo_ok=True, hi_ok=False, extra=(), get=None, default=None, top=None):
        self.kind, self.lo, self.hi, self.lo_ok, self.hi_ok = kind, lo, hi, lo_ok, hi_ok
        self.extra, self.get, self.default, self.top = extra, get, default, top if top else (50 if hi is None else hi)


def I(lo, get=None, zero=False, default=None, top=50):
    return F('int', lo, extra=(0,) if zero else (), get=get, default=default, top=top)


def R(lo, hi=None, lo_ok=False, hi_ok=False, zero=False, get=None, default=None):
    return F('float', lo, hi, lo_ok, hi_ok, (0.0,) if zero else (), get, default)


def B(get, default=None):
    return F('bool', 0, get=get, default=default)


def E_(values, get, default=None):
    f = F('enum', 0, get=get, default=default)
    f.values = values
    return f


GREEDY = dict(min_coverage=I(1, default=1), min_support=R(0, 1, zero=True, default=0.0),
              max_conditions=I(1, zero=True, default=0), max_head_refinements=I(1, zero=True, default=1),
              recalculate_predictions=B('are_predictions_recalculated'))
BEAM = dict(GREEDY, max_conditions=I(2, zero=True, default=0), beam_width=I(2, top=6, default=4),
            resample_features=B('are_features_resampled', False))
BINS = dict(bin_ratio=R(0, 1, default=0.33), min_bins=I(2, default=2), max_bins=('max', 'min_bins'))
LBINS = dict(bin_ratio=R(0, 1, default=0.04), min_bins=I(1, default=1), max_bins=('max', 'min_bins'))
SAMPLE = dict(sample_size=R(0, 1), min_samples=I(1, default=1), max_samples=('max', 'min_samples'))
HOLDOUT = dict(holdout_set_size=R(0, 1, default=0.33))
THREADS = dict(num_preferred_threads=I(1, zero=True, default=0, top=4))
CALIB = dict(use_holdout_set=B('is_holdout_set_used', True))
PROB = dict(use_probability_calibration=B('is_probability_calibration_model_used', True))
PROBB = dict(PROB, based_on_probabilities=B('is_based_on_probabilities', False))
POST = dict(use_holdout_set=B('is_holdout_set_used', True), remove_unused_rules=B('is_remove_unused_rules', True),
            min_rules=I(1, default=100), interval=I(1, default=1))
PRE = dict(use_holdout_set=B('is_holdout_set_used', True), remove_unused_rules=B('is_remove_unused_rules', True),
           min_rules=I(1, default=100), update_interval=I(1, default=1, top=4), stop_interval=('mul', 'update_interval'),
           num_past=I(1, default=50), num_recent=I(1, get='get_num_current', default=50),
           min_improvement=R(0, 1, lo_ok=True, hi_ok=True, default=0.005),
           aggregation=E_(['min', 'max', 'avg'], 'get_aggregation_function'))
SEQ = dict(num_iterations=I(1, top=3, default=2), refine_heads=B('are_heads_refined', False),
           resample_features=B('are_features_resampled', True))

COMMON = {
    'rule_induction': {'top-down-greedy': (GREEDY, 'use_greedy_top_down_rule_induction'),
                       'top-down-beam-search': (BEAM, 'use_beam_search_top_down_rule_induction')},
    'feature_binning': {'none': ({}, 'use_no_feature_binning'),
                        'equal-width': (BINS, 'use_equal_width_feature_binning'),
                        'equal-frequency': (BINS, 'use_equal_frequency_feature_binning')},
    'output_sampling': {'none': ({}, 'use_no_output_sampling'),
                        'without-replacement': (SAMPLE, 'use_output_sampling_without_replacement'),
                        'round-robin': ({}, 'use_round_robin_output_sampling')},
    'feature_sampling': {'none': ({}, 'use_no_feature_sampling'),
                         'without-replacement': (dict(SAMPLE, sample_size=R(0, 1, lo_ok=True, default=0.0),
                                                      num_retained=I(0, default=0)),
                                                 'use_feature_sampling_without_replacement')},
    'rule_pruning': {'none': ({}, 'use_no_rule_pruning'), 'irep': ({}, 'use_irep_rule_pruning')},
    'sequential_post_optimization': {'false': ({}, 'use_no_sequential_post_optimization'),
                                     'true': (SEQ, 'use_sequential_post_optimization')},
    'parallel_rule_refinement': {'false': ({}, 'use_no_parallel_rule_refinement'),
                                 'true': (THREADS, 'use_parallel_rule_refinement')},
    'parallel_statistic_update': {'false': ({}, 'use_no_parallel_statistic_update'),
                                  'true': (THREADS, 'use_parallel_statistic_update')},
    'parallel_prediction': {'false': ({}, 'use_no_parallel_prediction'),
                            'true': (THREADS, 'use_parallel_prediction')},
}
INST = {'none': ({}, 'use_no_instance_sampling'),
        'with-replacement': (SAMPLE, 'use_instance_sampling_with_replacement'),
        'without-replacement': (SAMPLE, 'use_instance_sampling_without_replacement')}
INSTC = dict(INST, **{'stratified-output-wise': (SAMPLE, 'use_output_wise_stratified_instance_sampling'),
                      'stratified-example-wise': (SAMPLE, 'use_example_wise_stratified_instance_sampling')})
HO = {'none': ({}, 'use_no_partition_sampling'), 'random': (HOLDOUT, 'use_random_bi_partition_sampling')}
HOC = dict(HO, **{'stratified-output-wise': (HOLDOUT, 'use_output_wise_stratified_bi_partition_sampling'),
                  'stratified-example-wise': (HOLDOUT, 'use_example_wise_stratified_bi_partition_sampling')})
BOOST = dict(COMMON, **{
    'global_pruning': {'none': ({}, 'use_no_global_pruning'), 'post-pruning': (POST, 'use_global_post_pruning'),
                       'pre-pruning': (PRE, 'use_global_pre_pruning')},
    'default_rule': {'true': ({}, 'use_default_rule'), 'false': ({}, 'use_no_default_rule'),
                     'auto': ({}, 'use_automatic_default_rule')},
    'statistic_format': {'dense': ({}, 'use_dense_statistics'), 'sparse': ({}, 'use_sparse_statistics'),
                         'auto': ({}, 'use_automatic_statistics')},
    'head_type': {'single': ({}, 'use_single_output_heads'), 'complete': ({}, 'use_complete_heads'),
                  'auto': ({}, 'use_automatic_heads'),
                  'partial-fixed': (dict(output_ratio=R(0, 1, zero=True, default=0.0), min_outputs=I(2, default=2),
                                         max_outputs=('max', 'min_outputs')), 'use_fixed_partial_heads'),
                  'partial-dynamic': (dict(threshold=R(0, 1, default=0.02), exponent=R(1, lo_ok=True, default=2.0)),
                                      'use_dynamic_partial_heads')},
    'loss': {'squared-error-decomposable': ({}, 'use_decomposable_squared_error_loss'),
             'squared-error-non-decomposable': ({}, 'use_non_decomposable_squared_error_loss')},
})
for _k, _m in (('parallel_rule_refinement', 'use_automatic_parallel_rule_refinement'),
               ('parallel_statistic_update', 'use_automatic_parallel_statistic_update'),
               ('feature_binning', 'use_automatic_feature_binning')):
    BOOST[_k] = dict(BOOST[_k], auto=({}, _m))
HO_AUTO = {'auto': ({}, 'use_automatic_partition_sampling')}
REGR = dict(BOOST, instance_sampling=INST, holdout=dict(HO, **HO_AUTO))
CLF = dict(BOOST, instance_sampling=INSTC, holdout=dict(HOC, **HO_AUTO), **{
    'label_binning': {'none': ({}, 'use_no_label_binning'), 'auto': ({}, 'use_automatic_label_binning'),
                      'equal-width': (LBINS, 'use_equal_width_label_binning')},
    'marginal_probability_calibration': {'none': ({}, 'use_no_marginal_probability_calibration'),
                                         'isotonic': (CALIB, 'use_isotonic_marginal_probability_calibration')},
    'joint_probability_calibration': {'none': ({}, 'use_no_joint_probability_calibration'),
                                      'isotonic': (CALIB, 'use_isotonic_joint_probability_calibration')},
    'binary_predictor': {'auto': ({}, 'use_automatic_binary_predictor'),
                         'output-wise': (PROBB, 'use_output_wise_binary_predictor'),
                         'example-wise': (PROBB, 'use_example_wise_binary_predictor'),
                         'gfm': (PROB, 'use_gfm_binary_predictor')},
    'probability_predictor': {'auto': ({}, 'use_automatic_probability_predictor'),
                              'output-wise': (PROB, 'use_output_wise_probability_predictor'),
                              'marginalized': (PROB, 'use_marginalized_probability_predictor')},
})
CLF['loss'] = dict(CLF['loss'], **{
    'logistic-decomposable': ({}, 'use_decomposable_logistic_loss'),
    'logistic-non-decomposable': ({}, 'use_non_decomposable_logistic_loss'),
    'squared-hinge-decomposable': ({}, 'use_decomposable_squared_hinge_loss'),
    'squared-hinge-non-decomposable': ({}, 'use_non_decomposable_squared_hinge_loss')})


def _heur(suffix):
    return {n: (o, 'use_%s%s_heuristic' % (m, suffix)) for n, o, m in (
        ('accuracy', {}, 'accuracy'), ('precision', {}, 'precision'), ('recall', {}, 'recall'),
        ('laplace', {}, 'laplace'), ('weighted-relative-accuracy', {}, 'wra'),
        ('f-measure', dict(beta=R(0, lo_ok=True)), 'f_measure'),
        ('m-estimate', dict(m=R(0, lo_ok=True, default=22.466)), 'm_estimate'))}


SECO = dict(COMMON, instance_sampling=INSTC, holdout=HOC, **{
    'head_type': {'single': ({}, 'use_single_output_heads'), 'partial': ({}, 'use_partial_heads')},
    'heuristic': _heur(''), 'pruning_heuristic': _heur('_pruning'),
    'lift_function': {'none': ({}, 'use_no_lift_function'),
                      'peak': (dict(peak_label=I(1, zero=True), max_lift=R(1, lo_ok=True), curvature=R(0)),
                               'use_peak_lift_function'),
                      'kln': (dict(k=R(0)), 'use_kln_lift_function')},
})
TOP = {'random_state': (I(1, top=U32, default=1), 'use_rng', None),
       'max_rules': (I(1, zero=True, top=12), 'use_size_stopping_criterion', 'use_no_size_stopping_criterion'),
       'time_limit': (I(1, zero=True, top=3000), 'use_time_stopping_criterion', 'use_no_time_stopping_criterion')}
TOPB = dict(TOP, shrinkage=(R(0, 1, hi_ok=True), 'use_constant_shrinkage_post_processor', 'use_no_post_processor'),
            l1_regularization_weight=(R(0, lo_ok=True), 'use_l1_regularization', 'use_no_l1_regularization'),
            l2_regularization_weight=(R(0, lo_ok=True), 'use_l2_regularization', 'use_no_l2_regularization'))
GETTER = {'random_state': 'get_random_state', 'max_rules': 'get_max_rules', 'time_limit': 'get_time_limit',
          'shrinkage': 'get_shrinkage', 'l1_regularization_weight': 'get_regularization_weight',
          'l2_regularization_weight': 'get_regularization_weight'}
FORMATS = ['feature_format', 'output_format', 'prediction_format']


# ------------------------------------------------------------------------------------------------ values
def fmt(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    return repr(v)


def valid(rng, f, got):
    """A valid value of a setting (got: valid values of other options that were already chosen)."""
    if isinstance(f, tuple):
        base = got.get(f[1], None)
        if f[0] == 'max':
            return 0 if rng.random() < .3 else int((base if base is not None else 2) + rng.integers(0, 4))
        return int((base if base is not None else 1) * rng.integers(1, 4))
    if f.kind == 'bool':
        return bool(rng.integers(2))
    if f.kind == 'enum':
        return str(rng.choice(f.values))
    if f.extra and rng.random() < (.2 if f.top < 1000 and f.top != 12 else .02):
        return f.extra[0]
    if f.kind == 'int':
        if rng.random() < .3:
            return int(f.lo)
        return int(rng.integers(f.lo, f.top, endpoint=True))
    hi = f.hi if f.hi is not None else 8.0
    if f.lo_ok and rng.random() < .15:
        return float(f.lo)
    if f.hi_ok and rng.random() < .15:
        return float(f.hi)
    if rng.random() < .15:
        return float(np.float32(f.lo + (hi - f.lo) * (2e-4 if rng.random() < .5 else 1 - 1e-4)))
    return round(float(f.lo + (hi - f.lo) * rng.uniform(0.02, 0.98)), int(rng.integers(2, 7)))


def invalid(rng, f, got):
    """The text of an invalid value."""
    if isinstance(f, tuple):
        base = got.get(f[1], None)
        if f[0] == 'max':
            c = ['-1', 'x', '1.5', '']
            if base is not None and base > 1:
                c += [str(int(rng.integers(1, base)))] * 4
            return str(rng.choice(c))
        c = ['-1', 'x', '0.5']
        if base is not None and base > 1:
            c += [str(base + 1)] * 4
        return str(rng.choice(c))
    if f.kind == 'bool':
        return str(rng.choice(['True', '1', 'yes', '0', 'tru', 'FALSE', '']))
    if f.kind == 'enum':
        return str(rng.choice(['mean', 'Min', 'x', '']))
    if f.kind == 'int':
        c = ['-1', str(-2**31), str(2**32), str(2**63), '1.5', '1e3', 'nan', 'inf', 'x', '0x2', '']
        for v in range(0, int(f.lo)):
            if v not in f.extra:
                c += [str(v)] * 3
        return str(rng.choice(c))
    c = ['x', '', 'nan', '-inf', '-1', '1,5', '--1', '-0.001']
    if not f.lo_ok and not f.extra:
        c += [repr(float(f.lo))] * 3
    if f.lo > 0:
        c += ['0.999', '0'] + [repr(float(f.lo) * rng.uniform(.05, .99)), repr(float(f.lo) * .5)] * 4
    if f.hi is not None:
        c += ['1.5', '1.0001', 'inf'] + [repr(float(f.hi) * rng.uniform(1.01, 2.0))] * 3
        if not f.hi_ok:
            c += ['1', '1.0']
    return str(rng.choice(c))


# ------------------------------------------------------------------------------------------------ recording
_cache = {}


def recorder(base):
    """A subclass of a configuration that records calls of use_...() and the objects they return."""
    if base in _cache:
        return _cache[base]
    ns = {}

    def wrap(name):
        orig = getattr(base, name)

        def f(self, *a, **k):
            r = orig(self, *a, **k)
            LOG.append((name, r))
            return r

        return f

    for n in dir(base):
        if n.startswith('use_'):
            ns[n] = wrap(n)
    _cache[base] = type('Recording' + base.__name__, (base,), ns)
    return _cache[base]


LOG = []


def snapshot(conf):
    """The values of all getters (the C++ configuration is destroyed together with the learner)."""
    r = {}
    for n in dir(conf):
        if n.startswith(('get_', 'is_', 'are_')):
            r[n] = getattr(conf, n)()
    return r


@contextlib.contextmanager
def recording():
    import mlrl.boosting.boosting_learners as b
    import mlrl.seco.seco_learners as s
    saved = []

    def wrap(orig):

        def f(config, *a, **k):
            LOG[:] = [(n, c if c is None or isinstance(c, dict) else snapshot(c)) for n, c in LOG]
            return orig(config, *a, **k)

        return f

    for m in (b, s):
        for n in dir(m):
            v = getattr(m, n)
            if isinstance(v, type) and v.__module__.endswith(('cython.learner_boomer', 'cython.learner_seco')):
                saved.append((m, n, v))
                setattr(m, n, recorder(v) if v.__name__.endswith('Config') else wrap(v))
    if len(saved) < 6:
        raise RuntimeError('configuration classes not found')
    del LOG[:]
    try:
        yield LOG
    finally:
        for m, n, v in saved:
            setattr(m, n, v)


# ------------------------------------------------------------------------------------------------ estimators
def estimators():
    from mlrl.boosting.boosting_learners import BoomerClassifier, BoomerRegressor
    from mlrl.seco.seco_learners import SeCoClassifier
    return [(BoomerClassifier, CLF, TOPB), (BoomerRegressor, REGR, TOPB), (SeCoClassifier, SECO, TOP)]


def data(rng, regr, n=None):
    n = n or int(rng.integers(4, 14))
    k = int(rng.integers(1, 5))
    q = int(rng.integers(1, 5))
    X = rng.integers(0, 4, (n, k)).astype(np.float32)
    Y = rng.integers(-3, 4, (n, q)).astype(np.float32) if regr else (rng.random((n, q)) < .4).astype(np.uint8)
    return X, Y


def choose(rng, table, name, value=None):
    """A random valid setting of a nominal parameter -> (text, value name, options)."""
    vals = table[name]
    value = value or str(rng.choice(list(vals)))
    opts = vals[value][0]
    got = {}
    keys = list(opts)
    for k in keys:
        if rng.random() < .6:
            f = opts[k]
            if isinstance(f, tuple) and f[1] not in got:
                if f[0] == 'mul' or rng.random() < .5:
                    got[f[1]] = valid(rng, opts[f[1]], got)
            got[k] = valid(rng, f, got)
    # a minimum above the maximum is invalid
    if 'update_interval' in got and 'stop_interval' not in got:
        got['stop_interval'] = 2 * got['update_interval']  # the default must be a multiple as well
    if name == 'output_sampling' and 'min_samples' in got and 'max_samples' not in got:
        got['max_samples'] = 0  # the documented default is 1
    order = list(got)
    text = value
    if got or (opts and rng.random() < .1):
        rng.shuffle(order)
        # options may be given in any order
        text += '{' + ','.join('%s=%s' % (k, got[k] if isinstance(got[k], str) else fmt(got[k])) for k in order) + '}'
    return text, value, got


def settings(rng, table, top, n, skip=()):
    params = {}
    expect = {}
    names = [x for x in table if x not in skip]
    for name in rng.permutation(names)[:n]:
        text, value, got = choose(rng, table, str(name))
        params[str(name)] = text
        expect[str(name)] = (value, got)
    for name in top:
        if name not in skip and rng.random() < .4:
            v = valid(rng, top[name][0], {})
            params[name] = v if rng.random() < .8 else str(v)
            expect[name] = v
    for other in ('feature_binning', 'sequential_post_optimization'):  # known findings
        if 'beam' in str(params.get('rule_induction')) and params.pop(other, None):
            expect.pop(other)
    if params.get('max_rules') in (0, '0') and params.pop('loss', None):  # known finding
        expect.pop('loss')
    return params, expect


BASE = {'max_rules': 3, 'parallel_rule_refinement': 'false', 'parallel_statistic_update': 'false',
        'parallel_prediction': 'false'}


def number(v):
    try:
        return float(v)
    except (TypeError, ValueError):
        return -1


def make(C, params):
    p = dict(BASE, **params)
    if 'non-decomposable' in str(p.get('loss', '')) and 0 <= number(p.get('l2_regularization_weight', 1)) < .01:
        p['l2_regularization_weight'] = 1.0  # singular systems of linear equations
    if p.get('max_rules') in (0, '0'):
        p.setdefault('time_limit', 1)
        if number(p['time_limit']) >= 0:
            p['time_limit'] = 1
    return C(**p)


def same(v, w, kind):
    if kind == 'float':
        return np.float32(v) == np.float32(w) or abs(float(v) - float(w)) <= 1e-6 * abs(float(v))
    return v == w


def verify(ctx, C, table, top, params, expect, log):
    """Compares the recorded configuration with the given settings."""
    calls = list(log)
    names = [c[0] for c in calls]
    for name, e in expect.items():
        if name in top:
            f, use, no = top[name]
            off = (no is not None) and ((f.extra and float(e) == 0) or (f.lo_ok and f.kind == 'float' and float(e) == 0)
                                        or (f.hi_ok and float(e) == 1))
            want = no if off else use
            family = {use, no}
        else:
            value, got = e
            want = table[name][value][1]
            family = {m for _, m in table[name].values()}
        known = {m for m in family if m and hasattr(C[1], m)}
        if want not in known:
            ctx.obs('unknown-method')
            continue
        hit = [c for c in calls if c[0] in known]
        if not hit or hit[-1][0] != want:
            ctx.fail('other-value', '%s=%r: the configuration received %s instead of %s' % (
                name, params[name], [h[0] for h in hit], want))
        conf = hit[-1][1]
        if name in top:
            if not off:
                w = conf[GETTER[name]]
                if not same(e, w, f.kind):
                    ctx.fail('other-value', '%s=%r: the configuration stores %r' % (name, params[name], w))
            continue
        for k, f in table[name][value][0].items():
            if isinstance(f, tuple):
                getter, kind, default = 'get_' + k, 'int', None
            else:
                getter, kind, default = f.get or 'get_' + k, f.kind, f.default
            v = got.get(k, default)
            if v is None or conf is None or getter not in conf:
                continue
            w = conf[getter]
            if kind == 'enum':
                w = {'MIN': 'min', 'MAX': 'max', 'ARITHMETIC_MEAN': 'avg'}.get(getattr(w, 'name', str(w)), str(w))
            if not same(v, w, kind):
                ctx.fail('other-value', '%s=%r: %s of the configuration is %r instead of %r' % (
                    name, params[name], k, w, v))
            ctx.obs('options')
        ctx.distinct(C[0].__name__, name, value, tuple(sorted(got)))


def camel(s):
    p = s.split('_')
    return p[0] + ''.join(x.capitalize() for x in p[1:])


def rejected(ctx, f, words, sig, what):
    try:
        r = f()
    except (ValueError, TypeError, OverflowError, AttributeError, RuntimeError, IndexError) as e:
        text = str(e)
        if isinstance(e, OverflowError):
            return text
        if not any(w and w in text for w in words):
            ctx.fail('message', '%s: the message of %s names none of %s: %s' % (what, type(e).__name__, words, text))
        return text
    ctx.fail(sig, '%s: no exception is raised (result: %s)' % (what, str(r)[:60]))


def outputs(est, X):
    try:
        return _outputs(est, X)
    except RuntimeError as e:
        if 'not supported' not in str(e):
            raise
        return [np.array([str(e)])]


def _outputs(est, X):
    r = [np.asarray(est.predict(X).todense() if sp.issparse(est.predict(X)) else est.predict(X))]
    return r


# ------------------------------------------------------------------------------------------------ cases
def case_accept(rng, ctx):
    C, table, top = estimators()[int(rng.integers(3))]
    regr = C.__name__ == 'BoomerRegressor'
    params, expect = settings(rng, table, top, int(rng.integers(1, 6)))
    X, Y = data(rng, regr)
    ctx.describe('%s(%r).fit(X %r, Y %r)' % (C.__name__, params, X.shape, Y.shape))
    est = make(C, params)
    cfg = {'BoomerClassifier': 'BoomerClassifierConfig', 'BoomerRegressor': 'BoomerRegressorConfig',
           'SeCoClassifier': 'SeCoClassifierConfig'}[C.__name__]
    with recording() as log:
        mod = sys.modules[C.__module__]
        base = getattr(mod, cfg)
        try:
            est.fit(X, Y)
        except RuntimeError as e:
            # e.g., combinations of losses and label binning that are rejected when being configured
            ctx.obs('combination-rejected')
            if 'not supported' not in str(e) and 'onfigur' not in str(e):
                raise
            return
        except ValueError as e:
            ctx.fail('rejected', 'valid settings are rejected: %s' % e)
        if 'l2_regularization_weight' in expect:
            expect['l2_regularization_weight'] = float(est.l2_regularization_weight)
            params['l2_regularization_weight'] = est.l2_regularization_weight
        if 'time_limit' in expect and str(est.time_limit) != str(params.get('time_limit')):
            expect['time_limit'] = est.time_limit
            params['time_limit'] = est.time_limit
        verify(ctx, (C, base), table, top, params, expect, log)
    ctx.obs('accepted')


def syntax(rng, table, name):
    """A malformed text of a nominal parameter -> (text, words that identify the problem)."""
    vals = table[name]
    value = str(rng.choice(list(vals)))
    opts = list(vals[value][0])
    others = sorted({o for v in vals for o in vals[v][0]} - set(opts)) + ['foo', 'seed']
    kind = int(rng.integers(8))
    if kind == 0:
        t = str(rng.choice(['', 'foo', value + 'x', value.upper(), 'x' + value, value[:-1], '{}', '0', 'None']))
        if t in vals or (t == 'None'):
            t = 'foo'
        return t
    if kind == 1:
        return '%s{%s=1}' % (value, rng.choice(others))
    if not opts:
        return value + str(rng.choice(['{a=1}', '{', '}', '[]', '{a}', '=1', '{=}']))
    o = str(rng.choice(opts))
    t, _, got = choose(rng, table, name, value)
    return value + str(rng.choice(['{%s}', '{%s=}', '{%s=1=1}', '{%s=1', '%s=1}', '[%s=1]', '{%s:1}', '{=%s}', '%s',
                                   '{%s =1}', '{{%s=1}}'])) % o


def case_reject(rng, ctx):
    C, table, top = estimators()[int(rng.integers(3))]
    regr = C.__name__ == 'BoomerRegressor'
    X, Y = data(rng, regr)
    kind = rng.random()
    words = []
    if kind < .25:
        name = str(rng.choice(list(top)))
        f = top[name][0]
        v = invalid(rng, f, {})
        if v == '':
            v = 'x'
        bad = v
        if rng.random() < .5:
            try:
                bad = float(v) if f.kind == 'float' else int(v)
            except ValueError:
                pass
        words = [name, name.split('_', 1)[-1], camel(name.split('_', 1)[-1]), repr(bad), v]
        sig, good = 'range', valid(rng, f, {})
    elif kind < .7:
        cands = [(n, v) for n in table for v in table[n] if table[n][v][0]]
        name, value = cands[int(rng.integers(len(cands)))]
        opts = table[name][value][0]
        o = str(rng.choice(list(opts)))
        _, _, got = choose(rng, table, name, value)
        got.pop(o, None)
        f = opts[o]
        # options that depend on the invalid one
        got = {k: w for k, w in got.items() if not (isinstance(opts[k], tuple) and opts[k][1] == o)}
        if isinstance(f, tuple) and name == 'global_pruning':
            got.setdefault(f[1], 2)
        if isinstance(f, tuple) and f[1] not in got and rng.random() < .7:
            got[f[1]] = int(valid(rng, opts[f[1]], {}))
        v = invalid(rng, f, got)
        parts = ['%s=%s' % (k, w if isinstance(w, str) else fmt(w)) for k, w in got.items()] + ['%s=%s' % (o, v)]
        rng.shuffle(parts)
        bad = value + '{' + ','.join(parts) + '}'
        g = o if o != 'num_recent' else 'num_current'
        words = [o, camel(o), g, camel(g), name, '"%s"' % v]
        sig, good = 'range', value
        ctx.distinct('option', C.__name__, name, value, o, v)
    else:
        name = str(rng.choice(list(table) + FORMATS))
        if name in FORMATS:
            bad = str(rng.choice(['foo', 'Sparse', 'dense ', 'auto{}', 'dense{a=1}', 'none', 'densee']))
            good = str(rng.choice(['auto', 'sparse', 'dense']))
        else:
            bad = syntax(rng, table, name)
            good = str(rng.choice(list(table[name])))
        words = [name]
        sig = 'syntax'
    skip = {name, 'feature_binning', 'sequential_post_optimization'} if name == 'rule_induction' \
        else {name, 'rule_induction'}
    skip |= {'loss': {'l2_regularization_weight', 'max_rules'}, 'max_rules': {'loss'}, 'l2_regularization_weight': {'loss'}}.get(name, set())
    others, _ = settings(rng, table, top, int(rng.integers(0, 3)), skip=skip)
    was = rng.random() < .4
    ctx.describe('%s(%r) with %s=%r, X %r, Y %r' % (C.__name__, others, name, bad, X.shape, Y.shape))
    what = '%s with %s=%r' % (C.__name__, name, bad)
    try:
        ref = make(C, dict(others, **{name: good})).fit(X, Y)
    except RuntimeError:
        ctx.obs('combination-rejected')
        return
    est = make(C, dict(others, **{name: bad if not was else good}))
    if name == 'max_rules' or name == 'time_limit':
        est.set_params(max_rules=3, time_limit=0)
        ref.set_params(max_rules=3, time_limit=0)
        good = 3 if name == 'max_rules' else 0
        ref.fit(X, Y)
        est.set_params(**{name: bad if not was else good})
    timed = any(int(p.get('time_limit') or 0) for p in (ref.get_params(), ))
    x0, y0 = X.copy(), Y.copy()
    if was:
        est.fit(X, Y)
        est.set_params(**{name: bad})
    rejected(ctx, lambda: est.fit(X, Y), words, 'not-rejected', what)
    ctx.obs('rejected-' + sig)
    if not (np.array_equal(X, x0) and np.array_equal(Y, y0)):
        ctx.fail('input-modified', what + ': the rejected call modifies its inputs')
    if not was and hasattr(est, 'model_'):
        ctx.fail('model', what + ': the rejected call leaves a model behind')
    # the estimator remains usable
    est.set_params(**{name: good})
    if not was or rng.random() < .5:
        est.fit(X, Y)
    if not timed:
        for a, b in zip(outputs(est, X), outputs(ref, X)):
            if not np.array_equal(a, b):
                ctx.fail('unusable', what + ': predictions differ from those of an estimator that was never given the '
                         'invalid value')
        ctx.obs('used-again')


def case_input(rng, ctx):
    k_est = int(rng.integers(3))
    C, table, top = estimators()[k_est]
    regr = C.__name__ == 'BoomerRegressor'
    X, Y = data(rng, regr)
    n, k = X.shape
    q = Y.shape[1]
    # values that are valid for all parameters; predictions are compared afterwards
    est = C(**BASE).fit(X, Y)
    want = outputs(est, X)
    shape = lambda m: sp.csr_matrix(m) if rng.random() < .3 else m
    kind = int(rng.integers(10))
    m = int(rng.choice([j for j in (1, 2, 3, 4, 5, 6, 9, 40) if j != k]))
    words = []
    if kind == 0:
        n2 = int(rng.choice([j for j in (1, n - 1, n + 1, 2 * n, 3, 50) if j != n and j > 0]))
        Y2 = np.resize(Y, (n2, q))
        fs = int(rng.integers(3))
        p = dict(BASE)
        if fs:
            p['feature_format'] = 'sparse'
        if rng.random() < .3:
            p['output_format'] = 'sparse'
        if rng.random() < .5:
            a, b = shape(X), shape(Y2)
            what = 'fit with %d examples and %d rows of ground truth' % (n, n2)
        else:
            a, b = shape(np.resize(X, (n2, k))), shape(Y)
            what = 'fit with %d examples and %d rows of ground truth' % (n2, n)
        call = lambda: C(**p).fit(a, b)
        words = ['inconsistent', 'samples', 'shape', 'examples', str(n2)]
    elif kind in (1, 2, 3):
        Z = shape(rng.integers(0, 4, (3, m)).astype(np.float32))
        names = ['predict', 'predict_incrementally']
        if hasattr(est, 'predict_proba') and k_est == 0:
            names += ['predict_proba', 'predict_proba_incrementally']
        name = str(rng.choice(names))
        if not hasattr(est, name):
            return
        kw = {'predict_scores': True} if name.startswith('predict') and 'proba' not in name and rng.random() < .4 else {}
        call = lambda: getattr(est, name)(Z, **kw)
        what = '%s(%r) with %d features instead of %d' % (name, kw, m, k)
        words = ['features']
    elif kind == 4:
        bad = int(rng.choice([k, k + 1, k + 31, k + 32, 70000, -1, 2**32]))
        attr = str(rng.choice(['ordinal_feature_indices', 'nominal_feature_indices']))
        ok = [int(j) for j in rng.permutation(k)[:int(rng.integers(0, k))]]
        e2 = C(**BASE)
        idx = ok + [bad]
        if len(idx) >= k:
            idx = [bad]
        if len(idx) == k:
            return
        setattr(e2, attr, idx)
        call = lambda: e2.fit(X, Y)
        what = '%s=%r with %d features' % (attr, idx, k)
        words = [attr, str(bad), 'feature']
    elif kind == 5:
        call = lambda: C(**BASE).predict(X)
        what = 'predict before fit'
        words = ['not fitted', 'fitted']
    elif kind == 6:
        bad = [-1, -2**31, 'a'][int(rng.integers(3))]
        inc = rng.random() < .5
        if inc:
            call = lambda: est.predict_incrementally(X, max_rules=bad)
        else:
            call = lambda: est.predict(X, max_rules=bad)
        what = '%s with max_rules=%r' % ('predict_incrementally' if inc else 'predict', bad)
        words = ['max_rules', repr(bad)]
    elif kind == 7:
        bad = int(rng.choice([-1, -5]))
        p = est.predict_incrementally(X, **({'predict_scores': True} if k_est == 0 and rng.random() < .5 else {}))
        call = lambda: p.apply_next(bad)
        what = 'apply_next(%d)' % bad
        words = ['step_size', 'stepSize', 'step size']
    elif kind == 8:
        bad = X.copy()
        bad[0, 0] = np.inf if rng.random() < .5 else -np.inf
        fit = rng.random() < .5
        bad = shape(bad)
        call = (lambda: C(**BASE).fit(bad, Y)) if fit else (lambda: est.predict(bad))
        what = '%s with infinite feature values' % ('fit' if fit else 'predict')
        words = ['infinity']
    else:
        z = str(rng.choice(['norows', 'nocols', 'text', 'noouts', 'predrows']))
        what = 'fit: ' + z
        call = {'norows': lambda: C(**BASE).fit(X[:0], Y[:0]), 'nocols': lambda: C(**BASE).fit(X[:, :0], Y),
                'noouts': lambda: C(**BASE).fit(X, Y[:, :0]), 'predrows': lambda: est.predict(X[:0]),
                'text': lambda: C(**BASE).fit(np.full((n, k), 'abc'), Y)}[z]
        words = ['0 sample', '0 feature', 'abc']
    ctx.describe('%s, X %r, Y %r: %s' % (C.__name__, X.shape, Y.shape, what))
    rejected(ctx, call, words, 'not-rejected', what)
    ctx.obs('rejected-input')
    ctx.distinct('input', C.__name__, kind, what if kind != 0 else '')
    for a, b in zip(outputs(est, X), want):
        if not np.array_equal(a, b):
            ctx.fail('unusable', what + ': the predictions of the estimator change')


def probe(i, ctx):
    """Known finding: a valid setting (no L2 regularization) makes the process abort."""
    from mlrl.boosting.boosting_learners import BoomerClassifier
    rng = np.random.default_rng(6)
    X = rng.integers(0, 4, (8, 3)).astype(np.float32)
    Y = (rng.random((8, 2)) < .5).astype(np.uint8)
    BoomerClassifier(max_rules=5, loss='squared-hinge-non-decomposable', head_type='complete',
                     l2_regularization_weight=0, feature_sampling='none', parallel_rule_refinement='false',
                     parallel_statistic_update='false').fit(X, Y)


def run_case(i, rng, ctx):
    if i < PROBES:
        return probe(i, ctx)
    r = rng.random()
    logging.disable(logging.CRITICAL)
    if r < .4:
        case_accept(rng, ctx)
    elif r < .75:
        case_reject(rng, ctx)
    else:
        case_input(rng, ctx)
