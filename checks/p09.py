"""P09: models survive (repeated) pickling, in the same and in a fresh process, unchanged."""
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

import gen
from calls import diff, predictors, snapshot
from model import extract

CASES = {'quick': 1200, 'thorough': 30000}
RULE = 'random fitted estimator; pickled and unpickled 1-3 times (protocols 2-5, copy.deepcopy; some in a fresh process) and compared: ' \
       'rules (used and all), calibration models, output space, all kinds of predictions; non-trivial: the model has a ' \
       'condition; distinct by model'
ASSUMPTIONS = ['rules and predictions have to be bit-identical']
REQUIRE = {'round_trips': 400, 'fresh_process': 20, 'calibration_models': 100}

CHILD = '''
import pickle, sys
sys.path[:0] = %r
import calls
est, kind, cfg, Q = pickle.load(open(sys.argv[1], 'rb'))
from model import extract
res = ([r.key() for r in extract(est.model_)], [r.key() for r in extract(est.model_, used=False)],
       calls.snapshot(kind, cfg, est, Q), pickle.dumps(est))
pickle.dump(res, open(sys.argv[2], 'wb'))
'''


def calibration(c):
    res = []
    for a in ('marginal_probability_calibration_model_', 'joint_probability_calibration_model_'):
        m = getattr(c, a, None)
        bins = []
        if m is not None and hasattr(m, 'visit'):
            from mlrl.common.cython.probability_calibration import IsotonicProbabilityCalibrationModelVisitor

            class V(IsotonicProbabilityCalibrationModelVisitor):
                def visit_bin(self, index, threshold, probability):
                    bins.append((int(index), float(threshold), float(probability)))
            m.visit(V())
        res.append((type(m).__name__, [(i, repr(t), repr(p)) for i, t, p in bins]))
    return res


def space(c):
    s = getattr(c, 'output_space_info_', None)
    res = [type(s).__name__]
    if s is not None and hasattr(s, 'visit'):
        vectors = []
        from mlrl.common.cython.output_space_info import LabelVectorSetVisitor

        class V(LabelVectorSetVisitor):
            def visit_label_vector(self, label_vector, frequency):
                vectors.append((tuple(int(v) for v in np.asarray(label_vector)), int(frequency)))
        s.visit(V())
        res.append(sorted(vectors))
    return res


def describe(c):
    rules = [r.key() for r in extract(c.model_)]
    every = [r.key() for r in extract(c.model_, used=False)]
    return dict(rules=rules, all_rules=every, calibration=calibration(c), space=space(c),
                params=sorted((k, repr(v)) for k, v in c.get_params().items()))


def compare(ctx, name, a, b):
    for k in a:
        if a[k] != b[k]:
            ctx.fail('state-differs', f'{name}: {k}: {b[k]} instead of {a[k]}')


def run_case(i, rng, ctx):
    kind, d, cfg = gen.random_learner(rng, rules=(1, 14), p=dict(loss=.5, prune=.4, default=.4, seqopt=.1))
    if kind == 'clf':
        predictors(rng, cfg, .7)
    ctx.describe(f'{kind} {cfg} {d.desc()}')
    c = gen.learner(kind, cfg, d)
    c.fit(d.X, d.Y)
    Q = np.vstack([d.X, d.Xq])
    a, p = describe(c), snapshot(kind, cfg, c, Q)
    ctx.obs('calibration_models', sum(len(b) > 0 for _, b in a['calibration']))
    cur = c
    for k in range(int(rng.integers(1, 4))):
        how = int(rng.integers(2, 7))
        if how == 6:
            import copy
            cur = copy.deepcopy(cur)
        else:
            cur = pickle.loads(pickle.dumps(cur, protocol=how))
        ctx.obs('round_trips')
        compare(ctx, f'after {k + 1} round trips', a, describe(cur))
        e = diff(p, snapshot(kind, cfg, cur, Q))
        if e:
            ctx.fail('predictions-differ', f'after {k + 1} round trips: {e}')
    # the original is still the same, and can still be used when copies are gone
    compare(ctx, 'original', a, describe(c))
    e = diff(p, snapshot(kind, cfg, c, Q))
    if e:
        ctx.fail('original-changed', e)
    # a copy can be fitted again, without affecting the original
    cur.fit(d.X[::-1].copy(), d.Y[::-1].copy())
    e = diff(p, snapshot(kind, cfg, c, Q))
    if e:
        ctx.fail('original-changed', 'by fitting a copy: ' + e)
    if i % 25 == 0:
        with tempfile.TemporaryDirectory() as t:
            src, dst = os.path.join(t, 'in'), os.path.join(t, 'out')
            with open(src, 'wb') as f:
                pickle.dump((c, kind, cfg, Q), f)
            r = subprocess.run([sys.executable, '-W', 'ignore', '-c', CHILD % [x for x in sys.path if x], src, dst],
                               capture_output=True, text=True, timeout=25)
            if r.returncode != 0:
                ctx.fail('fresh-process-failed', r.stderr[-1500:])
            with open(dst, 'rb') as f:
                rules, every, q, raw = pickle.load(f)
            ctx.obs('fresh_process')
            if rules != a['rules'] or every != a['all_rules']:
                ctx.fail('state-differs', f'fresh process: {rules} instead of {a["rules"]}')
            e = diff(p, q)
            if e:
                ctx.fail('predictions-differ', 'fresh process: ' + e)
            compare(ctx, 'back from a fresh process', a, describe(pickle.loads(raw)))
    if any(r[0] for r in a['rules']):
        ctx.distinct(a['rules'])
