"""P04: training and prediction are reproducible and have no side effects."""
import gc
import hashlib
import os
import pickle
import random
import subprocess
import sys
import tempfile

import numpy as np
from scipy.sparse import issparse
from sklearn.base import clone

import gen
from calls import diff, predictors, snapshot
from model import extract
from p09 import calibration, space

CASES = {'quick': 700, 'thorough': 15000}
RULE = 'random estimators and histories of fitting, re-fitting, cloning, predicting, deleting and disturbing global state (random ' \
       'number generators, memory); each result is compared with the first one for the same data, configuration and seed, ' \
       'inputs and already learned models by hashes; some are repeated in a fresh process; non-trivial: a model with a ' \
       'condition; distinct by model'
ASSUMPTIONS = ['models and predictions have to be bit-identical']
REQUIRE = {'refits': 800, 'fresh_process': 20, 'inputs_hashed': 4000, 'unaffected': 2000, 'clones': 200, 'sparse': 300, 'other_values': 300}

CHILD = '''
import pickle, sys
sys.path[:0] = %r
import gen, p04
kind, cfg, d, X, Y, Q, kw, heap = pickle.load(open(sys.argv[1], 'rb'))
junk = [bytearray(k) for k in heap]
c = gen.learner(kind, cfg, d)
c.fit(X, Y, **kw)
pickle.dump(p04.state(kind, cfg, c, Q, **kw), open(sys.argv[2], 'wb'))
'''


def state(kind, cfg, c, Q, **kw):
    return dict(rules=[r.key() for r in extract(c.model_)], all_rules=[r.key() for r in extract(c.model_, used=False)],
                calibration=calibration(c), space=space(c)), snapshot(kind, cfg, c, Q, **kw)


def digest(*arrays):
    h = hashlib.sha1()
    for a in (b for a in arrays for b in ((a.data, a.indices, a.indptr) if issparse(a) else (a, ))):
        h.update(np.ascontiguousarray(a).view(np.uint8))
    return h.hexdigest()


def sparse(rng, A, value=0.0, d=None):
    """A sparse matrix with indices that are not necessarily sorted; explicitly stored sparse values: known finding K7."""
    M = gen.to_sparse(A, str(rng.choice(['csr', 'csc'])), value, rng, float(rng.choice([0, .3])) if not d or not (d.nominal or d.ordinal) else 0.0)
    if rng.random() < .5:
        for b, e in zip(M.indptr[:-1], M.indptr[1:]):
            M.indices[b:e] = M.indices[b:e][::-1].copy()
            M.data[b:e] = M.data[b:e][::-1].copy()
        M.has_sorted_indices = False
    return M


class Subject:
    """Data and a configuration with the result that was obtained first."""

    def __init__(self, rng, ctx):
        self.kind, self.d, self.cfg = gen.random_learner(rng, rules=(1, 10), data_kw=dict(n=(5, 40)), p=dict(
            loss=.5, prune=.3, default=.4, seqopt=.1, isamp=.6, fsamp=.6, holdout=.4, par=.4, irep=.2))
        if self.kind == 'clf':
            predictors(rng, self.cfg, .4)
        d = self.d
        self.Q = np.vstack([d.X, d.Xq])
        self.X, self.Y, self.P, self.kw = d.X, d.Y, self.Q, {}
        if rng.random() < .5:
            v = float(rng.choice([0, 0, 1, 2]))
            self.kw = {'sparse_feature_value': v} if v else {}
            self.X, self.P = sparse(rng, d.X, v, d), sparse(rng, self.Q, v)
            if rng.random() < .5 and self.kind != 'reg':
                self.Y = sparse(rng, d.Y)
            ctx.obs('sparse')
        self.hash = digest(self.X, self.Y, self.P)
        self.params = None
        self.first = None
        self.models = []
        self.ctx = ctx
        self.what = f'{self.kind} {self.cfg} {d.desc()} {"sparse" if issparse(self.X) else "dense"} {self.kw}'

    def new(self):
        c = gen.learner(self.kind, self.cfg, self.d)
        p = sorted((k, repr(v)) for k, v in c.get_params().items())
        if self.params is None:
            self.params = p
        return c

    def fit(self, c, how):
        c.fit(self.X, self.Y, **self.kw)
        self.check(c, how)

    def check(self, c, how, sig='not-reproducible'):
        ctx = self.ctx
        s = state(self.kind, self.cfg, c, self.P, **self.kw)
        ctx.obs('inputs_hashed')
        if digest(self.X, self.Y, self.P) != self.hash:
            ctx.fail('input-modified', f'{how}: {self.what}')
        if sorted((k, repr(v)) for k, v in c.get_params().items()) != self.params:
            ctx.fail('parameters-modified', f'{how}: {c.get_params()}: {self.what}')
        if self.first is None:
            self.first = s
            return
        for k in s[0]:
            if s[0][k] != self.first[0][k]:
                ctx.fail(sig, f'{how}: {k}: {s[0][k]} instead of {self.first[0][k]}: {self.what}')
        e = diff(self.first[1], s[1])
        if e:
            ctx.fail(sig, f'{how}: predictions: {e}: {self.what}')


def run_case(i, rng, ctx):
    subjects = [Subject(rng, ctx) for _ in range(2)]
    ctx.describe(' || '.join(s.what for s in subjects))
    for s in subjects:
        c = s.new()
        s.fit(c, 'first')
        s.models.append(c)
    junk = []
    ops = []
    for _ in range(int(rng.integers(5, 10))):
        s = subjects[int(rng.integers(2))]
        op = str(rng.choice(['new', 'refit', 'clone', 'other', 'disturb', 'query', 'drop', 'other-data']))
        ops.append(op)
        how = '>'.join(ops)
        if op == 'new':
            c = s.new()
            s.fit(c, how)
            s.models.append(c)
            ctx.obs('refits')
        elif op == 'refit' and s.models:
            s.fit(s.models[int(rng.integers(len(s.models)))], how)
            ctx.obs('refits')
        elif op == 'clone' and s.models:
            c = clone(s.models[-1])
            if not gen_needs(c, s):
                s.fit(c, how)
                ctx.obs('clones')
                ctx.obs('refits')
        elif op == 'other-data':  # an estimator that was fitted to other data before
            c = s.new()
            k = max(2, s.d.n // 2)
            X, kw = s.d.X[:k].copy(), {}
            if rng.random() < .6:
                v = float(rng.choice([0, 1, 3]))
                X, kw = sparse(rng, X, v, s.d), {'sparse_feature_value': v}
                ctx.obs('other_values')
            c.fit(X, s.d.Y[:k].copy(), **kw)
            c.predict(s.Q)
            s.fit(c, how)
            s.models.append(c)
            ctx.obs('refits')
        elif op == 'other':
            k, d, cfg = gen.random_learner(rng, rules=(1, 5), data_kw=dict(n=(5, 20)))
            c = gen.learner(k, cfg, d)
            c.fit(d.X, d.Y)
            c.predict(d.Xq)
        elif op == 'disturb':
            np.random.seed(int(rng.integers(1000)))
            random.seed(int(rng.integers(1000)))
            junk = [bytearray(int(v)) for v in rng.integers(1, 5000, size=50)]
        elif op == 'query' and s.models:
            c = s.models[int(rng.integers(len(s.models)))]
            X = s.Q[rng.permutation(len(s.Q))[:int(rng.integers(1, len(s.Q)))]].copy()
            kw = {'max_rules': int(rng.integers(1, 4))} if rng.random() < .5 else {}
            if rng.random() < .5:
                v = float(rng.choice([0, 1, 3]))
                X = sparse(rng, X, v)
                kw['sparse_feature_value'] = v
                ctx.obs('other_values')
            h = digest(X)
            snapshot(s.kind, s.cfg, c, X, **kw)
            if digest(X) != h:
                ctx.fail('input-modified', f'{how}: {s.what}')
        elif op == 'drop' and len(s.models) > 1:
            s.models.pop(int(rng.integers(len(s.models))))
            gc.collect()
        t = subjects[int(rng.integers(2))]
        for c in t.models[-1:] + t.models[:1]:
            t.check(c, how, 'model-affected')
            ctx.obs('unaffected')
    del junk
    # other seeds are allowed to give other results
    s = subjects[0]
    if i % 25 == 0:
        with tempfile.TemporaryDirectory() as t:
            src, dst = os.path.join(t, 'in'), os.path.join(t, 'out')
            d = s.d
            with open(src, 'wb') as f:
                pickle.dump((s.kind, s.cfg, d, s.X, s.Y, s.P, s.kw, rng.integers(1, 9000, size=40).tolist()), f)
            e = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 1000))), OMP_NUM_THREADS=str(int(rng.integers(1, 9))))
            r = subprocess.run([sys.executable, '-W', 'ignore', '-c', CHILD % [x for x in sys.path if x], src, dst],
                               capture_output=True, text=True, timeout=25, env=e)
            if r.returncode != 0:
                ctx.fail('fresh-process-failed', r.stderr[-1500:])
            with open(dst, 'rb') as f:
                a, p = pickle.load(f)
            ctx.obs('fresh_process')
            if a != s.first[0]:
                ctx.fail('not-reproducible', f'fresh process: {a} instead of {s.first[0]}: {s.what}')
            e = diff(s.first[1], p)
            if e:
                ctx.fail('not-reproducible', f'fresh process: {e}: {s.what}')
    for s in subjects:
        if any(r[0] for r in s.first[0]['rules']):
            ctx.distinct(s.first[0]['rules'])


def gen_needs(c, s):
    """Attributes that are not parameters have to be given to a clone again."""
    for a in ('nominal_attribute_indices', 'ordinal_attribute_indices', 'nominal_feature_indices', 'ordinal_feature_indices'):
        if hasattr(s.models[-1], a) and getattr(c, a, None) != getattr(s.models[-1], a):
            setattr(c, a, getattr(s.models[-1], a))
    return False
