"""P19: the testbed's train/test splits and cross validation folds are partitions of the data set."""
import logging
import math
import os
import shutil
import tempfile

import numpy as np
import arffgen
from arffgen import NOM

CASES = {'quick': 5000, 'thorough': 20000}
RULE = ('A callback records the matrices and meta data that are handed to training and evaluation by the real splitters, '
        'for random data sets that are written as ARFF files (dense/sparse, nominal/ordinal/numerical/missing values, '
        'outputs first or last). Each example carries a unique number: every example must show up exactly once per '
        'partition with its own features, labels and meta data; sizes, fold numbers, single-fold runs, predefined '
        'splits and repetitions must agree.')
ASSUMPTIONS = ['outputs are declared as {0,1} in ARFF files',
               'rounding of the size of a test set follows scikit-learn (a difference of one example is accepted)']
REQUIRE = {'callbacks': 500, 'predefined': 50, 'one-hot': 50}


def dense(m):
    return np.asarray(m.toarray() if hasattr(m, 'toarray') else m, dtype=np.float64)


class Recorder:

    def __new__(cls):
        from mlrl.testbed.data_splitting import DataSplitter

        class R(DataSplitter.Callback):

            def __init__(self):
                self.calls = []

            def train_and_evaluate(self, meta_data, data_split, train_x, train_y, test_x, test_y):
                c = dict(meta=meta_data, split=data_split, fold=data_split.get_fold(),
                         folds=data_split.get_num_folds(), last=data_split.is_last_fold(),
                         sep=data_split.is_train_test_separated(), cv=data_split.is_cross_validation_used())
                for k, v in (('train_x', train_x), ('train_y', train_y), ('test_x', test_x), ('test_y', test_y)):
                    c[k] = dense(v)
                self.calls.append(c)

        return R()


def check_meta(ctx, d, c, hot, what):
    m = c['meta']
    got = [o.name for o in m.outputs]
    if got != d.onames:
        ctx.fail('output-names', '%s: outputs %r instead of %r' % (what, got, d.onames))
    if hot:
        return
    got = [(f.name, f.feature_type.name, f.nominal_values) for f in m.features]
    want = list(zip(d.fnames, d.types, d.values))
    if got != want:
        ctx.fail('meta-data', '%s: features %r instead of %r' % (what, got, want))
    if bool(m.outputs_at_start) != d.start:
        ctx.fail('meta-data', '%s: outputs_at_start is %r' % (what, m.outputs_at_start))


def expected(d, hot_fit):
    """The features that are expected for each example, given the examples a one-hot encoder has been fit to."""
    if hot_fit is None:
        return d.x.astype(np.float64)
    nom = [j for j, t in enumerate(d.types) if t == NOM]
    cols = []
    for j in nom:
        w = d.x[hot_fit, j]
        cats = sorted(set(w[~np.isnan(w)].tolist()))
        for c in cats:
            cols.append((d.x[:, j] == c).astype(float))
        if np.isnan(w).any():
            cols.append(np.isnan(d.x[:, j]).astype(float))
    for j in range(d.x.shape[1]):
        if j not in nom:
            cols.append(d.x[:, j].astype(float))
    return np.array(cols).T.reshape(d.n, len(cols))


def idents(d, ref, x, idcol, what, ctx):
    if x.shape[1] != ref.shape[1]:
        ctx.fail('num-features', '%s: %d features instead of %d' % (what, x.shape[1], ref.shape[1]))
    pos = {float(v): i for i, v in enumerate(ref[:, idcol])}
    out = []
    for v in x[:, idcol]:
        if float(v) not in pos:
            ctx.fail('unknown-example', '%s: no example has the identifying value %r' % (what, float(v)))
        out.append(pos[float(v)])
    return np.array(out, dtype=int)


def verify(ctx, d, c, ref, idcol, what):
    res = []
    for part in ('train', 'test'):
        x, y = c[part + '_x'], c[part + '_y']
        w = '%s, %s set' % (what, part)
        if len(x) != len(y):
            ctx.fail('rows', '%s: %d feature vectors, but %d label vectors' % (w, len(x), len(y)))
        ids = idents(d, ref, x, idcol, w, ctx)
        if not np.array_equal(x, ref[ids], equal_nan=True):
            k = int(np.flatnonzero([not np.array_equal(a, b, equal_nan=True) for a, b in zip(x, ref[ids])])[0])
            ctx.fail('features', '%s: features of example %d are %r instead of %r' % (w, ids[k], x[k], ref[ids[k]]))
        if y.shape != (len(ids), d.q) or not np.array_equal(y, d.y[ids]):
            ctx.fail('labels', '%s: the labels do not belong to the examples' % w)
        if len(set(ids.tolist())) != len(ids):
            ctx.fail('duplicates', '%s: examples occur more than once' % w)
        res.append(ids)
    return res


def run_case(i, rng, ctx):
    from mlrl.testbed import data_splitting as ds
    logging.disable(logging.CRITICAL)
    d = arffgen.dataset(rng, min_rows=2)
    hot = bool(rng.random() < 0.4)
    has_nom = NOM in d.types
    kind = str(rng.choice(['none', 'split', 'split', 'cv', 'cv', 'cv']))
    seed = int(rng.integers(1, 1000))
    predefined = kind != 'none' and rng.random() < 0.35
    tmp = tempfile.mkdtemp(prefix='p19-')
    try:
        name = str(rng.choice(['data', 'my data', 'd-1']))
        np.random.seed(int(rng.integers(0, 2**31)))
        folds = int(rng.integers(2, min(d.n, 8) + 1))
        test_size = float(rng.choice([0.1, 0.25, 0.33, 0.5, 0.75, rng.uniform(0.05, 0.95)]))
        perm = rng.permutation(d.n)
        groups = None
        if predefined and kind == 'split':
            k = int(rng.integers(1, d.n))
            groups = [perm[:k], perm[k:]]
            files = [name + '_training.arff', name + '_test.arff']
        elif predefined:
            cuts = np.sort(rng.choice(np.arange(1, d.n), size=folds - 1, replace=False))
            groups = np.split(perm, cuts)
            files = ['%s_fold-%d.arff' % (name, j + 1) for j in range(folds)]
        ctx.describe('%s, %d examples, %s, one-hot=%s, folds=%d, test_size=%r, predefined=%s, seed=%d' % (
            kind, d.n, 'sparse' if d.sparse else 'dense', hot, folds, test_size, bool(predefined), seed))
        arffgen.write(os.path.join(tmp, name + '.xml'), arffgen.xml(d))
        if groups is None or rng.random() < 0.5:
            arffgen.write(os.path.join(tmp, name + '.arff'), arffgen.arff(d, range(d.n)))
        if groups is not None:
            for g, fn in zip(groups, files):
                arffgen.write(os.path.join(tmp, fn), arffgen.arff(d, g))
            ctx.obs('predefined')
        data_set = ds.DataSet(tmp, name, hot)
        enc = hot and has_nom
        fit = None
        if enc:
            fit = np.arange(d.n) if groups is None else np.sort(groups[0])
            ctx.obs('one-hot')
        ref = expected(d, fit)
        idcol = 0
        if enc:  # the nominal features come first, followed by the remaining ones
            idcol = ref.shape[1] - sum(t != NOM for t in d.types)

        def go(make):
            r = Recorder()
            make().run(r)
            return r.calls

        if kind == 'none':
            calls = go(lambda: ds.NoSplitter(data_set))
            if len(calls) != 1:
                ctx.fail('callbacks', 'the model is trained %d times' % len(calls))
            c = calls[0]
            tr, te = verify(ctx, d, c, ref, idcol, 'no split')
            if len(tr) != d.n or len(te) != d.n or not np.array_equal(tr, np.arange(d.n)):
                ctx.fail('no-split', '%d/%d of %d examples are used' % (len(tr), len(te), d.n))
            if c['sep'] or c['cv'] or c['fold'] is not None:
                ctx.fail('split-info', 'wrong information about the split')
        elif kind == 'split':
            make = lambda: ds.TrainTestSplitter(data_set, test_size, seed)
            ntest = test_size * d.n
            if groups is None and (math.ceil(ntest) >= d.n or d.n - math.ceil(ntest) < 1):
                ctx.obs('degenerate')
                return
            calls = go(make)
            if len(calls) != 1:
                ctx.fail('callbacks', 'the model is trained %d times' % len(calls))
            c = calls[0]
            tr, te = verify(ctx, d, c, ref, idcol, 'split')
            if set(tr) & set(te) or len(tr) + len(te) != d.n:
                ctx.fail('partition', '%d training and %d test examples, %d of them shared, %d available' % (
                    len(tr), len(te), len(set(tr) & set(te)), d.n))
            if groups is not None:
                if not np.array_equal(tr, groups[0]) or not np.array_equal(te, groups[1]):
                    ctx.fail('predefined', 'the predefined split is not used')
            elif abs(len(te) - ntest) > 1:
                ctx.fail('size', '%d test examples for test_size=%r and %d examples' % (len(te), test_size, d.n))
            if not c['sep'] or c['cv'] or c['fold'] is not None or not c['last']:
                ctx.fail('split-info', 'wrong information about the split')
            np.random.seed(int(rng.integers(0, 2**31)))
            c2 = go(make)[0]
            for k in ('train_x', 'train_y', 'test_x', 'test_y'):
                if not np.array_equal(c[k], c2[k], equal_nan=True):
                    ctx.fail('reproducible', 'the split differs if it is repeated with the same seed')
        else:
            calls = go(lambda: ds.CrossValidationSplitter(data_set, folds, -1, seed))
            if len(calls) != folds:
                ctx.fail('callbacks', '%d folds are run instead of %d' % (len(calls), folds))
            tests = []
            for k, c in enumerate(calls):
                w = 'fold %d' % k
                if c['fold'] != k or c['folds'] != folds or not c['sep'] or not c['cv'] or c['last'] != (k == folds - 1):
                    ctx.fail('split-info', '%s: fold=%r, num_folds=%r, last=%r' % (w, c['fold'], c['folds'], c['last']))
                tr, te = verify(ctx, d, c, ref, idcol, w)
                if set(tr) & set(te) or len(tr) + len(te) != d.n:
                    ctx.fail('partition', '%s: %d training and %d test examples, %d of them shared, %d available' % (
                        w, len(tr), len(te), len(set(tr) & set(te)), d.n))
                if groups is not None:
                    if not np.array_equal(te, groups[k]):
                        ctx.fail('predefined', '%s: the predefined fold is not used' % w)
                    if not np.array_equal(tr, np.concatenate([g for j, g in enumerate(groups) if j != k])):
                        ctx.fail('predefined', '%s: the training data does not consist of the other folds' % w)
                elif not d.n // folds <= len(te) <= -(-d.n // folds):
                    ctx.fail('size', '%s: %d of %d examples are used for testing' % (w, len(te), d.n))
                tests.append(te)
            alltests = np.sort(np.concatenate(tests))
            if not np.array_equal(alltests, np.arange(d.n)):
                ctx.fail('exactly-once', 'the examples are not used for testing exactly once')
            k = int(rng.integers(0, folds))
            np.random.seed(int(rng.integers(0, 2**31)))
            single = go(lambda: ds.CrossValidationSplitter(data_set, folds, k, seed))
            if len(single) != 1 or single[0]['fold'] != k:
                ctx.fail('single-fold', 'fold %d has been requested, got %r' % (k, [c['fold'] for c in single]))
            for key in ('train_x', 'train_y', 'test_x', 'test_y'):
                if not np.array_equal(single[0][key], calls[k][key], equal_nan=True):
                    ctx.fail('single-fold', 'running fold %d alone uses different data' % k)
            check_meta(ctx, d, single[0], enc, 'single fold')
        for c in calls:
            check_meta(ctx, d, c, enc, kind)
        ctx.obs('callbacks', len(calls))
        ctx.obs('examples', d.n)
        ctx.distinct('configurations', (kind, d.sparse, hot, bool(predefined), folds if kind == 'cv' else 0, d.start))
        if groups is not None and rng.random() < 0.3:
            # if some files of a predefined split are missing, no other split must be used silently
            os.unlink(os.path.join(tmp, files[int(rng.integers(0, len(files)))]))
            try:
                if kind == 'split':
                    go(lambda: ds.TrainTestSplitter(data_set, test_size, seed))
                else:
                    go(lambda: ds.CrossValidationSplitter(data_set, folds, -1, seed))
            except IOError:
                ctx.obs('missing-file')
            else:
                ctx.fail('missing-file', 'a file of the predefined split is missing, but no error is raised')
    finally:
        shutil.rmtree(tmp)
