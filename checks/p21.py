"""P21: data sets, parameter settings and models survive being written to and read from files."""
import logging
import os
import shutil
import tempfile

import numpy as np
import scipy.sparse as sp
import arffgen
import model as M
from arffgen import NOM, NUM, ORD

CASES = {'quick': 5000, 'thorough': 20000}
PROBES = 2
RULE = ('Random data sets are written to ARFF/XML files by an independent writer, or by the testbed itself, and the '
        'matrices and meta data that are loaded are compared element by element; parameter settings and models are '
        'stored by a run of the command line program and the rules, predictions and evaluation results of a second run '
        'that loads them are compared with the first one.')
ASSUMPTIONS = ['outputs are declared as {0,1} in ARFF files', 'known findings K17 (numerical outputs) and K18 (missing '
               'values in dense files) are excluded', 'feature values are float32 numbers']
REQUIRE = {'loaded': 300, 'label_hierarchies': 100, 'saved': 200, 'models': 20, 'parameters': 20}


def dense(m):
    return np.asarray(m.toarray() if hasattr(m, 'toarray') else m)


def probe(i, ctx):
    logging.disable(logging.CRITICAL)
    from mlrl.testbed.data import load_data_set_and_meta_data
    tmp = tempfile.mkdtemp(prefix='p21-')
    try:
        t = '{0,1}' if i == 0 else 'numeric'
        rows = '1.5,0\n?,1\n' if i == 0 else '1.5,300.5\n2,-1.25\n'
        arffgen.write(os.path.join(tmp, 'd.arff'), '@relation r\n@attribute a numeric\n@attribute y %s\n@data\n%s' % (t, rows))
        arffgen.write(os.path.join(tmp, 'd.xml'), '<labels xmlns="http://mulan.sourceforge.net/labels"><label name="y"/></labels>')
        x, y, _ = load_data_set_and_meta_data(tmp, 'd.arff', 'd.xml')
        if i == 0 and not np.isnan(dense(x)[1, 0]):
            ctx.fail('missing-value', 'a missing value is loaded as %r' % dense(x)[1, 0])
        if i == 1 and not np.array_equal(dense(y)[:, 0], [300.5, -1.25]):
            ctx.fail('regression-output', 'the outputs 300.5 and -1.25 are loaded as %r' % dense(y)[:, 0].tolist())
    finally:
        shutil.rmtree(tmp)


def check_meta(ctx, what, m, fnames, types, values, onames, start):
    got = [o.name for o in m.outputs]
    if got != onames:
        ctx.fail('output-names', '%s: outputs %r instead of %r' % (what, got, onames))
    got = [(f.name, f.feature_type.name, f.nominal_values) for f in m.features]
    want = list(zip(fnames, types, values))
    if got != want:
        ctx.fail('features', '%s: features %r instead of %r' % (what, got, want))
    if bool(m.outputs_at_start) != start:
        ctx.fail('outputs-at-start', '%s: outputs_at_start is %r' % (what, m.outputs_at_start))
    for t in (NUM, ORD, NOM):
        from mlrl.testbed.data import FeatureType
        idx = [j for j, u in enumerate(types) if u == t]
        if m.get_feature_indices({FeatureType[t]}) != idx or m.get_num_features({FeatureType[t]}) != len(idx):
            ctx.fail('feature-indices', '%s: wrong indices of %s features' % (what, t))


def compare(ctx, what, x, y, wx, wy):
    x, y = dense(x), dense(y)
    if x.shape != wx.shape or y.shape != wy.shape:
        ctx.fail('shape', '%s: shapes %r and %r instead of %r and %r' % (what, x.shape, y.shape, wx.shape, wy.shape))
    if not np.array_equal(x.astype(np.float32), wx.astype(np.float32), equal_nan=True):
        k = np.argwhere(~((x == wx) | (np.isnan(x) & np.isnan(wx))))
        ctx.fail('feature-values', '%s: the values at %r differ' % (what, k[:3].tolist()))
    if not np.array_equal(y, wy):
        ctx.fail('output-values', '%s: the outputs differ' % what)


def run_case(i, rng, ctx):
    logging.disable(logging.CRITICAL)
    tmp = tempfile.mkdtemp(prefix='p21-')
    try:
        k = i % 10
        if k < 4:
            load(rng, ctx, tmp)
        elif k < 8:
            save(rng, ctx, tmp)
        elif k == 8:
            experiment(rng, ctx, tmp, True)
        else:
            experiment(rng, ctx, tmp, False)
    finally:
        shutil.rmtree(tmp)


def load(rng, ctx, tmp):
    from mlrl.testbed.data import load_data_set, load_data_set_and_meta_data
    d = arffgen.dataset(rng, ids=False)
    meka = bool(rng.random() < 0.3)
    rel = 'data set'
    if meka:
        rel = 'r: -C %d%s' % (d.q if d.start else -d.q, str(rng.choice(['', ' -split-percentage 50'])))
    ctx.describe('load %d examples, %s, meka=%s, start=%s' % (d.n, 'sparse' if d.sparse else 'dense', meka, d.start))
    arffgen.write(os.path.join(tmp, 'd.arff'), arffgen.arff(d, range(d.n), relation=rel))
    if not meka:
        nested = bool(rng.random() < 0.4)
        ctx.obs('label_hierarchies', nested)
        arffgen.write(os.path.join(tmp, 'd.xml'), arffgen.xml(d, rng if nested else None))
    x, y, m = load_data_set_and_meta_data(tmp, 'd.arff', 'd.xml')
    compare(ctx, 'load', x, y, d.x, d.y)
    check_meta(ctx, 'load', m, d.fnames, d.types, d.values, d.onames, d.start)
    x, y = load_data_set(tmp, 'd.arff', m)
    compare(ctx, 'load with meta data', x, y, d.x, d.y)
    ctx.obs('loaded')
    ctx.distinct('kinds', ('load', d.sparse, meka, d.start))


def save(rng, ctx, tmp):
    from mlrl.testbed import data
    n, f, q = int(rng.integers(1, 30)), int(rng.integers(1, 8)), int(rng.integers(1, 6))
    x = (rng.normal(size=(n, f)) * 10.0**rng.integers(-6, 7, size=(n, f))).astype(np.float32)
    x[rng.random((n, f)) < rng.choice([0, 0.5, 0.95])] = 0
    y = (rng.random((n, q)) < rng.choice([0.05, 0.5])).astype(np.uint8)
    form = str(rng.choice(['dense', 'csr', 'csc', 'lil', 'mixed']))
    conv = {'dense': lambda a: a, 'csr': sp.csr_array, 'csc': sp.csc_array, 'lil': sp.lil_array, 'mixed': sp.csr_matrix}[form]
    xs, ys = conv(x), (y if form == 'mixed' else conv(y))
    both = bool(rng.random() < 0.6)
    ctx.describe('save %dx%d, %d outputs, %s, xml=%s' % (n, f, q, form, both))
    keep = x.copy(), y.copy()
    fnames, onames = ['X%d' % j for j in range(f)], ['y%d' % j for j in range(q)]
    start = False
    if both:
        m0 = data.save_data_set_and_meta_data(tmp, 'd.arff', 'd.xml', xs, ys)
    elif rng.random() < 0.5:
        m0 = data.save_data_set(tmp, 'd.arff', xs, ys)
    else:
        start = bool(rng.random() < 0.5)
        fnames, onames = arffgen.names(rng, 'X', f), arffgen.names(rng, 'y', q)
        m0 = data.MetaData([data.Feature(nm, data.FeatureType.NUMERICAL) for nm in fnames],
                           [data.Output(nm) for nm in onames], start)
        data.save_arff_file(tmp, 'd.arff', xs, ys, m0)
        if rng.random() < 0.5:
            data.save_meta_data(tmp, 'd.xml', m0)
    check_meta(ctx, 'saved meta data', m0, fnames, [NUM] * f, [None] * f, onames, start)
    if not np.array_equal(dense(xs), keep[0]) or not np.array_equal(dense(ys), keep[1]):
        ctx.fail('modified', 'saving a data set modifies it')
    x2, y2, m = data.load_data_set_and_meta_data(tmp, 'd.arff', 'd.xml')
    compare(ctx, 'save and load (%s)' % form, x2, y2, x, y)
    check_meta(ctx, 'save and load', m, fnames, [NUM] * f, [None] * f, onames, start)
    ctx.obs('saved')
    ctx.distinct('kinds', ('save', form, both, start))


def files(path, prefix):
    out = {}
    for fn in sorted(os.listdir(path)):
        if fn.startswith(prefix):
            out[fn] = open(os.path.join(path, fn), encoding='utf-8').read()
    return out


def experiment(rng, ctx, tmp, models):
    import p20
    d = arffgen.dataset(rng, min_rows=4)
    d.fnames = ['X%d' % j for j in range(len(d.fnames))]
    d.onames = ['y%d' % j for j in range(d.q)]
    pick = lambda *a: a[int(rng.integers(0, len(a)))]
    p = lambda v: bool(rng.random() < v)
    seco = p(0.25)
    arffgen.write(os.path.join(tmp, 'd.arff'), arffgen.arff(d, range(d.n)))
    arffgen.write(os.path.join(tmp, 'd.xml'), arffgen.xml(d))
    for s in ('m', 'o1', 'o2'):
        os.makedirs(os.path.join(tmp, s))
    params = ['--max-rules', str(int(rng.integers(1, 9)))]
    if p(0.5):
        params += ['--feature-sampling', pick('none', 'without-replacement{sample_size=0.5}', 'without-replacement{num_retained=1}')]
    if p(0.5):
        params += ['--rule-induction', pick('top-down-greedy{max_conditions=2}', 'top-down-greedy{min_coverage=2}')]
    if p(0.5):
        params += ['--random-state', str(int(rng.integers(1, 99)))]
    if not seco:
        if p(0.5):
            params += ['--shrinkage', pick('0.5', '1.0')]
        if p(0.4):
            params += ['--head-type', pick('single', 'complete', 'partial-fixed{output_ratio=0.4}')]
        if p(0.4):
            params += ['--loss', pick('logistic-decomposable', 'logistic-non-decomposable')]
        if p(0.3):
            params += ['--l1-regularization-weight', '0.3']
    else:
        if p(0.5):
            params += ['--heuristic', pick('accuracy', 'precision', 'f-measure{beta=0.5}')]
    split = pick('none', 'train-test', 'cross-validation{num_folds=2}')
    seed_given = '--random-state' in params
    base = ['testbed', 'mlrl.seco' if seco else 'mlrl.boosting', '--data-dir', tmp, '--dataset', 'd', '--data-split', split,
            '--store-rules', 'true{decimals_body=0,decimals_head=0}', '--store-predictions', 'true',
            '--store-evaluation', 'true{training_time=false,prediction_time=false}']
    if models:
        extra = ['--model-dir', os.path.join(tmp, 'm')]
        first = base + params + extra + ['--output-dir', os.path.join(tmp, 'o1')]
        second = base + params + extra + ['--output-dir', os.path.join(tmp, 'o2')]
    else:
        pd = os.path.join(tmp, 'm')
        first = base + params + ['--parameter-dir', pd, '--store-parameters', 'true', '--output-dir', os.path.join(tmp, 'o1')]
        # the seed of the split is given on the command line, all other parameters are loaded
        second = base + ['--parameter-dir', pd, '--output-dir', os.path.join(tmp, 'o2')]
        if seed_given:
            k = params.index('--random-state')
            second += params[k:k + 2]
    ctx.describe(' '.join(first[1:]))
    p20.run_main(first)
    if models:
        nfiles = [fn for fn in os.listdir(os.path.join(tmp, 'm'))]
        if len(nfiles) != (2 if split.startswith('cross') else 1):
            ctx.fail('model-files', 'files %r' % nfiles)
    text = p20.run_main(second)
    if models and 'Successfully fit model' in text:
        ctx.fail('model-not-loaded', 'the second run trains a model instead of loading it')
    if not models and 'applied parameter setting' not in text:
        ctx.fail('parameters-not-loaded', 'the second run does not load the parameters')
    for pre in ('rules', 'predictions', 'evaluation'):
        a, b = files(os.path.join(tmp, 'o1'), pre), files(os.path.join(tmp, 'o2'), pre)
        if not a or a.keys() != b.keys():
            ctx.fail('files', '%s: files %r and %r' % (pre, sorted(a), sorted(b)))
        for fn in a:
            if a[fn] != b[fn]:
                ctx.fail(pre, '%s differs after the %s loaded' % (fn, 'model is' if models else 'parameters are'))
    ctx.obs('models' if models else 'parameters')
    ctx.distinct('kinds', ('model' if models else 'parameters', seco, split))
