"""P20: the results that are reported by the testbed are those of the actual models and predictions."""
import contextlib
import csv
import io
import logging
import math
import os
import re
import shutil
import sys
import tempfile

import numpy as np
import arffgen
import measures
import model as M
from arffgen import NOM, ORD

CASES = {'quick': 2400, 'thorough': 8000}
RULE = ('The command line program is run in-process on random data sets, and everything it writes or prints (evaluation '
        'results per fold and averaged, predictions, ground truth, rules, model/data/prediction characteristics, label '
        'vectors, calibration models) is compared with an own training and prediction run of the same learner on the '
        'data of each fold and with independent implementations of the measures.')
ASSUMPTIONS = ['the folds are those handed out by the splitters (P19), the learner is deterministic (P04) and models '
               'that are truncated to a number of rules are those of incremental predictions (P08)',
               'the values of Mean Absolute Percentage Error depend on the smallest float64 if the ground truth is 0']
REQUIRE = {'csv-values': 2000, 'predictions': 2000, 'rules': 500, 'overall': 30, 'model-sizes': 50}


def dense(m):
    return np.asarray(m.toarray() if hasattr(m, 'toarray') else m)


def read_csv(path):
    with open(path, newline='', encoding='utf-8') as f:
        return list(csv.DictReader(f))


def read_arff(path, ncols):
    rows, atts, data = [], [], False
    for line in open(path, encoding='utf-8'):
        line = line.strip()
        if not line or line.startswith('%'):
            continue
        if data:
            if line.startswith('{'):
                r = np.zeros(ncols)
                for t in line[1:-1].split(','):
                    if t.strip():
                        k, v = t.strip().split(' ')
                        r[int(k)] = float(v)
            else:
                r = np.array([float(t) for t in line.split(',')])
            rows.append(r)
        elif line.lower().startswith('@attribute'):
            atts.append(line)
        elif line.lower().startswith('@data'):
            data = True
    return atts, np.array(rows).reshape(len(rows), ncols)


def close(a, b, tol=1e-9):
    return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b)) or (math.isnan(a) and math.isnan(b))


def same_table(ctx, sig, what, got, want):
    miss = set(want) ^ set(got)
    if miss:
        ctx.fail(sig, '%s: columns %s' % (what, sorted(miss)))
    for k, v in want.items():
        if not close(float(got[k]), float(v), 1e-7):
            ctx.fail(sig, '%s: %s is %s instead of %r' % (what, k, got[k], v))
    ctx.obs('csv-values', len(want))


def fmt(o):
    return 'true' if not o else 'true{' + ','.join('%s=%s' % kv for kv in o.items()) + '}'


def rule_key(r, d, dec_b, dec_h, complete_names):
    conds = []
    for op, f, t in r.conds:
        o = op[3:]
        v = d.values[f][int(t)] if d.types[f] == NOM else round(float(t), dec_b) if dec_b > 0 else float(t)
        conds.append((d.fnames[f], o, v))
    head = [(complete_names[int(i)], round(float(s), dec_h) if dec_h > 0 else float(s)) for i, s in zip(r.indices(), r.scores)]
    return conds, head


def parse_rules(text, d):
    out = []
    for line in text.splitlines():
        m = re.fullmatch(r'\{(.*)\} => \((.*)\)', line.strip())
        if not m:
            return None, line
        conds = []
        if m.group(1):
            for c in m.group(1).split(' & '):
                n, o, v = re.fullmatch(r'(\S+) (<=|>|==|!=) (.*)', c).groups()
                conds.append((n, o, v[1:-1] if v.startswith('"') else float(v)))
        head = [(t.split(' = ')[0], float(t.split(' = ')[1])) for t in m.group(2).split(', ')]
        out.append((conds, head))
    return out, None


def eq_items(a, b, tol):
    a, b = sorted(a, key=str), sorted(b, key=str)
    if len(a) != len(b):
        return False
    for p in a:  # match each item with one of the same name, operator and about the same value
        k = [q for q in b if q[:-1] == p[:-1] and (q[-1] == p[-1] or (
            not isinstance(q[-1], str) and not isinstance(p[-1], str) and abs(q[-1] - p[-1]) <= tol + 1e-6 * abs(q[-1])))]
        if not k:
            return False
        b.remove(k[0])
    return True


def run_main(argv):
    from mlrl.testbed import main
    old = sys.argv
    sys.argv = argv
    buf = io.StringIO()
    root = logging.getLogger()
    handlers = list(root.handlers)
    level = root.level
    root.handlers[:] = []
    logging.disable(logging.NOTSET)
    try:
        with contextlib.redirect_stdout(buf):
            main.main()
    except SystemExit as e:
        raise RuntimeError('the program exits: %r' % e)
    finally:
        sys.argv = old
        logging.disable(logging.CRITICAL)
        root.handlers[:] = handlers
        root.setLevel(level)
    return buf.getvalue()


def run_case(i, rng, ctx):
    d = arffgen.dataset(rng, min_rows=4)
    d.fnames = ['X%d' % j for j in range(len(d.fnames))]
    d.onames = ['y%d' % j for j in range(d.q)]
    tmp = tempfile.mkdtemp(prefix='p20-')
    try:
        case(rng, ctx, d, tmp)
    finally:
        shutil.rmtree(tmp)


def case(rng, ctx, d, tmp):
    from mlrl.testbed import data_splitting as ds
    import p19
    p = lambda x: bool(rng.random() < x)
    pick = lambda *a: a[int(rng.integers(0, len(a)))]
    seco = p(0.2)
    ptype = 'binary' if seco or p(0.4) else pick('scores', 'probabilities')
    hot = p(0.15)
    seed = int(rng.integers(1, 1000))
    arffgen.write(os.path.join(tmp, 'd.arff'), arffgen.arff(d, range(d.n)))
    arffgen.write(os.path.join(tmp, 'd.xml'), arffgen.xml(d))
    out = os.path.join(tmp, 'out')
    os.makedirs(out)
    if p(0.3):  # left-overs of another run must not be mixed up with the results
        arffgen.write(os.path.join(out, 'evaluation_test_overall.csv'), 'x\n1\n')
    params = dict(max_rules=str(int(rng.integers(1, 9))), random_state=str(seed))
    if not seco:
        if p(0.4):
            params['head_type'] = pick('single', 'partial-fixed', 'complete')
        if p(0.4) or ptype == 'probabilities':
            params['loss'] = pick('logistic-decomposable', 'logistic-non-decomposable')
        if p(0.2):
            params['default_rule'] = 'false'
        if p(0.3):
            params['marginal_probability_calibration'] = 'isotonic'
    for k in ('feature_format', 'output_format', 'prediction_format'):
        if p(0.2):
            params[k] = pick('sparse', 'dense')
    if seco:
        params.pop('prediction_format', None)  # known finding K3
    kind = pick('none', 'split', 'cv', 'cv')
    data_set = ds.DataSet(tmp, 'd', hot)
    folds = int(rng.integers(2, min(4, d.n) + 1))
    current = -1
    if kind == 'none':
        split, make = 'none', lambda: ds.NoSplitter(data_set)
    elif kind == 'split':
        ts = pick(0.33, 0.5, 0.25)
        split, make = 'train-test{test_size=%s}' % ts, lambda: ds.TrainTestSplitter(data_set, ts, seed)
    else:
        if p(0.2):
            current = int(rng.integers(0, folds))
            split = 'cross-validation{num_folds=%d,current_fold=%d}' % (folds, current + 1)
        else:
            split = 'cross-validation{num_folds=%d}' % folds
        make = lambda: ds.CrossValidationSplitter(data_set, folds, current, seed)
    eval_train = kind != 'none' and p(0.3)
    inc = None
    if p(0.3):
        step = int(rng.integers(1, 4))
        mn = pick(0, 0, int(rng.integers(1, 6)))
        mx = pick(0, mn + int(rng.integers(1, 6)))
        inc = (mn, mx, step)
    eo, po, ro = {}, {}, {}
    if p(0.3):
        eo['decimals'] = int(rng.integers(0, 6))
    if p(0.3):
        eo['percentage'] = pick('true', 'false')
    if p(0.3):
        po['decimals'] = int(rng.integers(0, 5))
    if p(0.5):
        ro['decimals_body'] = int(rng.integers(0, 6))
        ro['decimals_head'] = int(rng.integers(0, 6))
    sv = 0.0
    if d.sparse and not hot and p(0.3) and not {NOM, ORD} & set(d.types):  # known finding K7
        sv = float(pick(1, -1, 2))
    # the options of measures
    enable_all, special = True, {}
    if p(0.3):
        enable_all = pick(True, False)
        eo['enable_all'] = str(enable_all).lower()
        names = {'hamming_loss': 'Hamming Loss', 'subset_accuracy': 'Subset Accuracy', 'micro_f1': 'Micro F1',
                 'macro_recall': 'Macro Recall', 'example_wise_jaccard': 'Example-wise Jaccard', 'accuracy': 'Accuracy',
                 'mean_squared_error': 'Mean Squared Error', 'rank_loss': 'Ranking Loss', 'lrap':
                 'Label Ranking Average Precision', 'training_time': 'Training Time', 'f1': 'F1', 'precision': 'Precision'}
        for k in rng.choice(sorted(names), size=4, replace=False):
            b = p(0.5)
            special[names[k]] = b
            eo[str(k)] = str(b).lower()
    pe = {k: v for k, v in eo.items() if k != 'training_time'}
    argv = ['testbed', 'mlrl.seco' if seco else 'mlrl.boosting', '--data-dir', tmp, '--dataset', 'd', '--data-split', split,
            '--output-dir', out, '--prediction-type', ptype, '--store-predictions', fmt(po), '--store-rules', fmt(ro),
            '--store-evaluation', fmt(eo), '--print-evaluation', fmt(pe), '--store-data-characteristics', 'true',
            '--store-model-characteristics', 'true', '--store-label-vectors', 'true', '--sparse-feature-value', str(sv),
            '--store-prediction-characteristics', 'true', '--evaluate-training-data', str(eval_train).lower(),
            '--one-hot-encoding', str(hot).lower()]
    if not seco:
        argv += ['--store-marginal-probability-calibration-model', 'true',
                 '--print-marginal-probability-calibration-model', str(p(0.5)).lower()]
    if inc:
        argv += ['--incremental-evaluation', 'true{min_size=%d,max_size=%d,step_size=%d}' % inc]
    if p(0.2):
        argv += ['--print-predictions', 'true', '--print-rules', 'true', '--print-model-characteristics', 'true',
                 '--print-data-characteristics', 'true', '--print-label-vectors', 'true']
    for k, v in params.items():
        argv += ['--' + k.replace('_', '-'), v]
    ctx.describe(' '.join(argv[1:]) + ' (%d examples, %s)' % (d.n, 'sparse' if d.sparse else 'dense'))
    rec = p19.Recorder()
    raw = []
    inner = rec.train_and_evaluate

    def record(meta_data, data_split, train_x, train_y, test_x, test_y):
        raw.append((train_x, train_y, test_x, test_y))
        inner(meta_data, data_split, train_x, train_y, test_x, test_y)

    rec.train_and_evaluate = record
    logging.disable(logging.CRITICAL)
    make().run(rec)
    text = run_main(argv)
    enc = hot and NOM in d.types

    def learner():
        if seco:
            from mlrl.seco.seco_learners import SeCoClassifier as C
        else:
            from mlrl.boosting.boosting_learners import BoomerClassifier as C
        kw = dict(params)
        kw['max_rules'] = int(kw['max_rules'])
        kw['random_state'] = int(kw['random_state'])
        c = C(**kw)
        if not enc:
            c.ordinal_feature_indices = [j for j, t in enumerate(d.types) if t == ORD]
            c.nominal_feature_indices = [j for j, t in enumerate(d.types) if t == NOM]
        return c

    pct = eo.get('percentage', 'true') == 'true'
    dec = eo.get('decimals')
    table = {}
    for (trx, try_, tex, tey), c in zip(raw, rec.calls):
        fold = c['fold']
        suffix = 'overall' if fold is None else 'fold-%d' % (fold + 1)
        cl = learner()
        cl.fit(trx, try_, sparse_feature_value=sv)
        nrules = cl.model_.get_num_used_rules()

        def predict(x, **kw):
            if ptype == 'binary':
                z = cl.predict(x, sparse_feature_value=sv, **kw)
            elif ptype == 'scores':
                z = cl.predict(x, predict_scores=True, sparse_feature_value=sv, **kw)
            else:
                z = cl.predict_proba(x, sparse_feature_value=sv, **kw)
            return dense(z)

        evals = [('test' if c['sep'] else 'training', tex, tey)]
        if eval_train:
            evals.append(('training', trx, try_))
        for dt, x, y in evals:
            y = dense(y)
            sizes = [None]
            if inc:
                mn, mx, step = inc
                total = min(mx, nrules) if mx > 0 else nrules
                s = min(mn if mn > 0 else step, total)
                sizes = []
                while s > (sizes[-1] if sizes else 0):
                    sizes.append(s)
                    s = min(s + step, total)
            path = os.path.join(out, 'evaluation_%s_%s.csv' % (dt, suffix))
            if not sizes:
                continue
            rows = read_csv(path)
            if not rows and not enable_all:  # no measure is enabled
                rows = [{} for _ in sizes]
            if len(rows) != len(sizes):
                ctx.fail('rows', '%s has %d rows instead of %d' % (os.path.basename(path), len(rows), len(sizes)))
            prows = None
            if ptype == 'binary':
                prows = read_csv(os.path.join(out, 'prediction_characteristics_%s_%s.csv' % (dt, suffix)))
            for ri, (row, s) in enumerate(zip(rows, sizes)):
                z = predict(x) if s is None else predict(x, max_rules=s)
                vals, per = measures.evaluate(y, z, ptype)
                table.setdefault((dt, s), []).append((fold, vals, per))
                what = '%s, size %s' % (os.path.basename(path), s)
                if s is not None:
                    if int(row.pop('Model size')) != s:
                        ctx.fail('model-size', '%s: the model size is wrong' % what)
                    ctx.obs('model-sizes')
                compare_eval(ctx, 'evaluation', what, row, vals, per, pct, dec, enable_all, special, False)
                f = 'predictions_%s%s_%s.arff' % (dt, '' if s is None else '_model-size-%d' % s, suffix)
                zz = z.reshape(len(y), -1).astype(np.float64)
                # for single-label data, the probabilities of both classes are predicted
                atts, mat = read_arff(os.path.join(out, f), d.q + zz.shape[1])
                want = ['Ground Truth %s' % n for n in d.onames] + ['Prediction %s' % n for n in d.onames]
                if zz.shape[1] == d.q and (len(atts) != len(want)) or any(w not in a for a, w in zip(atts[:d.q], want)):
                    ctx.fail('prediction-names', '%s: attributes %r' % (f, atts))
                if len(mat) != len(y) or not np.array_equal(mat[:, :d.q], y):
                    ctx.fail('ground-truth', '%s: wrong ground truth' % f)
                pd = po.get('decimals', 0)
                tol = 0.5000001 * 10.0**-pd + 1e-9 if pd > 0 and ptype != 'binary' else 1e-9
                if not np.all((np.abs(mat[:, d.q:] - zz) <= tol * np.maximum(1, np.abs(zz))) | (mat[:, d.q:] == zz)):
                    ctx.fail('predictions', '%s: wrong predictions' % f)
                ctx.obs('predictions', len(y))
                if prows is not None:
                    got = dict(prows[ri])
                    got.pop('Model size', None)
                    same_table(ctx, 'prediction-characteristics', what, got, measures.label_stats(z))
        post(ctx, d, cl, trx, dense(try_), out, suffix, ro, enc, seco, params)
    # averages across folds
    if kind == 'cv' and current < 0:
        for dt in ['test'] + (['training'] if eval_train else []):
            last = rec.calls[-1]['fold']
            sizes = [s for (t, s), v in table.items() if t == dt and any(fo == last for fo, _, _ in v)]
            if not sizes:
                continue
            rows = read_csv(os.path.join(out, 'evaluation_%s_overall.csv' % dt))
            if not rows and not enable_all:
                rows = [{} for _ in sizes]
            if len(rows) != len(sizes):
                ctx.fail('rows', 'evaluation_%s_overall.csv has %d rows instead of %d' % (dt, len(rows), len(sizes)))
            for row, s in zip(rows, sorted(sizes, key=lambda t: t or 0)):
                what = 'evaluation_%s_overall.csv, size %s' % (dt, s)
                if s is not None and int(row.pop('Model size')) != s:
                    ctx.fail('model-size', '%s: the model size is wrong' % what)
                vs = table[(dt, s)]
                vals, per = {}, {}
                for k in vs[0][1]:
                    a = np.array([v[1][k] for v in vs])
                    vals[k], vals['Std.-dev. ' + k] = a.mean(), a.std()
                    per[k] = per['Std.-dev. ' + k] = vs[0][2][k]
                compare_eval(ctx, 'average', what, row, vals, per, pct, dec, enable_all, special, True)
                ctx.obs('overall')
    printed(ctx, text, table, pct, dec, enable_all, special, kind)
    ctx.distinct('configurations', (kind, ptype, seco, hot, inc is not None, eval_train, d.q == 1, d.sparse))


def compare_eval(ctx, sig, what, row, vals, per, pct, dec, enable_all, special, avg):
    want = {}
    for k, v in vals.items():
        base = k.replace('Std.-dev. ', '')
        if special.get(base, enable_all):
            want[k] = v * 100 if per[k] and pct else v
    for t in ('Training Time', 'Prediction Time'):
        for n in ([t, 'Std.-dev. ' + t] if avg else [t]):
            if special.get(t, enable_all):
                if float(row.pop(n, 'nan')) < 0 or n in row:
                    ctx.fail(sig, '%s: no valid %s' % (what, n))
    if set(want) != set(row):
        ctx.fail(sig, '%s: measures %s instead of %s' % (what, sorted(row), sorted(want)))
    for k, v in want.items():
        g = float(row[k])
        tol = 1e-7 * max(1, abs(v)) + (0.5000001 * 10.0**-dec if dec else 0)
        if not abs(g - v) <= tol:
            ctx.fail(sig, '%s: %s is %r instead of %r' % (what, k, g, v))
    ctx.obs('csv-values', len(want))


def printed(ctx, text, table, pct, dec, enable_all, special, kind):
    """The evaluation results that are printed on the console."""
    dec = 2 if dec is None else dec
    got = {}
    cur = None
    for line in text.splitlines():
        m = re.search(r'Evaluation result for (test|training) data(?: using a model of size (\d+))?(?: \((.*)\))?:$', line)
        if m:
            cur = (m.group(1), int(m.group(2)) if m.group(2) else None, m.group(3))
            got[cur] = {}
        elif cur is not None:
            m = re.fullmatch(r'(.+?)\s{1,}(-?[\d.]+(?:e[+-]?\d+)?)(?:\s+±\s*(-?[\d.]+(?:e[+-]?\d+)?))?\s*', line)
            if m:
                got[cur][m.group(1).strip()] = (float(m.group(2)), m.group(3))
            elif line.strip():
                cur = None
    for (dt, s), v in table.items():
        for fold, vals, per in v:
            key = (dt, s, None if fold is None else 'Fold %d' % (fold + 1))
            if key not in got:
                ctx.fail('printed', 'no results are printed for %r' % (key,))
            want = {k: (w * 100 if per[k] and pct else w) for k, w in vals.items() if special.get(k, enable_all)}
            if set(want) != set(got[key]):
                ctx.fail('printed', '%r: measures %s instead of %s' % (key, sorted(got[key]), sorted(want)))
            for k, w in want.items():
                g = got[key][k][0]
                tol = (0.5000001 * 10.0**-dec if dec > 0 else 0) + 1e-5 * max(1, abs(w))
                if not abs(g - w) <= tol:
                    ctx.fail('printed', '%r: %s is %r instead of %r' % (key, k, g, w))
            ctx.obs('printed-values', len(want))


def post(ctx, d, cl, trx, y, out, suffix, ro, enc, seco, params):
    rules = M.extract(cl.model_, True)
    # data characteristics
    x = dense(trx)
    row = read_csv(os.path.join(out, 'data_characteristics_%s.csv' % suffix))[0]
    want = measures.label_stats(y)
    want['Examples'] = len(y)
    if not enc:
        want['Features'] = len(d.types)
        for n, t in (('Numerical', arffgen.NUM), ('Ordinal', ORD), ('Nominal', NOM)):
            want[n + ' Features'] = d.types.count(t)
    else:
        for k in [k for k in row if k.endswith('Features')]:
            row.pop(k)
    if row.keys() & {'Feature Density', 'Feature Sparsity'}:
        dens = np.count_nonzero(x) / x.size
        want['Feature Density'], want['Feature Sparsity'] = 100 * dens, 100 * (1 - dens)
    same_table(ctx, 'data-characteristics', 'data characteristics', row, want)
    # label vectors
    rows = read_csv(os.path.join(out, 'label_vectors_%s.csv' % suffix))
    got = {}
    for r in rows:
        k = tuple(int(t) for t in r['Label vector'].strip('[]').split())
        if k in got:
            ctx.fail('label-vectors', 'label vector %r is listed twice' % (k,))
        got[k] = int(r['Frequency'])
    want = {}
    for r in y.tolist():
        want[tuple(r)] = want.get(tuple(r), 0) + 1
    if got != want:
        ctx.fail('label-vectors', 'label vectors %r instead of %r' % (got, want))
    # rules
    if not enc:
        db, dh = ro.get('decimals_body', 2), ro.get('decimals_head', 2)
        text = open(os.path.join(out, 'rules_%s.txt' % suffix), encoding='utf-8').read()
        got, bad = parse_rules(text, d)
        if got is None:
            ctx.fail('rules', 'unexpected text %r' % bad)
        if len(got) != len(rules):
            ctx.fail('rules', '%d rules are written instead of %d' % (len(got), len(rules)))
        for g, r in zip(got, rules):
            w = rule_key(r, d, db, dh, d.onames)
            if not eq_items(g[0], w[0], 10.0**-db if db > 0 else 1e-6) or not eq_items(
                    g[1], w[1], 10.0**-dh if dh > 0 else 1e-6):
                ctx.fail('rules', 'rule %r is written as %r' % (w, g))
            ctx.obs('rules')
    path = os.path.join(out, 'model_characteristics_%s.csv' % suffix)
    rows = read_csv(path) if rules or os.path.isfile(path) else []
    if len(rows) != len(rules):
        ctx.fail('model-characteristics', '%d rules are listed instead of %d' % (len(rows), len(rules)))
    keys = {'num<=': 'numerical <= operator', 'num>': 'numerical > operator', 'ord<=': 'ordinal <= operator',
            'ord>': 'ordinal > operator', 'nom==': 'nominal == operator', 'nom!=': 'nominal != operator'}
    for k, (row, r) in enumerate(zip(rows, rules)):
        want = {v: 0 for v in keys.values()}
        for op, _, _ in r.conds:
            want[keys[op]] += 1
        for t in ('numerical', 'ordinal', 'nominal'):
            want[t + ' conditions'] = sum(v for n, v in want.items() if n.startswith(t) and n.endswith('operator'))
        want['conditions'] = len(r.conds)
        want['predictions'] = len(r.scores)
        want['pos. predictions'] = int(np.count_nonzero(np.asarray(r.scores) > 0))
        want['neg. predictions'] = want['predictions'] - want['pos. predictions']
        name = row.pop('Rule')
        if not name.startswith('Rule %d' % (k + 1)) or ('Default' in name) != r.empty:
            ctx.fail('model-characteristics', 'rule %d is named %r' % (k + 1, name))
        same_table(ctx, 'model-characteristics', 'rule %d' % (k + 1), row, want)
    # calibration model
    path = os.path.join(out, 'marginal_probability_calibration_model_%s.csv' % suffix)
    if not seco and params.get('marginal_probability_calibration') == 'isotonic':
        bins = calibration(cl.marginal_probability_calibration_model_)
        rows = read_csv(path) if os.path.isfile(path) else []
        if len(rows) != max([len(b) for b in bins.values()], default=0):
            ctx.fail('calibration', '%d rows of bins' % len(rows))
        for li, b in bins.items():
            t, pr = 'Label %d thresholds' % (li + 1), 'Label %d probabilities' % (li + 1)
            got = [(float(r[t]), float(r[pr])) for r in rows if r[t]]
            if len(got) != len(b) or any(not close(g, w, 1e-9) for u, v in zip(got, b) for g, w in zip(u, v)):
                ctx.fail('calibration', 'bins of label %d are %r instead of %r' % (li, got, b))
            ctx.obs('bins', len(b))


def calibration(m):
    from mlrl.common.cython.probability_calibration import IsotonicProbabilityCalibrationModelVisitor as V

    class W(V):

        def __init__(self):
            self.bins = {}

        def visit_bin(self, list_index, threshold, probability):
            self.bins.setdefault(list_index, []).append((threshold, probability))

    w = W()
    m.visit(w)
    return w.bins
