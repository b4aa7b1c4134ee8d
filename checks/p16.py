"""P16: isotonic calibration models are valid, monotone and fitted to the observed probabilities and labels."""
import numpy as np

import deriv as D
import gen
import known
from model import Trace, extract, sum_scores
from rounds import parse
from worker import Violation

PROBES = 1
CASES = {'quick': 2400, 'thorough': 50000}
RULE = 'random BOOMER classifier (logistic losses) with isotonic calibration of marginal and/or joint probabilities, ' \
       'with and without a holdout set; the (probability, label) pairs the models are fitted to are recomputed from the ' \
       'rules and the recorded partition; non-trivial: a bin pools several probabilities; distinct by bins'
ASSUMPTIONS = ['the rules, bins and known label vectors are read through the public visitors, the partition is recorded by a hook',
               'labels for which different probabilities are closer than 1e-11 are left out (rounding)',
               'the pool-adjacent-violators algorithm may weight pools by the number of examples or of distinct probabilities']
REQUIRE = {'lists': 3000, 'bins': 5000, 'pooled': 800, 'joint_lists': 800, 'holdout': 100}


def probe(i, ctx):
    """K11: the relevant labels of an example are taken for a known label vector that is a prefix of them."""
    X = np.zeros((8, 1), dtype=np.float32)
    Y = np.array([[1, 0, 0]] * 2 + [[1, 1, 0]] * 6, dtype=np.uint8)
    c = gen.learner('clf', dict(loss='logistic-decomposable', joint_probability_calibration='isotonic{use_holdout_set=false}',
                                probability_predictor='marginalized', default_rule='true', max_rules=1))
    c.fit(X, Y)
    vectors = D.label_vectors(c.output_space_info_)
    for (v, _), b in zip(vectors, D.bins_of(c.joint_probability_calibration_model_, len(vectors))):
        f = (Y == D.as_matrix([(v, 1)], 3)[0]).all(axis=1).mean()
        if [q for _, q in b] != [f]:
            ctx.fail('prefix-of-label-vector', f'label vector {v} has a relative frequency of {f}, but it is calibrated to {b}')


def group(p, y):
    """Distinct probabilities with frequencies and counts; None if some are too close to tell apart."""
    o = np.argsort(p, kind='stable')
    p, y = p[o], y[o]
    t, f, n = [], [], []
    k = 0
    while k < len(p):
        e = k + 1
        while e < len(p) and p[e] - p[e - 1] <= 1e-14 * max(p[e], 1e-300):
            e += 1
        t.append(p[k])
        f.append(y[k:e].mean())
        n.append(e - k)
        k = e
    t, f, n = np.array(t), np.array(f), np.array(n)
    if len(t) > 1 and (np.diff(t) <= 1e-11 * t[1:]).any():
        return None
    return t, f, n


def check_list(ctx, name, bins, p, y):
    """One list of bins against the (probability, label) pairs it is fitted to."""
    ctx.obs('lists')
    if not len(p):
        if bins:
            ctx.fail('bins-without-data', f'{name}: {bins}')
        return False
    bt, bp = np.array([b[0] for b in bins]), np.array([b[1] for b in bins])
    ctx.obs('bins', len(bins))
    what = f'{name}: bins {bins}, data {sorted(zip(p.tolist(), y.tolist()))}'
    if not len(bins):
        ctx.fail('no-bins', what)
    if not (np.diff(bt) > 0).all():
        ctx.fail('thresholds-not-increasing', what)
    if not ((bp >= -1e-12) & (bp <= 1 + 1e-12)).all() or not ((bt >= 0) & (bt <= 1)).all():
        ctx.fail('not-a-probability', what)
    if not (np.diff(bp) >= -1e-12).all():
        ctx.fail('probabilities-decrease', what)
    g = group(p, y)
    if g is None:
        ctx.obs('too_close')
        return False
    t, f, n = g
    # each threshold is an observed probability
    pos = [int(np.argmin(np.abs(t - b))) for b in bt]
    if pos[0] != 0 or any(abs(t[k] - b) > 1e-12 * max(1e-300, b) + 1e-300 for k, b in zip(pos, bt)) or len(set(pos)) != len(pos):
        ctx.fail('threshold-not-observed', what)
    pooled = False
    for i, k in enumerate(pos):
        e = pos[i + 1] if i + 1 < len(pos) else len(t)
        F, N = f[k:e], n[k:e]
        q = bp[i]
        if e - k == 1:
            if abs(q - F[0]) > 1e-9:
                ctx.fail('not-the-frequency', f'bin {i}: {what}')
            continue
        pooled = True
        ctx.obs('pooled')
        if not F.min() - 1e-9 <= q <= F.max() + 1e-9:
            ctx.fail('not-an-average', f'bin {i} pools the frequencies {F.tolist()}: {what}')
        if (np.diff(F) > 1e-12).all():
            ctx.fail('pooled-without-violation', f'bin {i} pools the frequencies {F.tolist()}: {what}')
        if (np.diff(F) < -1e-9).all():  # equal frequencies may be told apart by rounding
            if min(abs(q - F.mean()), abs(q - (F * N).sum() / N.sum())) > 1e-9:
                ctx.fail('not-the-average', f'bin {i} pools the frequencies {F.tolist()} ({N.tolist()}): {what}')
    for i in range(len(pos) - 1):
        if not bp[i + 1] > bp[i] - 1e-12:
            ctx.fail('probabilities-decrease', what)
    return pooled


def run_case(i, rng, ctx):
    kind, d, cfg = gen.random_learner(rng, kinds=('clf',), rules=(1, 12), data_kw=dict(n=(6, 60), m=(1, 5)),
                                      p=dict(loss=0, prune=0, fbin=0, irep=0, seqopt=0, holdout=.6, isamp=.2, fsamp=.2, lbin=.1, shrink=.7, default=.5))
    cfg['loss'] = str(rng.choice(['logistic-decomposable', 'logistic-non-decomposable']))
    if cfg.get('l2_regularization_weight') == 0.0:
        cfg['l2_regularization_weight'] = 1.0
    which = int(rng.integers(1, 4))
    use = {}
    for bit, k in ((1, 'marginal'), (2, 'joint')):
        if which & bit:
            u = rng.random() < .6
            use[k] = u
            cfg[k + '_probability_calibration'] = 'isotonic' if u and rng.random() < .7 else gen.opt(
                'isotonic', use_holdout_set=str(u).lower())
    if 'joint' in use:  # known label vectors are only stored if they are needed
        cfg['probability_predictor'] = 'marginalized'
    ctx.describe(f'{cfg} {d.desc()}')
    c = gen.learner(kind, cfg, d)
    tr = Trace()
    tr.start()
    try:
        c.fit(d.X, d.Y)
    finally:
        ev = tr.stop()
    part = [e for e in ev if e[0] == 'P'][0]
    n, m = d.Y.shape
    train = hold = np.arange(n)
    if part[1] == 'bi':
        a = part[2].astype(int)
        n1, n2 = a[1], a[2]
        train, hold = a[3:3 + n1], a[3 + n1:3 + n1 + n2]
        ctx.obs('holdout')
    rules = extract(c.model_, used=False)
    rounds = [r for r in parse(ev, n).rounds if r.ok]
    if any(known.any_of(d, r, q) for r, q in zip([r for r in rules if r.conds], rounds)):
        ctx.obs('known')
        return
    S = sum_scores(rules, d.X, m)
    if np.abs(S).max(initial=0) > 30:
        return  # the probabilities are too close to 0 or 1
    mb = D.bins_of(c.marginal_probability_calibration_model_, m)
    if ('marginal' in use) != (mb is not None):
        ctx.fail('calibration-model-missing', f'marginal: {mb}')
    pooled = False
    if mb is not None:
        ix = hold if use['marginal'] else train
        P = D.logistic(S[ix])
        for j in range(m):
            pooled |= check_list(ctx, f'label {j}', mb[j], P[:, j], d.Y[ix, j].astype(float))
    if 'joint' in use:
        vectors = D.label_vectors(c.output_space_info_)
        jb = D.bins_of(c.joint_probability_calibration_model_, len(vectors))
        if jb is None:
            ctx.fail('calibration-model-missing', 'joint')
        ix = hold if use['joint'] else train
        J = D.joint(D.marginals(S[ix], mb), vectors, None)
        V = D.as_matrix(vectors, m)
        for k in range(len(vectors)):
            if np.isnan(J[:, k]).any() or (mb is not None and unstable(J[:, k])):
                ctx.obs('unstable')
                continue
            ctx.obs('joint_lists')
            y = (d.Y[ix] == V[k]).all(axis=1).astype(float)
            name = f'label vector {vectors[k][0]}'
            first = [tuple(np.nonzero(r)[0][:len(vectors[k][0])]) == tuple(vectors[k][0]) for r in d.Y[ix]]
            if (y == first).all():
                pooled |= check_list(ctx, name, jb[k], J[:, k], y)
                continue
            try:  # known finding K11: labels of which the vector is only a prefix are taken for the same
                pooled |= check_list(ctx, name, jb[k], J[:, k], np.array(first, dtype=float))
                ctx.obs('k11')
            except Violation:
                pooled |= check_list(ctx, name, jb[k], J[:, k], y)
    if pooled:
        ctx.distinct((mb, which))


def unstable(p):
    """Products of calibrated probabilities that are 0 except for rounding."""
    return ((p > 0) & (p < 1e-12)).any()
