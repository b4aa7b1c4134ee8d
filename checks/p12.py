"""P12: the greedy search picks the best condition among all that can be expressed."""
import numpy as np

import gen
import known
import newton as N
from model import Trace, covers, extract
from p10 import opts
from p11 import sensitive
from rounds import parse
from search import grow

PROBES = 2
CASES = {'quick': 8000, 'thorough': 40000}
RULE = 'random boosting learner with an event log; each condition that is added to a rule is compared with all other conditions on the ' \
       'sampled features, using a reference implementation of the quality of a rule; when the search ends, no condition may be an ' \
       'improvement; non-trivial: at least two candidate conditions; distinct by (model, step)'
ASSUMPTIONS = ['conditions in the regions of the known findings K1, K4, K10, K12, K15 and K21 are not required to be found',
               'qualities that differ by a relative tolerance of 1e-6 are considered to be equal', 'beam search is not considered']
REQUIRE = {'choices': 5000, 'candidates': 100000, 'ends': 300, 'numerical': 1500, 'ordinal': 300, 'nominal': 300,
           'missing': 300, 'weighted': 800, 'subset_of_features': 1000, 'thresholds': 1000, 'non_decomposable': 500, 'partial': 500, 'single': 500}


def probe(i, ctx):
    """K10, K21: a feature is not considered any longer after a condition on it."""
    for seed in range(1, 201):
        rng = np.random.default_rng(seed)
        X = -rng.uniform(1, 5, size=(25, 2)).astype(np.float32) if i == 0 else rng.integers(0, 7, (25, 2)).astype(np.float32)
        d = gen.Data()
        d.X, d.Y = X, (rng.random((25, 2)) < .5).astype(np.uint8)
        d.n, d.m, d.nominal, d.ordinal = 25, 2, [] if i == 0 else [0, 1], []
        cfg = dict(max_rules=2, loss='logistic-decomposable', head_type='complete', feature_sampling='none', label_binning='none',
                   default_rule='true')
        c = gen.learner('clf', cfg, d)
        tr = Trace()
        tr.start()
        try:
            c.fit(d.X, d.Y)
        finally:
            run = parse(tr.stop(), d.n)
        rules = extract(c.model_, used=False)
        S = np.zeros((25, 2)) + rules[0].scores
        boosted(ctx, d, run.rounds[0], rules[1], N.Loss(cfg['loss'], d.Y), S, 0.0, 1.0, 'complete', {}, {}, cfg, 0, strict=True)


class Quality:
    """The quality (the smaller, the better) of the best head for a set of examples, as an interval."""

    def __init__(self, L, S, out, l1, l2, htype, ho, n, m):
        self.L, self.g, self.h, self.H = (L,) + L.derivatives(S)
        self.out, self.l1, self.l2, self.htype, self.ho, self.n, self.m = out, l1, l2, htype, ho, n, m

    def __call__(self, a):
        """`a`: weights of the examples"""
        out, l1, l2 = self.out, self.l1, self.l2
        g, h = (a @ self.g)[out], (a @ self.h)[out]
        s = N.scores(g, h, l1, l2)
        q = g * s + .5 * h * s * s + l1 * np.abs(s) + .5 * l2 * s * s
        mag = np.abs(a @ np.abs(self.g)[:, out]) * np.abs(s) + h * s * s
        t = self.htype
        if t == 'single':
            z = np.abs(s)
            c = z >= z.max() - 1e-7 * z.max() - 1e-12
            return q[c].min(), q[c].max(), mag.max()
        if t == 'complete' and self.H is not None:
            H = np.einsum('i,ijk->jk', a, self.H)[np.ix_(out, out)]
            b = N.rhs(g, l1)
            try:
                s = np.linalg.solve(H + l2 * np.eye(len(out)), b)
            except np.linalg.LinAlgError:
                return -np.inf, np.inf, 0
            q = N.quality_full(s, g, H, l1, l2)
            mag = np.abs(g) @ np.abs(s) + np.abs(s) @ np.abs(H) @ np.abs(s)
            if np.linalg.cond(H + l2 * np.eye(len(out))) > 1e6:
                return -np.inf, np.inf, 0
            return q, q, mag
        if t == 'complete':
            return q.sum(), q.sum(), mag.sum()
        z = np.abs(s)
        if t == 'partial-fixed':
            k = self.k
            o = np.argsort(-z, kind='stable')
            if k < len(o) and z[o[k - 1]] - z[o[k]] < 1e-7 * z.max() + 1e-12:
                return -np.inf, np.inf, 0  # several heads are possible
            return q[o[:k]].sum(), q[o[:k]].sum(), mag.sum()
        e, b = float(self.ho.get('exponent', 2.0)), 1.0 - float(np.float32(float(self.ho.get('threshold', .02))))
        v, lim = (z - z.min()) ** e, (z.max() - z.min()) ** e * b
        if (np.abs(v - lim) < 1e-6 * z.max() ** e).any():
            return -np.inf, np.inf, 0
        c = v >= lim
        return q[c].sum(), q[c].sum(), mag.sum()


def run_case(i, rng, ctx):
    if i < PROBES:
        return probe(i, ctx)
    kind, d, cfg = gen.random_learner(rng, kinds=('clf', 'clf', 'reg'), rules=(1, 10), p=dict(
        fbin=0, default=.6, isamp=.35, lbin=0, seqopt=0, reg=.5, shrink=.7, irep=0, beam=False, prune=0, osamp=.2))
    if kind == 'clf':
        cfg['label_binning'] = 'none'
    cfg.setdefault('loss', 'logistic-decomposable' if kind == 'clf' else 'squared-error-decomposable')
    dec = not cfg['loss'].endswith('non-decomposable')
    if 'head_type' not in cfg or cfg['head_type'] == 'auto':
        cfg['head_type'] = str(rng.choice(['single', 'complete']))
    htype, ho = opts(cfg['head_type'])
    if not dec and htype != 'single':
        cfg['head_type'] = htype = 'complete'
    if kind == 'reg':  # known findings K8, K9
        cfg['head_type'] = htype = 'complete'
        cfg.pop('output_sampling', None)
    ctx.describe(f'{kind} {cfg} {d.desc()}')
    c = gen.learner(kind, cfg, d)
    tr = Trace()
    tr.start()
    try:
        c.fit(d.X, d.Y)
    finally:
        run = parse(tr.stop(), d.n)
    n, m = d.n, d.m
    rules = extract(c.model_, used=False)
    L = N.Loss(cfg['loss'], d.Y, kind == 'reg')
    S = np.zeros((n, m))
    default = bool(rules) and not rules[0].conds
    if default:
        S[:, rules[0].indices()] += rules[0].scores
    body = rules[default:]
    ind = opts(cfg.get('rule_induction', 'top-down-greedy'))[1]
    l1, l2 = cfg.get('l1_regularization_weight', 0.0), cfg.get('l2_regularization_weight', 1.0)
    k = 0
    for q in run.rounds:
        if np.abs(S).max(initial=0) > 1e5:
            break
        r = body[k] if q.ok else None
        boosted(ctx, d, q, r, L, S, l1, l2, htype, ho, ind, cfg, k)
        if not q.ok:
            break
        if known.any_of(d, r, q):
            ctx.obs('known-region')
            break
        S[np.ix_(covers(r, d.X), r.indices())] += r.scores
        k += 1


def boosted(ctx, d, q, r, L, S, l1, l2, htype, ho, ind, cfg, k, strict=False):
    n, m = d.n, d.m
    out = np.arange(m) if q.outputs is None else np.asarray(sorted(q.outputs.tolist()))
    if sensitive(L, S, q.w(n) > 0, out):
        ctx.obs('sensitive')
        return

    def evaluator(out, htype):
        e = Quality(L, S, out, l1, l2, htype, ho, n, m)
        if htype == 'partial-fixed':
            if r is None:
                return None
            e.k = len(r.indices())
        e.tags = [t for t, c in (('non_decomposable', not L.dec), ('partial', htype.startswith('partial')), ('single', htype == 'single')) if c]
        return e

    grow(ctx, d, q, r, evaluator, htype, ind, cfg, k, strict)
