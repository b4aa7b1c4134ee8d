"""P15: separate-and-conquer covers the examples and optimizes its heuristic."""
import numpy as np

import gen
import known
from model import Trace, cond_mask, covers, extract
from p10 import opts
from rounds import parse
from search import grow

PROBES = 1
CASES = {'quick': 6000, 'thorough': 40000}
RULE = 'random SeCo learner with an event log; coverage of the labels, confusion matrices, heuristics and lift functions are recomputed ' \
       'for each rule; each condition is compared with all other conditions on the sampled features and each head with all other ' \
       'heads; non-trivial: a rule has been learned; distinct by model'
ASSUMPTIONS = ['conditions in the regions of the known findings K1, K4, K12, K15 and K21 are not required to be found',
               'values of heuristics that differ by a relative tolerance of 1e-6 are considered to be equal', 'beam search and pruning '
               'are not considered']
REQUIRE = {'choices': 4000, 'candidates': 80000, 'ends': 300, 'heads': 2000, 'multi_label_heads': 300, 'weighted': 500, 'majority_1': 300,
           'covered_before': 1000, 'default_rules': 500, 'lift': 300, 'relearned': 500,
           'stopping_tests': 2000, 'all_covered': 20}


class Lift:
    def __init__(self, cfg, m, card):
        kind, o = opts(cfg.get('lift_function', 'peak'))
        self.f = np.ones(m + 1)
        for i in range(1, m + 1):
            if kind == 'kln':
                self.f[i] = 1 + float(o.get('k', .2)) * np.log(i)
            elif kind == 'peak':
                p, mx, c = int(o.get('peak_label', 2)), float(o.get('max_lift', 1.08)), float(o.get('curvature', 1.0))
                p = min(m, p) if p else max(1, int(np.floor(card + .5)))
                if i == p:
                    self.f[i] = mx
                else:
                    x = (i - 1) / (p - 1) if i < p else (m - i) / (m - p)
                    self.f[i] = 1 + x ** (1 / c) * (mx - 1)


def div(a, b):
    with np.errstate(all='ignore'):
        r = a / b
    return np.where(np.isfinite(r), r, 0.0)


def heuristic(name, o, tp, fp, utp, ufp):
    """Covered labels for which the inverse of the majority is correct / incorrect and the same for uncovered labels."""
    cov, tot = tp + fp, tp + fp + utp + ufp
    if name == 'm-estimate':
        m = float(o.get('m', 22.466))
        if m == 0:
            name = 'precision'
        elif np.isinf(m):
            name = 'weighted-relative-accuracy'
        else:
            return np.where(tot > 0, (tp + m * div(tp + utp, tot)) / (cov + m), 0.0)
    if name == 'f-measure':
        b = float(o.get('beta', .25))
        if b == 0:
            name = 'precision'
        elif np.isinf(b):
            name = 'recall'
        else:
            p, r = div(tp, cov), div(tp, tp + utp)
            return div((1 + b * b) * p * r, b * b * p + r)
    if name == 'precision':
        return div(tp, cov)
    if name == 'recall':
        return div(tp, tp + utp)
    if name == 'laplace':
        return (tp + 1) / (cov + 2)
    if name == 'weighted-relative-accuracy':
        return np.where(cov > 0, div(cov, tot) * (div(tp, cov) - div(tp + utp, tot)), 0.0)
    if name == 'accuracy':
        return div(tp + ufp, tot)
    raise ValueError(name)


class Quality:
    """The (negated) quality of the best head for a set of covered examples."""

    def __init__(self, pos, neg, out, w, htype, name, o, lift):
        self.pos, self.neg, self.out, self.htype, self.name, self.o, self.lift = pos[:, out], neg[:, out], out, htype, name, o, lift
        self.tp, self.tn = w @ self.pos, w @ self.neg
        self.tags = [] if htype == 'single' else ['lift']

    def labels(self, a):
        tp, fp = a @ self.pos, a @ self.neg
        return heuristic(self.name, self.o, tp, fp, self.tp - tp, self.tn - fp)

    def best(self, a):
        q = self.labels(a)
        if self.htype == 'single':
            return q.max()
        k = np.arange(1, len(q) + 1)
        if self.htype == 'fixed':
            return q.mean() * self.lift[len(q)]
        return (np.cumsum(np.sort(q)[::-1]) / k * self.lift[k]).max()

    def __call__(self, a):
        b = -self.best(a)
        return b, b, 1.0


def probe(i, ctx):
    """K22: labels that do not differ from the majority count as covered, too."""
    X = np.array([[1]] * 5 + [[2]] * 8, dtype=np.float32)
    Y = np.array([[1]] * 4 + [[0], [1]] + [[0]] * 7, dtype=np.uint8)  # the first rule covers four of five labels and a wrong one
    c = gen.learner('seco', dict(head_type='single', heuristic='precision', rule_pruning='none', max_rules=0, feature_sampling='none'))
    tr = Trace()
    tr.start()
    try:
        c.fit(X, Y)
    finally:
        run = parse(tr.stop(), len(X))
    rules = [r for r in extract(c.model_, used=False) if r.conds]
    count = np.zeros(Y.shape, dtype=int)
    for r in rules:
        count[np.ix_(covers(r, X), r.indices())] += 1
    stopped(ctx, run.tests[len(rules)], count, Y == 1, dict(max_rules=0), -1)


def run_case(i, rng, ctx):
    if i < PROBES:
        return probe(i, ctx)
    kind, d, cfg = gen.random_learner(rng, kinds=('seco',), rules=(1, 12), p=dict(
        fbin=0, isamp=.4, seqopt=0, irep=0, beam=False, osamp=.25, heur=.85, lift=.7))
    cfg['rule_pruning'] = 'none'
    if rng.random() < .5:  # labels that apply to the majority of the examples
        j = int(rng.integers(d.m))
        d.Y = d.Y.copy()
        d.Y[:, j] |= (rng.random(d.n) < .6).astype(d.Y.dtype)
    ctx.describe(f'{kind} {cfg} {d.desc()}')
    c = gen.learner(kind, cfg, d)
    tr = Trace()
    tr.start()
    try:
        c.fit(d.X, d.Y)
    finally:
        run = parse(tr.stop(), d.n)
    n, m = d.n, d.m
    rules = extract(c.model_, used=False)
    Y = np.asarray(d.Y)
    major = 2 * Y.sum(axis=0) > n
    hard = Y != major  # labels for which rules should predict
    htype = opts(cfg.get('head_type', 'single'))[0]
    name, o = opts(cfg.get('heuristic', 'f-measure'))
    lift = Lift(cfg, m, Y.sum() / n).f
    dflt = [r for r in rules if not r.conds]
    if cfg.get('default_rule', 'true') != 'false':
        ctx.obs('default_rules')
        if len(dflt) != 1 or rules[-1].conds:
            ctx.fail('default-rule', f'the list should end with the only default rule, but the rules are {rules}')
        r = dflt[0]
        P = np.zeros(m, dtype=bool)
        P[r.indices()] = np.asarray(r.scores) > 0
        if len(r.indices()) != m or (P != major).any():
            ctx.fail('default-rule', f'{r} does not predict the majority {major.astype(int).tolist()} of each label')
    elif dflt:
        ctx.fail('default-rule', f'unexpected default rule in {rules}')
    body = [r for r in rules if r.conds]
    ind = opts(cfg.get('rule_induction', 'top-down-greedy'))[1]
    count = np.zeros((n, m), dtype=int)  # number of rules that cover a label
    k = 0
    for q in run.rounds:
        if q.post:
            break
        stopped(ctx, run.tests[k], count, hard, cfg, k)
        r = body[k] if q.ok else None
        rule(ctx, d, q, r, count, hard, major, cfg, ind, htype, name, o, lift, k)
        if not q.ok:
            break
        if known.any_of(d, r, q):
            ctx.obs('known-region')
            break
        count[np.ix_(covers(r, d.X), r.indices())] += 1
        k += 1
    else:
        if k != len(body):
            ctx.fail('number-of-rules', f'{k} rules have been learned, the model has {len(body)}')
        if len(run.tests) > k:
            stopped(ctx, run.tests[k], count, hard, cfg, k)
        if rng.random() < .25 and k:
            optimized(ctx, d, cfg, body, hard, major, cfg, ind, htype, name, o, lift)
    if k:
        ctx.distinct([r.key() for r in rules])


def rule(ctx, d, q, r, count, hard, major, cfg, ind, htype, name, o, lift, k):
    n, m = d.n, d.m
    w = q.w(n).astype(float)
    todo = count == 0
    pos, neg = (todo & hard).astype(float), (todo & ~hard).astype(float)
    out = np.asarray(sorted(q.outputs.tolist()))
    # if the outputs are given, the head predicts for all of them
    ht = htype if htype == 'single' or not q.post and cfg.get('output_sampling', 'none') == 'none' else 'fixed'

    def evaluator(out, ht):
        return Quality(pos, neg, out, w, 'fixed' if ht == 'complete' else ht, name, o, lift)

    grow(ctx, d, q, r, evaluator, ht, ind, cfg, k)
    if not q.ok or known.any_of(d, r, q):
        return
    ix = np.asarray(r.indices())
    what = f'rule {k}: {r}, majority {major.astype(int).tolist()}, outputs {out.tolist()}'
    if ((np.asarray(r.scores) > 0) == major[ix]).any():
        ctx.fail('majority-predicted', what)
    if not set(ix.tolist()) <= set(out.tolist()):
        ctx.fail('outputs', what)
    # the head is determined when the last condition that may refine it is added
    hr = int(ind.get('max_head_refinements', 1)) or len(r.conds)
    mask = np.ones(n, dtype=bool)
    for f, op, t in q.conds()[:hr]:
        mask &= cond_mask(d.X[:, f], op, t)
    a = mask * w
    best = Quality(pos, neg, out, w, ht, name, o, lift).best(a)
    have = Quality(pos, neg, ix, w, 'fixed', name, o, lift if htype != 'single' else np.ones(m + 1)).best(a)
    ctx.obs('heads')
    ctx.obs('relearned', q.post)
    ctx.obs('multi_label_heads', len(ix) > 1)
    ctx.obs('majority_1', bool(major[ix].any()))
    ctx.obs('covered_before', bool((count[mask][:, ix] > 0).any()))
    ctx.obs('weighted_heads', q.weights is not None)
    if htype == 'single' and len(ix) != 1:
        ctx.fail('single-label-head', what)
    if have < best - 1e-6 * abs(best) - 1e-9:
        ctx.fail('better-head', f'the quality of the head is {have}, but there is a head with quality {best}: {what}')


def optimized(ctx, d, cfg, body, *args):
    """Relearns each rule in the context of all others."""
    hard, major, _, ind, htype, name, o, lift = args
    cfg = dict(cfg, sequential_post_optimization='true{num_iterations=1,refine_heads=false}')
    c = gen.learner('seco', cfg, d)
    tr = Trace()
    tr.start()
    try:
        c.fit(d.X, d.Y)
    finally:
        run = parse(tr.stop(), d.n)
    now = [r for r in extract(c.model_, used=False) if r.conds]
    post = [q for q in run.rounds if q.post]
    if len(now) != len(body) or len(post) != len(body):
        ctx.fail('number-of-rules', f'{len(body)} rules before, {len(now)} rules after the post-optimization, {len(post)} relearned')
    for k, q in enumerate(post):
        if any(known.any_of(d, Conds(x), x) for x in run.rounds):
            ctx.obs('known-region')
            return
        count = np.zeros((d.n, d.m), dtype=int)
        for r in now[:k] + body[k + 1:]:
            count[np.ix_(covers(r, d.X), r.indices())] += 1
        rule(ctx, d, q, now[k] if q.ok else None, count, hard, major, cfg, ind, htype, name, o, lift, k)
        if not q.ok:  # K23: the labels that are covered by the rule that is kept are considered as not covered afterwards
            ctx.obs('known-region')
            return


class Conds:
    def __init__(self, q):
        self.conds = [(op, f, t) for f, op, t in q.conds()]


def stopped(ctx, test, count, hard, cfg, k):
    """Whether to stop is decided before each rule: as soon as all labels that differ from the majority are covered."""
    rules, stop = test[:2]
    left = int((hard & (count == 0)).sum())
    limit = int(cfg.get('max_rules', 500))
    what = f'{rules} rules have been learned (at most {limit} are allowed), {left} of {int(hard.sum())} labels that differ from ' \
           f'the majority are not covered, {int((count > 0).sum())} labels are covered'
    ctx.obs('stopping_tests')
    if limit and rules >= limit:
        return
    if left == 0:
        ctx.obs('all_covered')
        if not stop:
            ctx.fail('not-stopped', what)
    # K22: each label that becomes covered is counted, even if it does not differ from the majority
    elif stop and (hard.sum() > (count > 0).sum() or k < 0):
        ctx.fail('stopped-too-early', what)
