"""P13: sampling and holdout sets respect their guarantees."""
import math

import numpy as np

import gen
from model import Trace
from p10 import bounded, opts
from rounds import parse

PROBES = 1
CASES = {'quick': 10000, 'thorough': 60000}
RULE = 'random learner with instance, feature and output sampling and a holdout set; every partition and every sample that is ' \
       'recorded during training is checked (size, multiplicities, eligibility, proportions of strata); some runs with hundreds ' \
       'of samples are tested for uniformity (z-scores); non-trivial: a sample that is not complete; distinct by samples'
ASSUMPTIONS = ['samples and partitions are recorded by hooks where they are drawn', 'sizes that depend on rounding of a float32 '
               'product may differ by one', 'inclusion frequencies within 6 standard deviations count as uniform']
REQUIRE = {'samples': 8000, 'partitions': 400, 'strata': 4000, 'feature_samples': 10000, 'output_samples': 1500, 'uniformity': 300,
           'round_robin': 400, 'holdout_strata': 1500}


def probe(i, ctx):
    """K16: stratified samples of a stratum do not obey the bounds on the number of examples."""
    X = np.arange(20, dtype=np.float32)[:, None]
    Y = np.ones((20, 1), dtype=np.uint8)
    Y[0] = 0
    c = gen.learner('clf', dict(instance_sampling='stratified-example-wise{sample_size=0.1,min_samples=15}', max_rules=2))
    tr = Trace()
    tr.start()
    try:
        c.fit(X, Y)
    finally:
        run = parse(tr.stop(), 20)
    n = int(run.rounds[0].w(20).sum())
    if n < 15:
        ctx.fail('stratified-sample-too-small', f'{n} examples are sampled instead of at least 15')


def strata_examples(Y, ix):
    s = {}
    for i in ix:
        s.setdefault(Y[i].tobytes(), []).append(i)
    return list(s.values())


def strata_outputs(Y, ix):
    """Iterative stratification: examples belong to the rarest remaining label."""
    left = set(int(i) for i in ix)
    res = []
    cnt = {j: int(Y[list(left), j].sum()) for j in range(Y.shape[1])}
    todo = {j for j in cnt if cnt[j] > 0}
    while todo:
        j = min(todo, key=lambda k: (cnt[k], k))
        todo.discard(j)
        s = [i for i in left if Y[i, j]]
        left -= set(s)
        for k in list(todo):
            cnt[k] -= int(Y[s, k].sum())
            if cnt[k] == 0:
                todo.discard(k)
        res.append(s)
    if left:
        res.append(sorted(left))
    return res


def sizes(x):
    """The integers next to a real number that is known up to rounding."""
    e = 2e-6 * max(1.0, abs(x))
    return {math.floor(x - e), math.floor(x + e), math.ceil(x - e), math.ceil(x + e)}


def fractional(x):
    e = 2e-6 * max(1.0, abs(x))
    return {math.floor(x - e), math.floor(x + e)}


def check_partition(ctx, d, run, cfg):
    n = d.n
    name, o = opts(cfg['holdout'])
    if name == 'none':
        if run.bi:
            ctx.fail('unexpected-holdout', cfg['holdout'])
        return
    size = float(np.float32(o.get('holdout_set_size', .33)))
    if not run.bi:
        if any(k > 0 for k in fractional(size * n)) and needs_holdout(cfg):
            ctx.fail('no-holdout', f'{cfg["holdout"]} of {n} examples')
        return
    ctx.obs('partitions')
    if sorted(run.train.tolist() + run.hold.tolist()) != list(range(n)):
        ctx.fail('not-a-partition', f'training {sorted(run.train.tolist())}, holdout {sorted(run.hold.tolist())}, {n} examples')
    if len(run.hold) not in fractional(size * n):
        ctx.fail('holdout-size', f'{len(run.hold)} of {n} examples, {cfg["holdout"]}')
    if name.startswith('stratified'):
        S = (strata_outputs if 'output' in name else strata_examples)(d.Y, range(n))
        h = set(run.hold.tolist())
        ctx.obs('holdout_strata', len(S))
        counts = [(len(t), sum(i not in h for i in t)) for t in S]
        if 'example' in name:
            counts.sort()
        if not feasible(counts, len(run.train), len(run.hold), 'example' in name):
            ctx.fail('holdout-not-stratified', f'(examples, training examples) per stratum: {counts}, {cfg["holdout"]}')


def feasible(counts, first, second, any_order):
    """Whether the numbers of training examples of all strata are the remaining proportion, rounded up or down."""
    groups = []  # strata of equal size may be dealt with in any order
    for c, k in counts:
        if any_order and groups and groups[-1][0] == c:
            groups[-1][1].append(k)
        else:
            groups.append((c, [k]))
    seen = set()

    def go(g, left, first, second):
        if not left:
            g += 1
            if g == len(groups):
                return True
            left = tuple(sorted(groups[g][1]))
        if (g, left) in seen:
            return False
        seen.add((g, left))
        c = groups[g][0]
        x = first / (first + second) * c
        ok = {min(k, first) if k > first or c - k <= second else c - second for k in sizes(x)}
        for k in set(left):
            if k in ok:
                rest = list(left)
                rest.remove(k)
                if go(g, tuple(rest), first - k, second - c + k):
                    return True
        return False

    return go(-1, (), first, second)


def needs_holdout(cfg):
    return True


def check_weights(ctx, d, run, q, cfg, S):
    n = d.n
    name, o = opts(cfg['instance_sampling'])
    w = q.w(n)
    what = f'weights {w.tolist()}, training {sorted(run.train.tolist()) if run.bi else "all"}, {cfg["instance_sampling"]}'
    ctx.obs('samples')
    if (w < 0).any():
        ctx.fail('negative-weight', what)
    if run.bi and w[run.hold].any():
        ctx.fail('holdout-sampled', what)
    if q.zeros != bool((w == 0).any()):
        ctx.fail('zero-weights-flag', f'{q.zeros}: {what}')
    T = len(run.train)
    if name == 'none':
        if (w[run.train] != 1).any():
            ctx.fail('not-sampled', what)
        return False
    default = {'with-replacement': 0.66}.get(name, 0.66)
    size, lo, hi = np.float32(o.get('sample_size', default)), int(o.get('min_samples', 1)), int(o.get('max_samples', 0))
    ok = bounded(T, size, lo, hi)
    if name != 'with-replacement' and w.max(initial=0) > 1:
        ctx.fail('multiplicity', what)
    if not name.startswith('stratified'):
        if int(w.sum()) not in ok:
            ctx.fail('sample-size', f'{int(w.sum())} not in {ok}: {what}')
        return True
    # strata: the number of examples is rounded down or up
    for s in S:
        ctx.obs('strata')
        k = int(w[s].sum())
        if k not in sizes(float(size) * len(s)):
            if min(ok) != max(1, math.ceil(float(size) * T - 1e-5)):  # bounds may override the proportions
                ctx.obs('bounded')
                continue
            ctx.fail('not-stratified', f'{k} of {len(s)} examples of a stratum: {what}')
    return True


def check_features(ctx, d, feats, cfg):
    name, o = opts(cfg['feature_sampling'])
    f = feats.tolist()
    ctx.obs('feature_samples')
    if len(set(f)) != len(f) or not set(f) <= set(range(d.f)):
        ctx.fail('feature-sample', f'{f} of {d.f} features')
    if name == 'none':
        if sorted(f) != list(range(d.f)):
            ctx.fail('feature-sample', f'{f} without sampling')
        return
    keep = min(d.f, int(o.get('num_retained', 0)))
    rest = d.f - keep
    if not set(range(rest, d.f)) <= set(f):
        ctx.fail('retained-features', f'{f}, {cfg["feature_sampling"]}, {d.f} features')
    size, lo, hi = float(o.get('sample_size', 0)), int(o.get('min_samples', 1)), int(o.get('max_samples', 0))
    if size > 0:
        ok = bounded(rest, np.float32(size), lo, hi)
    else:
        k = int(math.log2(rest - 1) + 1) if rest > 1 else rest
        k = max(k, min(lo, rest))
        ok = {min(k, hi) if hi >= lo else k}
    if len(f) - keep not in ok:
        ctx.fail('feature-sample-size', f'{f}: {len(f) - keep} not in {ok}, {cfg["feature_sampling"]}, {d.f} features')


def uniform(ctx, what, counts, p, rounds, exact):
    """`counts` of inclusions in `rounds` samples with probability p each."""
    var = rounds * p * (1 - p) if exact else rounds * p
    if var < 5:
        return
    ctx.obs('uniformity', len(counts))
    z = (np.asarray(counts) - rounds * p) / math.sqrt(var)
    if np.abs(z).max() > 6:
        ctx.fail('not-uniform', f'{what}: {list(map(int, counts))} inclusions, {rounds * p:.1f} are expected (z={np.abs(z).max():.1f})')


def run_case(i, rng, ctx):
    long = i % 20 == 0
    kind, d, cfg = gen.random_learner(rng, rules=(120, 120) if long else (1, 8), data_kw=dict(
        n=(10, 16), f=(4, 7), m=(2, 5), label_noise=3., nan=0, disc=0) if long else dict(n=(5, 60), f=(1, 9)), p=dict(
        fbin=.05, prune=0, irep=.1, seqopt=0, lbin=0, loss=0 if long else .4, osamp=0, head=0 if long else .4,
        induction=0 if long else .4, default=.3))
    cfg['instance_sampling'] = gen.instance_sampling(rng, d.task)
    cfg['feature_sampling'] = gen.feature_sampling(rng)
    if kind != 'seco':
        cfg['output_sampling'] = gen.output_sampling(rng)
    cfg['holdout'] = gen.holdout(rng, d.task) if rng.random() < .6 else 'none'
    if long:
        cfg['shrinkage' if kind != 'seco' else 'rule_pruning'] = .1 if kind != 'seco' else 'none'
        cfg['rule_induction'] = 'top-down-greedy{max_conditions=1}'
    hname, ho = opts(cfg['holdout'])
    if hname != 'none' and int(float(ho.get('holdout_set_size', .33)) * d.n) < 1:
        cfg['holdout'] = 'none'
    ctx.describe(f'{kind} {cfg} {d.desc()}')
    c = gen.learner(kind, cfg, d)
    tr = Trace()
    tr.start()
    try:
        c.fit(d.X, d.Y)
    finally:
        run = parse(tr.stop(), d.n)
    n, m = d.n, d.m
    check_partition(ctx, d, run, cfg)
    iname, io = opts(cfg['instance_sampling'])
    S = None
    if iname.startswith('stratified'):
        S = (strata_outputs if 'output' in iname else strata_examples)(d.Y, run.train)
    oname, oo = opts(cfg.get('output_sampling', 'none'))
    partial = False
    W, F, nf = np.zeros(n), np.zeros(d.f), 0
    O = np.zeros(m)
    rr = []
    for q in run.rounds:
        partial |= check_weights(ctx, d, run, q, cfg, S)
        W += q.w(n)
        out = q.outputs.tolist()
        O[out] += 1
        ctx.obs('output_samples')
        if len(set(out)) != len(out) or not set(out) <= set(range(m)):
            ctx.fail('output-sample', f'{out} of {m} outputs')
        if oname == 'none' and sorted(out) != list(range(m)):
            ctx.fail('output-sample', f'{out} of {m} outputs without sampling')
        elif oname == 'without-replacement':
            lo, hi = int(oo.get('min_samples', 1)), int(oo.get('max_samples', 1))
            ok = {min(m, k) for k in bounded(m, np.float32(oo.get('sample_size', .33)), lo, hi)}
            if len(out) not in ok:
                ctx.fail('output-sample-size', f'{out}: {len(out)} not in {ok}, {cfg["output_sampling"]}, {m} outputs')
        elif oname == 'round-robin':
            ctx.obs('round_robin')
            rr += out
        for f, _ in q.steps:
            check_features(ctx, d, f, cfg)
            F[f] += 1
            nf += 1
    if oname == 'round-robin' and rr != [k % m for k in range(len(rr))]:
        ctx.fail('round-robin', f'{rr} of {m} outputs')
    if long and len(run.rounds) > 40 and len(run.train):
        R = len(run.rounds)
        T = len(run.train)
        if iname in ('with-replacement', 'without-replacement'):
            uniform(ctx, cfg['instance_sampling'], W[run.train], W.sum() / R / T, R, iname == 'without-replacement')
        elif S is not None:
            for s in S:
                if len(s) > 1:
                    uniform(ctx, cfg['instance_sampling'], W[s], min(1.0, W[s].sum() / R / len(s)), R, True)
        if oname == 'without-replacement':
            uniform(ctx, cfg['output_sampling'], O, min(1.0, O.sum() / R / m), R, True)
        fname, fo = opts(cfg['feature_sampling'])
        rest = d.f - min(d.f, int(fo.get('num_retained', 0)))
        if fname != 'none' and rest > 1 and 'beam' not in cfg.get('rule_induction', ''):
            uniform(ctx, cfg['feature_sampling'], F[:rest], min(1.0, F[:rest].sum() / nf / rest), nf, True)
    if partial:
        ctx.distinct([q.w(n).tolist() for q in run.rounds])
