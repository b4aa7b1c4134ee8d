"""P10: learned models obey the configured structural constraints."""
import math
import re

import numpy as np

import gen
import known
from model import Trace, covers, extract
from rounds import parse

CASES = {'quick': 2600, 'thorough': 60000}
RULE = 'random learner x data set x configuration; every rule of the model is checked against the configuration, the data and the ' \
       'recorded samples of outputs, examples and features; non-trivial: a rule with at least two conditions; distinct by model'
ASSUMPTIONS = ['rules are read through the public visitor, samples are recorded by hooks',
               'with feature binning, the coverage of rules is not checked (known finding K4)',
               'partial heads use a complete head for sampled outputs']
REQUIRE = {'rules': 5000, 'conditions': 8000, 'coverage_bound': 500, 'coverage_tight': 100, 'head_single': 300, 'head_complete': 300,
           'head_partial-fixed': 300, 'head_partial-dynamic': 300, 'sampled_outputs': 300, 'max_conditions': 500,
           'thresholds_equal-width': 100, 'thresholds_equal-frequency': 120}


def opts(s):
    """'name{a=1,b=x}' -> ('name', {'a': '1', 'b': 'x'})"""
    m = re.match(r'([^{]*)(?:\{(.*)\})?$', s)
    return m.group(1), dict(p.split('=') for p in (m.group(2) or '').split(',') if p)


def bounded(n, fraction, lo, hi):
    """The admissible results of calculating a fraction of n (two, if it is within rounding errors of an integer)."""
    p = float(fraction) * n
    res = set()
    for v in (p, p - 2e-6 * max(1, p), p + 2e-6 * max(1, p)):
        r = math.ceil(v)
        r = max(r, min(lo, n))
        if hi >= lo and r > hi:
            r = hi
        res.add(r)
    return res


def min_coverage(o, n):
    lo = int(o.get('min_coverage', 1))
    if float(o.get('min_support', 0)) > 0:
        return min(bounded(n, np.float32(o['min_support']), lo, n))
    return min(n, lo)


def check_bins(ctx, x, ts, cfg, n, what):
    """The thresholds `ts` of conditions on a feature with the values `x` separate bins."""
    method, o = opts(cfg['feature_binning'])
    k = list(bounded(n, float(o.get('bin_ratio', .33)), int(o.get('min_bins', 2)), int(o.get('max_bins', 0))))
    x = np.sort(x[~np.isnan(x)].astype(np.float64))
    ts = sorted(set(float(t) for t in ts))
    if not len(x) or x[-1] - x[0] < 1e-4 * np.abs(x).max():
        return
    ctx.obs('thresholds_' + method, len(ts))
    if method == 'equal-width':
        lows = {(x[0], x[-1]), (min(0.0, x[0]), max(0.0, x[-1]))}
        for t in ts:
            ok = False
            for lo, hi in lows:
                for b in k:
                    w = (hi - lo) / b
                    j = (t - lo) / w
                    tol = 1e-6 * max(abs(lo), abs(hi)) / w + 1e-4
                    ok |= abs(j - round(j)) <= tol and 1 <= round(j) < b
            if not ok:
                ctx.fail('threshold-equal-width', f'{t} does not separate {k} bins of equal width, {x[0]} .. {x[-1]}: {what}')
        return
    z = np.sort(np.append(x, 0.0))
    size = min(math.ceil((x != 0).sum() / b) for b in k)
    prev = -np.inf
    for t in ts + [np.inf]:
        if np.isfinite(t):
            v = z[np.abs(z - t) > 0]
            mids = [(v[v < t].max() + v[v > t].min()) / 2] if (v < t).any() and (v > t).any() else []
            u = x[np.abs(x - t) > 0]
            if (u < t).any() and (u > t).any():
                mids.append((u[u < t].max() + u[u > t].min()) / 2)
            if not any(abs(t - y) <= 1e-5 * max(1e-3, abs(y), np.abs(x).max() * 1e-2) for y in mids):
                ctx.fail('threshold-equal-frequency', f'{t} is not midway between adjacent values, i.e., {mids}: {what}')
        c = int(((x > prev) & (x <= t)).sum())
        if np.isfinite(t) and c < size:
            ctx.fail('bin-size', f'{c} < {size} examples between {prev} and {t}: {what}')
        prev = t


def run_case(i, rng, ctx):
    kind, d, cfg = gen.random_learner(rng, rules=(1, 14), p=dict(osamp=.35, default=.5, irep=.2, head=.8, fbin=.35))
    ctx.describe(f'{kind} {cfg} {d.desc()}')
    c = gen.learner(kind, cfg, d)
    tr = Trace()
    tr.start()
    try:
        c.fit(d.X, d.Y)
    finally:
        run = parse(tr.stop(), d.n)
    n, m = d.n, d.m
    rules = extract(c.model_, used=False)
    used = extract(c.model_)
    name, ind = opts(cfg.get('rule_induction', 'top-down-greedy'))
    default = cfg.get('default_rule', 'auto') if kind != 'seco' else 'true'
    # the default rule
    htypes = opts(cfg.get('head_type', 'auto'))
    empty = [k for k, r in enumerate(rules) if not r.conds]
    where = len(rules) - 1 if kind == 'seco' else 0
    if len(empty) > 1 or (empty and empty[0] != where):
        ctx.fail('default-rule-position', f'rules without conditions: {empty} of {len(rules)}')
    if (default == 'true' and not empty) or (default == 'false' and empty):
        ctx.fail('default-rule-presence', f'default_rule={default}, rules without conditions: {empty}')
    for k in empty:
        if kind == 'clf' and htypes[0] != 'complete' and cfg.get('statistic_format', 'auto') != 'dense':
            continue  # statistics in a sparse representation do not allow for complete heads
        if rules[k].indices().tolist() != list(range(m)):
            ctx.fail('default-rule-head', repr(rules[k]))
    body = [r for r in rules if r.conds]
    if len(rules) > cfg['max_rules']:
        ctx.fail('too-many-rules', f'{len(rules)} rules (including a default rule) > {cfg["max_rules"]}')
    if len(used) > len(rules) or [r.key() for r in used] != [r.key() for r in rules[:len(used)]]:
        if kind != 'seco' or [r.key() for r in used[:-1]] != [r.key() for r in rules[:len(used) - 1]]:
            ctx.fail('used-rules', f'{len(used)} used rules are not the first of all {len(rules)} rules')
    # rounds in which the rules were induced
    done = [r for r in run.rounds if r.ok and not r.post]
    drop = 'global_pruning' in cfg and len(body) < len(done)  # unused rules are removed
    if len(done) != len(body) and not drop:
        ctx.fail('rules-lost', f'{len(done)} rules were induced, the model has {len(body)}')
    final = done[:len(body)]
    post = [r for r in run.rounds if r.post]
    if post:
        if len(post) % max(1, len(body)):
            ctx.fail('post-optimization', f'{len(post)} replacements for {len(body)} rules')
        for k, r in enumerate(post):
            if r.ok:
                final[k % len(body)] = r
    binned = cfg.get('feature_binning', 'none') != 'none'
    mc = min_coverage(ind, n)
    maxc = int(ind.get('max_conditions', 0))
    pruned = cfg.get('rule_pruning', 'irep' if kind == 'seco' else 'none') == 'irep'
    htype, ho = opts(cfg.get('head_type', 'auto'))
    vals = [set(np.unique(np.trunc(d.X[~np.isnan(d.X[:, j]), j])).astype(int).tolist()) if j in d.nominal or j in d.ordinal else None
            for j in range(d.f)]
    multi = False
    for r, q in zip(body, final):
        what = f'rule {r}, induced on outputs {q.outputs.tolist()}'
        ctx.obs('rules')
        if maxc:
            ctx.obs('max_conditions')
            if len(r.conds) > maxc:
                ctx.fail('too-many-conditions', f'{len(r.conds)} > {maxc}: {what}')
        feats = set()
        for f, _ in q.steps:
            feats |= set(f.tolist())
        if not feats <= set(range(d.f)):
            ctx.fail('feature-index', f'sampled features {feats}')
        for op, f, t in r.conds:
            ctx.obs('conditions')
            if f not in feats:
                ctx.fail('feature-not-sampled', f'feature {f} not in {sorted(feats)}: {what}')
            k = 'nom' if f in d.nominal else 'ord' if f in d.ordinal else 'num'
            if not op.startswith(k) and not (k == 'ord' and op.startswith('nom') and len(vals[f]) <= 2):  # binary features
                ctx.fail('comparator', f'{op} for {k} feature {f}: {what}')
            if k == 'num':
                x = d.X[:, f]
                if not np.isfinite(t) or not np.nanmin(x) <= np.float32(t) <= np.nanmax(x):
                    ctx.fail('threshold-range', f'feature {f}: {np.nanmin(x)} .. {np.nanmax(x)}: {what}')
            elif int(t) != t or int(t) not in vals[f]:
                ctx.fail('threshold-unknown', f'feature {f}: {sorted(vals[f])}: {what}')
        multi |= len(r.conds) > 1
        # coverage
        if not binned and not known.any_of(d, r, q):
            cov = int((covers(r, d.X[:]) & (q.w(n) > 0) & np.isin(np.arange(n), run.train)).sum())
            if mc > 1:
                ctx.obs('coverage_bound')
                ctx.obs('coverage_tight', cov == mc)
            if cov < mc:
                ctx.fail('coverage', f'{cov} < {mc} examples: {what}, weights {q.w(n).tolist()}, {q.steps}')
        # head
        ix = np.asarray(r.indices())
        if not np.isfinite(r.scores).all() or len(r.scores) != len(ix) or len(ix) < 1:
            ctx.fail('head', what)
        if (np.diff(ix) <= 0).any() or ix[0] < 0 or ix[-1] >= m:
            ctx.fail('head-indices', what)
        sampled = cfg.get('output_sampling', 'none') != 'none'
        if sampled:
            ctx.obs('sampled_outputs')
        if not set(ix.tolist()) <= set(q.outputs.tolist()):
            ctx.fail('output-not-sampled', what)
        # sequential post-optimization refines the rule for the outputs of the previous head
        s = len(ix)
        no = len(q.outputs)
        if htype not in ('partial', ) or kind != 'seco':
            ctx.obs('head_' + htype)
        if htype == 'single' and s != 1:
            ctx.fail('head-size', f'single: {what}')
        elif htype == 'complete' and (s != no or (not sampled and not q.post and s != m)):
            ctx.fail('head-size', f'complete: {what}')
        elif htype == 'auto' and kind != 'seco' and s not in (1, no):
            ctx.fail('head-size', f'auto: {what}')
        elif htype == 'partial-fixed':
            ratio = float(ho.get('output_ratio', 0)) or (float((d.Y != 0).sum()) / n / m if kind == 'clf' else .33)
            ok = {no} if no < m else bounded(m, ratio, int(ho.get('min_outputs', 2)), int(ho.get('max_outputs', 0)))
            if sampled:
                ok |= {no}
            if s not in ok:
                ctx.fail('head-size', f'partial-fixed: {s} outputs, expected {ok}: {what}')
    if binned:
        ts = {}
        for r in body:
            for op, f, t in r.conds:
                if op.startswith('num'):
                    ts.setdefault(f, []).append(t)
        for f in ts:
            check_bins(ctx, d.X[:, f], ts[f], cfg, n, f'feature {f}')
    if multi:
        ctx.distinct([r.key() for r in body])
