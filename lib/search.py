"""Candidate conditions that an exhaustive top-down search has to consider."""
import numpy as np

import known
from model import cond_mask


def coverages(d, cov, w, f, zeros):
    for name, mask in _coverages(d, cov, w, f, zeros):
        k = int(mask.sum())
        if 0 < k < int((cov & (w > 0) & ~np.isnan(d.X[:, f])).sum()):  # constant features are not considered
            yield name, mask


def _coverages(d, cov, w, f, zeros):
    """(description, mask of the examples with nonzero weights that satisfy the condition) of all conditions on feature `f`, except
    for those in the regions of known findings (K1, K12, K15) and those that depend on rounding."""
    x = d.X[:, f].astype(np.float64)
    ok = cov & ~np.isnan(x)
    a = ok & (w > 0)
    if not a.any():
        return
    allv = np.unique(d.X[~np.isnan(d.X[:, f]), f])
    if f in d.nominal or (f in d.ordinal and len(allv) <= 2):
        v = np.trunc(x)
        for y in np.unique(v[a]):
            yield (f, 'nom==', y), a & (v == y)
            yield (f, 'nom!=', y), a & (v != y)
    elif f in d.ordinal:
        if zeros:  # K12
            return
        v = np.trunc(x)
        for y in np.unique(v[a])[:-1]:
            yield (f, 'ord<=', y), a & (v <= y)
            yield (f, 'ord>', y), a & (v > y)
    else:
        vals = np.unique(x[a])
        pos = x[ok & (x > 0)]
        low = pos.min() if len(pos) else np.inf  # zeros may be stored implicitly
        z = x[ok & (w <= 0)]
        for y, y2 in zip(vals[:-1], vals[1:]):
            if y2 - y < 3e-7 * max(1, abs(y), abs(y2)):
                continue
            if 0 <= y <= low:  # K1
                continue
            if len(z) and ((z >= y) & (z <= y2)).any():  # K15
                continue
            yield (f, 'num<=', y), a & (x <= y)
            yield (f, 'num>', y), a & (x > y)


def grow(ctx, d, q, r, evaluator, htype, ind, cfg, k, strict=False):
    """Compares each condition that has been added to a rule with all others that could have been added. `evaluator(outputs, htype)` returns
    a function that returns an interval of qualities (the smaller, the better) and their magnitude for given weights of examples."""
    n, m = d.n, d.m
    w = q.w(n).astype(float)
    out = np.arange(m) if q.outputs is None else np.asarray(sorted(q.outputs.tolist()))
    if htype != 'single' and htype != 'complete' and cfg.get('output_sampling', 'none') != 'none':
        htype = 'complete'
    cov = np.ones(n, dtype=bool)
    minc = max(int(ind.get('min_coverage', 1)), int(np.ceil(float(ind.get('min_support', 0)) * n)) + 1 if 'min_support' in ind else 1)
    hr = int(ind.get('max_head_refinements', 1))
    maxc = int(ind.get('max_conditions', 0))
    best = (0.0, 0.0, 0)
    ev = evaluator(out, htype)
    for step, (F, c) in enumerate(q.steps):
        if ev is None:
            return
        cands = []
        for f in F.tolist():
            if not strict and dropped(d, f, q.conds()[:step]):
                continue  # K10, K21
            for name, a in coverages(d, cov, w, f, q.zeros):
                if a.sum() < minc:
                    continue
                cands.append((ev(a * w), name, a))
        ctx.obs('candidates', len(cands))
        if c is not None:
            f, op, t, numcov = c
            mask = cov & cond_mask(d.X[:, f], op, t)
            ch = ev((mask & (w > 0)) * w)
            what = f'rule {k}, condition {step} {c[:3]} (quality {ch[:2]}), previous conditions {q.conds()[:step]} (quality {best[:2]}), ' \
                   f'features {F.tolist()}, outputs {ev.out.tolist()}, weights {"equal" if q.weights is None else w.astype(int).tolist()}, final rule {r}'
            if f not in F.tolist():
                ctx.fail('feature-not-sampled', what)
            if known.any_of(d, _Rule(q.conds()[:step + 1]), q):
                ctx.obs('known-region')
                return
            if (mask & (w > 0)).sum() != numcov:
                ctx.fail('wrong-coverage', f'{numcov} examples are said to be covered, {(mask & (w > 0)).sum()} are: {what}')
            if op.startswith('num') and not q.zeros:
                x = d.X[cov, f].astype(np.float64)
                lo, hi = x[x <= t].max(initial=-np.inf), x[x > t].min(initial=np.inf)
                mid = lo + (hi - lo) / 2
                # K1 affects thresholds next to zero
                exact = hi < 0 or lo > x[x > 0].min(initial=np.inf)
                ctx.obs('thresholds', exact)
                if exact and not abs(t - mid) <= 1e-6 * max(abs(lo), abs(hi)) + .01 * (hi - lo):
                    ctx.fail('wrong-threshold', f'the values next to the threshold are {lo} and {hi}: {what}')
            if ch[0] > best[1] + tol(ch) + tol(best):
                ctx.fail('not-an-improvement', what)
        else:
            ch = best
            what = f'rule {k}, no condition has been added to {q.conds()[:step]} (quality {best[:2]}), features {F.tolist()}, ' \
                   f'outputs {ev.out.tolist()}, weights {"equal" if q.weights is None else w.astype(int).tolist()}, final rule {r}'
            ctx.obs('ends')
        if len(cands) > 1:
            ctx.distinct(k, step, q.conds(), what)
        for e, name, a in cands:
            if e[1] < ch[0] - tol(e) - tol(ch):
                ctx.fail('better-condition' if c is not None else 'search-ended-too-early',
                         f'{name} has quality {e[:2]} and covers {int(a.sum())} examples: {what}')
        if c is None:
            return
        ctx.obs('choices')
        ctx.obs('numerical' if op.startswith('num') else 'ordinal' if op.startswith('ord') else 'nominal')
        ctx.obs('missing', bool(np.isnan(d.X[cov, f]).any()))
        ctx.obs('weighted', q.weights is not None)
        ctx.obs('subset_of_features', len(F) < d.X.shape[1])
        for name in getattr(ev, 'tags', ()):
            ctx.obs(name)
        best = ch
        cov = mask
        if hr and step + 1 == hr and r is not None:
            ix = np.asarray(r.indices())
            if htype != 'complete':
                ev = evaluator(ix, 'complete' if htype != 'single' else 'single')


def dropped(d, f, conds):
    """Features that are not considered any longer, even though they should be."""
    x = d.X[:, f]
    # K21: a nominal feature is not considered any longer after its most frequent value has been excluded
    if any(g == f and op == 'nom!=' and t in np.trunc(known.majority(x[~np.isnan(x)])) for g, op, t in conds):
        return True
    # K10: the k-th value of a numerical feature is compared with the (n - k)-th of n values instead of the last one after the
    # condition x > t, where k is the first position of a value greater than t
    cov = np.ones(d.n, dtype=bool)
    for g, op, t in conds:
        if g == f and op == 'num>':
            v = np.sort(x[cov & ~np.isnan(x)].astype(np.float64))
            k = int((v <= t).sum())
            if k < len(v) and np.isclose(v[k], v[len(v) - k - 1], rtol=3e-7, atol=3e-7):
                return True
        cov = cov & cond_mask(d.X[:, g], op, t)
    return False


class _Rule:
    def __init__(self, conds):
        self.conds = [(op, f, t) for f, op, t in conds]


def tol(e):
    return 1e-6 * abs(e[0]) + 1e-9 * abs(e[2]) + 1e-12 if np.isfinite(e[0]) else 0.0
