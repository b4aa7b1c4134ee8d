"""P11: heads are the regularized Newton step, and the training state is the state after applying the rules so far."""
import itertools
import math

import numpy as np

import gen
import known
import newton as N
from model import Trace, cond_mask, covers, extract
from p10 import opts
from rounds import parse

PROBES = 5
CASES = {'quick': 7500, 'thorough': 60000}
RULE = 'random boosting learner with an event log; the losses the learner observes after each rule and the heads of all rules ' \
       'are compared with a reference implementation; non-trivial: a model with a condition; distinct by model'
ASSUMPTIONS = ['float64 arithmetic with a relative tolerance of 1e-6', 'with label binning, Hessians of outputs in the same bin are not considered',
               'feature binning is left out (known finding K4)']
REQUIRE = {'states': 8000, 'losses': 100000, 'heads': 6000, 'default_heads': 500, 'non_decomposable_heads': 1200, 'selections': 500,
           'recalculated': 800, 'weighted': 20, 'binned_heads': 150, 'shared_scores': 50}


def probe(i, ctx):
    """K8: derivatives of the non-decomposable squared error for targets other than -1 and 1.
    K13: partial heads for a fixed number of outputs use wrong second derivatives if the best outputs are not in order.
    K14: rules are applied to other examples than those they cover, if IREP is used.
    K24: decomposable losses and complete heads: label binning affects the default rule only.
    K25: partial heads and label binning: the statistics of other outputs are aggregated."""
    if i >= 3:
        rng = np.random.default_rng(7)
        X = rng.normal(size=(40, 2)).astype(np.float32)
        Y = (rng.random((40, 6)) < [.2, .4, .3, .45, .01, .02]).astype(np.uint8)
        c = gen.learner('clf', dict(loss='logistic-decomposable', head_type='complete' if i == 3 else 'partial-dynamic{threshold=0.5}', default_rule='false',
                                    label_binning='equal-width{min_bins=1,max_bins=1}', rule_induction='top-down-greedy{max_conditions=1}',
                                    max_rules=1, shrinkage=1.0, feature_sampling='none', statistic_format='dense'))
        c.fit(X, Y)
        r = extract(c.model_)[0]
        ix = np.asarray(r.indices())
        a = covers(r, X)
        g, h, H = N.Loss('logistic-decomposable', Y).derivatives(np.zeros((40, 6)))
        G, Hd = g[a].sum(axis=0)[ix], h[a].sum(axis=0)[ix]
        neg = G > 0
        s = np.where(neg, -G[neg].sum() / (Hd[neg].sum() + neg.sum()), -G[~neg].sum() / max(Hd[~neg].sum() + (~neg).sum(), 1e-9))
        if not np.allclose(r.scores, s, rtol=1e-6):
            ctx.fail(('label-binning-ignored', 'label-binning-of-other-outputs')[i - 3], f'rule {r}, the shared scores are {s.tolist()}')
        return
    rng = np.random.default_rng((5, 1, 2)[i])
    if i == 2:
        rng.normal(size=(30, 2)), rng.random((30, 4))
        X = -rng.uniform(1, 5, size=(40, 3)).astype(np.float32)
        Y = rng.normal(size=(40, 1)).astype(np.float32)
        c = gen.learner('reg', dict(instance_sampling='with-replacement', rule_pruning='irep', default_rule='false', max_rules=2,
                                    random_state=1, feature_sampling='none'))
        tr = Trace()
        tr.start(evaluate=True)
        try:
            c.fit(X, Y)
        finally:
            ev = [e for e in tr.stop() if e[0] == 'T']
        r = extract(c.model_)[0]
        s = np.zeros(40)
        s[covers(r, X)] = r.scores[0]
        loss = (Y[:, 0] - s) ** 2
        if not np.allclose(ev[1][1][3:], loss, rtol=1e-6):
            ctx.fail('irep-applied-to-other-examples', f'the first rule {r} is applied to examples that it does not cover')
        return
    if i == 1:
        X = rng.normal(size=(30, 2)).astype(np.float32)
        Y = (rng.random((30, 4)) < [.8, .1, .3, .95]).astype(np.uint8)
        c = gen.learner('clf', dict(loss='logistic-non-decomposable', head_type='partial-fixed{output_ratio=0.75,min_outputs=3}',
                                    rule_induction='top-down-greedy{max_conditions=1}', default_rule='true', max_rules=2,
                                    shrinkage=1.0, label_binning='none', feature_sampling='none'))
        c.fit(X, Y)
        r0, r = extract(c.model_)
        ix = np.asarray(r.indices())
        g, h, H = N.Loss('logistic-non-decomposable', Y).derivatives(np.zeros((30, 4)) + r0.scores)
        a = covers(r, X)
        s = np.linalg.solve(H[a].sum(axis=0)[np.ix_(ix, ix)] + np.eye(len(ix)), -g[a].sum(axis=0)[ix])
        if not np.allclose(r.scores, s, rtol=1e-6):
            ctx.fail('newton-step-partial-fixed', f'rule {r}, the Newton step is {s.tolist()}')
        return
    X = rng.normal(size=(30, 2)).astype(np.float32)
    Y = (rng.normal(size=(30, 2)) * 3 + 5).astype(np.float32)
    c = gen.learner('reg', dict(loss='squared-error-non-decomposable', head_type='complete', default_rule='true', max_rules=1,
                                shrinkage=1.0, l2_regularization_weight=1.0))
    c.fit(X, Y)
    r = extract(c.model_)[0]
    L = N.Loss('squared-error-non-decomposable', Y, True)
    g, h, H = L.derivatives(np.zeros((30, 2)))
    s = np.linalg.solve(H.sum(axis=0) + np.eye(2), -g.sum(axis=0))
    if not np.allclose(r.scores, s, rtol=1e-6):
        ctx.fail('newton-step-non-decomposable-regression', f'default rule predicts {r.scores.tolist()}, the Newton step is {s.tolist()}')


def run_case(i, rng, ctx):
    kind, d, cfg = gen.random_learner(rng, kinds=('clf', 'clf', 'reg'), rules=(1, 12), p=dict(
        fbin=0, default=.6, isamp=.45, lbin=.1, seqopt=0, reg=.5, shrink=.7, irep=0))
    if kind == 'clf' and d.m > 1 and rng.random() < .2:
        k = int(rng.integers(1, 4))
        cfg['label_binning'] = 'equal-width{bin_ratio=%.2f,min_bins=%d,max_bins=%d}' % (rng.uniform(.05, .9), k, rng.choice([0, k, k + 2]))
    if 'label_binning' not in cfg and kind == 'clf':
        cfg['label_binning'] = 'none'
    cfg.setdefault('loss', 'logistic-decomposable' if kind == 'clf' else 'squared-error-decomposable')
    htype, ho = opts(cfg.get('head_type', 'auto'))
    dec = not cfg['loss'].endswith('non-decomposable')
    if kind == 'reg' and dec and htype.startswith('partial'):
        cfg['head_type'] = htype = 'complete'  # known finding K9
    if kind == 'reg' and dec and (htype == 'single' or htype == 'auto' or cfg.get('output_sampling', 'none') != 'none'):
        cfg['head_type'] = htype = 'complete'
        cfg.pop('output_sampling', None)
    if rng.random() < 0.15:  # the heads are derived from examples with different weights
        cfg['instance_sampling'] = 'with-replacement'
        it, io = opts(cfg.get('rule_induction', 'top-down-greedy'))
        io['recalculate_predictions'] = 'false'
        cfg['rule_induction'] = it + '{' + ','.join(f'{k}={v}' for k, v in io.items()) + '}'
        if kind == 'clf' and rng.random() < 0.7:
            cfg['loss'] = 'logistic-non-decomposable'
            cfg['statistic_format'] = 'dense'
            if cfg.get('l2_regularization_weight') == 0:
                cfg['l2_regularization_weight'] = 1.0  # known finding K19
            dec = False
            if htype in ('auto', 'complete') and d.m > 2 and rng.random() < 0.6:
                cfg['head_type'] = htype = 'complete'
                cfg['output_sampling'] = 'without-replacement{sample_size=%.2f}' % rng.uniform(.3, .9)
    ctx.describe(f'{kind} {cfg} {d.desc()}')
    c = gen.learner(kind, cfg, d)
    tr = Trace()
    tr.start(evaluate=True)
    try:
        c.fit(d.X, d.Y)
    finally:
        run = parse(tr.stop(), d.n)
    n, m = d.n, d.m
    rules = extract(c.model_, used=False)
    L = N.Loss(cfg['loss'], d.Y, kind == 'reg')
    S = np.zeros((n, m))
    C = [covers(r, d.X) for r in rules]
    default = bool(rules) and not rules[0].conds
    body = rules[default:]
    rounds = [r for r in run.rounds if r.ok]
    lbin = opts(cfg.get('label_binning', 'none'))
    lbin = lbin[1] if kind == 'clf' and (lbin[0] == 'equal-width' or lbin[0] == 'auto' and not dec) else None
    l1, l2 = cfg.get('l1_regularization_weight', 0.0), cfg.get('l2_regularization_weight', 1.0)
    shrink = cfg.get('shrinkage', 0.3)
    ind = opts(cfg.get('rule_induction', 'top-down-greedy'))
    irep = cfg.get('rule_pruning') == 'irep'
    pos = 0

    def state(S, what):
        e = tests.get(what)
        if e is None:
            return
        ctx.obs('states')
        ref = L.loss(S)
        ctx.obs('losses', n)
        ok = np.isclose(ref, e, rtol=1e-6, atol=1e-9)
        if not ok.all():
            b = int(np.nonzero(~ok)[0][0])
            ctx.fail('training-state', f'after {what} rules, the loss of example {b} is {e[b]}, but the rules give {ref[b]} '
                                       f'({int((~ok).sum())} differ, {"holdout" if b in run.hold and run.bi else "training"} example); '
                                       f'last rule {rules[what - 1] if what else None}')

    tests = {t[0]: t[3] for t in run.tests}
    if run.end is not None:
        tests.setdefault(len(rules), run.end)
    dropped = 'global_pruning' in cfg
    for k, r in enumerate(rules):
        if np.abs(S).max(initial=0) > 1e6:
            break
        state(S, k)
        kf = known.any_of(d, r, rounds[k - default]) if r.conds else None
        if kf:
            ctx.obs(kf)
            break
        if lbin is not None:
            g, h, H = L.derivatives(S)
            head(ctx, L, d, run, cfg, r, None if not r.conds else rounds[k - default], S, g, h, H, l1, l2,
                 1.0 if not r.conds else shrink, htype, ho, irep, ind[1], lbin)
        else:
            g, h, H = L.derivatives(S)
            head(ctx, L, d, run, cfg, r, None if not r.conds else rounds[k - default], S, g, h, H, l1, l2,
                 1.0 if not r.conds else shrink, htype, ho, irep, ind[1])
        S[np.ix_(C[k], r.indices())] += r.scores
    else:
        if not dropped:
            state(S, len(rules))
    if body:
        ctx.distinct([r.key() for r in rules])


def wrong_matrix(H, p, l2):
    """Known finding K13: coefficients for the outputs `p`, looked up in the packed upper triangle of `H`."""
    packed = H.T[np.tril_indices(len(H))]
    M = np.empty((len(p), len(p)))
    for c in range(len(p)):
        for r in range(c + 1):
            k = p[c] * (p[c] + 1) // 2 + p[r]
            M[r, c] = M[c, r] = packed[k] if k < len(packed) else np.nan
        M[c, c] += l2
    return M


def near(x, y):
    return np.allclose(x, y, rtol=1e-6, atol=1e-9)


def sensitive(L, S, a, ix):
    """True, if rounding decides about derivatives of covered examples."""
    if L.base == 'logistic':
        return False
    e = L.errors(S)[0][a]
    if not L.dec:
        r = np.sqrt((e * e).sum(axis=1))
        if (r < 1e-5).any():
            return True
    if L.base == 'squared-hinge':
        edge = np.where(L.pos[a], 1.0, 0.0)
        return bool(((np.abs(S[a] - edge) < 1e-9) & (S[a] != 0)).any())
    return False


def select(ctx, L, d, r, q, S, g, h, l1, l2, htype, ho, refinements, sampled):
    """The outputs of a head are those with the largest scores when they are selected."""
    n, m = d.n, d.m
    conds = q.conds()
    if htype not in ('single', 'partial-fixed', 'partial-dynamic') or not conds or (htype != 'single' and sampled) or (refinements != 1 and len(conds) > 1):
        return
    f, op, t = conds[0]
    a = q.w(n) * cond_mask(d.X[:, f], op, t)
    out = np.arange(m) if q.outputs is None else np.asarray(sorted(q.outputs.tolist()))
    if sensitive(L, S, a > 0, out) or (htype != 'single' and len(out) < m) or len(out) < 2:
        return
    s = np.abs(N.scores((a @ g)[out], (a @ h)[out], l1, l2))
    sel = np.isin(out, r.indices())
    tol = 1e-7 * s.max() + 1e-11 * (a @ np.abs(g)).max()
    what = f'{htype} head {ho}, absolute scores {s.tolist()} of {out.tolist()}, rule {r}, conditions {conds}, covers {np.nonzero(a)[0].tolist()}'
    ctx.obs('selections')
    if htype == 'partial-dynamic':
        e, b = float(ho.get('exponent', 2.0)), 1.0 - float(np.float32(float(ho.get('threshold', .02))))
        v, lim = (s - s.min()) ** e, (s.max() - s.min()) ** e * b
        mar = 1e-6 * s.max() ** e + tol
        if (~sel & (v > lim + mar)).any() or (sel & (v < lim - mar)).any():
            ctx.fail('wrong-outputs', what)
    elif sel.any() and not sel.all() and s[sel].min() < s[~sel].max() - tol:
        ctx.fail('wrong-outputs', what)
    ctx.obs('selections_' + htype)


def head(ctx, L, d, run, cfg, r, q, S, g, h, H, l1, l2, shrink, htype, ho, irep, ind, lbin=None):
    n = d.n
    ix = np.asarray(r.indices())
    if q is None:
        w = np.ones(n)
        recalc = True
        cov = np.ones(n, dtype=bool)
        ctx.obs('default_heads')
    else:
        recalc = q.zeros and ind.get('recalculate_predictions', 'true') == 'true'
        conds = r.conds if recalc or 'beam' in cfg.get('rule_induction', '') else [(b, a, t) for a, b, t in q.conds()]
        cov = np.ones(n, dtype=bool)
        before = cov
        for op, f, t in conds:
            before = cov
            cov = cov & cond_mask(d.X[:, f], op, t)
        w = q.w(n).astype(float)
        if recalc:
            w = np.zeros(n)
            w[run.train] = 1
            ctx.obs('recalculated')
        elif 'beam' in cfg.get('rule_induction', '') and irep:
            return
        ctx.obs('weighted', len(set(w[w > 0])) > 1)
    if q is not None and lbin is None and 'beam' not in cfg.get('rule_induction', ''):
        select(ctx, L, d, r, q, S, g, h, l1, l2, htype, ho, int(ind.get('max_head_refinements', 1)),
               cfg.get('output_sampling', 'none') != 'none')
    a = w * cov
    if sensitive(L, S, a > 0, r.indices()):
        ctx.obs('sensitive')
        return
    G, Hd = a @ g, a @ h
    if l1 > 0 and (np.abs(np.abs(G[ix]) - l1) < 1e-9 * (1 + (a @ np.abs(g)).max())).any():
        ctx.obs('sensitive')
        return
    s = r.scores / shrink
    full = H is not None and htype not in ('single', 'auto') or (H is not None and htype == 'auto' and len(ix) > 1) \
        or (H is not None and q is None)
    what = f'rule {r}, outputs {None if q is None else q.outputs.tolist()}, covers {np.nonzero(a)[0].tolist()}'
    if lbin is not None:
        binned_head(ctx, r, q, ix, s, G, Hd, H, a, g, l1, l2, lbin, full and not (htype == 'single' and q is not None), htype, what)
        return
    ctx.obs('heads')
    if full and len(ix) >= 1 and not (htype == 'single' and q is not None):
        HF = np.einsum('i,ijk->jk', a, H)
        HH = HF[np.ix_(ix, ix)] + l2 * np.eye(len(ix))
        b = N.rhs(G[ix], l1)
        res = HH @ s - b
        sc = np.abs(HH) @ np.abs(s) + np.abs(b) + 1e-9
        ctx.obs('non_decomposable_heads')
        if (np.abs(res) > 1e-6 * sc + 1e-11 * (a @ np.abs(g)).max()).any():
            if htype == 'partial-fixed' and 1 < len(ix) < 8 and any(
                    near(wrong_matrix(HF, ix[list(p)], l2) @ s[list(p)], b[list(p)]) for p in itertools.permutations(range(len(ix)))):
                ctx.obs('k13')
                return
            ctx.fail('not-the-newton-step', f'residuals {res.tolist()} of {b.tolist()}: {what}')
        return
    e = N.scores(G[ix], Hd[ix], l1, l2)
    if H is not None and recalc and np.allclose(N.rhs(G[ix], l1), s * (Hd[ix] + l2), rtol=1e-6, atol=1e-9):
        return  # the system of linear equations consists of a single one
    tol = 1e-6 * np.abs(e) + 1e-9 * (1 + np.abs(a) @ np.abs(g)[:, ix]) / np.maximum(Hd[ix] + l2, 1e-9)
    if (np.abs(e - s) > tol).any():
        ctx.fail('not-the-newton-step', f'expected {(e * shrink).tolist()}: {what}')


def num_bins(n, ratio, lo, hi):
    """The number of bins for `n` outputs."""
    k = max(math.ceil(np.float32(ratio) * np.float32(n)), min(lo, n))
    return min(k, hi) if hi >= lo else k


def binned_head(ctx, r, q, ix, s, G, Hd, H, a, g, l1, l2, lbin, full, htype, what):
    """Outputs, the scores of which would be similar, share a single score."""
    ratio, lo, hi = float(lbin.get('bin_ratio', .04)), int(lbin.get('min_bins', 1)), int(lbin.get('max_bins', 0))
    c = N.scores(G[ix], Hd[ix], l1, l2)
    noise = 1e-9 * (1 + (a @ np.abs(g))[ix]) / np.maximum(Hd[ix] + l2, 1e-9)
    if (np.abs(c) <= noise).any():
        ctx.obs('sensitive')
        return
    parts = []
    for sign in (-1, 1):
        j = np.nonzero(np.sign(c) == sign)[0]
        if not len(j):
            continue
        k = num_bins(len(j), ratio, lo, hi)
        x = (c[j] - c[j].min()) / max(np.ptp(c[j]) / k, 1e-300)
        if k > 1 and (len(j) > 1 and np.ptp(c[j]) < 1e-6 * np.abs(c[j]).max() + noise.max()
                      or (np.abs(x - np.round(x)) < 1e-6)[(np.round(x) > 0) & (np.round(x) < k)].any()):
            ctx.obs('sensitive')
            return
        b = np.minimum(np.floor(x + 1e-9), k - 1).astype(int) if k > 1 else np.zeros(len(j), dtype=int)
        parts += [j[b == v] for v in np.unique(b)]
    if l1 > 0 and any(l1 * .99 < abs(G[ix][j].sum()) < l1 * len(j) * 1.01 for j in parts):
        ctx.obs('sensitive')
        return
    HF = np.einsum('i,ijk->jk', a, H) if full else None
    ctx.obs('heads')
    ctx.obs('binned_heads')
    ctx.obs('shared_scores', int(any(len(j) > 1 for j in parts)))
    ctx.obs('non_decomposable_binned_heads', int(full))

    def expected(ix):
        """The scores, given the statistics of the outputs `ix`."""
        p = len(parts)
        P = np.zeros((p, len(ix)))
        for v, j in enumerate(parts):
            P[v, j] = 1
        cnt = P.sum(axis=1)
        gb, hb = P @ G[ix], P @ Hd[ix]
        if not full:
            return P.T @ np.asarray([N.scores(gb[v], hb[v], l1 * cnt[v], l2 * cnt[v]) for v in range(p)])
        F = HF[np.ix_(ix, ix)]
        M = P @ (F - np.diag(np.diag(F))) @ P.T
        M[np.arange(p), np.arange(p)] = hb + l2 * cnt
        if np.linalg.cond(M) > 1e8:
            return None
        return P.T @ np.linalg.solve(M, -gb + np.sign(gb) * np.where(np.abs(gb) > l1 * cnt, cnt * l1, 0))

    def agrees(e):
        return e is None or (np.abs(e - s) <= 1e-6 * np.abs(e).max() + noise.max()).all()

    e = expected(ix)
    if agrees(e):
        return
    if q is not None and not full and htype in ('auto', 'complete') and agrees(c):
        ctx.obs('k24')
        return
    if q is not None and htype.startswith('partial'):
        out = np.arange(len(G)) if q.outputs is None else np.asarray(sorted(q.outputs.tolist()))
        o = np.arange(len(ix)) if htype == 'partial-dynamic' else np.argsort(-np.abs(c), kind='stable')
        other = np.empty(len(ix), dtype=int)
        other[o] = out[:len(ix)]
        if agrees(expected(other)):
            ctx.obs('k25')
            return
    ctx.fail('not-the-binned-newton-step', f'expected {e.tolist()}, got {s.tolist()}, bins {[x.tolist() for x in parts]}: {what}')
