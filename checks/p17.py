"""P17: post-optimization keeps the model consistent with the training state and relearns rules in the context of all others."""
import numpy as np

import gen
import known
import newton as N
import p11
from model import Trace, covers, extract
from p10 import opts
from rounds import parse

PROBES = 2
CASES = {'quick': 6000, 'thorough': 40000}
RULE = 'random learner that is trained without and with 1, 2, … iterations of sequential post-optimization, using an event log; ' \
       'each relearned rule is compared with the one it replaces, its head with the Newton step given all other rules, the final ' \
       'training state with the rules; and random learner whose unused rules are removed or kept; non-trivial: a rule has been ' \
       'relearned or removed; distinct by model'
ASSUMPTIONS = ['float64 arithmetic with a relative tolerance of 1e-6', 'the training state of SeCo is not observed directly',
               'beam search is left out together with sequential post-optimization (known finding K5)']
REQUIRE = {'relearned': 4000, 'changed': 1000, 'kept': 20, 'states': 600, 'heads': 1500, 'removed': 200, 'restricted_features': 400,
           'refined_heads': 50}


def probe(i, ctx):
    return removed(ctx) if i == 0 else kept(ctx)


def kept(ctx):
    """Known finding K23: the predictions of rules that are kept, because no other rule can be found, are not restored."""
    for seed in range(1, 101):
        rng = np.random.default_rng(seed)
        X = rng.integers(0, 3, size=(20, 1)).astype(np.float32)
        Y = (rng.random((20, 1)) < .5).astype(np.uint8)
        c = gen.learner('clf', dict(loss='logistic-decomposable', head_type='single', max_rules=8, feature_sampling='none',
                                    rule_induction='top-down-greedy{min_coverage=4}', instance_sampling='with-replacement',
                                    sequential_post_optimization='true{num_iterations=2}', label_binning='none', random_state=1))
        tr = Trace()
        tr.start(evaluate=True)
        try:
            c.fit(X, Y)
        finally:
            run = parse(tr.stop(), 20)
        S = np.zeros((20, 1))
        for r in extract(c.model_, used=False):
            S[np.ix_(covers(r, X), r.indices())] += r.scores
        if any(q.post and not q.ok for q in run.rounds):
            if not np.allclose(N.Loss('logistic-decomposable', Y).loss(S), run.end, rtol=1e-6):
                ctx.fail('kept-rules-not-restored', 'no other rule has been found for some rules, and the training state does not include '
                         'them any longer')
            return
    ctx.fail('nothing-kept', 'other rules have been found for all rules')


def removed(ctx):
    """Known finding K20: the training state still includes the predictions of rules that have been removed."""
    rng = np.random.default_rng(1)
    X = rng.normal(size=(60, 4)).astype(np.float32)
    Y = (rng.random((60, 2)) < .5).astype(np.uint8)
    c = gen.learner('clf', dict(loss='logistic-decomposable', head_type='single', max_rules=40, holdout='random{holdout_set_size=0.4}',
                                global_pruning='post-pruning{use_holdout_set=true,min_rules=1,interval=1,remove_unused_rules=true}',
                                random_state=3, feature_sampling='none'))
    tr = Trace()
    tr.start(evaluate=True)
    try:
        c.fit(X, Y)
    finally:
        run = parse(tr.stop(), 60)
    rules = extract(c.model_, used=False)
    if len(rules) == 40:
        ctx.fail('no-rules-removed', 'the probe does not remove any rules')
    S = np.zeros((60, 2))
    for r in rules:
        S[np.ix_(covers(r, X), r.indices())] += r.scores
    if not np.allclose(N.Loss('logistic-decomposable', Y).loss(S), run.end, rtol=1e-6):
        ctx.fail('state-includes-removed-rules', f'{40 - len(rules)} rules have been removed, but the training state (used for '
                                                 'post-optimization and calibration) has not been updated')


def dense(P):
    return P.toarray() if hasattr(P, 'toarray') else np.asarray(P)


def fit(kind, d, cfg, evaluate=True):
    c = gen.learner(kind, cfg, d)
    tr = Trace()
    tr.start(evaluate=evaluate and kind != 'seco')
    try:
        c.fit(d.X, d.Y)
    finally:
        ev = tr.stop()
    return c, extract(c.model_, used=False), parse(ev, d.n)


def run_case(i, rng, ctx):
    if i < PROBES:
        return probe(i, ctx)
    if rng.random() < .25:
        return removal(i, rng, ctx)
    irep = rng.random() < .15
    kind, d, cfg = gen.random_learner(rng, kinds=('clf', 'clf', 'clf', 'reg', 'seco'), rules=(2, 9), p=dict(
        fbin=0 if rng.random() < .85 else .5, default=.5, isamp=.45, lbin=.1, seqopt=0, reg=.5, shrink=.7, irep=.5 if irep else 0, beam=False, prune=0))
    cfg.pop('global_pruning', None)
    if rng.random() < .15:
        cfg['global_pruning'] = 'post-pruning{remove_unused_rules=%s,use_holdout_set=false,min_rules=1,interval=1}' % \
            str(rng.choice(['true', 'false']))
        if kind == 'seco':
            cfg.pop('global_pruning')
    dec = True
    if kind != 'seco':
        if 'label_binning' not in cfg and kind == 'clf':
            cfg['label_binning'] = 'none'
        cfg.setdefault('loss', 'logistic-decomposable' if kind == 'clf' else 'squared-error-decomposable')
        dec = not cfg['loss'].endswith('non-decomposable')
        htype, ho = opts(cfg.get('head_type', 'auto'))
        if htype == 'partial-fixed' and not dec:  # known finding K13
            cfg['head_type'] = htype = 'complete'
        if kind == 'reg' and dec:  # known finding K9
            cfg['head_type'] = htype = 'complete'
            cfg.pop('output_sampling', None)
    iters = int(rng.integers(1, 4))
    refine = bool(rng.random() < .3)
    resample = bool(rng.random() < .6)
    ctx.describe(f'{kind} {cfg} iterations={iters} refine={refine} resample={resample} {d.desc()}')
    _, prev, run0 = fit(kind, d, cfg)
    default = [k for k, r in enumerate(prev) if not r.conds]
    n, m = d.n, d.m
    removal_on = 'remove_unused_rules=true' in cfg.get('global_pruning', '')
    for t in range(1, iters + 1):
        _, rules, run = fit(kind, d, dict(cfg, sequential_post_optimization='true{num_iterations=%d,refine_heads=%s,resample_features=%s}' % (
            t, str(refine).lower(), str(resample).lower())))
        if len(rules) != len(prev):
            ctx.fail('number-of-rules', f'{len(prev)} rules before, {len(rules)} rules after the post-optimization')
        for k in default:
            if rules[k].key() != prev[k].key():
                ctx.fail('default-rule-changed', f'{prev[k]} before, {rules[k]} afterwards')
        body = [k for k in range(len(rules)) if k not in default]
        post = [r for r in run.rounds if r.post]
        if run.rounds and not post and body:
            ctx.fail('not-relearned', f'no rule has been relearned, but the model has {len(body)} rules')
        if len(post) != t * len(body):
            ctx.fail('not-relearned', f'{len(post)} rules have been relearned, expected {t} * {len(body)}')
        last = post[(t - 1) * len(body):]
        for q, k in zip(last, body):
            old, new = prev[k], rules[k]
            ctx.obs('relearned')
            what = f'iteration {t}, rule {k}: {old} has been replaced by {new}, sampled outputs {q.outputs.tolist()}'
            if not refine and sorted(q.outputs.tolist()) != sorted(np.asarray(old.indices()).tolist()):
                ctx.fail('outputs-differ', what)
            if refine:
                ctx.obs('refined_heads')
                if not (set(np.asarray(new.indices()).tolist()) <= set(q.outputs.tolist())) and q.ok:
                    ctx.fail('outputs-differ', what)
            if not refine and not set(np.asarray(new.indices()).tolist()) <= set(np.asarray(old.indices()).tolist()):
                ctx.fail('outputs-differ', what)
            if not resample:
                ctx.obs('restricted_features')
                fs = sorted({f for _, f, _ in old.conds})
                for s, _ in q.steps:
                    if sorted(s.tolist()) != fs:
                        ctx.fail('features-differ', f'features {s.tolist()} are considered, those of the rule are {fs}: {what}')
                if not {f for _, f, _ in new.conds} <= set(fs):
                    ctx.fail('features-differ', what)
            if not q.ok:
                ctx.obs('kept')
                if old.key() != new.key():
                    ctx.fail('replaced-without-success', what)
            else:
                ctx.obs('changed', old.key() != new.key())
                if len(new.conds) > len(q.steps):
                    ctx.fail('conditions-differ', f'conditions {q.conds()}: {what}')
                key = [(op, f, float(np.float32(v))) for f, op, v in q.conds()]
                if not q.zeros and sorted(key) != sorted((op, f, float(np.float32(v))) for op, f, v in new.conds):
                    ctx.fail('conditions-differ', f'conditions {q.conds()}: {what}')
        ctx.distinct([r.key() for r in rules])
        if kind != 'seco' and not removal_on:
            consistent(ctx, kind, d, cfg, 'refine_heads=%s' % str(refine).lower(), run, post, prev, rules, default, body, t)
        prev = rules


def consistent(ctx, kind, d, cfg, cfg2, run, post, prev, rules, default, body, t):
    n, m = d.n, d.m
    irep = cfg.get('rule_pruning') == 'irep'
    L = N.Loss(cfg['loss'], d.Y, kind == 'reg')
    if irep:  # known finding K14
        return
    if 'feature_binning' in cfg and cfg['feature_binning'] != 'none':  # known finding K4
        return
    first = [r for r in run.rounds if r.ok and not r.post]
    last = post[(t - 1) * len(body):]
    # regions of known findings change which examples are covered according to the training state
    for qs, rs in ((last, rules), (post[(t - 2) * len(body):(t - 1) * len(body)] if t > 1 else first, prev)):
        for q, k in zip(qs, body):
            if known.any_of(d, rs[k], q):
                ctx.obs('known-region')
                return
    if any(not q.ok for q in run.rounds if q.post):  # K23
        ctx.obs('known-region')
        return
    for q in run.rounds:  # intermediate rules are not known, but their conditions are
        class R:
            conds = [(op, f, v) for f, op, v in q.conds()]
        if known.any_of(d, R, q):
            ctx.obs('known-region')
            return
    C = [covers(r, d.X) for r in rules]
    Cp = [covers(r, d.X) for r in prev]

    def total(new):
        S = np.zeros((n, m))
        for k in range(len(rules)):
            if k in default or new(k) is True:
                S[np.ix_(C[k], rules[k].indices())] += rules[k].scores
            elif new(k) is False:
                S[np.ix_(Cp[k], prev[k].indices())] += prev[k].scores
        return S

    S = total(lambda k: True)
    if np.abs(S).max(initial=0) > 1e6 or run.end is None:
        return
    ref = L.loss(S)
    ctx.obs('states')
    ok = np.isclose(ref, run.end, rtol=1e-6, atol=1e-8)
    if not ok.all():
        b = int(np.nonzero(~ok)[0][0])
        ctx.fail('training-state', f'after {t} iterations, the loss of example {b} is {run.end[b]}, but the rules give {ref[b]} '
                                   f'({int((~ok).sum())} of {n} differ); {[q.ok for q in post]}')
    if cfg.get('label_binning', 'none') != 'none' and kind == 'clf':
        return
    htype, ho = opts(cfg.get('head_type', 'auto'))
    ind = opts(cfg.get('rule_induction', 'top-down-greedy'))[1]
    l1, l2 = cfg.get('l1_regularization_weight', 0.0), cfg.get('l2_regularization_weight', 1.0)
    # given outputs are not refined
    hcfg = cfg if 'refine_heads=true' in cfg2 else dict(cfg, output_sampling='given')
    touched = np.zeros((n, m), dtype=bool)
    for k in range(len(rules)):
        touched[np.ix_(C[k], rules[k].indices())] = touched[np.ix_(Cp[k], prev[k].indices())] = True
    for q, k in zip(last, body):
        if q.ok:
            S = total(lambda b: None if b == k else bool(b < k))
            if np.abs(S).max(initial=0) > 1e6:
                return
            S = np.where((S == 0) & touched, 1e-13, S)  # scores may be affected by rounding errors
            g, h, H = L.derivatives(S)
            p11.head(ctx, L, d, run, hcfg, rules[k], q, S, g, h, H, l1, l2, cfg.get('shrinkage', 0.3), htype, ho, False, ind)


def removal(i, rng, ctx):
    """Removing unused rules does not change any prediction."""
    kind, d, cfg = gen.random_learner(rng, kinds=('clf', 'clf', 'reg'), rules=(5, 40), p=dict(
        prune=0, seqopt=.1, holdout=.5))
    hold = cfg.get('holdout', 'none') != 'none' and rng.random() < .8
    pre = rng.random() < .4
    o = dict(use_holdout_set=str(hold).lower(), min_rules=int(rng.integers(1, 5)))
    if pre:
        o.update(stop_interval=1, update_interval=1, num_past=int(rng.integers(1, 4)), num_recent=int(rng.integers(1, 4)))
        if rng.random() < .5:
            o['min_improvement'] = .05
    else:
        o['interval'] = int(rng.integers(1, 4))
    name = 'pre-pruning' if pre else 'post-pruning'
    if cfg.get('sequential_post_optimization', 'false') != 'false':  # K20
        cfg.pop('sequential_post_optimization')
    mk = lambda rm: '%s{%s}' % (name, ','.join('%s=%s' % kv for kv in dict(o, remove_unused_rules=rm).items()))
    ctx.describe(f'{kind} {cfg} {mk("…")} {d.desc()}')
    a, ra, _ = fit(kind, d, dict(cfg, global_pruning=mk('false')), False)
    b, rb, _ = fit(kind, d, dict(cfg, global_pruning=mk('true')), False)
    used = a.model_.get_num_used_rules()
    na = a.model_.get_num_rules()
    if na != len(ra) or b.model_.get_num_rules() != len(rb) or b.model_.get_num_used_rules() != len(rb):
        ctx.fail('number-of-rules', f'kept: {na} rules, {used} used; removed: {b.model_.get_num_rules()}, '
                                    f'{b.model_.get_num_used_rules()} used, {len(rb)} visited')
    if [r.key() for r in ra[:used]] != [r.key() for r in rb]:
        ctx.fail('used-rules-changed', f'{used} of {na} rules are used: {ra[:used]}, {len(rb)} remain: {rb}')
    ctx.obs('removed', na - used > 0)
    ctx.distinct('removal', [r.key() for r in rb])
    for Q in (d.X, d.Xq):
        for kw in (dict(predict_scores=True), dict()) if kind == 'clf' else (dict(),):
            p, q = dense(a.predict(Q, **kw)), dense(b.predict(Q, **kw))
            if not np.array_equal(p, q, equal_nan=True):
                ctx.fail('predictions-changed', f'removing {na - used} unused rules changes predictions {kw}: {p.tolist()} and {q.tolist()}')
            ctx.obs('predictions', len(Q))
        if kind == 'clf':
            try:
                p = a.predict_proba(Q)
            except RuntimeError:
                continue
            if not np.array_equal(p, b.predict_proba(Q), equal_nan=True):
                ctx.fail('predictions-changed', f'removing {na - used} unused rules changes probabilities')
