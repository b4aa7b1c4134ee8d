"""P14: stopping criteria and global pruning end the training and select the rules as they promise."""
import time

import numpy as np

import gen
import known
from model import Trace, covers, extract
from p10 import opts
from rounds import parse

CASES = {'quick': 8000, 'thorough': 60000}
RULE = 'random learner with a limit on the number of rules, pre- or post-pruning (all options) and sometimes a time limit; the ' \
       'loss of every example at every stopping test is recomputed from the rules, the decisions are recomputed from these ' \
       'losses; non-trivial: at least two stopping tests; distinct by recorded tests'
ASSUMPTIONS = ['stopping tests are recorded by a hook, together with the loss that the statistics report for each example',
               'decisions that depend on rounding errors of the aggregated losses may go either way']
REQUIRE = {'tests': 20000, 'losses': 100000, 'post': 500, 'pre': 500, 'pre_stops': 150, 'unused': 200, 'size_stops': 800,
           'holdout': 300, 'time_limits': 1}
CASE_TIMEOUT = 180


def flag(o, k, default):
    return o.get(k, 'true' if default else 'false') == 'true'


def loss_of(task, name, Y, S):
    """The loss of individual examples, given the scores."""
    if task == 'reg':
        d = (Y - S) ** 2
    elif name.startswith('logistic'):
        x = np.where(Y > 0, -S, S)
        if name.endswith('non-decomposable'):
            a = np.hstack([np.zeros((len(x), 1)), x])
            mx = a.max(axis=1)
            return mx + np.log(np.exp(a - mx[:, None]).sum(axis=1))
        d = np.logaddexp(0, x)
    elif name.startswith('squared-error'):
        d = (np.where(Y > 0, 1.0, -1.0) - S) ** 2
    else:
        d = np.where(Y > 0, np.maximum(1 - S, 0), np.maximum(S, 0)) ** 2
    if name.endswith('non-decomposable'):
        return np.sqrt(d.sum(axis=1))
    return d.mean(axis=1)


def close(a, b, rel=1e-9):
    return abs(a - b) <= rel * max(abs(a), abs(b), 1e-300)


class Post:
    def __init__(self, o):
        self.min_rules, self.interval = int(o.get('min_rules', 100)), int(o.get('interval', 1))
        self.best = np.inf
        self.used = {0}

    def test(self, k, score):
        """The possible outcomes (stop, used) of a test."""
        if k >= self.min_rules and k % self.interval == 0:
            if close(score, self.best):
                return {(False, 0), (False, k)}
            if score < self.best:
                return {(False, k)}
        return {(False, 0)}

    def commit(self, k, score, res):
        if res[1]:
            self.best = score


AGG = {'min': np.min, 'max': np.max, 'avg': np.mean}


class Pre:
    def __init__(self, o):
        self.up, self.st = int(o.get('update_interval', 1)), int(o.get('stop_interval', 1))
        self.past, self.recent = [], []
        self.np_, self.nr = int(o.get('num_past', 50)), int(o.get('num_recent', 50))
        self.min_rules = int(o.get('min_rules', 100))
        self.offset = max(0, self.min_rules - (self.np_ + self.nr) * self.up)
        self.mi = float(np.float64(o.get('min_improvement', 0.005)))
        self.agg = AGG[o.get('aggregation', 'avg')]
        self.remove = flag(o, 'remove_unused_rules', True)
        self.best, self.cand, self.done = np.inf, set(), False

    def test(self, k, score):
        self.now = not self.done and k > self.offset and k % self.up == 0
        if not self.now:
            return {(False, 0)}
        if len(self.past) == self.np_:
            if close(score, self.best):
                self.cand.add(k)
            elif score < self.best:
                self.cand = {k}
            self.best = min(score, self.best)
            if k % self.st == 0:
                a, b = self.agg(self.past), self.agg(self.recent)
                with np.errstate(divide='ignore', invalid='ignore'):
                    imp = (a - b) / b
                yes = {(self.remove, u) for u in self.cand}
                if np.isfinite(imp) and abs(imp - self.mi) <= 1e-9:
                    return yes | {(False, 0)}
                if imp < self.mi:
                    return yes
        return {(False, 0)}

    def commit(self, k, score, res):
        if not self.now:
            return
        if res[1]:
            self.done = True
        self.recent.append(score)
        if len(self.recent) > self.nr:
            self.past.append(self.recent.pop(0))
            if len(self.past) > self.np_:
                self.past.pop(0)


class Never:
    def __init__(self, o):
        pass

    def test(self, k, score):
        return {(False, 0)}

    def commit(self, k, score, res):
        pass


def timed(rng, ctx, limit):
    """A limit on the time that is spent on training is obeyed."""
    d = gen.data(rng, task='clf')
    cfg = dict(time_limit=limit, max_rules=3000000, head_type='single', feature_sampling='none', instance_sampling='none',
               rule_induction='top-down-greedy{max_conditions=1}', parallel_rule_refinement='false',
               parallel_statistic_update='false')
    ctx.describe(f'timed {cfg} {d.desc()}')
    c = gen.learner('clf', cfg, d)
    tr = Trace()
    tr.start()
    t, cpu = time.time(), time.process_time()
    try:
        c.fit(d.X, d.Y)
    finally:
        t, cpu = time.time() - t, time.process_time() - cpu
        run = parse(tr.stop(), d.n)
    stop = run.tests[-1][1]
    if stop:
        ctx.obs('time_limits')
        if t < limit - .02:
            ctx.fail('stopped-before-time-limit', f'training stops after {t:.3f} s')
    elif run.rounds and run.rounds[-1].ok:
        ctx.fail('time-limit-ignored', f'{len(run.tests)} tests within {t} s')
    if cpu > limit + .8:
        ctx.fail('time-limit-ignored', f'training takes {cpu} s of CPU time, the limit is {limit} s')


def run_case(i, rng, ctx):
    if i % 1200 == 7:
        return timed(rng, ctx, 2 + i // 1200 % 2)
    p = dict(prune=0.75, seqopt=.05, holdout=.35, isamp=.3, default=.3, fbin=0, irep=.05, osamp=.2)
    kind, d, cfg = gen.random_learner(rng, kinds=('clf', 'clf', 'clf', 'reg', 'seco') if rng.random() < .1 else ('clf', 'clf', 'reg'),
                                      data_kw=dict(n=(6, 40)), rules=(1, 45), p=p)
    if kind != 'seco' and cfg.get('global_pruning', 'none') != 'none' and rng.random() < .6:
        cfg['global_pruning'] = gen.pruning(rng)
        if rng.random() < .35:
            cfg['global_pruning'] = cfg['global_pruning'].replace('min_rules=', f'min_rules={int(rng.integers(1, 3))}')
        cfg['max_rules'] = int(rng.integers(15, 60))
    ctx.describe(f'{kind} {cfg} {d.desc()}')
    c = gen.learner(kind, cfg, d)
    tr = Trace()
    tr.start(evaluate=kind != 'seco')
    try:
        c.fit(d.X, d.Y)
    finally:
        run = parse(tr.stop(), d.n)
    max_rules = int(cfg.get('max_rules', 1000 if kind != 'seco' else 500))
    name, o = opts(cfg.get('global_pruning', 'none')) if kind != 'seco' else ('none', {})
    model = c.model_
    rules_all, rules = extract(model, used=False), extract(model)
    ctx.obs('tests', len(run.tests))
    if len(run.tests) >= 2:
        ctx.distinct((tuple((k, s, u) for k, s, u, _ in run.tests), name, len(rules), tuple(np.round(run.tests[-1][3], 9))))
    if not run.tests:
        ctx.fail('no-test', 'training ended without any test of the stopping criteria')
    first = [r for r in run.rounds if not r.post]
    # the sequence of tests
    for a, b in zip(run.tests, run.tests[1:]):
        if a[1]:
            ctx.fail('continues-after-stop', f'{a[:3]} {b[:3]}')
        if b[0] != a[0] + 1:
            ctx.fail('rules-counted', f'{a[0]} {b[0]}')
    if len(first) - sum(1 for r in first if not r.ok) != len(run.tests) - 1 and first:
        ctx.fail('rules-per-test', f'{len(first)} {len(run.tests)}')
    if not run.tests[-1][1] and not (first and not first[-1].ok):
        ctx.fail('ends-without-reason', f'{run.tests[-1][:3]}')
    induced = run.tests[-1][0]
    if induced > max(max_rules, run.tests[0][0]):
        ctx.fail('too-many-rules', f'{induced} > {max_rules}')
    crit = dict(none=Never).get(name, Post if name == 'post-pruning' else Pre)(o)
    part = np.arange(d.n)
    if run.bi:
        part = run.hold if name != 'none' and flag(o, 'use_holdout_set', True) else run.train
    elif name != 'none' and flag(o, 'use_holdout_set', True) and cfg.get('holdout', 'auto').split('{')[0] not in ('none', 'auto'):
        ctx.fail('no-holdout-set', cfg.get('holdout'))
    if run.bi and name != 'none':
        ctx.obs('holdout')
    used = 0
    for k, stop, u, ev in run.tests:
        score = float(np.mean(ev[part])) if len(ev) else 0.0
        if not np.isfinite(score):
            ctx.obs('infinite')
            return
        want = {(s or k >= max_rules, x) for s, x in crit.test(k, score)}
        if kind == 'seco':
            want |= {(True, 0)}  # covered by P15
        if (stop, u) not in want:
            ctx.fail('decision', f'{name} {o}: the test of {k} rules results in stop={stop}, used={u}, but expected {want}')
        crit.commit(k, score, (stop, u))
        used = u or used
        if stop and k >= max_rules:
            ctx.obs('size_stops')
        if stop and k < max_rules and name == 'pre-pruning':
            ctx.obs('pre_stops')
    if name == 'post-pruning':
        ctx.obs('post')
    if name == 'pre-pruning':
        ctx.obs('pre')
    mr = int(o.get('min_rules', 100))
    if used and used < mr:
        ctx.fail('fewer-than-min-rules', f'{used} < {mr}')
    # which rules are kept and used
    want = used or induced
    if len(rules) != want:
        ctx.fail('number-of-used-rules', f'{len(rules)} rules are used instead of {want} (of {induced})')
    if used and used < induced:
        ctx.obs('unused')
    total = want if name != 'none' and flag(o, 'remove_unused_rules', True) else induced
    if len(rules_all) != total:
        ctx.fail('number-of-rules', f'the model consists of {len(rules_all)} rules instead of {total}')
    if [r.key() for r in rules_all[:len(rules)]] != [r.key() for r in rules] and kind != 'seco':
        ctx.fail('used-rules', 'the rules that are used are not the first ones')
    # the losses of individual examples
    if kind == 'seco' or cfg.get('sequential_post_optimization', 'false').startswith('true'):
        return
    X = d.X
    lname = cfg.get('loss', 'logistic-decomposable' if kind == 'clf' else 'squared-error-decomposable')
    k0 = run.tests[0][0]
    S = np.zeros((d.n, d.m))
    for k in range(len(rules_all) + 1):
        if k > 0:
            r = rules_all[k - 1]
            if r.conds:
                kf = known.any_of(d, r, first[k - 1 - k0])
                if kf:
                    ctx.obs(kf)
                    break
                q = first[k - 1 - k0]
                if q.zeros and cfg.get('rule_pruning') == 'irep' and len(q.conds()) != 1:
                    ctx.obs('k14')  # a rule that might have been pruned is applied to other examples than those it covers
                    break
            cov = covers(r, X)
            S[np.ix_(cov, r.indices())] += r.scores
        if k < k0:
            continue
        ev = run.tests[k - k0][3]
        ref = loss_of(kind, lname, np.asarray(d.Y, dtype=np.float64) if kind == 'reg' else np.asarray(d.Y), S)
        ctx.obs('losses', d.n)
        ok = np.abs(ev - ref) <= 1e-6 * np.maximum(np.abs(ref), 1e-3) + 1e-9 * np.abs(S).max(initial=1) ** 2
        if not ok.all():
            j = int(np.where(~ok)[0][0])
            ctx.fail('loss', f'{lname}: example {j} has the loss {ev[j]} instead of {ref[j]} after {k} rules')
