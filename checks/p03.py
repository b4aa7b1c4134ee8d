"""P03: results do not depend on the number of threads or on how they are scheduled."""
import numpy as np

import gen
import omp
from calls import diff, predictors
from p02 import SIZES
from p04 import state

FLAVORS = ('sched', )
CASES = {'quick': 900, 'thorough': 20000}
RULE = 'random estimators are trained and queried without multi-threading and with 2 to 8 threads under several randomly ' \
       'perturbed schedules; models and predictions have to be the same (bitwise); non-trivial: several threads did work in the ' \
       'same region; distinct by schedule'
ASSUMPTIONS = ['the runtime of the harness behaves like OpenMP (dynamic scheduling, arbitrary assignment of work to threads)']
REQUIRE = {'comparisons': 2000, 'regions': 20000, 'shared_regions': 10000, 'sparse': 150, 'seco': 150, 'non_decomposable': 150,
           'beam': 80, 'seqopt': 40}
CASE_TIMEOUT = 120


def run_case(i, rng, ctx):
    kind, d, cfg = gen.random_learner(rng, rules=(2, 10), data_kw=SIZES[int(rng.integers(len(SIZES)))], p=dict(
        fsamp=.5, isamp=.4, osamp=.3, holdout=.3, irep=.2, prune=.2, seqopt=.15, lbin=.2, fbin=.15, stat=.5, head=.7, beam=True))
    if rng.random() < .6:
        cfg['feature_sampling'] = 'none'
    if 'beam' in cfg.get('rule_induction', ''):
        if cfg.get('feature_binning', 'none') != 'none':
            cfg['feature_binning'] = 'none'  # K2
        if cfg.get('rule_pruning') == 'irep' or cfg.get('sequential_post_optimization', 'false') != 'false' or kind == 'seco':
            d.nominal, d.ordinal = [], []  # K5
    if kind == 'clf':
        predictors(rng, cfg, .3)
    # identical features make it likely that refinements of different features are equally good
    if d.f > 1 and rng.random() < .4:
        for _ in range(int(rng.integers(1, d.f))):
            a, b = rng.integers(d.f, size=2)
            if (a in d.nominal) == (b in d.nominal) and (a in d.ordinal) == (b in d.ordinal):
                d.X[:, a] = d.X[:, b]
    X, Y, Q = d.X, d.Y, np.vstack([d.X, d.Xq])
    if rng.random() < .4 and not d.nominal and not d.ordinal:
        X = gen.to_sparse(X, str(rng.choice(['csr', 'csc'])))
        ctx.obs('sparse')
    if rng.random() < .25:
        Y = gen.to_sparse(Y, 'csr')
    ctx.describe(f'{kind} {cfg} {d.desc()}')
    rt = omp.get()
    before = rt.stats()
    ref = None
    for k in range(4):
        for p in ('parallel_rule_refinement', 'parallel_statistic_update', 'parallel_prediction'):
            cfg[p] = 'false' if k == 0 else f'true{{num_preferred_threads={int(rng.integers(2, 9))}}}' if rng.random() < .9 else 'false'
        rt.config(int(rng.integers(1 << 30)), int(rng.choice([0, 1, 2, 2])))
        c = gen.learner(kind, cfg, d)
        c.fit(X, Y)
        s = state(kind, cfg, c, Q)
        if k:
            ctx.distinct(rt.stats()[3])
            ctx.obs('comparisons')
            for a in s[0]:
                if s[0][a] != ref[0][a]:
                    ctx.fail('model-depends-on-threads', f'{a}: {s[0][a]} instead of {ref[0][a]}: {cfg}')
            e = diff(ref[1], s[1])
            if e:
                ctx.fail('predictions-depend-on-threads', f'{e}: {cfg}')
        else:
            ref = s
    t = rt.stats()
    ctx.obs('regions', t[0] - before[0])
    ctx.obs('shared_regions', t[1] - before[1])
    if kind == 'seco':
        ctx.obs('seco')
    if cfg.get('loss', '').endswith('non-decomposable'):
        ctx.obs('non_decomposable')
    if 'beam' in cfg.get('rule_induction', ''):
        ctx.obs('beam')
    if cfg.get('sequential_post_optimization', 'false') != 'false':
        ctx.obs('seqopt')
