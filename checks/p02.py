"""P02: no data races, whatever is done in parallel."""
import numpy as np

import gen
import omp
from calls import predictors, snapshot
from model import extract

FLAVORS = ('tsan', )
CASES = {'quick': 1200, 'thorough': 25000}
RULE = 'random estimators are trained and queried with 2 to 8 threads under ThreadSanitizer, on top of a runtime for OpenMP that ' \
       'hands out work without ordering it and delays threads at random; any report is a violation; non-trivial: several threads ' \
       'did work in the same region; distinct by schedule'
ASSUMPTIONS = ['ThreadSanitizer sees accesses of the libraries of this project (not of BLAS/LAPACK or numpy)',
               'regions that are not compiled with multi-threading support in the regular build are not parallel here either']
REQUIRE = {'regions': 12000, 'shared_regions': 7000, 'chunks': 200000, 'sparse': 150, 'seco': 150, 'non_decomposable': 180,
           'beam': 80, 'seqopt': 80}
CASE_TIMEOUT = 240

SIZES = [dict(n=(10, 60), f=(3, 8)), dict(n=(10, 60), f=(3, 8)), dict(n=(100, 250), f=(2, 4)), dict(n=(10, 40), f=(10, 20)),
         dict(n=(10, 40), f=(2, 6), m=(6, 12))]


def threaded(rng, cfg, kind):
    for k in ('parallel_rule_refinement', 'parallel_statistic_update', 'parallel_prediction'):
        cfg[k] = f'true{{num_preferred_threads={int(rng.integers(2, 9))}}}' if rng.random() < .9 else 'true'


def run_case(i, rng, ctx):
    kind, d, cfg = gen.random_learner(rng, rules=(2, 8), data_kw=SIZES[int(rng.integers(len(SIZES)))], p=dict(
        fsamp=.5, isamp=.4, osamp=.3, holdout=.3, irep=.2, prune=.2, seqopt=.15, lbin=.2, fbin=.15, stat=.5, head=.7, beam=True))
    if rng.random() < .6:
        cfg['feature_sampling'] = 'none'
    if 'beam' in cfg.get('rule_induction', ''):
        if cfg.get('feature_binning', 'none') != 'none':
            cfg['feature_binning'] = 'none'  # K2
        if cfg.get('rule_pruning') == 'irep' or cfg.get('sequential_post_optimization', 'false') != 'false' or kind == 'seco':
            d.nominal, d.ordinal = [], []  # K5
    threaded(rng, cfg, kind)
    if kind == 'clf':
        predictors(rng, cfg, .3)
    ctx.describe(f'{kind} {cfg} {d.desc()}')
    rt = omp.get()
    before = rt.stats()
    rt.config(int(rng.integers(1 << 30)), int(rng.choice([0, 1, 2, 2])))
    X, Y = d.X, d.Y
    u = rng.random()
    if u < .4 and not d.nominal and not d.ordinal:
        X = gen.to_sparse(X, str(rng.choice(['csr', 'csc'])))
        ctx.obs('sparse')
    if rng.random() < .25:
        Y = gen.to_sparse(Y, 'csr')
    c = gen.learner(kind, cfg, d)
    c.fit(X, Y)
    snapshot(kind, cfg, c, np.vstack([d.X, d.Xq]))
    s = rt.stats()
    ctx.obs('regions', s[0] - before[0])
    ctx.obs('shared_regions', s[1] - before[1])
    ctx.obs('chunks', s[2] - before[2])
    if s[1] > before[1]:
        ctx.distinct(s[3])
    if kind == 'seco':
        ctx.obs('seco')
    if cfg.get('loss', '').endswith('non-decomposable'):
        ctx.obs('non_decomposable')
    if 'beam' in cfg.get('rule_induction', ''):
        ctx.obs('beam')
    if cfg.get('sequential_post_optimization', 'false') != 'false':
        ctx.obs('seqopt')
    extract(c.model_)
