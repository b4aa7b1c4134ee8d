"""Extracts learned models into plain Python data and gives them an independent semantics (numpy only)."""
import ctypes
import os

import numpy as np

OPS = ('num<=', 'num>', 'ord<=', 'ord>', 'nom==', 'nom!=')
_ATTR = ('numerical_leq', 'numerical_gr', 'ordinal_leq', 'ordinal_gr', 'nominal_eq', 'nominal_neq')


class Rule:
    __slots__ = ('conds', 'idx', 'scores', 'complete', 'empty')

    def __init__(self):
        self.conds = []
        self.idx = None
        self.scores = None
        self.complete = False
        self.empty = False

    def key(self):
        return (tuple((o, int(f), float(t)) for o, f, t in self.conds), self.complete,
                None if self.idx is None else tuple(int(i) for i in self.idx), tuple(float(s) for s in self.scores))

    def __repr__(self):
        return f'{self.conds} => {dict(zip(map(int, self.indices()), map(float, self.scores)))}'

    def indices(self):
        return np.arange(len(self.scores)) if self.complete else self.idx


def extract(model, used=True):
    """All rules (or all used rules) of a model, in the order in which they are visited."""
    from mlrl.common.cython.rule_model import RuleModelVisitor

    class V(RuleModelVisitor):
        def __init__(self):
            self.rules = []
            self.cur = None

        def visit_empty_body(self, body):
            self.cur = Rule()
            self.cur.empty = True
            self.rules.append(self.cur)

        def visit_conjunctive_body(self, body):
            self.cur = Rule()
            for op, a in zip(OPS, _ATTR):
                ii = getattr(body, a + '_indices')
                tt = getattr(body, a + '_thresholds')
                if ii is not None:
                    for f, t in zip(ii, tt):
                        self.cur.conds.append((op, int(f), t.item()))
            self.rules.append(self.cur)

        def visit_complete_head(self, head):
            self.cur.complete = True
            self.cur.scores = np.array(head.scores, dtype=np.float64, copy=True)

        def visit_partial_head(self, head):
            self.cur.idx = np.array(head.indices, dtype=np.int64, copy=True)
            self.cur.scores = np.array(head.scores, dtype=np.float64, copy=True)

    v = V()
    if used:
        model.visit_used(v)
    else:
        model.visit(v)
    return v.rules


def cond_mask(x, op, t):
    """Which of the values in `x` (float32, NaN = missing) satisfy a condition.  A missing value satisfies nothing."""
    x = np.asarray(x, dtype=np.float32)
    ok = ~np.isnan(x)
    with np.errstate(invalid='ignore'):
        if op == 'num<=':
            return ok & (x <= np.float32(t))
        if op == 'num>':
            return ok & (x > np.float32(t))
        v = np.where(ok, np.trunc(np.where(ok, x, 0)), 0).astype(np.int64)
        t = int(t)
        if op == 'ord<=':
            return ok & (v <= t)
        if op == 'ord>':
            return ok & (v > t)
        if op == 'nom==':
            return ok & (v == t)
        if op == 'nom!=':
            return ok & (v != t)
    raise ValueError(op)


def covers(rule, X):
    m = np.ones(X.shape[0], dtype=bool)
    for op, f, t in rule.conds:
        m &= cond_mask(X[:, f], op, t)
    return m


def sum_scores(rules, X, m, max_rules=0):
    """The additive (boosting) semantics of a rule model."""
    S = np.zeros((X.shape[0], m), dtype=np.float64)
    rr = rules[:max_rules] if max_rules else rules
    for r in rr:
        c = covers(r, X)
        if c.any():
            ix = r.indices()
            S[np.ix_(c, ix)] += r.scores
    return S


def decision_list(rules, X, m, max_rules=0):
    """The decision-list (separate-and-conquer) semantics: the first covering rule that predicts for a label decides."""
    P = np.zeros((X.shape[0], m), dtype=np.int64)
    done = np.zeros((X.shape[0], m), dtype=bool)
    rr = rules[:max_rules] if max_rules else rules
    for r in rr:
        c = covers(r, X)
        for j, s in zip(r.indices(), r.scores):
            sel = c & ~done[:, j]
            P[sel, j] = 1 if s > 0 else 0
            done[sel, j] = True
    return P


class Trace:
    """Access to the event log of the hooks."""

    def __init__(self):
        import mlrl.common
        p = os.path.join(os.path.dirname(mlrl.common.__file__), 'cython', 'libmlrlcommon.so')
        self.lib = ctypes.CDLL(p)
        self.lib.mlrl_verif_log.restype = ctypes.c_char_p

    def start(self, evaluate=False):
        self.lib.mlrl_verif_reset(1, 1 if evaluate else 0)

    def stop(self):
        text = self.lib.mlrl_verif_log().decode()
        self.lib.mlrl_verif_reset(0, 0)
        ev = []
        for line in text.splitlines():
            p = line.split(' ')
            if p[0] in ('P', 'W'):
                ev.append((p[0], p[1], np.array([float(v) for v in p[2:]])))
            else:
                ev.append((p[0], np.array([float(v) for v in p[1:]])))
        return ev
