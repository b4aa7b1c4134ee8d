"""Structures the event log of a training run: partition, stopping tests and the rounds in which rules are induced."""
import numpy as np

COMP = ('num<=', 'num>', 'ord<=', 'ord>', 'nom==', 'nom!=')  # in the order of the enum of the C++ code


class Round:
    __slots__ = ('outputs', 'weights', 'zeros', 'steps', 'ok', 'post', 'index')

    def __init__(self):
        self.outputs = None
        self.weights = None  # None: all examples have equal weights
        self.zeros = False
        self.steps = []  # (sampled features, refinement (feature, op, threshold, covered) or None)
        self.ok = None
        self.post = False
        self.index = None

    def w(self, n):
        return np.ones(n, dtype=int) if self.weights is None else self.weights.astype(int)

    def conds(self):
        return [c[:3] for _, c in self.steps if c is not None]


class Run:
    __slots__ = ('n', 'train', 'hold', 'bi', 'tests', 'rounds', 'end')


def parse(ev, n):
    r = Run()
    r.n, r.tests, r.rounds, r.end = n, [], [], None
    r.train = r.hold = np.arange(n)
    r.bi = False
    cur, stopped, count = None, False, 0
    for e in ev:
        k = e[0]
        if k == 'P':
            if e[1] == 'bi':
                a = e[2].astype(int)
                r.bi, r.train, r.hold = True, a[3:3 + a[1]], a[3 + a[1]:3 + a[1] + a[2]]
        elif k == 'T':
            a = e[1]
            r.tests.append((int(a[0]), bool(a[1]), int(a[2]), a[3:]))
            stopped = bool(a[1])
        elif k == 'O':
            cur = Round()
            cur.outputs = e[1].astype(int)
            cur.post = stopped
        elif k == 'W':
            kind, z = e[1], e[2]
            cur.zeros = bool(z[0])
            if kind != 'equal':
                cur.weights = z[2:]
        elif k == 'F':
            cur.steps.append([e[1].astype(int), None])
        elif k == 'C':
            a = e[1]
            cur.steps[-1][1] = (int(a[0]), COMP[int(a[1])], float(a[2]), int(a[3]))
        elif k == 'R':
            cur.ok = bool(e[1][0])
            if not cur.post:
                cur.index = count
                count += cur.ok
                if not cur.ok:
                    stopped = True  # no further rules are added, only post-optimization may follow
            r.rounds.append(cur)
        elif k == 'E':
            r.end = e[1]
    return r
