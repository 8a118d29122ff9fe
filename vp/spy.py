"""Scripted base learners that log every call an ensemble makes on them.

A spy never learns: its scores are a fixed pseudo-random function of (member number, number of resets, number of
trainings since the last reset, row), so members disagree with each other and change as they are trained, and an
oracle can recompute what any member answers at any moment without asking it. Members are numbered in the order in
which they are copied from the prototype."""
import itertools
import zlib

import numpy as np


class Log:
    def __init__(self, acc=None, truth=None):
        self.events = []
        self.ids = itertools.count()
        self.all = {}
        self.acc, self.truth = acc, truth   # acc(uid, resets) -> chance of answering truth(x)

    def __deepcopy__(self, memo):
        return self

    def take(self):
        e, self.events = self.events, []
        return e


def _h(*parts):
    s = ','.join(p.tobytes().hex() if isinstance(p, np.ndarray) else repr(p) for p in parts)
    return (zlib.crc32((s + ';' + s).encode()) & 0xffffffff) / 2.0 ** 32


class Spy:
    _estimator_type = 'classifier'

    def __init__(self, log, k=2, widths=None, fits=True):
        self.log, self.k, self.widths, self.fits = log, k, widths, fits
        self.uid = next(log.ids)
        log.all[self.uid] = self
        self.n = 0                   # trainings since the last reset
        self.resets = 0
        self.rows = []               # what it was trained on since the last reset: (row, label)
        self.given = []              # the arrays it was handed to learn, by reference, and what they held

    def __deepcopy__(self, memo):
        c = type(self)(self.log, self.k, self.widths, self.fits)
        c.n = self.n
        c.resets = self.resets
        c.rows = list(self.rows)
        self.log.events.append(('copy', self.uid, c.uid))
        return c

    def get_params(self, deep=True):
        return {'log': self.log, 'k': self.k, 'widths': self.widths, 'fits': self.fits}

    def reset(self):
        self.n = 0
        self.rows = []
        self.resets += 1
        self.log.events.append(('reset', self.uid))
        return self

    def partial_fit(self, X, y, classes=None, sample_weight=None):
        return self._learn('train', X, y, classes, sample_weight)

    def fit(self, X, y, classes=None, sample_weight=None):
        if self.fits:                # like scikit-learn; otherwise like ClassifierMixin.fit, which goes on learning
            self.n = 0
            self.rows = []
        return self._learn('fit', X, y, classes, sample_weight)

    def intact(self):
        """Whether the samples it was handed (which a learner may keep) still are what they were."""
        return all(np.array_equal(a, b) for a, b in self.given)

    def _learn(self, what, X, y, classes, sample_weight):
        for a in (X, y):
            if isinstance(a, np.ndarray):
                self.given.append((a, a.copy()))
        self.given = self.given[-8:]
        X = np.array(X, dtype=float)
        y = np.array(y).ravel()
        self.n += len(X)
        self.log.events.append((what, self.uid, X, y, None if classes is None else list(classes),
                                None if sample_weight is None else np.array(sample_weight, dtype=float),
                                self.state()))
        self.rows += list(zip(X.tolist(), y.tolist()))
        return self

    # answers
    def state(self):
        return self.resets, self.n

    def scores_at(self, state, x):
        """The distribution this member gives to one row when in the given state."""
        resets, n = state
        x = np.asarray(x, dtype=float)
        p = np.array([_h('s', self.uid, resets, n, x, c) for c in range(self.k)]) + 1e-3
        if self.log.acc is not None and _h('a', self.uid, resets, n, x) < self.log.acc(self.uid, resets):
            p[int(self.log.truth(x))] += 2.0
        if self.widths is not None:
            p = p[:self.widths[self.uid % len(self.widths)]]
        return p / p.sum()

    def scores(self, x):
        return self.scores_at(self.state(), x)

    def label_at(self, state, x):
        return int(np.argmax(self.scores_at(state, x)))

    def label(self, x):
        return self.label_at(self.state(), x)

    def predict(self, X):
        X = np.atleast_2d(np.array(X, dtype=float))
        self.log.events.append(('predict', self.uid, X, self.state()))
        return np.array([self.label(x) for x in X])

    def predict_proba(self, X):
        X = np.atleast_2d(np.array(X, dtype=float))
        self.log.events.append(('proba', self.uid, X, self.state()))
        return np.array([self.scores(x) for x in X])
