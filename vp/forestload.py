"""Forests and random patches under watch: scripted detectors, logged base learners, a state machine per member."""
import contextlib

import numpy as np

from .spy import Log, Spy, _h
from .spyload import Rates


def detector_class():
    from skmultiflow.drift_detection.base_drift_detector import BaseDriftDetector

    class Scripted(BaseDriftDetector):
        """Fires at pseudo-random moments fixed by its number; logs what it is fed."""

        def __init__(self, log=None, role='drift', mean=30):
            super().__init__()
            self.log, self.role, self.mean = log, role, mean
            self._born()

        def _born(self):
            self.uid = next(self.log.dets)
            self.n = 0

        def __deepcopy__(self, memo):
            return type(self)(self.log, self.role, self.mean)

        def reset(self):
            super().reset()
            self._born()

        def add_element(self, v):
            self.n += 1
            self.fired = _h('d', self.role, self.uid, self.n) < 1.0 / self.mean
            self.in_concept_change = self.fired
            self.log.events.append((self.role, float(np.ravel(v)[0]), self.n, self.fired))

        def detected_change(self):
            return bool(self.n and self.fired)

        def get_length_estimation(self):
            return None
    Scripted.__name__ = 'ScriptedDetector'
    return Scripted


class PatchSpy(Spy):
    """A spy that can be cloned (every clone starts afresh)."""

    def __init__(self, log, k=2, widths=None, fits=True):
        super().__init__(log, k, widths, fits)
        log.events.append(('new', self.uid))


@contextlib.contextmanager
def logged(cls, log):
    """Logs construction, training and resets of every instance of a learner class."""
    ids, keep = {}, []

    def uid(o):
        if id(o) not in ids:
            ids[id(o)] = len(keep)
            keep.append(o)
            log.all[ids[id(o)]] = o
            log.events.append(('new', ids[id(o)]))
        return ids[id(o)]
    saved = {m: cls.__dict__.get(m) for m in ('__init__', 'partial_fit', 'reset')}
    orig = {m: getattr(cls, m) for m in saved}
    depth = {'n': 0}

    def init(self, *a, **k):
        orig['__init__'](self, *a, **k)
        uid(self)

    def fit(self, X, y, *a, **k):
        if depth['n'] == 0:
            w = k.get('sample_weight', a[-1] if a else None)
            log.events.append(('train', uid(self), np.array(X, dtype=float), np.array(y, dtype=float).ravel(), None,
                               None if w is None else np.array(w, dtype=float)))
        depth['n'] += 1
        try:
            return orig['partial_fit'](self, X, y, *a, **k)
        finally:
            depth['n'] -= 1

    def reset(self, *a, **k):
        log.events.append(('reset', uid(self)))
        return orig['reset'](self, *a, **k)
    cls.__init__, cls.partial_fit, cls.reset = init, fit, reset
    try:
        yield
    finally:
        for m, f in saved.items():
            if f is None:
                delattr(cls, m)
            else:
                setattr(cls, m, f)


class Member:
    def __init__(self, uid):
        self.uid, self.bg = uid, None
        self.feat = self.bg_feat = None
        self.good = self.total = 0.0
        self.cm = {}
        self.stats = [0, 0.0, 0.0]       # rows, squared, absolute error
        self.bg_stats = [0, 0.0, 0.0]
        self.norm = []                   # inputs of the detectors since the last drift
        self.n_drift = self.n_warn = 0


    def saw(self, label, y, w):
        self.good += w * (label == y)
        self.total += w
        self.cm[int(label), int(y)] = self.cm.get((int(label), int(y)), 0.0) + w

    def accuracy(self):
        return self.good / self.total if self.total else 0.0

    def kappa(self):
        n = self.total
        if not n:
            return 0.0
        labs = {a for c in self.cm for a in c}
        pe = sum(sum(v for c, v in self.cm.items() if c[0] == a) * sum(v for c, v in self.cm.items() if c[1] == a)
                 for a in labs) / n / n
        return (self.accuracy() - pe) / (1 - pe) if pe < 1 - 1e-12 else 0.0


class Machine:
    """Follows the members through the log of one training row."""

    def __init__(self, rec, name, log, members, lam, warn, drift, subset=None, features=None, fixed=None):
        self.rec, self.name, self.log = rec, name, log
        self.mem = [Member(u) for u in members]
        self.lam, self.warn, self.drift = lam, warn, drift
        self.subset, self.features, self.fixed = subset, features, fixed
        self.rates = Rates(rec, name)
        self.prev = None

    def _feat(self, row, x):
        """Which features of the row a member was given."""
        if self.subset is None:
            ok = np.array_equal(row, x)
            self.rec.check(ok, 'row:' + self.name, lambda: 'a member was trained on %s instead of %s' %
                           (row.tolist(), x.tolist()))
            return None
        at = []
        for v in row:
            hit = np.flatnonzero(x == v)
            at.append(int(hit[0]) if len(hit) else -1)
        self.rec.check(-1 not in at and len(set(at)) == len(at) == self.subset, 'subspace:' + self.name,
                       lambda: 'a member was given the features %s of %d; %d expected' % (at, len(x), self.subset))
        return tuple(at)

    def row(self, ev, x, y, pre, wt, error_of):
        """ev: events of one partial_fit call with one row. pre: what the members predicted before it.
        error_of(member, before_prediction, bg): value the detectors must see (None: cannot be told any more)."""
        rec, name = self.rec, self.name
        main = {m.uid: m for m in self.mem}
        back = {m.bg: m for m in self.mem if m.bg is not None}
        cur, done, fresh, pend = None, {}, [], []
        for e in ev:
            if e[0] == 'train':
                if e[1] in main and main[e[1]] not in done:
                    cur = main[e[1]]
                    done[cur] = dict(k=self._weight(e, y), bg=False, warn=0, drift=0)
                    f = self._feat(e[2][0], x)
                    if cur.feat is None:
                        cur.feat = f
                    rec.check(cur.feat == f, 'subspace:' + name, lambda: 'the features of a member changed from %s to %s' %
                              (cur.feat, f))
                elif e[1] in back and back[e[1]] is cur and not done[cur]['bg']:
                    rec.check(self._weight(e, y) == done[cur]['k'], 'background:' + name,
                              'a background learner is trained with another weight than its member')
                    f = self._feat(e[2][0], x)
                    if cur.bg_feat is None:
                        cur.bg_feat = f
                    rec.check(cur.bg_feat == f, 'subspace:' + name, 'the features of a background learner changed')
                    done[cur]['bg'] = True
                    rec.count('background_trainings')
                else:
                    rec.fail('stranger:' + name, 'learner %s was trained, which is neither a member nor the background '
                             'learner of the member at work' % e[1])
            elif e[0] == 'new':
                fresh.append(e[1])
            elif e[0] == 'reset':
                pend.append(e[1])
            elif e[0] in ('warn', 'drift'):
                if cur is None or not (self.drift if e[0] == 'drift' else self.warn and self.drift):
                    rec.fail('detector:' + name, 'a detector is used that should not be')
                    continue
                d = done[cur]
                d[e[0]] += 1
                d.setdefault('values', []).append(e[1])
                n0 = cur.n_drift if e[0] == 'drift' else cur.n_warn
                rec.check(e[2] == n0 + 1, 'detector:' + name, lambda: (
                    'the %s detector of a member holds %d inputs, %d expected' % (e[0], e[2], n0 + 1)))
                if e[0] == 'drift':
                    cur.n_drift += 1
                else:
                    cur.n_warn += 1
                if e[3]:
                    d['fired_' + e[0]] = True
                    if e[0] == 'drift':
                        d['mark'] = (list(fresh), list(pend))
                        d['had_bg'] = cur.bg if not d.get('fired_warn') else 'new'
        # what followed
        for m, d in done.items():
            self._follow(m, d, fresh, pend)
        for m in self.mem:
            if m not in done:
                rec.check(self.fixed is None, 'rate:' + name, 'a member was not trained on a row')
        ks = [done[m]['k'] if m in done else 0 for m in self.mem]
        if self.fixed is None:
            for i, k in enumerate(ks):
                self.rates.add(k, self.lam, 'all', 'member%d' % i)
                if self.prev is not None:
                    self.rates.pair('in a row', self.prev, self.lam, k, self.lam)
                self.prev = k
        rec.count('rows')
        rec.count('trainings', len(done))
        return done

    def _weight(self, e, y):
        rec, name = self.rec, self.name
        rec.check(len(e[2]) == 1 and e[3].tolist() == [float(y)], 'row:' + name,
                  lambda: 'a member learned the label %s instead of %s' % (e[3], y))
        w = None if e[5] is None else np.ravel(e[5])
        ok = w is not None and len(w) == 1 and w[0] == int(w[0]) and w[0] >= 1
        if self.fixed is not None:
            ok = w is None or (len(w) == 1 and w[0] == self.fixed)
            w = [self.fixed]
        rec.check(ok, 'rate:' + name, lambda: 'a member was trained with the weight %s' % e[5])
        return int(w[0]) if ok else 1

    def _follow(self, m, d, fresh, pend):
        rec, name = self.rec, self.name
        if m.bg is not None:
            rec.check(d['bg'], 'background:' + name, 'a background learner was not trained with its member')
        if self.drift:
            rec.check(d['drift'] == 1 and d['warn'] == (1 if self.warn else 0), 'detector:' + name,
                      lambda: 'the detectors of a member got %d and %d inputs for one training' % (d['drift'], d['warn']))
        m.old = m.uid
        m.reset_in_place = False
        if d.get('fired_warn'):
            rec.count('warnings')
            m.n_warn = 0
            m.bg = 'new'
            m.bg_feat = None
            m.bg_stats = [0, 0.0, 0.0]
        if d.get('fired_drift'):
            rec.count('drifts')
            m.n_drift = 0
            if self.warn and m.bg is not None:
                m.uid, m.feat, m.stats = m.bg, m.bg_feat, m.bg_stats
                m.bg = m.bg_feat = None
                m.bg_stats = [0, 0.0, 0.0]
                m.n_warn = 0
                rec.count('promotions')
            else:
                m.uid, m.feat, m.stats = 'reset', None, [0, 0.0, 0.0]
                m.reset_in_place = True
            m.good = m.total = 0.0
            m.cm = {}
            m.norm = []

    def resolve(self, ev, done):
        """Puts numbers on the learners made in this call."""
        rec, name = self.rec, self.name
        made = [e[1] for e in ev if e[0] == 'new']
        reset = [e[1] for e in ev if e[0] == 'reset']
        for m, d in done.items():
            new = None
            if d.get('fired_warn'):
                rec.check(bool(made), 'background:' + name, 'no background learner was made after a warning')
                new = made.pop(0) if made else None
                if m.bg == 'new':
                    m.bg = new
                if m.uid == 'new':
                    m.uid = new
            if m.uid == 'reset':
                if m.old in reset:
                    m.uid = m.old
                else:
                    rec.check(bool(made), 'replaced:' + name, 'a member drifted, but was neither reset nor replaced')
                    m.uid = made.pop(0) if made else m.old
            elif m.old in reset:
                rec.fail('replaced:' + name, 'a member was reset although %s' %
                         ('it has a background learner' if d.get('fired_drift') else 'it did not drift'))
