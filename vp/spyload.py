"""Ensembles of spies: who was trained on what, who was replaced, how the votes were added up."""
import warnings

import numpy as np

from .spy import Log, Spy


class Watch:
    """Drives an ensemble whose members are spies and turns the log into (row, member) training counts."""

    def __init__(self, rec, name, build, k, acc=None, truth=None, widths=None, classes=None):
        self.rec, self.name, self.k = rec, name, k
        self.log = Log(acc, truth)
        self.proto = Spy(self.log, k, widths)
        self.m = build(self.proto)
        self.pos = None                  # position -> uid
        self.classes = list(range(k)) if classes is None else classes
        self.first = True
        self.n_calls = 0

    def spy(self, i):
        return self.log.all[self.pos[i]]

    def _find(self, x):
        self.log.take()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.m.predict_proba(x)
        now = []
        for e in self.log.take():
            if e[0] in ('proba', 'predict') and e[1] not in now:
                now.append(e[1])
        return now

    def train(self, X, y, w=None):
        """One partial_fit call. Returns a list per row and member of the number of trainings (and other trainings)."""
        rec = self.rec
        self.log.take()
        if self.pos is None:
            before = None
        else:
            before = [self.spy(i).state() for i in range(len(self.pos))]
        kw = {} if w is None else {'sample_weight': w}
        if self.first or self.n_calls % 5 == 0:
            kw['classes'] = self.classes
        self.first = False
        self.n_calls += 1
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.m.partial_fit(X, y, **kw)
        ev = self.log.take()
        now = self._find(X[:1])
        if self.pos is None:
            self.pos = sorted(now)
            before = [(self.log.all[u].resets - sum(e[0] == 'reset' and e[1] == u for e in ev), 0) for u in self.pos]
        old = list(self.pos)
        gone = [u for u in self.pos if u not in now]
        new = [u for u in now if u not in self.pos]
        if gone or new:
            ok = len(gone) == len(new) == 1
            rec.check(ok, 'members:' + self.name, lambda: 'members %s became %s' % (self.pos, now))
            if ok:
                self.pos[self.pos.index(gone[0])] = new[0]
        at = {u: i for i, u in enumerate(old)}
        rows = {r.tobytes(): j for j, r in enumerate(np.asarray(X, dtype=float))}
        counts = np.zeros((len(X), len(old)), dtype=int)
        other, labels, weights = [], {}, []
        last = {}
        for e in ev:
            if e[0] not in ('train', 'fit'):
                continue
            i = at.get(e[1])
            if i is None:
                rec.fail('stranger:' + self.name, 'trained something that is not a member of the ensemble')
                continue
            if len(e[2]) != 1:
                other.append((i, e[2], e[3]))
                continue
            j = rows.get(e[2][0].tobytes())
            if j is None:
                other.append((i, e[2], e[3]))
                continue
            rec.check(j >= last.get(i, 0), 'order:' + self.name, lambda: 'member %d got row %d after row %d' %
                      (i, j, last[i]))
            last[i] = j
            counts[j, i] += 1
            labels.setdefault((j, i), set()).add(int(e[3][0]))
            weights.append((j, e[5]))
        reset = [at[e[1]] for e in ev if e[0] == 'reset' and e[1] in at]
        reset += [old.index(u) for u in gone]
        rec.count('rows', len(X))
        rec.count('trainings', int(counts.sum()))
        return before, counts, labels, other, sorted(set(reset)), weights, old

    def plain_labels(self, y, labels):
        for (j, i), ls in labels.items():
            self.rec.check(ls == {int(y[j])}, 'label:' + self.name,
                           lambda: 'member %d learned row %d of class %d as %s' % (i, j, int(y[j]), ls))

    def weights(self, w, seen):
        for j, got in seen:
            want = None if w is None else [w[j]]
            ok = got is None if want is None else (got is not None and len(np.ravel(got)) == 1
                                                   and float(np.ravel(got)[0]) == float(w[j]))
            self.rec.check(ok, 'weight:' + self.name, lambda: 'weight %s of row %d reached a member as %s' %
                           (want, j, got))

    def votes(self, Q, weight=None):
        """The answers are the (weighted) sums of the members' scores."""
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            q = np.asarray(self.m.predict_proba(Q), dtype=float)
            p = np.asarray(self.m.predict(Q))
        for r, x in enumerate(Q):
            want = np.zeros(self.k)
            for i in range(len(self.pos)):
                s = self.spy(i).scores(x)
                want[:len(s)] += s * (1.0 if weight is None else weight[i])
            judge_votes(self.rec, self.name, want, q[r], p[r])


def judge_votes(rec, name, want, got, label):
    total = want.sum()
    if abs(total) < 1e-9 * max(1.0, np.abs(want).max()):
        return
    if total > 0:
        want = want / total
    g = np.zeros(len(want))
    g[:len(got)] = got[:len(want)]
    rec.check(len(got) <= len(want) and np.allclose(g, want, rtol=1e-6, atol=1e-7 * max(1.0, np.abs(want).max())),
              'votes:' + name, lambda: 'scores %s, the members\' votes are %s' % (np.asarray(got).tolist(), want.tolist()))
    rec.check(want[int(label)] >= want.max() - 1e-6 * max(1.0, np.abs(want).max()), 'argmax:' + name,
              lambda: 'label %s although the votes are %s' % (label, want.tolist()))
    rec.count('votes')


class Rates:
    """Are the counts drawn independently from Poisson distributions with the given rates?"""

    def __init__(self, rec, name):
        self.rec, self.name = rec, name
        self.g = {}
        self.last = {}

    def add(self, k, lam, *groups):
        lam = float(lam)
        for g in groups:
            a = self.g.setdefault(g, np.zeros(7))
            a += (1, k - lam, lam, (k == 0) - np.exp(-lam), np.exp(-lam) * (1 - np.exp(-lam)),
                  k * (k - 1) - lam ** 2, 4 * lam ** 3 + 2 * lam ** 2)

    def pair(self, what, k1, lam1, k2, lam2):
        a = self.g.setdefault(('pair', what), np.zeros(2))
        a += ((k1 - lam1) * (k2 - lam2), lam1 * lam2)

    def judge(self, limit=7.0):
        for g, a in self.g.items():
            if len(a) == 2:
                if a[1] > 300:
                    z = a[0] / np.sqrt(a[1])
                    self.rec.check(abs(z) < limit + 1.5, 'dependent:%s' % self.name,
                                   lambda: 'the numbers of trainings (%s) depend on each other: z=%.1f' % (g[1], z))
                    self.rec.count('rate_tests')
                continue
            n = int(a[0])
            for what, d, v, least, lim in (('mean', a[1], a[2], 60, limit), ('zeros', a[3], a[4], 30, limit),
                                           ('spread', a[5], a[6], 400, limit + 2)):
                if v < least or n < 100:
                    continue
                z = d / np.sqrt(v)
                self.rec.check(abs(z) < lim, 'rate:%s' % self.name,
                               lambda: '%s of the %d training counts (%s) is off by %.1f sigma (%+.3f per count)' %
                               (what, n, g, z, d / n))
                self.rec.count('rate_tests')


class Lockstep:
    """ADWIN per member, fed with the member's errors; says which members may be replaced."""

    def __init__(self, delta=None, invert=False):
        from skmultiflow.drift_detection import ADWIN
        self.new = (lambda: ADWIN()) if delta is None else (lambda: ADWIN(delta))
        self.ad = {}
        self.invert = invert

    def estimate(self, i):
        return self.ad.setdefault(i, self.new()).estimation

    def step(self, errors):
        """errors: per position 0/1 after training on one row. Returns the set of positions one of which must be replaced
        (empty: none)."""
        change = False
        for i, err in enumerate(errors):
            a = self.ad.setdefault(i, self.new())
            e0 = a.estimation
            a.add_element(int(err != self.invert))
            if a.detected_change() and a.estimation > e0:
                change = True
        if not change:
            return set()
        top = max(a.estimation for a in self.ad.values())
        if top <= 0:
            return set()
        return {i for i, a in self.ad.items() if a.estimation >= top - 1e-12}

    def replaced(self, i):
        self.ad[i] = self.new()
