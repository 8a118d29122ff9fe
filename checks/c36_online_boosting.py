"""Online boosting: how much weight a sample carries from member to member, and how the members vote."""
import numpy as np

from vp.spyload import Rates, Watch

LEVEL = 'exploration'
RULE = ('a case feeds one boosting ensemble, whose members are scripted spies of different accuracy, 150-900 random rows, '
        'recomputes from the observed trainings and answers of the members what weight the sample has when it reaches each '
        'member and what say each member has, and compares both with the counts and the scores; every case is non-trivial; '
        'distinct by ensemble and training counts')
REQUIRED = {'rows': 20000, 'trainings': 100000, 'rate_tests': 1000, 'votes': 6000, 'weighted': 10000}
ASSUMPTIONS = ['numbers of trainings are judged statistically, at 7 or more standard deviations',
               'members whose observed error is exactly 0 or 1 have no say',
               'a member updates its error only with samples it was trained on (RUSBoost: with all)']
NAMES = {'boosting': 'OnlineBoostingClassifier', 'adac2': 'OnlineAdaC2Classifier', 'csb2': 'OnlineCSB2Classifier',
         'rus1': 'OnlineRUSBoostClassifier', 'rus2': 'OnlineRUSBoostClassifier', 'rus3': 'OnlineRUSBoostClassifier'}


def cases(tier, seed):
    n = 16 if tier == 'quick' else 130
    return ([{'fam': f, 'i': i, 'seed': (seed * 6007 + i * 733 + 11 * j) % (2 ** 31)}
             for i in range(n) for j, f in enumerate(sorted(NAMES))]
            + [{'fam': 'csb2_published', 'i': 0, 'seed': 5}])


class Chain:
    """The weight of a sample along the chain of members, and the say of the members."""

    def __init__(self, fam, m, cp, cn, rate, published=False):
        self.fam, self.m, self.cp, self.cn, self.rate, self.published = fam, m, cp, cn, rate, published
        self.sc, self.sw, self.total = np.zeros(m), np.zeros(m), np.zeros(m)
        self.good, self.bad = np.zeros(m), np.zeros(m)
        self.pos, self.neg = np.zeros(m), np.zeros(m)
        self.eps, self.wacc, self.werr = np.zeros(m), np.zeros(m), np.zeros(m)
        self.n_pos = self.n_neg = 0

    def row(self, y, k, label):
        """Rates at which the members should have been trained; k and label are what was observed."""
        lam, out = 1.0, []
        for i in range(self.m):
            if self.fam.startswith('rus'):
                out.append(self.rus(i, y, lam))
            else:
                out.append(lam)
                self.total[i] += lam
                if k[i] == 0:
                    continue
            lam = getattr(self, self.fam[:3])(i, y, label[i], lam)
        return out

    def boo(self, i, y, label, lam):
        if label == y:
            self.sc[i] += lam
        else:
            self.sw[i] += lam
        e = self.eps[i] = self.sw[i] / (self.sw[i] + self.sc[i])
        if e == 0:
            return lam
        return lam / (2 * (1 - e)) if label == y else lam / (2 * e)

    def ada(self, i, y, label, lam):
        c = self.cp if y == 1 else self.cn
        (self.good if label == y else self.bad)[i] += c * lam
        self.wacc[i], self.werr[i] = self.good[i] / self.total[i], self.bad[i] / self.total[i]
        return c * lam / (2 * (self.wacc[i] if label == y else self.werr[i]))

    def csb(self, i, y, label, lam):
        c = self.cp if y == 1 else self.cn
        if label != y:
            self.bad[i] += (c if self.published else self.cp) * lam
            self.sw[i] += lam
        e, w = self.sw[i] / self.total[i], self.bad[i] / self.total[i]
        self.eps[i] = e
        if label != y:
            return c * lam / (e + w)
        if e + w == 0 or e == 1:
            return lam
        return (lam if self.published else 1.0) * e / ((1 - e) * (e + w))

    def rus(self, i, y, lam=None, lam_out=None):
        if lam_out is not None:      # called as the update: (i, y, label, lam)
            label, lam = lam, lam_out
            if label == y:
                self.sc[i] += lam
            else:
                self.sw[i] += lam
            e = self.eps[i] = self.sw[i] / (self.sc[i] + self.sw[i])
            if label == y:
                return lam / (2 * (1 - e)) if e != 1 else lam
            return lam / (2 * e) if e != 0 else lam
        if y == 1:
            self.pos[i] += lam
            self.n_pos += 1
        else:
            self.neg[i] += lam
            self.n_neg += 1
        p, n, C = self.pos[i], self.neg[i], self.rate
        if self.fam == 'rus3':
            return lam if y == 1 else lam / C
        share = self.n_pos / (self.n_pos + self.n_neg)
        if self.fam == 'rus2':
            return lam * share / (p / (p + n)) if y == 1 else lam * C * share / (n / (p + n))
        if y == 1:
            if self.n_neg == 0:
                return 1.0
            return lam * ((p + n) / (p + n * (C * (self.n_pos / self.n_neg))) * ((C + 1) * share))
        if self.n_pos == 0:
            return 1.0
        return lam * ((p + n) / (p + n * (self.n_neg / (self.n_pos * C))) * ((C + 1) * share))

    def say(self):
        a, b = (self.wacc, self.werr) if self.fam == 'adac2' else (1 - self.eps, self.eps)
        return [float(np.log(x / z)) if x > 0 and z > 0 else 0.0 for x, z in zip(a, b)]


def run(case, rec):
    from skmultiflow import meta
    r = np.random.RandomState(case['seed'])
    published = case['fam'] == 'csb2_published'
    fam = 'csb2' if published else case['fam']
    name = NAMES[fam]
    k = 2 if fam in ('adac2', 'csb2') else int(r.choice([2, 2, 3]))
    n = int(r.choice([1, 2, 3, 5, 8]))
    cp, cn = (1.0, float(r.choice([0.3, 0.7, 1.0]))) if r.rand() < 0.7 else (0.8, 1.2)
    rate = float(r.choice([0.5, 1, 2, 3.5]))
    if published:
        n, cp, cn = 5, 1.0, 0.3
    rs = int(r.randint(1000))
    drift = bool(r.randint(2)) and not published
    kw = dict(n_estimators=n, drift_detection=drift, random_state=rs)
    if fam in ('adac2', 'csb2'):
        kw.update(cost_positive=cp, cost_negative=cn)
    elif fam != 'boosting':
        kw.update(sampling_rate=rate, algorithm=int(fam[-1]))
    accs = r.uniform(0.45, 0.9, size=8)
    if r.rand() < 0.4:
        accs[r.randint(8)] = 0.99      # hardly ever wrong
    widths = [k, 1, k] if r.rand() < 0.3 else None     # the first member (number 1) knows a single class
    W = Watch(rec, name, lambda p: getattr(meta, name)(base_estimator=p, **kw), k, lambda u, s: accs[u % 8],
              lambda x: int(abs(x[0]) * 1e6) % k, widths)
    ch = None
    rates = Rates(rec, name)
    rows = int(r.choice([150, 400, 900]))
    weighted = r.rand() < 0.3
    prev = None
    j0 = 0
    while j0 < rows:
        b = 1 if drift else int(r.choice([1, 1, 2, 7]))
        X = r.normal(size=(b, 3))
        y = np.array([W.log.truth(x) for x in X])
        sw = r.uniform(0.5, 3, size=b) if weighted else None
        before, counts, labels, other, reset, seen, old = W.train(X, y, sw)
        m = len(old)
        if ch is None:
            rec.check(m == max(n, k), 'size:' + name, lambda: '%d members, %d expected' % (m, max(n, k)))
            ch = Chain(fam, m, cp, cn, rate, published)
        W.plain_labels(y, labels)
        rec.check(not other, 'row:' + name, lambda: 'member %d was trained on %s' % (other[0][0], other[0][1].tolist()))
        if weighted:
            W.weights(sw, seen)
            rec.count('weighted', len(seen))
        st = [list(s) for s in before]
        for j in range(b):
            lab = []
            for i in range(m):
                st[i][1] += counts[j, i]
                lab.append(W.log.all[old[i]].label_at(tuple(st[i]), X[j]))
            lams = ch.row(int(y[j]), counts[j], lab)
            for i in range(m):
                if lams[i] > 30:
                    continue
                g = ['all', 'member%d' % i, 'class%d' % y[j]]
                if i:
                    g.append('boosted' if lams[i] > 1.2 else 'damped' if lams[i] < 0.8 else 'even')
                rates.add(counts[j, i], lams[i], *g)
                if prev is not None:
                    rates.pair('in a row', prev[0], prev[1], counts[j, i], lams[i])
                prev = counts[j, i], lams[i]
        rec.key(name, counts)
        j0 += b
        if r.rand() < 0.15 or j0 >= rows:
            if published:
                published_votes(rec, W, ch, r.normal(size=(3, 3)))
            else:
                W.votes(r.normal(size=(3, 3)), ch.say())
    if not published:
        rates.judge()


def published_votes(rec, W, ch, Q):
    """CSB2 as published: a correctly classified sample keeps its weight as a factor, costs follow the class."""
    q = np.asarray(W.m.predict_proba(Q), dtype=float)
    for x, got in zip(Q, q):
        want = sum(s * W.spy(i).scores(x) for i, s in enumerate(ch.say()))
        t = want.sum()
        want = want / t if t > 0 else want
        rec.check(np.allclose(got, want, atol=1e-6), 'csb2-weights:' + W.name,
                  lambda: 'scores %s, by the published weights %s' % (got.tolist(), want.tolist()))
