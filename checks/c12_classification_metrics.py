"""C12: classification performance trackers equal a batch recomputation over the tracked samples."""
from collections import deque

import numpy as np

from vp import driftload

LEVEL = 'exploration'
RULE = ('an evaluation is one metric of one tracker compared with a recomputation from the raw '
        '(true, predicted, weight) log at one point of a history; distinct = digests of the tracked '
        'log at the compared points')
REQUIRED = {'results_added': 20000, 'comparisons': 5000, 'window_full': 1000, 'new_class_events': 100,
            'resets': 50}
ASSUMPTIONS = ['majority ties go to either class']


def cases(tier, seed):
    k = 150 if tier == 'quick' else 1500
    fams = ['cumulative', 'window', 'legacy', 'legacy_window']
    return [{'fam': f, 'i': i, 'seed': seed} for f in fams for i in range(k)]


class Model:
    """Raw log; every metric recomputed from scratch."""

    def __init__(self, n_classes, window, legacy=False):
        self.init, self.window, self.legacy = n_classes, window, legacy
        self.reset()

    def reset(self):
        self.log = deque(maxlen=self.window)
        self.classes = set(range(self.init))
        self.last = None if self.legacy else 0
        self.last_pred = None if self.legacy else 0
        self.maj_ambiguous = 0

    def rows(self, log):
        d = {}
        for t, p, w, *_ in log:
            d[t] = d.get(t, 0.0) + w
        return d

    def majority(self, log):
        d = self.rows(log)
        d = {c: w for c, w in d.items() if w > 0}
        if not d:
            return {0}
        m = max(d.values())
        return {c for c, w in d.items() if w == m}

    def add(self, t, p, w):
        self.classes |= {t, p}
        nochange = self.last == t
        before = list(self.log)
        if self.window is not None and len(before) == self.window:
            before = before[1:]
        if self.legacy and self.window is not None:
            m = self.majority(before)
        else:
            m = self.majority(before + [(t, p, w)])
        lo = m == {t}
        hi = t in m
        self.log.append((t, p, w, lo, hi, nochange))
        self.last, self.last_pred = t, p
        
    def metrics(self):
        L = list(self.log)
        n = len(L)
        out = {}
        cm = {}
        for t, p, w, *_ in L:
            cm[t, p] = cm.get((t, p), 0.0) + w
        row = {c: sum(v for (t, p), v in cm.items() if t == c) for c in self.classes}
        col = {c: sum(v for (t, p), v in cm.items() if p == c) for c in self.classes}
        out['cm'] = cm
        div = lambda a, b: a / b if b > 0 else 0.0
        prec = {c: div(cm.get((c, c), 0.0), col[c]) for c in self.classes}
        rec = {c: div(cm.get((c, c), 0.0), row[c]) for c in self.classes}
        f1 = {c: div(2 * prec[c] * rec[c], prec[c] + rec[c]) for c in self.classes}
        out['prec'], out['rec'], out['f1'] = prec, rec, f1
        if len(self.classes) == 2:
            out['precision'], out['recall'], out['f1_score'] = prec[1], rec[1], f1[1]
        else:
            mean = lambda d: sum(d.values()) / len(self.classes)
            out['precision'], out['recall'], out['f1_score'] = mean(prec), mean(rec), mean(f1)
        out['gmean'] = float(np.prod(list(rec.values()))) ** (1.0 / len(self.classes))
        out['majority'] = self.majority(L)
        n = sum(x[2] for x in L)             # everything counts by weight
        if n > 0:
            acc = sum(w for t, p, w, *_ in L if t == p) / n
            pe = sum(row[c] * col[c] for c in self.classes) / n / n
            ill = 1.0 if self.legacy else 0.0
            kap = lambda pe: (acc - pe) / (1 - pe) if pe < 1 - 1e-12 else ill
            out['accuracy'] = acc
            out['kappa'] = kap(pe)
            out['kappa_t'] = kap(sum(x[2] * x[5] for x in L) / n)
            lo, hi = sum(x[2] * x[3] for x in L), sum(x[2] * x[4] for x in L)
            out['kappa_m'] = (kap(lo / n), kap(hi / n), lo == hi)
        else:
            out['accuracy'] = out['kappa'] = out['kappa_t'] = 0.0
            out['kappa_m'] = (0.0, 0.0, True)
        return out


def workload(r, n):
    k = int(r.choice([2, 2, 3, 5]))
    style = r.randint(5)
    acc = r.uniform(0, 1)
    t = r.randint(0, k, n)
    if style == 1:
        t = np.repeat(r.randint(0, k, n // 10 + 1), 10)[:n]
    elif style == 2:
        t = np.full(n, r.randint(k))
    elif style == 3:
        t = np.minimum(np.arange(n) * k // n, k - 1)         # classes emerge over time
    p = np.where(r.uniform(size=n) < acc, t, r.randint(0, k, n))
    if style == 4:
        p = np.full(n, r.randint(k))
    return k, t, p


def run(case, rec):
    import skmultiflow.metrics as M
    r = driftload.rng(case)
    fam = case['fam']
    n = 260
    k, T, P = workload(r, n)
    win = int(r.choice([1, 2, 7, 30, 200])) if 'window' in fam else None
    legacy = fam.startswith('legacy')
    init = 2 if legacy else int(r.choice([2, 2, k, k + 1]))
    if legacy:
        T, P = T % 2, P % 2
    weights = (not legacy) and r.randint(3) == 0
    W = r.choice([0.25, 0.5, 1.0, 2.0, 8.0], n) if weights else np.ones(n)
    if weights:
        W *= 2.0 ** r.choice([0, 0, -14, 9])           # exact sums at every scale
    if legacy:
        ev = M.WindowClassificationMeasurements(window_size=win) if win else \
            M.ClassificationMeasurements()
    elif win:
        ev = M.WindowClassificationPerformanceEvaluator(n_classes=init, window_size=win)
    else:
        ev = M.ClassificationPerformanceEvaluator(n_classes=init)
    other = type(ev)()                       # a bystander tracker must stay empty
    m = Model(init, win, legacy)
    resets = set(r.randint(1, n, 2).tolist()) if r.randint(2) else set()
    rec.sample(family=fam, classes=k, initial=init, window=win, weighted=bool(weights))
    if not legacy:
        compare(rec, ev, m, fam, -1)
    for i in range(n):
        if i in resets:
            ev.reset()
            m.reset()
            rec.count('resets')
            if not legacy:
                compare(rec, ev, m, fam, i)
        t, p, w = int(T[i]), int(P[i]), float(W[i])
        known = len(m.classes)
        if weights:
            ev.add_result(t, p, w)
        else:
            ev.add_result(t, p)
        m.add(t, p, w)
        rec.count('results_added')
        rec.count('new_class_events', len(m.classes) > known)
        rec.count('window_full', win is not None and len(m.log) == win)
        if i % 3 == 0 or i > n - 3 or (win and win < 10) or i - 1 in resets:
            (compare_legacy if legacy else compare)(rec, ev, m, fam, i)
            if i % 9 == 0:
                rec.key(win, [x[:3] for x in list(m.log)[-50:]], init)
    rec.check((other.sample_count if legacy else other.n_samples) == 0, 'metrics:%s:shared' % fam)


def compare(rec, ev, m, fam, i):
    s = 'metrics:%s:' % fam
    e = m.metrics()
    at = 'after result %d' % i
    rec.count('comparisons')
    rec.same(int(ev.n_samples), len(m.log), s + 'n_samples', at)
    rec.same(int(ev.confusion_matrix.n_classes), len(m.classes), s + 'n_classes', at)
    rec.close(ev.precision_score(), e['precision'], s + 'precision', at)
    rec.close(ev.recall_score(), e['recall'], s + 'recall', at)
    rec.close(ev.f1_score(), e['f1_score'], s + 'f1', at)
    rec.close(ev.geometric_mean_score(), e['gmean'], s + 'geometric_mean', at)
    for c in m.classes:
        rec.close(ev.precision_score(c), e['prec'][c], s + 'precision_of_class', at)
        rec.close(ev.recall_score(c), e['rec'][c], s + 'recall_of_class', at)
        rec.close(ev.f1_score(c), e['f1'][c], s + 'f1_of_class', at)
        for d in m.classes:
            rec.close(ev.confusion_matrix[c, d], e['cm'].get((c, d), 0.0), s + 'matrix', at)
    rec.check(int(ev.majority_class()) in e['majority'], s + 'majority', lambda: '%s: majority %r, '
              'expected one of %r' % (at, ev.majority_class(), e['majority']))
    rec.close(ev.total_weight_observed, sum(x[2] for x in m.log), s + 'weight', at)
    rec.same(tuple(map(int, ev.get_last())), (m.last, m.last_pred), s + 'last', at)
    if 'accuracy' in e:
        rec.close(ev.accuracy_score(), e['accuracy'], s + 'accuracy', at)
        rec.close(ev.kappa_score(), e['kappa'], s + 'kappa', at)
        rec.close(ev.kappa_t_score(), e['kappa_t'], s + 'kappa_t', at)
        lo, hi, exact = e['kappa_m']
        x = ev.kappa_m_score()
        a, b = min(lo, hi), max(lo, hi)
        if exact or (lo != 0.0 and hi != 0.0):
            rec.check(a - 1e-7 <= x <= b + 1e-7, s + 'kappa_m', lambda: '%s: %r outside [%r, %r]' %
                      (at, x, a, b))


def compare_legacy(rec, ev, m, fam, i):
    s = 'metrics:%s:' % fam
    e = m.metrics()
    at = 'after result %d' % i
    rec.count('comparisons')
    rec.same(int(ev.sample_count), len(m.log), s + 'sample_count', at)
    rec.close(ev.get_accuracy(), e['accuracy'], s + 'accuracy', at)
    rec.close(ev.get_incorrectly_classified_ratio(), 1 - e['accuracy'], s + 'error', at)
    rec.close(ev.get_kappa(), e['kappa'], s + 'kappa', at)
    rec.close(ev.get_kappa_t(), e['kappa_t'], s + 'kappa_t', at)
    lo, hi, exact = e['kappa_m']
    x = ev.get_kappa_m()
    if exact or (lo != 1.0 and hi != 1.0):
        rec.check(min(lo, hi) - 1e-7 <= x <= max(lo, hi) + 1e-7, s + 'kappa_m',
                  lambda: '%s: %r, expected [%r, %r]' % (at, x, lo, hi))
    rec.close(ev.get_precision(), e['precision'], s + 'precision', at)
    rec.close(ev.get_recall(), e['recall'], s + 'recall', at)
    rec.close(ev.get_f1_score(), e['f1_score'], s + 'f1', at)
    rec.close(ev.get_g_mean(), e['gmean'], s + 'gmean', at)
    rec.check(ev.get_majority_class() in e['majority'], s + 'majority', at)
    rec.same(tuple(ev.get_last()), (m.last, m.last_pred), s + 'last', at)
