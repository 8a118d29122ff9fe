"""How the samples are cut into batches does not matter; a weight of one is no weight, zero is no sample."""
import numpy as np

from vp import models as M

LEVEL = 'exploration'
RULE = ('a case trains two copies of one learner on the same samples, cut into different batches, with and without '
        'weights of one, or with extra samples of weight zero, and compares their answers at common moments; '
        'non-trivial when the answers to the probe rows are not all the same; distinct by learner and answers')
REQUIRED = {'batch': 500, 'ones': 150, 'zero': 150, 'batch_models': 20, 'weight_models': 8, 'varied': 500}
ASSUMPTIONS = ['batches: learners that learn from one sample at a time; learners that look at a whole batch at once '
               '(mini-batch fits, detectors fed once per call) are not compared',
               'weights: learners that honour sample_weight']


def cases(tier, seed):
    return (M.cases([('batch', lambda e: e.batch)], tier, seed, 10, 100, 33)
            + M.cases([('ones', lambda e: e.weights), ('zero', lambda e: e.weights)], tier, seed, 10, 100, 133))


def compare(rec, e, what, a, b, n, d):
    want = M.out(a, d.probe, e)
    bad = M.same_out(M.out(b, d.probe, e), want)
    rec.check(bad is None, '%s:%s' % (what, e.name), lambda: 'after %d samples: %s' % (n, bad))
    rec.count(what)
    if len(np.unique(want[0], axis=0)) > 1:
        rec.count('varied')
        rec.key(e.name, want[0], n)


def run(case, rec):
    e, d, dr, fresh, r = M.start(case)
    one, two = fresh(), fresh()
    fam = case['fam']
    if case['i'] == 0 and fam != 'zero':
        rec.count('batch_models' if fam == 'batch' else 'weight_models')
    try:
        n = 0
        ends = sorted(set(r.randint(e.first, d.n, size=4).tolist()) | {d.n})
        for end in ends:
            if fam == 'batch':
                a = n
                while a < end:
                    b = min(end, a + (e.first if a == 0 else 1))
                    dr.train(one, a, b)
                    a = b
                a = n
                while a < end:
                    b = min(end, a + max(e.first if a == 0 else 1, int(r.choice([1, 2, 5, 17, 60]))))
                    dr.train(two, a, b)
                    a = b
            else:
                a = n
                while a < end:
                    b = min(end, a + int(r.choice([1, 1, 3, 8])))
                    X, y = d.X[a:b].copy(), d.y[a:b].copy()
                    if fam == 'ones':
                        dr.weights = False
                        dr.train(one, a, b, X, y, first=a == 0)
                        dr.weights = True
                        dr.train(two, a, b, X.copy(), y.copy(), np.ones(b - a), first=a == 0)
                    else:
                        w = d.w[a:b].copy()
                        dr.weights = True
                        dr.train(one, a, b, X, y, w, first=a == 0)
                        k = int(r.randint(0, 3))
                        at = np.sort(r.randint(1 if a == 0 else 0, b - a + 1, size=k))
                        X2 = np.insert(X, at, X[r.randint(0, len(X), size=k)] * 3 + 1, axis=0)
                        if e.nominal:
                            X2[:, 0] = np.insert(X[:, 0], at, r.randint(0, 3, size=k))
                        y2 = np.insert(y, at, d.y[r.randint(0, d.n, size=k)], axis=0)
                        dr.train(two, a, b, X2, y2, np.insert(w, at, 0.0), first=a == 0)
                    a = b
            n = end
            compare(rec, e, fam, one, two, n, d)
    except M.Skip:
        rec.count('refused')
