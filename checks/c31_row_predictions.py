"""Every row of a batch is answered by itself: one answer per row, whatever stands beside it."""
import warnings

import numpy as np

from vp import models as M

LEVEL = 'exploration'
RULE = ('a case trains one learner on one drifting problem and stops at several moments to ask for a batch of rows '
        '(seen, unseen, repeated), for its rows one at a time, for a permutation and for slices of it; non-trivial '
        'when the answers to the batch are not all the same; distinct by learner and answers')
REQUIRED = {'models': 38, 'batches': 800, 'single_rows': 5000, 'varied': 400}
ASSUMPTIONS = ['MonteCarloClassifierChain samples its answers: only their shape is judged; learners that cannot '
               'predict before their first training are only asked after it']


def cases(tier, seed):
    return M.cases([('rows', None)], tier, seed, 8, 80, 31)


def part(o, idx):
    p, q = o
    return p[idx], None if q is None else M.pad(q)[idx]


def ask(rec, m, e, d, r, k):
    Q = d.probe[r.randint(0, len(d.probe), size=int(r.choice([2, 5, 12])))]
    n = len(Q)
    o = M.out(m, Q, e)
    rec.count('batches')
    p, q = o
    want = (n, 3) if e.kind == 'ml' else (n, 2) if e.kind == 'mt' else (n,)
    rec.check(p.shape == want, 'shape:%s' % e.name, lambda: 'predictions of shape %s for %d rows (%d rows learned)' %
              (p.shape, n, k))
    if q is not None:
        rec.check(len(q) == n, 'score-rows:%s' % e.name, lambda: '%d rows of scores for %d rows' % (len(q), n))
    if len(p) != n or (q is not None and len(q) != n):
        return
    if len(np.unique(p, axis=0)) > 1:
        rec.count('varied')
        rec.key(e.name, p, Q)
    if not e.pure:
        return
    for i in range(n):
        s = M.out(m, Q[i:i + 1], e)
        bad = M.same_out(s, part(o, [i]))
        rec.check(bad is None, 'row:%s' % e.name,
                  lambda: 'row %d of %d (%d rows learned) alone: %s' % (i, n, k, bad))
        rec.count('single_rows')
    perm = r.permutation(n)
    bad = M.same_out(M.out(m, Q[perm], e), part(o, perm))
    rec.check(bad is None, 'order:%s' % e.name, lambda: 'rows in another order (%d learned): %s' % (k, bad))
    c = int(r.randint(1, n))
    bad = M.same_out(M.out(m, Q[c:], e), part(o, np.arange(c, n)))
    rec.check(bad is None, 'slice:%s' % e.name, lambda: 'the last %d rows alone (%d learned): %s' % (n - c, k, bad))


def run(case, rec):
    e, d, dr, fresh, r = M.start(case)
    m = fresh()
    if case['i'] == 0:
        rec.count('models')
    if e.fit0:
        ask(rec, m, e, d, r, 0)
    ch = dr.chunks(r)
    stops = set(r.randint(1, len(ch), size=3).tolist()) | {0, len(ch) - 1}
    try:
        for n, (a, b) in enumerate(ch):
            dr.train(m, a, b)
            if n in stops:
                ask(rec, m, e, d, r, b)
    except M.Skip:
        rec.count('refused')
