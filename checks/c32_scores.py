"""Scores are well formed and agree with the predicted labels."""
import numpy as np

from vp import models as M

LEVEL = 'exploration'
RULE = ('a case trains one classifier on one drifting problem and stops at several moments to ask for labels and scores '
        'of seen, unseen and extreme rows; non-trivial when more than one label was predicted; distinct by learner and '
        'scores')
REQUIRED = {'models': 24, 'rows': 10000, 'distributions': 5000, 'argmax': 5000, 'extreme': 1000}
ASSUMPTIONS = ['labels are 0..k-1, so a label is its own column', 'ties between scores may be broken either way']
LABELS = ('clf', 'bin', 'ml')


def cases(tier, seed):
    return (M.cases([('scores', lambda e: e.kind in LABELS or e.kind == 'anom')], tier, seed, 10, 100, 32)
            + [{'fam': 'kappa', 'i': i} for i in range(5)])


def by_kappa(m, row):
    """Scores of a forest whose members vote with their (possibly negative) kappa."""
    return (np.isfinite(row).all() and getattr(m, 'performance_metric', '') == 'kappa'
            and not m.disable_weighted_vote)


def kappa(case, rec):
    """Members that do worse than chance vote with a negative kappa."""
    from skmultiflow.meta import AdaptiveRandomForestClassifier
    m = AdaptiveRandomForestClassifier(n_estimators=3, performance_metric='kappa', drift_detection_method=None,
                                       warning_detection_method=None, leaf_prediction='mc', random_state=case['i'])
    X = np.random.RandomState(case['i']).normal(size=(61, 2))
    for i in range(61):
        m.partial_fit(X[i:i + 1], np.array([i % 2]), classes=[0, 1])
        q = m.predict_proba(X[:5])
        rec.check((q >= -1e-12).all(), 'negative-kappa:AdaptiveRandomForestClassifier',
                  lambda: 'scores %s after %d rows' % (q.tolist(), i + 1))


def ask(rec, m, e, d, r, k):
    Q = d.probe[r.randint(0, len(d.probe), size=8)].copy()
    far = r.rand() < 0.4
    if far:
        Q[:3] *= float(r.choice([30.0, 1e3]))
        if e.nominal:
            Q[:3, 0] = r.choice([0, 7], size=3)
        rec.count('extreme', 3)
    p, q = M.out(m, Q, e)
    rec.count('rows', len(Q))
    allowed = [0, 1] if e.kind in ('ml', 'anom') else d.classes
    rec.check(np.isin(p, allowed).all(), 'label:%s' % e.name,
              lambda: 'labels %s of classes %s (%d rows learned)' % (p.tolist(), allowed, k))
    if q is None:
        return
    if len(np.unique(p)) > 1:
        rec.key(e.name, M.pad(q))
    for i, row in enumerate(q):
        row = np.ravel(np.asarray(row, dtype=float))
        rec.check(np.isfinite(row).all() and (e.proba == 'signed' or (row >= -1e-12).all()),
                  'negative-kappa:%s' % e.name if by_kappa(m, row) else 'finite:%s' % e.name,
                  lambda: 'scores %s (%d rows learned)' % (row.tolist(), k))
        if e.proba == 'dist':
            s = row.sum()
            rec.check(abs(s - 1) < 1e-6 or (s == 0), 'sum:%s' % e.name,
                      lambda: 'probabilities %s sum to %r (%d rows learned)' % (row.tolist(), s, k))
            rec.count('distributions')
        if e.proba == 'label' and e.kind == 'ml':
            rec.check((row <= 1 + 1e-9).all(), 'range:%s' % e.name, lambda: 'probabilities %s' % row.tolist())
        if e.kind in ('clf', 'bin') and e.proba in ('dist', 'votes', 'signed'):
            rec.check(int(p[i]) < len(row) or not row.any(), 'column:%s' % e.name,
                      lambda: 'label %s has no column among %s' % (p[i], row.tolist()))
            if int(p[i]) < len(row):
                rec.check(row[int(p[i])] >= row.max() - 1e-9 * max(1, abs(row.max())), 'argmax:%s' % e.name,
                          lambda: 'label %s although the scores are %s (%d rows learned)' % (p[i], row.tolist(), k))
                rec.count('argmax')


def run(case, rec):
    if case['fam'] == 'kappa':
        return kappa(case, rec)
    e, d, dr, fresh, r = M.start(case)
    m = fresh()
    if case['i'] == 0:
        rec.count('models')
    if e.fit0:
        ask(rec, m, e, d, r, 0)
    ch = dr.chunks(r)
    stops = set(r.randint(1, len(ch), size=6).tolist()) | {0, len(ch) - 1}
    try:
        for n, (a, b) in enumerate(ch):
            dr.train(m, a, b)
            if n in stops:
                ask(rec, m, e, d, r, b)
    except M.Skip:
        rec.count('refused')
