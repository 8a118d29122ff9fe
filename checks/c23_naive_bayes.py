"""C23: naive Bayes answers with the posterior of exactly the samples it has seen."""
import numpy as np

from vp import driftload, refht

LEVEL = 'exploration'
RULE = ('an evaluation is one posterior compared with a two-pass recomputation from the raw training '
        'log; distinct = digests of (samples seen, query)')
REQUIRED = {'posteriors': 8000, 'weighted': 1000, 'zero_weights': 100, 'unseen_values': 100,
            'resets': 10, 'all_zero': 20, 'array_classes': 500,
            'tiny_weights': 200}
ASSUMPTIONS = ['finite features; labels inside the declared classes; posteriors below 1e-280 are not '
               'compared']


def cases(tier, seed):
    k = 400 if tier == 'quick' else 2500
    return [{'fam': 'nb', 'i': i, 'seed': seed} for i in range(k)]


def make_data(r, n, d, nominal, n_classes, labels):
    style = r.randint(4)
    X = r.normal(size=(n, d)) * r.choice([0.1, 1, 50], size=d) + r.choice([0, 5, -300], size=d)
    y = labels[r.randint(n_classes, size=n)]
    if style == 0:
        X += y[:, None] * r.normal(size=d)
    elif style == 1:
        X = np.round(X)
    elif style == 2:
        X[:, r.randint(d)] = r.randint(-3, 4)                  # a constant feature
    for a in nominal:
        X[:, a] = (r.randint(0, 5, size=n) + (y % 2) * r.randint(2)) % 6
    return X, y


def run(case, rec):
    from skmultiflow.bayes import NaiveBayes
    r = driftload.rng(case)
    d = r.randint(1, 7)
    n_classes = r.randint(2, 6)
    labels = np.sort(r.choice(10, n_classes, replace=False)) if r.rand() < .4 else np.arange(n_classes)
    nominal = sorted(int(a) for a in np.where(r.rand(d) < 0.35)[0])
    X, y = make_data(r, 400, d, nominal, n_classes, labels)
    declared = r.choice(['none', 'list', 'array'])
    arg = nominal if nominal or r.rand() < .5 else None
    m = NaiveBayes(nominal_attributes=arg)
    ref = refht.Leaf()
    seen_classes = False
    pos = 0
    Q0 = r.normal(size=(3, d))
    rec.check(np.asarray(m.predict_proba(Q0)).sum() == 0 and len(m.predict(Q0)) == 3, 'unfitted',
              'an untrained model is certain')
    scale = float(r.choice([1, 1, 1, 1e-4, 0.1, 1000]))
    reset_at = r.randint(60, 300) if r.rand() < .3 else -1
    while pos < len(X):
        b = int(r.choice([1, 1, 2, 5, 17, 40]))
        xb, yb = X[pos:pos + b], y[pos:pos + b]
        w = None
        if r.rand() < .4:
            w = r.choice([0.0, 0.5, 1.0, 2.0, 3.25], size=len(xb)) * scale
            rec.count('tiny_weights', len(xb) * (scale < 1e-3))
            rec.count('weighted', len(xb))
            rec.count('zero_weights', (w == 0).sum())
        if declared == 'list':
            cl = [int(c) for c in labels]
        elif declared == 'array':
            cl = labels.copy()
            rec.count('array_classes')
        else:
            cl = None
        before = xb.copy(), yb.copy()
        m.partial_fit(xb, yb, classes=cl, sample_weight=w)
        rec.check(np.array_equal(before[0], xb) and np.array_equal(before[1], yb), 'mutated',
                  'training changed the caller\'s arrays')
        for i in range(len(xb)):
            wi = 1.0 if w is None else float(w[i])
            if wi:
                ref.learn([float(v) for v in xb[i]], int(yb[i]), wi)
        pos += b
        if pos >= reset_at > 0:
            m.reset()
            ref = refht.Leaf()
            reset_at = -1
            rec.count('resets')
            rec.check(np.asarray(m.predict_proba(Q0)).sum() == 0, 'reset',
                      'a reset model still knows something')
            continue
        if not ref.stats:
            continue
        Q = X[r.randint(len(X), size=3)].copy()
        Q[1] += r.normal(size=d) * .3
        for a in nominal:
            Q[1, a] = r.randint(0, 9)
            if Q[1, a] not in ref.counts(a):
                rec.count('unseen_values')
        judge(rec, m, ref, Q, nominal, labels if declared != 'none' else None, pos)
    rec.sample(features=d, nominal=nominal, labels=labels, classes=declared, samples=len(X))


def judge(rec, m, ref, Q, nominal, declared, pos):
    P = np.asarray(m.predict_proba(Q), dtype=float)
    pred = np.asarray(m.predict(Q))
    cols = int(max(declared if declared is not None else ref.stats)) + 1
    rec.check(P.shape == (len(Q), cols) and pred.shape == (len(Q),), 'shape',
              lambda: 'after %d samples: shapes %r %r, %d classes' % (pos, P.shape, pred.shape, cols))
    for i, q in enumerate(Q):
        try:
            v = ref.bayes([float(t) for t in q], set(nominal))
        except refht.Ambiguous:
            continue
        s = sum(v.values())
        if 0 < s < 1e-280:
            continue
        e = np.zeros(cols)
        for c, p in v.items():
            e[c] = p / s if s else 0.0
        if s == 0:
            rec.count('all_zero')
        rec.count('posteriors')
        rec.key(pos, q, tuple(sorted(ref.stats.items())))
        if not rec.close(P[i], e, 'posterior', 'after %d samples, query %r' % (pos, q.tolist()),
                         rtol=1e-6, atol=1e-9):
            return
        if s:
            rec.check(P[i][int(pred[i])] >= P[i].max() * (1 - 1e-12), 'predict',
                      'predicted %r, posterior %r' % (pred[i], P[i].tolist()))
