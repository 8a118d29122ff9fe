"""C20: k-nearest-neighbour models answer with the vote of the true neighbours in their window."""
import numpy as np

from vp import driftload

LEVEL = 'exploration'
RULE = ('an evaluation is one answer compared with a brute-force search over the shadow window '
        '(tied neighbours may be taken in any way); distinct = digests of (window, query)')
REQUIRED = {'queries': 5000, 'window_slides': 2000, 'underfull_queries': 100, 'resets': 20,
            'regressions': 1500, 'adwin_shrinks': 10, 'tied': 50,
            'declared_later': 60, 'adwin_batches': 1000, 'adwin_batch_shrinks': 3}
ASSUMPTIONS = ['labels are non-negative integers; NaN features are out of scope; KNNADWIN looks for a '
               'change once per batch, after its last sample']
METRICS = {'euclidean': lambda A, q: np.sqrt(((A - q) ** 2).sum(axis=1)),
           'manhattan': lambda A, q: np.abs(A - q).sum(axis=1),
           'chebyshev': lambda A, q: np.abs(A - q).max(axis=1)}


def cases(tier, seed):
    k = 180 if tier == 'quick' else 700
    return [{'fam': f, 'i': i, 'seed': seed} for f in ('classifier', 'regressor', 'adwin')
            for i in range(k if f != 'adwin' else k // 2)]


def split_neighbours(A, q, k, metric):
    """(sure, tied, slots): certain neighbours, candidates for the remaining slots."""
    d = METRICS[metric](A, q)
    o = np.sort(d)
    kth = o[k - 1]
    eps = 1e-9 * (1 + kth)
    sure = np.where(d < kth - eps)[0]
    tied = np.where(np.abs(d - kth) <= eps)[0]
    slots = k - len(sure)
    return sure, tied, slots


def data(r, n, d):
    style = r.randint(3)
    if style == 0:
        X = r.normal(size=(n, d))
    elif style == 1:
        X = r.randint(0, 4, size=(n, d)).astype(float)          # many ties
    else:
        X = np.round(r.normal(size=(n, d)) * 4) / 4 + 1e3
    return X


def run(case, rec):
    r = driftload.rng(case)
    {'classifier': classifier, 'regressor': regressor, 'adwin': adwin}[case['fam']](case, rec, r)


def judge_class(rec, model, window, classes, k, metric, Q, sig, at):
    """predict and predict_proba of a batch of queries against the shadow window."""
    proba = np.asarray(model.predict_proba(Q), dtype=float)
    pred = np.asarray(model.predict(Q))
    rec.count('queries', len(Q))
    rec.check(pred.shape == (len(Q),) and proba.ndim == 2 and len(proba) == len(Q), sig + ':shape',
              '%s: shapes %r, %r' % (at, pred.shape, proba.shape))
    if len(window) < k:
        rec.count('underfull_queries', len(Q))
        rec.check(not proba.any() and not pred.any(), sig + ':underfull', '%s: answers without '
                  'enough samples: %r' % (at, proba.tolist()[:3]))
        return
    A = np.array([w[0] for w in window])
    L = np.array([w[1] for w in window])
    width = int(max(max(classes), L.max())) + 1
    rec.same(proba.shape[1], width, sig + ':columns', '%s: one column per label up to the largest '
             'known' % at)
    if proba.shape[1] != width:
        return
    for i, q in enumerate(Q):
        sure, tied, slots = split_neighbours(A, q, k, metric)
        lo = np.zeros(width)
        hi = np.zeros(width)
        for c in range(width):
            lo[c] = np.sum(L[sure] == c)
            t = np.sum(L[tied] == c)
            hi[c] = lo[c] + min(slots, t)
            lo[c] += max(0, slots - (len(tied) - t))
        rec.count('tied', bool((lo != hi).any()))
        v = proba[i] * k
        rec.check(bool(np.all(v >= lo - 1e-6) and np.all(v <= hi + 1e-6) and
                       abs(v.sum() - k) < 1e-6), sig + ':votes',
                  lambda: '%s: query %r has votes %r, the %d neighbours give between %r and %r'
                  % (at, q.tolist(), v.tolist(), k, lo.tolist(), hi.tolist()))
        best = set(np.where(v >= v.max() - 1e-9)[0].tolist())
        rec.check(int(pred[i]) in best, sig + ':predict', lambda: '%s: predicted %r, votes %r'
                  % (at, pred[i], v.tolist()))
        rec.key(q, len(window), k, metric, v)


def classifier(case, rec, r):
    from skmultiflow.lazy import KNNClassifier
    d, n = int(r.randint(1, 5)), 160
    k = int(r.choice([1, 2, 3, 5, 8]))
    W = int(r.choice([k, k + 1, 10, 25, 60, 1000]))
    W = max(W, k)
    metric = list(METRICS)[r.randint(3)]
    leaf = int(r.choice([1, 5, 30, 100, 300]))
    X = data(r, n, d)
    nc = int(r.choice([2, 3, 6]))
    y = r.randint(0, nc, n)
    if r.randint(2):
        y = np.minimum(np.arange(n) * nc // n, nc - 1)     # classes come and go with the window
    m = KNNClassifier(n_neighbors=k, max_window_size=W, leaf_size=leaf, metric=metric)
    rec.sample(k=k, window=W, metric=metric, leaf=leaf, features=d, classes=nc)
    window, classes = [], {0}
    i = 0
    first = True
    while i < n:
        b = min(n - i, int(r.choice([1, 1, 3, 7, 30])))
        kw = {}
        if (first and r.randint(2)) or r.randint(20) == 0:
            kw = {'classes': list(range(nc + r.randint(-1, 4)))}
            classes |= set(kw['classes'])
            rec.count('declared_later', not first)
        first = False
        out = m.partial_fit(X[i:i + b], y[i:i + b], **kw)
        rec.check(out is m, 'knn:chain', 'partial_fit does not return the model')
        window += [(X[j].copy(), int(y[j])) for j in range(i, i + b)]
        rec.count('window_slides', max(0, len(window) - W))
        window = window[-W:]
        i += b
        if r.randint(3) == 0:
            if len(window) >= k:
                classes |= {w[1] for w in window}
            Q = np.vstack([data(r, 3, d), X[r.randint(0, n, 2)]])
            judge_class(rec, m, window, classes, k, metric, Q, 'knn', 'after %d samples' % i)
        if r.randint(25) == 0:
            m.reset()
            window, classes = [], {0}
            rec.count('resets')
            judge_class(rec, m, window, classes, k, metric, X[:2], 'knn', 'after reset')


def regressor(case, rec, r):
    from skmultiflow.lazy import KNNRegressor
    d, n = int(r.randint(1, 5)), 160
    k = int(r.choice([1, 2, 3, 5, 8]))
    W = max(k, int(r.choice([k, 10, 25, 60, 1000])))
    metric = list(METRICS)[r.randint(3)]
    agg = ['mean', 'median'][r.randint(2)]
    X = data(r, n, d)
    y = np.round(r.normal(size=n) * 256) / 16
    m = KNNRegressor(n_neighbors=k, max_window_size=W, leaf_size=int(r.choice([1, 5, 30, 250])),
                     metric=metric, aggregation_method=agg)
    rec.sample(k=k, window=W, metric=metric, aggregation=agg)
    window = []
    i = 0
    while i < n:
        b = min(n - i, int(r.choice([1, 1, 3, 7, 30])))
        m.partial_fit(X[i:i + b], y[i:i + b])
        window += [(X[j].copy(), float(y[j])) for j in range(i, i + b)]
        rec.count('window_slides', max(0, len(window) - W))
        window = window[-W:]
        i += b
        if r.randint(25) == 0:
            m.reset()
            window = []
            rec.count('resets')
        Q = np.vstack([data(r, 3, d), X[r.randint(0, n, 2)]])
        if r.randint(3) == 0:
            Q = Q[:1]
        out = np.asarray(m.predict(Q))
        if not rec.check(out.shape == (len(Q),), 'knnreg:shape', 'shape %r' % (out.shape,)):
            continue
        if len(window) < k:
            rec.count('underfull_queries', len(Q))
            rec.check(not out.any(), 'knnreg:underfull', 'answers %r' % out)
            continue
        A = np.array([w[0] for w in window])
        L = np.array([w[1] for w in window])
        for j, q in enumerate(Q):
            rec.count('regressions')
            sure, tied, slots = split_neighbours(A, q, k, metric)
            o = np.sort(L[tied])
            f = np.mean if agg == 'mean' else np.median
            lo = f(np.concatenate([L[sure], o[:slots]]))
            hi = f(np.concatenate([L[sure], o[-slots:]]))
            rec.check(lo - 1e-9 * (1 + abs(lo)) <= out[j] <= hi + 1e-9 * (1 + abs(hi)),
                      'knnreg:value', lambda: 'query %d of %d after %d samples: %r, the %s of the '
                      '%d neighbours lies in [%r, %r]' % (j, len(Q), i, out[j], agg, k, lo, hi))
            rec.key(q, len(window), k, lo)


def adwin(case, rec, r):
    """The window of KNNADWIN shrinks to ADWIN's width when its own accuracy changes."""
    from skmultiflow.lazy import KNNADWINClassifier
    from skmultiflow.drift_detection import ADWIN
    k = int(r.choice([1, 3, 5, 40]))
    W = max(k, int(r.choice([60, 120, 1000])))
    metric = list(METRICS)[r.randint(3)]
    d = 2
    n = 420
    X = r.normal(size=(n, d))                            # continuous: no distance ties
    cut = 200 + r.randint(60)
    y = (X[:, 0] > 0).astype(int)
    noise = r.uniform(size=n) < 0.5
    y[cut:] = np.where(noise[cut:], r.randint(0, 2, n - cut), 1 - y[cut:])
    m = KNNADWINClassifier(n_neighbors=k, max_window_size=W, metric=metric,
                           leaf_size=int(r.choice([5, 30])))
    ref = ADWIN()
    window = []
    sizes = [1] if r.randint(3) else [1, 2, 3, 5]
    rec.sample(k=k, window=W, drift_at=cut, metric=metric, batches=sizes)
    classes = {0}
    i = 0
    while i < n:
        b = min(n - i, int(r.choice(sizes)))
        kw = {}
        if r.randint(40) == 0:
            kw['classes'] = list(range(int(r.randint(1, 5))))
            classes |= set(kw['classes'])
        m.partial_fit(X[i:i + b], y[i:i + b], **kw)
        rec.count('adwin_batches', b > 1)
        for j in range(i, i + b):
            window.append((X[j].copy(), int(y[j])))
            rec.count('window_slides', max(0, len(window) - W))
            window = window[-W:]
            hit = 0
            if len(window) >= k:
                A = np.array([w[0] for w in window])
                L = np.array([w[1] for w in window])
                near = np.argsort(METRICS[metric](A, X[j]), kind='stable')[:k]
                votes = np.bincount(L[near], minlength=2)
                hit = int(np.argmax(votes) == y[j])
                classes |= set(L.tolist())
            ref.add_element(hit)
        if len(window) >= k and ref.detected_change() and ref.width < len(window):
            window = window[len(window) - int(ref.width):]
            rec.count('adwin_shrinks')
            rec.count('adwin_batch_shrinks', b > 1)
            rec.key('shrink', case['i'], i, len(window))
            fresh = True
        else:
            fresh = r.randint(15) == 0
        i += b
        if fresh:
            if len(window) >= k:
                classes |= {w[1] for w in window}
            # the query that reaches the oldest sample tells whether it is still there
            Q = np.vstack([r.normal(size=(2, d)), window[0][0][None]])
            judge_class(rec, m, window, classes, k, metric, Q, 'knnadwin', 'after %d samples' % i)
    if case['i'] % 3 == 0:
        m.reset()
        rec.count('resets')
        judge_class(rec, m, [], {0}, k, metric, X[:2], 'knnadwin', 'after reset')
