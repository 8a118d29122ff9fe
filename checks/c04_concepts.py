"""C04: generated labels and features obey the documented concept of each generator."""
import math

import numpy as np

from vp import streams as S

LEVEL = 'exploration'
RULE = ('an evaluation is one generated sample checked against the documented concept, or one '
        'aggregate (noise rate, class balance, marginal) checked against its tolerance; distinct = '
        '(generator, configuration, seed)')
ASSUMPTIONS = ['statistical checks use tolerances of at least 6 standard deviations',
               'perturbed AGRAWAL house values are not judged (the documented range is ambiguous)']
REQUIRED = {'labels_checked': 20000, 'drift_calls': 20, 'aggregates': 100}

GENS = ['SEA', 'Sine', 'STAGGER', 'MIXED', 'AGRAWAL', 'Hyperplane', 'LED', 'LEDDrift', 'Waveform',
        'RBF', 'RBFDrift', 'Tree', 'Leaves', 'Multilabel', 'Regression', 'AnomalySine']


def cases(tier, seed):
    k = 40 if tier == 'quick' else 250
    out = [{'fam': g, 'i': i, 'seed': seed, 'cost': 3 if g in ('AGRAWAL', 'Waveform') else 1}
           for g in GENS for i in range(k)]
    out += [{'fam': 'AGRAWAL', 'i': i, 'seed': seed, 'cost': 3} for i in range(k, k + 10)]
    return out


def run(case, rec):
    r = np.random.RandomState((case['seed'] * 7919 + case['i'] * 104729 +
                               sum(map(ord, case['fam']))) % (2 ** 31))
    globals()['_' + case['fam'].lower()](case, rec, r)


def _binom(rec, k, n, p, sig, what, slack=0.0):
    rec.count('aggregates')
    sd = math.sqrt(n * max(p * (1 - p), 1e-9))
    rec.check(abs(k - n * p) <= 6.5 * sd + 2 + slack * n, sig, '%s: %d of %d, expected %.4f' %
              (what, k, n, p))


def _uniform(rec, x, lo, hi, sig, what):
    rec.count('aggregates')
    x = (np.asarray(x, float) - lo) / (hi - lo)
    rec.check(bool(np.all((x >= 0) & (x <= 1))), sig, '%s outside [%g, %g]' % (what, lo, hi))
    n = len(x)
    s = np.sort(x)
    d = max(np.max(np.arange(1, n + 1) / n - s), np.max(s - np.arange(n) / n))
    rec.check(d * math.sqrt(n) < 3.3, sig, '%s not uniform on [%g, %g] (KS %.3f, n=%d)' %
              (what, lo, hi, d, n))


def _categories(rec, x, values, sig, what):
    rec.count('aggregates')
    x = np.asarray(x)
    rec.check(set(np.unique(x).tolist()) <= set(values), sig, '%s has values %r' %
              (what, np.unique(x)[:30]))
    n, k = len(x), len(values)
    sd = math.sqrt(n / k * (1 - 1 / k))
    for v in values:
        c = int((x == v).sum())
        rec.check(abs(c - n / k) <= 6.5 * sd + 2, sig, '%s value %r: %d of %d' % (what, v, c, n))


def _concept(case, rec, r, name, cfg, label, n, noise=0.0, drift=True):
    """Draws around generate_drift calls; compares every label with label(fn, X)."""
    st = S.make(name, cfg, int(r.randint(10 ** 5)))
    rec.key(name, repr(sorted(cfg.items())), st.random_state)
    rec.sample(generator=name, config=cfg)
    sig = 'concept:%s:' % name
    XS = []
    flips = tot = 0
    allY = []
    for seg in range(3 if drift else 1):
        fn = st.classification_function
        X, y = S.draw(st, S.partition(r, n, 500))
        ex, judge = label(fn, X)
        rec.count('labels_checked', int(judge.sum()))
        bad = judge & (ex != y)
        if name == 'AGRAWALGenerator' and fn == 4 and bad.any():
            # known finding: three of the conditions on the loan test the salary instead
            salary, age = X[:, 0], X[:, 2]
            inner = np.where(age < 40, _between(salary, 5e4, 1e5), False)
            known = bad & (age < 60) & ~inner.astype(bool) & (y == 1)
            if known.any():
                rec.fail(sig + 'function4_salary_for_loan', 'sample %r labelled 1' % (X[known][0],))
            bad &= ~known
        if noise == 0.0:
            rec.check(not bad.any(), sig + 'label', lambda: 'function %d: sample %r labelled %r' %
                      (fn, X[bad][0], y[bad][0]))
            rec.ok(int(judge.sum()) - 1)
        flips += int(bad.sum())
        tot += int(judge.sum())
        XS.append(X)
        allY.append(y)
        if drift:
            st.generate_drift()
            rec.count('drift_calls')
            rec.check(st.classification_function != fn, sig + 'drift',
                      'generate_drift kept function %d' % fn)
    if noise > 0.0:
        # documented probability of a switched label; the implementation may round it down a little
        lo, hi = max(0.0, noise - 0.011), min(1.0, noise)
        mid = (lo + hi) / 2
        _binom(rec, flips, tot, mid, sig + 'noise', 'switched labels at noise %g' % noise,
               slack=(hi - lo) / 2 + 0.001)
    if cfg.get('balance_classes') and noise == 0.0:
        for y in allY[:1]:
            c = np.cumsum(np.where(y == 1, 1, -1))
            rec.check(int(np.max(np.abs(c))) <= 1, sig + 'balance',
                      'classes are not balanced: running difference %d' % np.max(np.abs(c)))
            rec.count('aggregates')
    return np.concatenate(XS), np.concatenate(allY)


def _sea(case, rec, r):
    thr = [8, 9, 7, 9.5]
    cfg = S.config('SEAGenerator', r)
    cfg['noise_percentage'] = float(r.choice([0.0, 0.0, 0.1, 0.4, 1.0]))
    cfg['classification_function'] = case['i'] % 4

    def label(fn, X):
        s = X[:, 0] + X[:, 1]
        return (s > thr[fn]).astype(int), np.abs(s - thr[fn]) > 1e-9
    X, y = _concept(case, rec, r, 'SEAGenerator', cfg, label, 900, cfg['noise_percentage'])
    rec.check(bool(np.all((X >= 0) & (X <= 10))), 'concept:SEAGenerator:range')
    if not cfg['balance_classes']:
        for j in range(3):
            _uniform(rec, X[:, j], 0, 10, 'concept:SEAGenerator:marginal', 'attribute %d' % j)
    else:
        _uniform(rec, X[:, 2], 0, 10, 'concept:SEAGenerator:marginal', 'attribute 2')


def _sine(case, rec, r):
    cfg = S.config('SineGenerator', r)
    cfg['classification_function'] = case['i'] % 4

    def label(fn, X):
        c = np.sin(X[:, 1]) if fn < 2 else 0.5 + 0.3 * np.sin(3 * np.pi * X[:, 1])
        below = X[:, 0] < c
        return (below if fn % 2 == 0 else ~below).astype(int), np.abs(X[:, 0] - c) > 1e-9
    X, y = _concept(case, rec, r, 'SineGenerator', cfg, label, 900)
    for j in range(2 if cfg['balance_classes'] else 0, X.shape[1]):
        _uniform(rec, X[:, j], 0, 1, 'concept:SineGenerator:marginal', 'attribute %d' % j)


def _stagger(case, rec, r):
    cfg = S.config('STAGGERGenerator', r)
    cfg['classification_function'] = case['i'] % 3

    def label(fn, X):
        size, color, shape = X.T
        ex = [(size == 0) & (color == 0), (color == 2) | (shape == 0), (size == 1) | (size == 2)][fn]
        return ex.astype(int), np.ones(len(X), bool)
    X, y = _concept(case, rec, r, 'STAGGERGenerator', cfg, label, 900)
    for j in range(3):
        if not cfg['balance_classes']:
            _categories(rec, X[:, j], [0, 1, 2], 'concept:STAGGERGenerator:marginal', 'feature %d' % j)


def _mixed(case, rec, r):
    cfg = S.config('MIXEDGenerator', r)
    cfg['classification_function'] = case['i'] % 2

    def label(fn, X):
        v, w, x, yy = X.T
        c = 0.5 + 0.3 * np.sin(3 * np.pi * x)
        z = yy < c
        pos = ((v == 1) & (w == 1)) | ((v == 1) & z) | ((w == 1) & z)
        return (~pos if fn == 0 else pos).astype(int), np.abs(yy - c) > 1e-9
    X, y = _concept(case, rec, r, 'MIXEDGenerator', cfg, label, 900)
    if not cfg['balance_classes']:
        for j in (0, 1):
            _categories(rec, X[:, j], [0, 1], 'concept:MIXEDGenerator:marginal', 'feature %d' % j)
        for j in (2, 3):
            _uniform(rec, X[:, j], 0, 1, 'concept:MIXEDGenerator:marginal', 'feature %d' % j)


def _between(a, lo, hi):
    return (lo <= a) & (a <= hi)


def _agrawal_label(fn, X):
    salary, comm, age, elevel, car, zipc, hvalue, hyears, loan = X.T
    y, m = age < 40, (age >= 40) & (age < 60)
    pick = lambda a, b, c: np.where(y, a, np.where(m, b, c))
    judge = np.ones(len(X), bool)
    total = salary + comm
    if fn == 0:
        g = y | (age >= 60)
    elif fn == 1:
        g = pick(_between(salary, 5e4, 1e5), _between(salary, 75e3, 125e3), _between(salary, 25e3, 75e3))
    elif fn == 2:
        g = pick(np.isin(elevel, [0, 1]), np.isin(elevel, [1, 2, 3]), np.isin(elevel, [2, 3, 4]))
    elif fn == 3:
        g = pick(np.where(np.isin(elevel, [0, 1]), _between(salary, 25e3, 75e3),
                          _between(salary, 5e4, 1e5)),
                 np.where(np.isin(elevel, [1, 2, 3]), _between(salary, 5e4, 1e5),
                          _between(salary, 75e3, 125e3)),
                 np.where(np.isin(elevel, [2, 3, 4]), _between(salary, 5e4, 1e5),
                          _between(salary, 25e3, 75e3)))
    elif fn == 4:
        g = pick(np.where(_between(salary, 5e4, 1e5), _between(loan, 1e5, 3e5),
                          _between(loan, 2e5, 4e5)),
                 np.where(_between(salary, 75e3, 125e3), _between(loan, 2e5, 4e5),
                          _between(loan, 3e5, 5e5)),
                 np.where(_between(salary, 25e3, 75e3), _between(loan, 3e5, 5e5),
                          _between(loan, 1e5, 3e5)))
        # 75k or 100k as the last lower bound: both are in circulation
        judge = ~((age >= 60) & _between(loan, 75e3, 1e5))
    elif fn == 5:
        g = pick(_between(total, 5e4, 1e5), _between(total, 75e3, 125e3), _between(total, 25e3, 75e3))
    else:
        equity = np.where(hyears >= 20, hvalue * (hyears - 20) / 10, 0)
        disp = {6: 2 * total / 3 - loan / 5 - 20000,
                7: 2 * total / 3 - 5000 * elevel - 20000,
                8: 2 * total / 3 - 5000 * elevel - loan / 5 - 10000,
                9: 2 * total / 3 - 5000 * elevel + equity / 5 - 10000}[fn]
        g = disp > 0
        judge = np.abs(disp) > 2
    return np.where(g, 0, 1), judge


def _agrawal(case, rec, r):
    cfg = S.config('AGRAWALGenerator', r)
    cfg['classification_function'] = case['i'] % 10
    if cfg['classification_function'] == 9:
        cfg['balance_classes'] = False
    sig = 'concept:AGRAWALGenerator:'
    if case['i'] % 4 == 3:
        # perturbed numeric features stay in their documented ranges
        cfg['perturbation'] = float(r.choice([0.05, 0.5, 1.0]))
        cfg['balance_classes'] = False
        st = S.make('AGRAWALGenerator', cfg, int(r.randint(10 ** 5)))
        X, y = st.next_sample(500)
        rec.key(repr(cfg))
        for j, lo, hi in ((0, 2e4, 15e4), (2, 20, 80), (7, 1, 30), (8, 0, 5e5)):
            rec.check(bool(np.all(_between(X[:, j], lo, hi))), sig + 'range',
                      'feature %d leaves [%g, %g]' % (j, lo, hi))
        clean = dict(cfg, perturbation=0.0)
        diff = S.make('AGRAWALGenerator', clean, 5).next_sample(1)[0] - \
            S.make('AGRAWALGenerator', cfg, 5).next_sample(1)[0]
        rec.check(bool(np.any(diff[0, [0, 7, 8]] != 0)), sig + 'perturb', 'perturbation had no effect')
        rec.check(bool(np.all(diff[0, [3, 4, 5]] == 0)), sig + 'perturb',
                  'perturbation altered a categorical feature')
        return
    cfg['perturbation'] = 0.0
    X, y = _concept(case, rec, r, 'AGRAWALGenerator', cfg, _agrawal_label, 500,
                    drift=not cfg['balance_classes'])
    salary, comm, age, elevel, car, zipc, hvalue, hyears, loan = X.T
    rec.check(bool(np.all((comm == 0) == (salary >= 75000))), sig + 'commission',
              'commission does not vanish exactly for salaries of 75k and more')
    rec.check(bool(np.all((comm == 0) | _between(comm, 1e4, 85e3))), sig + 'range', 'commission')
    rec.check(bool(np.all(_between(hvalue, 0.5e5 * (9 - zipc), 1.5e5 * (9 - zipc)))), sig + 'range',
              'house value does not follow the zip code')
    if not cfg['balance_classes']:
        _uniform(rec, salary, 2e4, 15e4, sig + 'marginal', 'salary')
        _uniform(rec, loan, 0, 5e5, sig + 'marginal', 'loan')
        _categories(rec, age, list(range(20, 81)), sig + 'marginal', 'age')
        _categories(rec, elevel, list(range(5)), sig + 'marginal', 'elevel')
        _categories(rec, zipc, list(range(9)), sig + 'marginal', 'zipcode')
        _categories(rec, hyears, list(range(1, 31)), sig + 'marginal', 'hyears')
        rec.check(len(np.unique(car)) == 20, sig + 'marginal', 'car has %d values' % len(np.unique(car)))


def _separable(X, y):
    """max margin of w.(x-0.5) >= 0 <=> y==1 with 0<=w<=1 (LP); > 0 iff separable."""
    from scipy.optimize import linprog
    d = X.shape[1]
    s = np.where(y == 1, 1.0, -1.0)[:, None]
    A = -s * (X - 0.5)
    res = linprog(np.zeros(d), A_ub=A, b_ub=np.full(len(y), -1e-9), bounds=[(0, 1e4)] * d,
                  method='highs')
    return res.status == 0


def _hyperplane(case, rec, r):
    d = int(r.randint(2, 9))
    sig = 'concept:HyperplaneGenerator:'
    seed = int(r.randint(10 ** 5))
    noise = float(r.choice([0.0, 0.1, 0.4, 1.0]))
    kw = dict(n_features=d, n_drift_features=int(r.randint(0, d + 1)), mag_change=0.0,
              noise_percentage=noise, sigma_percentage=0.1)
    rec.key(d, noise, seed)
    rec.sample(config=kw)
    st = S.make('HyperplaneGenerator', kw, seed)
    X, y = st.next_sample(600)
    for j in range(d):
        _uniform(rec, X[:, j], 0, 1, sig + 'marginal', 'attribute %d' % j)
    if noise == 0.0:
        rec.count('labels_checked', len(y))
        rec.check(_separable(X, y), sig + 'label', 'labels without noise and drift are not separated '
                  'by a hyperplane of non-negative weights through the middle of the cube')
        k = int((y == 1).sum())
        _binom(rec, k, len(y), 0.5, sig + 'balance', 'positive labels', slack=0.05)
    else:
        # rotation-free reference: the same seed without noise gives the same weights
        base = S.make('HyperplaneGenerator', dict(kw, noise_percentage=0.0), seed)
        Xb, yb = base.next_sample(600)
        if np.array_equal(X, Xb):
            _binom(rec, int((y != yb).sum()), len(y), (max(0, noise - 0.011) + noise) / 2,
                   sig + 'noise', 'switched labels', slack=0.006)
    # drift: with a large magnitude the concept moves, with none it stays
    kw2 = dict(kw, noise_percentage=0.0, n_drift_features=d, mag_change=0.4, sigma_percentage=0.0)
    st2 = S.make('HyperplaneGenerator', kw2, seed)
    X2, y2 = st2.next_sample(300)
    # all weights grow by the same amount at every sample: the orientation tends to the diagonal
    m = X2[200:].sum(axis=1)
    ok = (m >= d / 2) == (y2[200:] == 1)
    rec.check(float(np.mean(ok)) > 0.9, sig + 'drift', 'weights do not move with mag_change '
              '(agreement %.2f)' % np.mean(ok))


SEG = np.array([[1, 1, 1, 0, 1, 1, 1], [0, 0, 1, 0, 0, 1, 0], [1, 0, 1, 1, 1, 0, 1],
                [1, 0, 1, 1, 0, 1, 1], [0, 1, 1, 1, 0, 1, 0], [1, 1, 0, 1, 0, 1, 1],
                [1, 1, 0, 1, 1, 1, 1], [1, 0, 1, 0, 0, 1, 0], [1, 1, 1, 1, 1, 1, 1],
                [1, 1, 1, 1, 0, 1, 1]])


def _led(case, rec, r):
    cfg = S.config('LEDGenerator', r)
    cfg['noise_percentage'] = float([0.0, 0.1, 0.5, 1.0][case['i'] % 4])
    sig = 'concept:LEDGenerator:'
    seed = int(r.randint(10 ** 5))
    X, y = S.make('LEDGenerator', cfg, seed).next_sample(1500)
    rec.key(repr(cfg), seed)
    rec.sample(config=cfg)
    p = cfg['noise_percentage']
    rec.check(set(np.unique(X)) <= {0., 1.}, sig + 'range')
    flips = X[:, :7] != SEG[y]
    rec.count('labels_checked', len(y))
    if p == 0:
        rec.check(not flips.any(), sig + 'label', 'a segment differs from its digit')
    else:
        for j in range(7):
            _binom(rec, int(flips[:, j].sum()), len(y), (max(0, p - .011) + p) / 2, sig + 'noise',
                   'inverted segment %d at %g' % (j, p), slack=0.0065)
    _categories(rec, y, list(range(10)), sig + 'marginal', 'digit')
    for j in range(7, X.shape[1]):
        _binom(rec, int(X[:, j].sum()), len(y), 0.5, sig + 'marginal', 'irrelevant attribute %d' % j)


def _leddrift(case, rec, r):
    k = int(case['i'] % 8)
    sig = 'concept:LEDGeneratorDrift:'
    seed = int(r.randint(10 ** 5))
    noisy = bool(case['i'] % 5)
    cfg = dict(noise_percentage=0.0, has_noise=noisy, n_drift_features=k)
    X, y = S.make('LEDGeneratorDrift', cfg, seed).next_sample(400)
    rec.key(k, seed, noisy)
    rec.sample(config=cfg)
    S_ = SEG[y]
    rec.count('labels_checked', len(y))
    if not noisy:
        rec.check(np.array_equal(X, S_), sig + 'label', 'a segment differs from its digit')
        return
    moved = 0
    used = set()
    for i in range(7):
        cols = [j for j in range(24) if np.array_equal(X[:, j], S_[:, i])]
        rec.check(len(cols) == 1, sig + 'label', 'segment %d appears in columns %r' % (i, cols))
        if len(cols) == 1:
            moved += cols[0] != i
            rec.check(cols[0] == i or cols[0] >= 7, sig + 'drift', 'segment %d moved to %d' % (i, cols[0]))
            used.add(cols[0])
    rec.check(moved == k, sig + 'drift', '%d segments moved, n_drift_features=%d' % (moved, k))
    rec.check(len(used) == 7, sig + 'drift', 'columns reused')
    for j in range(24):
        if j not in used:
            _binom(rec, int(X[:, j].sum()), len(y), 0.5, sig + 'marginal', 'irrelevant column %d' % j)


def _waveform(case, rec, r):
    cfg = dict(has_noise=bool(case['i'] % 2))
    seed = int(r.randint(10 ** 5))
    n = 900
    X, y = S.make('WaveformGenerator', cfg, seed).next_sample(n)
    sig = 'concept:WaveformGenerator:'
    rec.key(seed, repr(cfg))
    t = np.arange(21)
    h1 = np.maximum(6 - np.abs(t - 6), 0)     # peaks at 6, 14 and 10 (0-based)
    h2 = np.maximum(6 - np.abs(t - 14), 0)
    h3 = np.maximum(6 - np.abs(t - 10), 0)
    pair = {0: (h1, h2), 1: (h1, h3), 2: (h2, h3)}
    _categories(rec, y, [0, 1, 2], sig + 'marginal', 'class')
    rec.count('labels_checked', n)
    for c, (a, b) in pair.items():
        Z = X[y == c][:, :21]
        m = len(Z)
        mu = (a + b) / 2
        sd = np.sqrt(((a - b) ** 2 / 12.0 + 1.0) / m)
        rec.check(bool(np.all(np.abs(Z.mean(axis=0) - mu) < 6.5 * sd)), sig + 'label',
                  'mean of class %d is not the mean of its two base waves' % c)
        d = (a - b).astype(float)
        lam = (Z - b).dot(d) / d.dot(d)
        R = Z - b - np.outer(lam, d)
        v = (R ** 2).sum() / (m * 20)
        rec.check(abs(v - 1) < 6.5 * math.sqrt(2.0 / (m * 20)), sig + 'label',
                  'residual variance of class %d is %.3f, expected 1' % (c, v))
        e = 1 / math.sqrt(d.dot(d))
        rec.check(bool(np.all((lam > -6.5 * e) & (lam < 1 + 6.5 * e))), sig + 'label',
                  'class %d is not a convex combination of its base waves' % c)
        rec.check(abs(lam.mean() - .5) < 6.5 * math.sqrt((1 / 12 + e * e) / m), sig + 'label',
                  'mixing coefficient of class %d averages %.3f' % (c, lam.mean()))
    if cfg['has_noise']:
        Z = X[:, 21:]
        rec.check(abs(Z.mean()) < 6.5 / math.sqrt(Z.size) and abs(Z.var() - 1) < 6.5 * math.sqrt(
            2.0 / Z.size), sig + 'noise', 'noise attributes are not standard normal')
        rec.check(bool(np.all(np.abs(Z.mean(axis=0)) < 6.5 / math.sqrt(n))), sig + 'noise')


def _rbf(case, rec, r):
    d = int(r.randint(1, 8))
    sig = 'concept:RandomRBFGenerator:'
    seed = int(r.randint(10 ** 5))
    # one centroid: one class; points scatter symmetrically around a centre of the unit cube
    cfg = dict(n_classes=int(r.randint(2, 6)), n_features=d, n_centroids=1)
    X, y = S.make('RandomRBFGenerator', cfg, seed).next_sample(1200)
    rec.key(d, seed)
    rec.count('labels_checked', len(y))
    rec.check(len(set(y.tolist())) == 1, sig + 'label', 'one centroid, several classes')
    med = np.median(X, axis=0)
    rec.check(bool(np.all((med > -0.15) & (med < 1.15))), sig + 'centre', 'centre outside the unit cube')
    rad = np.sqrt(((X - med) ** 2).sum(axis=1))
    sd = math.sqrt((rad ** 2).mean())
    rec.check(sd < 1.25, sig + 'spread', 'radius %.2f, centroids have deviations below 1' % sd)
    if sd > 0.05:
        # |N(0, s)| radius: P(|Z| < s) = 0.683
        inside = float((rad < sd).mean())
        rec.check(0.58 < inside < 0.78, sig + 'spread', 'radius is not the modulus of a normal '
                  'deviate (%.3f within one deviation)' % inside)
    # many centroids: same model seed, other sample seed -> same class proportions and means
    import skmultiflow.data as D
    cfg = dict(n_classes=3, n_features=d, n_centroids=int(r.choice([3, 20])))
    ms = int(r.randint(1000))
    a = D.RandomRBFGenerator(model_random_state=ms, sample_random_state=1, **cfg)
    b = D.RandomRBFGenerator(model_random_state=ms, sample_random_state=2, **cfg)
    Xa, ya = a.next_sample(1500)
    Xb, yb = b.next_sample(1500)
    rec.check(not np.array_equal(Xa, Xb), sig + 'seed', 'sample_random_state is ignored')
    for c in range(3):
        na, nb = int((ya == c).sum()), int((yb == c).sum())
        rec.count('aggregates')
        rec.check(abs(na - nb) <= 6.5 * math.sqrt(max(na + nb, 4)) + 2, sig + 'model',
                  'class %d drawn %d and %d times from the same model' % (c, na, nb))
        if min(na, nb) > 50:
            va = Xa[ya == c].var(axis=0) / na + Xb[yb == c].var(axis=0) / nb
            z = np.abs(Xa[ya == c].mean(axis=0) - Xb[yb == c].mean(axis=0)) / np.sqrt(va)
            rec.check(bool(np.all(z < 7)), sig + 'model', 'class means differ between sample seeds')


def _rbfdrift(case, rec, r):
    """No drift configured: exactly the static generator; drift configured: the data move."""
    cfg = S.config('RandomRBFGenerator', r)
    seed = int(r.randint(10 ** 5))
    sig = 'concept:RandomRBFGeneratorDrift:'
    X, y = S.make('RandomRBFGenerator', cfg, seed).next_sample(300)
    still = dict(cfg, change_speed=0.0, num_drift_centroids=int(r.choice([0, 50]))) \
        if r.randint(2) else dict(cfg, change_speed=0.5, num_drift_centroids=0)
    X2, y2 = S.make('RandomRBFGeneratorDrift', still, seed).next_sample(300)
    rec.key(repr(still), seed)
    rec.count('labels_checked', 300)
    rec.close(X2, X, sig + 'static', 'without drift the generator differs from the static one')
    rec.same(y2, y, sig + 'static', 'without drift the labels differ from the static generator')
    one = dict(n_classes=2, n_features=2, n_centroids=1, change_speed=0.02, num_drift_centroids=1)
    X3, y3 = S.make('RandomRBFGeneratorDrift', one, seed).next_sample(600)
    X1, _ = S.make('RandomRBFGenerator', dict(n_classes=2, n_features=2, n_centroids=1),
                   seed).next_sample(600)
    D = X3 - X1         # displacement of the centre
    step = np.diff(D, axis=0)
    rec.check(bool(np.all(np.abs(step) <= 0.02 * 1.0001)), sig + 'speed', 'a centroid moved faster '
              'than change_speed')
    mid = np.sqrt((step ** 2).sum(axis=1))
    rec.check(float(np.median(mid)) > 0.019, sig + 'speed', 'centroids move at %.4f, change_speed is '
              '0.02' % np.median(mid))
    rec.check(bool(np.all(np.ptp(D, axis=0) <= 1.0001)), sig + 'bounds',
              'the centroid left the unit cube')
    still1 = np.all(step == 0, axis=1).mean()
    rec.check(still1 < 0.2, sig + 'speed', 'the centroid does not move')
    few = dict(n_classes=3, n_features=2, n_centroids=5)
    X0, _ = S.make('RandomRBFGenerator', few, seed).next_sample(400)
    before = np.zeros(400, bool)
    grown = 0
    for k in range(0, 7):
        Xk, _ = S.make('RandomRBFGeneratorDrift', dict(few, change_speed=0.01, num_drift_centroids=k),
                       seed).next_sample(400)
        moved = np.any(np.abs(Xk - X0) > 1e-12, axis=1)
        rec.check(bool(np.all(moved[before])), sig + 'which', 'a centroid that drifts with %d drifting '
                  'centroids stands still with %d' % (k - 1, k))
        grown += bool(np.any(moved & ~before))
        before = moved
    rec.check(grown >= 3 and bool(before.all()), sig + 'which', 'of 5 centroids, the samples of the '
              'drifting ones grew %d times while 0 to 6 were asked to drift' % grown)


def _tree(case, rec, r):
    import skmultiflow.data as D
    sig = 'concept:RandomTreeGenerator:'
    ncat, k = int(r.randint(1, 4)), int(r.randint(2, 5))
    nnum = 0 if case['i'] % 2 else int(r.randint(1, 4))
    cfg = dict(n_classes=int(r.randint(2, 5)), n_cat_features=ncat, n_num_features=nnum,
               n_categories_per_cat_feature=k, max_tree_depth=int(r.randint(1, 6)),
               min_leaf_depth=int(r.randint(0, 3)), fraction_leaves_per_level=float(r.uniform(0, .4)))
    if nnum == 0:
        cfg['max_tree_depth'] = min(cfg['max_tree_depth'], ncat)
    ts = int(r.randint(1000))
    a = D.RandomTreeGenerator(tree_random_state=ts, sample_random_state=1, **cfg)
    b = D.RandomTreeGenerator(tree_random_state=ts, sample_random_state=2, **cfg)
    X, y = a.next_sample(700)
    X2, y2 = b.next_sample(700)
    rec.key(repr(cfg), ts)
    rec.sample(config=cfg)
    for j in range(nnum):
        _uniform(rec, X[:, j], 0, 1, sig + 'marginal', 'numeric attribute %d' % j)
    for c in range(ncat):
        G = X[:, nnum + c * k: nnum + (c + 1) * k]
        rec.check(set(np.unique(G)) <= {0., 1.} and bool(np.all(G.sum(axis=1) == 1)), sig + 'onehot',
                  'nominal attribute %d is not one-hot' % c)
        _categories(rec, G.argmax(axis=1), list(range(k)), sig + 'marginal', 'nominal %d' % c)
    rec.check(set(y.tolist()) <= set(range(cfg['n_classes'])), sig + 'label')
    rec.count('labels_checked', 1400)
    allX, ally = np.vstack([X, X2]), np.r_[y, y2]
    if nnum == 0:
        seen = {}
        for row, l in zip(map(bytes, allX), ally):
            rec.check(seen.setdefault(row, l) == l, sig + 'label', 'equal attributes, different labels')
    else:
        # axis-parallel tree: a generic exact learner reproduces the labels of the other sample seed
        from sklearn.tree import DecisionTreeClassifier
        m = DecisionTreeClassifier(random_state=0).fit(X, y)
        rec.check(m.score(X2, y2) > 0.6, sig + 'model',
                  'labels of the same tree disagree between sample seeds (%.2f)' % m.score(X2, y2))


def _leaves(case, rec, r):
    """With a million classes the label tells the leaf: the partition must be that of a tree of the documented shape."""
    import skmultiflow.data as D
    sig = 'concept:RandomTreeGenerator:'
    mixed = bool(case['i'] % 2)
    ncat, k = (int(r.randint(1, 3)), 2) if mixed else (int(r.randint(4, 6)), int(r.randint(2, 4)))
    nnum = int(r.randint(1, 4)) if mixed else 0
    deep = int(r.randint(1, 4))
    shallow = int(r.randint(0, deep + 1))
    frac = float(r.choice([0.0, 0.15, 0.5, 1.0]))
    bad, at, inner = {}, {}, {}
    for t in range(6):
        ts = int(r.randint(10 ** 6))
        g = D.RandomTreeGenerator(tree_random_state=ts, sample_random_state=t, n_classes=10 ** 6, n_cat_features=ncat,
                                  n_num_features=nnum, n_categories_per_cat_feature=k, max_tree_depth=deep,
                                  min_leaf_depth=shallow, fraction_leaves_per_level=frac)
        X, y = g.next_sample(2000)
        rec.count('labels_checked', 2000)
        boxes = {l: (X[y == l].min(axis=0), X[y == l].max(axis=0)) for l in np.unique(y)}
        for l, (lo, hi) in boxes.items():
            if not np.all(y[np.all((X >= lo) & (X <= hi), axis=1)] == l):
                bad.setdefault(t, ('class %s of tree %d is not a box' % (l, ts)))
        if len(boxes) > max(2, k if ncat else 2) ** deep:
            bad.setdefault(t, ('%d leaves at depth %d' % (len(boxes), deep)))
        if mixed:
            continue
        C = X.reshape(len(X), ncat, k).argmax(axis=2)
        depths = [int(sum(np.ptp(C[y == l][:, c]) == 0 for c in range(ncat))) for l in boxes]
        nodes = 1
        for d in range(deep + 1):
            n = depths.count(d)
            if n and not shallow <= d <= deep:
                bad.setdefault(t, ('a leaf at depth %d' % d))
            if d == deep and nodes != n:
                bad.setdefault(t, ('%d nodes but %d leaves at depth %d' % (nodes, n, d)))
            if shallow <= d < deep:
                at[d] = at.get(d, 0) + n
                inner[d] = inner.get(d, 0) + nodes
            nodes = k * (nodes - n)
    # two leaves of one class (one tree in a thousand) look like a flaw
    rec.check(len(bad) <= 1, sig + 'tree', lambda: 'depths %d to %d, %d attributes: %s' % (shallow, deep, ncat + nnum, list(bad.values())[:4]))
    for d in at:
        _binom(rec, at[d], inner[d], frac, sig + 'fraction', 'leaves at depth %d of 6 trees' % d)
    # every class can stand at a leaf
    n = int(r.randint(2, 5))
    seen = set()
    for t in range(30):
        g = D.RandomTreeGenerator(tree_random_state=int(r.randint(10 ** 6)), n_classes=n, n_cat_features=2, n_num_features=2,
                                  max_tree_depth=2, min_leaf_depth=2)
        seen |= set(g.next_sample(40)[1].astype(int).tolist())
    rec.check(seen == set(range(n)), sig + 'classes', lambda: 'only the classes %s of %d occur in 30 trees' % (sorted(seen), n))
    rec.key('leaves', mixed, ncat, k, nnum, deep, shallow, frac, case['i'])


def _multilabel(case, rec, r):
    from sklearn.datasets import make_multilabel_classification
    cfg = S.config('MultilabelGenerator', r)
    seed = int(r.randint(10 ** 5))
    X, y = S.make('MultilabelGenerator', cfg, seed).next_sample(cfg['n_samples'])
    rec.key(repr(cfg), seed)
    EX, Ey = make_multilabel_classification(n_samples=cfg['n_samples'], n_features=cfg['n_features'],
                                            n_classes=cfg['n_targets'], n_labels=cfg['n_labels'],
                                            random_state=seed)
    rec.count('labels_checked', len(y))
    rec.same(X, EX, 'concept:MultilabelGenerator:data', 'features')
    rec.same(y, Ey, 'concept:MultilabelGenerator:data', 'labels')
    rec.count('aggregates')
    if cfg['n_samples'] >= 300:
        rec.check(y.sum(axis=1).mean() < cfg['n_labels'] + 1.5, 'concept:MultilabelGenerator:data')


def _regression(case, rec, r):
    cfg = S._regr(r)
    seed = int(r.randint(10 ** 5))
    X, y = S.make('RegressionGenerator', cfg, seed).next_sample(cfg['n_samples'])
    rec.key(repr(cfg), seed)
    Y = np.asarray(y).reshape(len(X), -1)
    rec.check(Y.shape[1] == cfg['n_targets'], 'concept:RegressionGenerator:shape')
    sig = 'concept:RegressionGenerator:'
    coef, *_ = np.linalg.lstsq(X, Y, rcond=None)
    res = np.abs(X.dot(coef) - Y).max()
    rec.count('labels_checked', len(Y))
    rec.check(res < 1e-6 * max(1.0, np.abs(Y).max()), sig + 'linear',
              'targets are not a linear function of the features (residual %g)' % res)
    nz = int((np.abs(coef).max(axis=1) > 1e-6 * np.abs(coef).max()).sum())
    rec.check(nz == cfg['n_informative'], sig + 'informative', '%d informative features, configured '
              '%d' % (nz, cfg['n_informative']))


def _anomalysine(case, rec, r):
    import skmultiflow.data as D
    sig = 'concept:AnomalySineGenerator:'
    n = int(r.choice([100, 400]))
    na = int(r.randint(1, n // 2))
    replace = bool(r.randint(2))
    noise = float(r.choice([0.0, 0.1]))
    ctx = bool(case['i'] % 2)
    shift = int(r.randint(0, 8))
    st = D.AnomalySineGenerator(n_samples=n, n_anomalies=na, contextual=ctx, n_contextual=n // 4,
                                shift=shift, noise=noise, replace=replace,
                                random_state=int(r.randint(10 ** 5)))
    X, y = st.next_sample(n)
    rec.key(n, na, replace, noise, ctx, shift)
    rec.check(set(np.unique(y).tolist()) <= {0, 1}, sig + 'label')
    k = int((y == 1).sum())
    rec.check(k == na if not replace else 1 <= k <= na, sig + 'count',
              '%d anomalies, configured %d (replace=%r)' % (k, na, replace))
    i = np.arange(n)
    tol = 1e-9 if noise == 0 else 8 * noise
    rec.count('labels_checked', n)
    rec.check(bool(np.all(np.abs(X[:, 0] - np.sin(i / 4.0)) <= tol)), sig + 'signal',
              'first attribute is not the sine')
    dev = np.abs(X[:, 1] - np.cos(i / 4.0)) > tol
    if not ctx:
        rec.check(not np.any(dev & (y == 0)), sig + 'signal', 'a normal point leaves the cosine')
    else:
        nd = int((dev & (y == 0)).sum())
        rec.check(nd <= n // 4, sig + 'contextual', '%d contextual anomalies, configured %d' %
                  (nd, n // 4))
        if noise == 0 and shift:
            for j in np.where(dev & (y == 0))[0]:
                rec.check(j >= shift and abs(X[j, 1] - np.sin((j - shift) / 4.0)) < 1e-9,
                          sig + 'contextual', 'contextual anomaly at %d is not the shifted sine' % j)
    a = X[y == 1, 1]
    rec.check(bool(np.all(np.abs(a - 2.0) <= 1 + tol)), sig + 'anomaly',
              'anomalies do not lie around 2')
