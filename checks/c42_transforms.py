"""Stream transforms against references that keep the raw rows."""
import warnings

import numpy as np

from vp import driftload

LEVEL = 'exploration'
RULE = ('a case feeds one transform 20-200 rows in random batches, as arrays (of floats or integers) or nested lists, mixing '
        'transform, partial_fit and partial_fit_transform, and compares every value with a reference that keeps the raw '
        'rows; the arrays handed in are overwritten afterwards; every case is non-trivial; distinct by transform, '
        'configuration and values')
REQUIRED = {'rows': 6000, 'values': 13000, 'imputed': 1500, 'groups': 700, 'window_full': 2500, 'integers': 30, 'lists': 30}
ASSUMPTIONS = ['groups of one-hot features are contiguous and in ascending order',
               'ties of the mode may be broken either way',
               'where a whole column of the window is missing any finite value may be filled in']
FAMS = ('clean', 'standard', 'onehot')


def cases(tier, seed):
    n = 140 if tier == 'quick' else 600
    return [{'fam': f, 'i': i, 'seed': seed} for i in range(n) for f in FAMS] + [{'fam': 'minmax', 'i': 0, 'seed': seed}]


def run(case, rec):
    r = driftload.rng(case)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()[case['fam']](rec, r)


def batches(rec, r, D, draw, integers):
    n = int(r.choice([20, 60, 200]))
    while n > 0:
        b = min(n, int(r.choice([1, 1, 3, 10, 40])))
        X = np.array([draw() for _ in range(b)], dtype=int if integers else float).reshape(b, D)
        n -= b
        rec.count('rows', b)
        yield X


def call(rec, r, t, X, how, name):
    """One call; what was handed in must not be changed, and is overwritten afterwards."""
    style = r.randint(3)
    arg = X.tolist() if style == 0 else X.copy()
    if style == 1:
        arg = np.asfortranarray(arg)
    rec.count('lists', int(style == 0))
    rec.count('integers', int(X.dtype.kind == 'i'))
    out = getattr(t, how)(arg)
    kept = None if how == 'partial_fit' else np.array(out, dtype=float)
    rec.check(np.array_equal(np.array(arg), X, equal_nan=X.dtype.kind == 'f'), 'input:' + name,
              lambda: '%s changed the samples it was given' % how)
    if style:
        arg[...] = 0
    if how == 'partial_fit':
        rec.check(out is t, 'chain:' + name, 'partial_fit did not return the transform')
        return None
    return kept


# ---------------------------------------------------------------- MissingValuesCleaner

def clean(rec, r):
    from skmultiflow.transform import MissingValuesCleaner
    name = 'MissingValuesCleaner'
    D = int(r.randint(1, 5))
    strategy = str(r.choice(['zero', 'mean', 'median', 'mode', 'custom']))
    size = int(r.choice([1, 3, 10, 50]))
    code = [np.nan, -47, [-47, -1], [np.nan, 9]][int(r.randint(4))]
    codes = code if isinstance(code, list) else [code]
    integers = not any(np.isnan(c) for c in codes) and r.randint(2) == 0
    new = float(r.choice([1, -3, 7.5]))
    t = MissingValuesCleaner(missing_value=code, strategy=strategy, window_size=size, new_value=new)
    rate = float(r.choice([0.05, 0.3, 0.7]))
    gone = lambda v: np.isnan(v) or v in codes
    rec.sample(transform=name, strategy=strategy, window=size, missing=str(code), integers=bool(integers))

    def draw():
        row = r.randint(0, 6, size=D).astype(float)
        if not integers:
            row += r.choice([0, 0.5], size=D)
        for j in range(D):
            if r.rand() < rate:
                row[j] = codes[int(r.randint(len(codes)))]
        return row
    win = []
    for X in batches(rec, r, D, draw, integers):
        how = str(r.choice(['transform', 'partial_fit_transform', 'partial_fit']))
        got = call(rec, r, t, X, how, name)
        if how == 'partial_fit':
            win = (win + [np.array(x, dtype=float) for x in X])[-size:]
            continue
        rec.check(got.shape == X.shape, 'shape:' + name, lambda: 'shape %s of %s' % (got.shape, X.shape))
        for i in range(len(X)):
            win = (win + [np.array(X[i], dtype=float)])[-size:]
            rec.count('window_full', int(len(win) == size))
            for j in range(D):
                v = got[i, j]
                rec.count('values')
                if not gone(X[i, j]):
                    rec.check(v == X[i, j], 'kept:' + name, lambda: 'the value %s became %s' % (X[i, j], v))
                    continue
                rec.count('imputed')
                if strategy in ('zero', 'custom'):
                    ok = v == (0 if strategy == 'zero' else new)
                else:
                    col = np.array([w[j] for w in win if not gone(w[j])])
                    if not len(col):
                        ok = np.isfinite(v) and not gone(v)
                    elif strategy == 'mean':
                        ok = abs(v - col.mean()) < 1e-9
                    elif strategy == 'median':
                        ok = abs(v - np.median(col)) < 1e-9
                    else:
                        u, c = np.unique(col, return_counts=True)
                        ok = v in u[c == c.max()]
                rec.check(ok, 'imputed:' + name, lambda: 'a missing value became %s (%s of the last %d rows %s)' % (
                    v, strategy, size, [w[j] for w in win]))
        rec.key(name, strategy, got)


# ---------------------------------------------------------------- WindowedStandardScaler

def standard(rec, r):
    from skmultiflow.transform import WindowedStandardScaler
    name = 'WindowedStandardScaler'
    D, size = int(r.randint(1, 5)), int(r.choice([1, 2, 7, 30, 200]))
    t = WindowedStandardScaler(window_size=size)
    integers = r.randint(2) == 0
    mu, sd, nan = r.normal(size=D) * 10, np.exp(r.normal(size=D)), 0 if integers else float(r.choice([0, 0.1]))
    if not integers and r.rand() < .5:
        mag = 10.0 ** r.uniform(-7, 7, size=D)
        mu, sd = mu * mag, sd * mag
    const = r.randint(D) if r.rand() < 0.3 else None
    rec.sample(transform=name, window=size, integers=bool(integers))

    def draw():
        row = mu + sd * r.normal(size=D)
        if integers:
            row = np.round(row * 10)
        if const is not None:
            row[const] = 5
        row[r.rand(D) < nan] = np.nan
        return row
    win = []
    for X in batches(rec, r, D, draw, integers):
        how = str(r.choice(['transform', 'partial_fit_transform', 'partial_fit']))
        got = call(rec, r, t, X, how, name)
        if how == 'partial_fit':
            win = (win + [np.array(x, dtype=float) for x in X])[-size:]
            continue
        for i in range(len(X)):
            rec.count('window_full', int(len(win) == size))
            for j in range(D):
                col = np.array([w[j] for w in win])
                col = col[~np.isnan(col)]
                rec.count('values')
                if win and not len(col):
                    continue
                m, s = (col.mean(), col.std()) if win else (0.0, 1.0)
                exact = s == 0 or s > 1e-9 * np.abs(col).max(initial=0)
                if s == 0 or not exact:
                    s = 1.0
                want = (X[i, j] - m) / s
                if np.isnan(want):
                    rec.check(np.isnan(got[i, j]), 'scaled:' + name, lambda: 'nan became %s' % got[i, j])
                elif exact:
                    rec.check(abs(got[i, j] - want) < 1e-6 * max(1, abs(want)), 'scaled:' + name, lambda: (
                        '%s became %s, with the mean %s and deviation %s of the window it is %s' %
                        (X[i, j], got[i, j], m, s, want)))
            win = (win + [np.array(X[i], dtype=float)])[-size:]
        rec.key(name, size, got)


# ---------------------------------------------------------------- WindowedMinmaxScaler

def minmax(rec, r):
    """Directed: values inside the range of the window belong into [0, 1]."""
    from skmultiflow.transform import WindowedMinmaxScaler
    t = WindowedMinmaxScaler(window_size=10)
    t.partial_fit(np.array([[10.0], [30.0]]))
    got = float(np.array(t.transform(np.array([[15.0]])))[0, 0])
    if abs(got - 0.25) > 1e-9:
        rec.fail('minmax-unscaled:WindowedMinmaxScaler', '15 in a window from 10 to 30 became %s' % got)
    rec.ok()
    rec.key('minmax', got)


# ---------------------------------------------------------------- OneHotToCategorical

def onehot(rec, r):
    from skmultiflow.transform import OneHotToCategorical
    name = 'OneHotToCategorical'
    layout = []                      # (width, is group)
    for _ in range(int(r.randint(1, 6))):
        layout.append((int(r.randint(2, 6)), True) if r.randint(2) else (1, False))
    groups, at = [], 0
    for w, g in layout:
        if g:
            groups.append(list(range(at, at + w)))
        at += w
    rec.sample(transform=name, layout=str(layout))
    t = OneHotToCategorical(groups)
    integers = bool(r.randint(2))
    X, want = [], []
    for _ in range(int(r.choice([1, 5, 30]))):
        x, o = [], []
        for w, g in layout:
            if g:
                c = int(r.randint(w))
                h = [0] * w
                h[c] = 1
                x += h
                o.append(c)
                rec.count('groups')
            else:
                v = int(r.randint(-3, 4)) if integers else float(r.normal())
                x.append(v)
                o.append(v)
        X.append(x)
        want.append(o)
    X = np.array(X, dtype=int if integers else float)
    want = np.array(want, dtype=float)
    for how in ('transform', 'partial_fit_transform'):
        keep = X.copy()
        if r.randint(2):
            t.partial_fit(X)
        got = np.array(getattr(t, how)(X), dtype=float)
        rec.check(np.array_equal(keep, X), 'input:' + name, 'the samples were changed')
        rec.check(got.shape == want.shape and np.array_equal(got, want), 'decoded:' + name,
                  lambda: 'layout %s: %s became %s' % (layout, X[0].tolist(), got[0].tolist()))
        rec.count('values', want.size)
        rec.count('rows', len(X))
    rec.key(name, want)
