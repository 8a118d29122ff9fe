"""C02: finite sources deliver every row exactly once, in order, with its own target/time/weight."""
import os

import numpy as np
import pandas as pd

from vp import streams as S

LEVEL = 'exploration'
RULE = ('an evaluation checks one delivered batch (or one state query) against the position-indexed '
        'source; distinct = (source kind, shape, target layout, schedule) digests')
REQUIRED = {'rows_delivered': 5000, 'restarts': 20, 'exhausted': 20, 'past_end': 5,
            'temporal_unordered': 5, 'files': 5}
ASSUMPTIONS = ['a request that runs past the end may return a short batch, an empty batch or '
               'nothing, but never a row that is not due']


def cases(tier, seed):
    k = 200 if tier == 'quick' else 600
    return [{'fam': f, 'i': i, 'seed': seed} for f in ('array', 'frame', 'xy', 'file', 'temporal',
                                                       'generator') for i in range(k)]


def _table(r):
    n = int(r.choice([1, 2, 7, 40, 133]))
    d = int(r.randint(1, 6))
    t = int(r.randint(1, 4))
    integer = bool(r.randint(2))
    uid = np.arange(n, dtype=float)
    X = np.round(r.normal(size=(n, d)) * 1024) / 1024
    X[:, 0] = uid * 2 + 0.5
    if d > 1 and r.randint(2):
        X[:, 1] = r.randint(0, 4, n)
    if integer:
        Y = r.randint(0, 4, size=(n, t))
        Y[:, 0] = (np.arange(n) * 7919 + 3) % 1009 % 11
    else:
        Y = np.round(r.normal(size=(n, t)) * 1024) / 1024
        Y[:, 0] = uid * 3 + 0.25
    return X, Y, integer


def _layout(r, X, Y, integer, as_frame):
    """Places the target columns at a random position; returns data, target_idx, n_targets."""
    d, t = X.shape[1], Y.shape[1]
    p = int(r.randint(0, d + 1))
    cols = [('f%d' % i, X[:, i]) for i in range(d)]
    tgt = [('t%d' % i, Y[:, i]) for i in range(t)]
    allc = cols[:p] + tgt + cols[p:]
    if p == d and r.randint(2):
        idx = -t
    elif p + t < d + t and r.randint(2):
        idx = p - (d + t)
    else:
        idx = p
    if as_frame:
        return pd.DataFrame({k: (v.astype(int) if (k[0] == 't' and integer) else v)
                             for k, v in allc}), idx, t
    return np.column_stack([v for _, v in allc]), idx, t


def _drive(rec, r, st, X, Y, what, extra=None):
    """Random schedule of batches, restarts and queries against the position-indexed source."""
    n, t = Y.shape
    extra = extra or {}

    def expect(lo, hi):
        y = Y[lo:hi]
        return X[lo:hi], (y.reshape(-1) if t == 1 else y)

    for episode in range(3):
        pos = 0
        sched = []
        while True:
            rec.check(bool(st.has_more_samples()) == (pos < n), 'src:%s:has_more' % what,
                      'has_more_samples()=%r after %d of %d rows' % (st.has_more_samples(), pos, n))
            rem = st.n_remaining_samples()
            rec.check(rem == n - pos if pos <= n else rem <= 0, 'src:%s:remaining' % what,
                      'n_remaining_samples()=%r after %d of %d rows' % (rem, pos, n))
            if not st.has_more_samples() or pos >= n:
                break
            if episode == 1 and r.rand() < 0.1:
                break
            over = episode == 2 and r.rand() < 0.3
            b = int(r.randint(1, max(2, n // 2 + 1))) if r.randint(2) else 1
            if over:
                b = n - pos + int(r.randint(1, 5))
            else:
                b = min(b, n - pos)
            sched.append(b)
            out = st.next_sample(b)
            gx, gy = out[0], out[1]
            hi = min(n, pos + b)
            ex, ey = expect(pos, hi)
            if over:
                rec.count('past_end')
                if gx is not None and len(gx):
                    rec.check(np.array_equal(np.asarray(gx, float), np.asarray(ex[:len(gx)], float)),
                              'src:%s:rows' % what, 'rows past the end are not the remaining rows')
            else:
                rec.same(np.asarray(gx, float), np.asarray(ex, float), 'src:%s:rows' % what,
                         'features of rows %d..%d' % (pos, hi))
                rec.same(np.asarray(gy, float), np.asarray(ey, float), 'src:%s:targets' % what,
                         'targets of rows %d..%d' % (pos, hi))
                for j, (name, vals) in enumerate(sorted(extra.items())):
                    got = out[{'time': 2, 'delay': 3, 'weight': 4}[name]]
                    if vals is None:
                        rec.check(got is None, 'src:%s:%s' % (what, name), 'expected None')
                    else:
                        ok = got is not None and len(got) == b and \
                            bool(np.all(np.asarray(got) == vals[pos:hi]))
                        rec.check(ok, 'src:%s:%s' % (what, name),
                                  lambda: '%s of rows %d..%d: %r, expected %r' %
                                  (name, pos, hi, got, vals[pos:hi]))
                last = st.last_sample()
                rec.same(np.asarray(last[0], float), np.asarray(ex, float), 'src:%s:last' % what,
                         'last_sample is not the sample delivered last')
                rec.same(np.asarray(last[1], float), np.asarray(ey, float), 'src:%s:last' % what,
                         'last_sample is not the sample delivered last')
            rec.count('rows_delivered', hi - pos)
            pos += b
        if pos >= n:
            rec.count('exhausted')
            if r.randint(2):
                out = st.next_sample(int(r.randint(1, 4)))
                rec.check(out[0] is None or len(out[0]) == 0, 'src:%s:rows' % what,
                          'a row was delivered after the end')
        rec.key(what, X.shape, Y.shape, sched)
        st.restart()
        rec.count('restarts')


def run(case, rec):
    r = np.random.RandomState((case['seed'] * 7919 + case['i'] * 104729 +
                               sum(map(ord, case['fam']))) % (2 ** 31))
    from skmultiflow.data import DataStream, FileStream, TemporalDataStream
    fam = case['fam']
    if fam == 'generator':
        name = S.FINITE[case['i'] % len(S.FINITE)]
        cfg = S.config(name, r)
        cfg['n_samples'] = int(r.choice([40, 97]))
        for k in ('n_anomalies', 'n_contextual'):
            if k in cfg:
                cfg[k] = min(cfg[k], 30)
        a = S.make(name, cfg, 5)
        X, Y = a.next_sample(cfg['n_samples'])
        X, Y = np.array(X), np.array(Y).reshape(cfg['n_samples'], -1)
        _drive(rec, r, S.make(name, cfg, 5), X, Y, name)
        return
    X, Y, integer = _table(r)
    if fam in ('array', 'frame'):
        data, idx, t = _layout(r, X, Y, integer, fam == 'frame')
        keep = data.copy()
        st = DataStream(data, target_idx=idx, n_targets=t)
        rec.sample(kind=fam, shape=list(data.shape), target_idx=idx, n_targets=t)
        _drive(rec, r, st, X, Y, fam)
        rec.check(np.array_equal(np.asarray(keep), np.asarray(data)), 'src:%s:mutated' % fam,
                  'the caller\'s data was changed')
        return
    if fam == 'xy':
        fx, fy = bool(r.randint(2)), bool(r.randint(2))
        x = pd.DataFrame(X) if fx else X
        y = pd.DataFrame(Y) if fy else Y
        if Y.shape[1] == 1 and not fy and r.randint(2):
            y = Y[:, 0]
        kx, ky = x.copy(), y.copy()
        st = DataStream(x, y)
        _drive(rec, r, st, X, Y, fam)
        rec.check(np.array_equal(np.asarray(kx), np.asarray(x)) and
                  np.array_equal(np.asarray(ky), np.asarray(y)), 'src:xy:mutated',
                  'the caller\'s data was changed')
        return
    if fam == 'file':
        data, idx, t = _layout(r, X, Y, integer, True)
        path = os.path.join(os.getcwd(), 'my.data.v%d.csv' % case['i'])
        data.to_csv(path, index=False, float_format='%.17g')
        st = FileStream(path, target_idx=idx, n_targets=t)
        rec.count('files')
        _drive(rec, r, st, X, Y, fam)
        return
    # temporal
    n = X.shape[0]
    base = np.datetime64('2020-01-01T00:00:00')
    gaps = r.randint(1 if r.randint(2) else 0, 5000, n)
    tm = base + np.cumsum(gaps).astype('timedelta64[s]')
    unordered = bool(r.randint(2))
    if unordered:
        # distinct timestamps, so that the chronological order is unique
        tm = base + (np.arange(n) * 60 + r.randint(0, 50, n)).astype('timedelta64[s]')
        tm = tm[r.permutation(n)]
        rec.count('temporal_unordered')
    dk = r.randint(5)
    lag = r.randint(0, 10000, n).astype('timedelta64[s]')
    if dk == 0:
        delay = int(r.randint(0, 9))
    elif dk == 1:
        delay = np.timedelta64(int(r.randint(0, 5000)), 's')
    elif dk == 2:
        delay = tm + lag
    elif dk == 3:
        delay = pd.Series(tm + lag)
    else:
        delay = 0
    time = pd.Series(tm) if r.randint(2) else tm
    if dk in (0, 4) and not unordered and r.randint(2):
        time = None
    w = r.rand(n) if r.randint(2) else None
    if fam == 'temporal' and r.randint(2):
        args = ((X, Y), {})
    elif r.randint(2):
        args = ((pd.DataFrame(X), pd.DataFrame(Y)), {})
    else:
        data, idx, t = _layout(r, X, Y, integer, bool(r.randint(2)))
        args = ((data, None), dict(target_idx=idx, n_targets=t))
    keep_t = None if time is None else np.array(time)
    keep_w = None if w is None else w.copy()
    st = TemporalDataStream(*args[0], time=time, sample_delay=delay, sample_weight=w,
                            ordered=not unordered, **args[1])
    order = np.argsort(tm, kind='stable') if unordered else np.arange(n)
    if isinstance(delay, int):
        et, ed = np.arange(n), np.arange(n) + delay
    else:
        et = tm[order]
        dv = tm + delay if isinstance(delay, np.timedelta64) else np.asarray(delay)
        ed = dv[order]
    _drive(rec, r, st, X[order], Y[order], 'temporal',
           {'time': et, 'delay': ed, 'weight': None if w is None else w[order]})
    rec.check(keep_t is None or np.array_equal(keep_t, np.asarray(time)), 'src:temporal:mutated',
              'the caller\'s timestamps were changed')
    rec.check(keep_w is None or np.array_equal(keep_w, w), 'src:temporal:mutated',
              'the caller\'s weights were changed')
