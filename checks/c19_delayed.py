"""C19: delayed-label evaluation tests at arrival and trains only once labels are available."""
import numpy as np
import pandas as pd

from vp import driftload
from vp import evalload as E

LEVEL = 'exploration'
RULE = ('an evaluation is one row-level obligation (predicted once at arrival by the model state '
        'it should see; trained once, when available, with its own target and weight); distinct = '
        '(delay scheme, sizes, batch) digests')
REQUIRED = {'rows_predicted': 3000, 'rows_trained': 3000, 'reordered_rows': 100, 'drained_rows': 200,
            'weighted': 10, 'no_pretrain': 10, 'multi_model': 10, 'queue_ops': 500, 'time_limited': 10, 'limit_reached': 20}
ASSUMPTIONS = ['rows whose labels become available at the same instant may be trained in either '
               'order; reading ends with the batch after which max_samples rows have been trained']


def cases(tier, seed):
    k = 220 if tier == 'quick' else 900
    return [{'fam': 'delayed', 'i': i, 'seed': seed} for i in range(k)] + \
        [{'fam': 'queue', 'i': i, 'seed': seed} for i in range(k // 2)] + \
        [{'fam': 'time', 'i': i, 'seed': seed, 'cost': 2} for i in range(8 if tier == 'quick' else 60)]


def times(r, n):
    """Arrival and availability instants (datetime64[s]) with the chosen delay scheme."""
    base = np.datetime64('2020-01-01T00:00:00')
    gaps = r.randint(1, 50, n) if r.randint(3) else r.randint(0, 2, n)
    arrival = base + np.cumsum(gaps).astype('timedelta64[s]')
    scheme = ['constant', 'zero', 'random', 'huge', 'mixed'][r.randint(5)]
    if scheme == 'constant':
        delay = np.full(n, int(r.choice([10, 60, 400])))
    elif scheme == 'zero':
        delay = np.zeros(n, dtype=int)
    elif scheme == 'random':
        delay = r.randint(0, 500, n)
    elif scheme == 'huge':
        delay = np.full(n, 10 ** 6)
    else:
        delay = np.where(r.randint(2, size=n) == 0, 0, r.randint(0, 2000, n))
    return scheme, arrival, arrival + delay.astype('timedelta64[s]')


def run(case, rec):
    if case['fam'] == 'queue':
        return queue(case, rec)
    if case['fam'] == 'time':
        return E.time_limit(rec, 'delayed', driftload.rng(case), 'delayed')
    from skmultiflow.evaluation import EvaluatePrequentialDelayed
    from skmultiflow.data import TemporalDataStream
    r = driftload.rng(case)
    log = []
    task = E.TASKS[[0, 0, 1, 2, 3][r.randint(5)]]
    n = int(r.choice([40, 57, 100]))
    X, y = E.table(r, task, n)
    Xc, yc = X.copy(), y.copy()
    weights = np.round(r.uniform(0.5, 4, n) * 16) / 16 if r.randint(2) else None
    kw = {}
    if r.randint(3) == 0:
        delay = int(r.choice([0, 1, 5, 30]))
        scheme = 'samples'
        arrival = np.arange(n)
        available = np.arange(n) + delay
        kw = {'sample_delay': delay}
    else:
        scheme, arrival, available = times(r, n)
        if r.randint(2):
            kw = {'time': pd.Series(arrival), 'sample_delay': pd.Series(available)}
        else:
            kw = {'time': arrival.copy(), 'sample_delay': available.copy()}
    st = TemporalDataStream(X, y, n_targets=1 if y.ndim == 1 else y.shape[1],
                            sample_weight=None if weights is None else weights.copy(), name='t',
                            **kw)
    p = int(r.choice([0, 1, 10, 20]))
    b = int(r.choice([1, 1, 2, 3, 8]))
    w = int(r.choice([1, 2, 5]))
    n_models = int(r.choice([1, 2]))
    mx = int(r.choice([10 ** 6, n, n - 10, n // 2]))
    metrics = [m for m in E.METRICS[task] if m in E.GET][:3]
    ev = EvaluatePrequentialDelayed(n_wait=w, max_samples=mx, batch_size=b, pretrain_size=p,
                                    metrics=metrics)
    models = [E.SpyModel(j, task, log, Xc, yc) for j in range(n_models)]
    rec.sample(task=task, rows=n, scheme=scheme, pretrain=p, batch=b, models=n_models,
               weighted=weights is not None)
    rec.count('weighted', weights is not None)
    rec.count('no_pretrain', p == 0)
    rec.count('multi_model', n_models > 1)
    out, text = E.quiet(ev.evaluate, stream=st, model=models)
    for j in range(n_models):
        events = [e for e in log if e[1] == j]
        order, preds, read = conform(rec, events, task, y, p, b, n, mx, arrival, available,
                                     weights, 'delay %s, model %d of %d' % (scheme, j, n_models))
        scored = [(y[i], preds[i]) for i in order if i in preds]
        E.compare_measurements(rec, ev, task, j, scored, w, 'delayed:scores')
    rec.check(np.array_equal(X, Xc) and np.array_equal(y, yc), 'delayed:source_mutated')
    nxt = st.next_sample(1)[0]
    rec.same(int(nxt[0, 0]), 0, 'delayed:restart', 'the next row after the evaluation')
    E.forwarding(rec, ev, models, log, task, Xc, yc, 'delayed')
    rec.key(task, n, scheme, p, b, w, n_models, weights is not None, mx)


def conform(rec, events, task, y, p, b, n, mx, arrival, available, weights, who):
    order, preds = [], {}
    trained = set()
    first = None
    pending_pre = p
    nxt = p                         # next row that may arrive
    last = p                        # rows trained when the last batch was read
    for e in events:
        if e[0] == 'fit':
            ids = e[2]
            rec.check(e[3] and e[4], 'delayed:xy', '%s: partial_fit got altered samples or targets '
                      '%r' % (who, ids))
            if weights is not None:
                good = e[6] is not None and e[6].shape == (len(ids),) and \
                    np.allclose(e[6], weights[ids])
                rec.check(good, 'delayed:weights', lambda: '%s: rows %r trained with weights %r, '
                          'theirs are %r' % (who, ids, e[6], weights[ids]))
            else:
                rec.check(e[6] is None or np.allclose(e[6], 1), 'delayed:weights',
                          '%s: weights invented' % who)
            first = first or e
            for i in ids:
                rec.count('rows_trained')
                rec.check(i not in trained, 'delayed:twice', '%s: row %d trained twice' % (who, i))
                if i < p:
                    rec.check(i == len(trained), 'delayed:pretrain_order', who)
                else:
                    rec.check(i in preds, 'delayed:untested', '%s: row %d trained before it was '
                              'tested' % (who, i))
                    waiting = [q for q in preds if q not in trained and q != i]
                    early = [q for q in waiting if available[q] < available[i]]
                    rec.check(not early, 'delayed:order', lambda: '%s: row %d (available %s) '
                              'trained before row %d (available %s)'
                              % (who, i, available[i], early[0], available[early[0]]))
                    rec.count('reordered_rows', bool(order) and i < order[-1])
                trained.add(i)
                order.append(i)
        else:
            rec.check(e[3], 'delayed:x', '%s: predict got altered samples %r' % (who, e[2]))
            ids = e[2]
            rec.check(ids == list(range(nxt, min(n, nxt + b))), 'delayed:arrival', '%s: tested '
                      'rows %r, due were rows from %d' % (who, ids, nxt))
            rec.check(last < mx, 'delayed:limit', '%s: rows %r were read although %d of max_samples=%d had been trained'
                      % (who, ids, last, mx))
            now = arrival[ids[-1]]
            due = set(range(p)) | {i for i in range(p, nxt) if available[i] <= now}
            rec.check(trained == due, 'delayed:state', lambda: '%s: when row %d arrived (%s) the '
                      'model had been trained on %r beyond and lacked %r of the available rows'
                      % (who, ids[0], now, sorted(trained - due)[:5], sorted(due - trained)[:5]))
            for i, a in zip(ids, e[4]):
                rec.count('rows_predicted')
                rec.check(i not in preds, 'delayed:twice_tested', '%s: row %d tested twice'
                          % (who, i))
                preds[i] = a
            nxt += len(ids)
            last = len(order)
    rec.count('drained_rows', len(order) - last if preds else 0)
    rec.same(len(trained), p + len(preds), 'delayed:drained', '%s: rows trained in the end' % who)
    rec.check(nxt >= n or last >= min(mx, n), 'delayed:read', '%s: reading ended after row %d of %d with %d of '
              'max_samples=%d trained' % (who, nxt, n, last, mx))
    rec.count('limit_reached', nxt < n)
    if task == 'classification' and first is not None:
        rec.check(first[5] is not None and set(first[5]) >= set(np.unique(y).tolist()),
                  'delayed:classes', '%s: first partial_fit got classes %r' % (who, first[5]))
    return order, preds, nxt


def queue(case, rec):
    """The label queue alone, against a list model."""
    from skmultiflow.data import TimeManager
    r = driftload.rng(case)
    n = 60
    base = np.datetime64('2021-01-01T00:00:00')
    X = np.column_stack([np.arange(n, dtype=float), r.normal(size=n)])
    weighted = bool(r.randint(2))
    tm = TimeManager(base)
    model = []
    t = base
    i = 0
    gone = []
    while i < n or model:
        op = r.randint(4)
        rec.count('queue_ops')
        if op <= 1 and i < n:
            k = min(n - i, int(r.randint(1, 5)))
            ids = np.arange(i, i + k)
            arr = t + np.arange(k).astype('timedelta64[s]')
            av = arr + r.randint(0, 40, k).astype('timedelta64[s]')
            w = ids / 4.0 + 1 if weighted else None
            tm.update_queue(X[ids], ids % 5, (ids[:, None] * np.array([[2, 3]])), w, arr, av)
            model += list(zip(av, ids))
            i += k
            t = arr[-1]
        elif op == 2:
            t = t + np.timedelta64(int(r.randint(0, 30)), 's')
            tm.update_timestamp(t)
            out = tm.get_available_samples()
            due = [q for q in model if q[0] <= t]
            model = [q for q in model if q[0] > t]
            batch(rec, out, due, X, weighted, 'available at %s' % t)
        elif i >= n or r.randint(4) == 0:
            k = int(r.randint(1, 6))
            out = tm.next_sample(k)
            model.sort(key=lambda q: q[0])
            ids = [int(v[0]) for v in out[0]] if len(out[0]) else []
            cut = sorted([q[0] for q in model])[:k]
            due = [q for q in model if q[1] in ids]
            rec.check(sorted(q[0] for q in due) == cut, 'queue:next', 'next_sample(%d) returned '
                      'rows %r' % (k, ids))
            batch(rec, out, due, X, weighted, 'next %d' % k)
            model = [q for q in model if q[1] not in ids]
        rec.same(bool(tm.has_more_samples()), bool(model), 'queue:has_more', 'queued %d'
                 % len(model))
    rec.key('queue', case['i'], weighted)


def batch(rec, out, due, X, weighted, at):
    ids = [int(v[0]) for v in out[0]] if len(out[0]) else []
    av = {i: a for a, i in due}
    rec.check(sorted(ids) == sorted(av), 'queue:rows', '%s: rows %r, due %r' % (at, ids, sorted(av)))
    if sorted(ids) != sorted(av):
        return
    rec.check(all(av[a] <= av[c] for a, c in zip(ids, ids[1:])), 'queue:order', at)
    for k, i in enumerate(ids):
        good = np.array_equal(out[0][k], X[i]) and int(out[1][k]) == i % 5 and \
            list(np.asarray(out[2][k])) == [2 * i, 3 * i]
        rec.check(good, 'queue:content', '%s: row %d comes with %r' % (at, i, [o[k] for o in
                                                                              out[:3]]))
        if weighted and len(out) > 3:
            rec.close(out[3][k], i / 4.0 + 1, 'queue:weight', at)
