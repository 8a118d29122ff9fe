"""C15: bounded buffers, sliding windows and confusion matrices behave as their simple models."""
from collections import deque

import numpy as np

from vp import driftload

LEVEL = 'exploration'
RULE = ('an evaluation is one observation of a container (contents, order, size, returned evictions, '
        'counts) after one operation of a random history compared with a plain list/dict model; '
        'distinct = digests of the container contents seen')
REQUIRED = {'operations': 20000, 'evictions': 2000, 'growths': 200, 'refused': 200}
ASSUMPTIONS = []
FAMS = ['fastbuffer', 'complexbuffer', 'sliding', 'matrix', 'multilabel_matrix', 'legacy_matrix',
        'legacy_mol_matrix']


def cases(tier, seed):
    k = 100 if tier == 'quick' else 500
    return [{'fam': f, 'i': i, 'seed': seed} for f in FAMS for i in range(k)]


def run(case, rec):
    globals()['_' + case['fam']](case, rec, driftload.rng(case))


def _fastbuffer(case, rec, r, width=None):
    from skmultiflow.utils import FastBuffer, FastComplexBuffer
    cap = int(r.choice([1, 2, 5, 20]))
    if width is None:
        name = 'FastBuffer'
        init = r.normal(size=int(r.randint(0, cap + 3))).tolist() if r.randint(3) == 0 else None
        buf = FastBuffer(cap, init) if init is not None else FastBuffer(cap)
    else:
        name, init = 'FastComplexBuffer', None
        buf = FastComplexBuffer(cap, width)
    s = 'container:%s:' % name
    model = deque(init[-cap:] if init else [])
    for step in range(150):
        op = r.choice(['add', 'add', 'add', 'next', 'peek', 'clear'], p=[.3, .25, .25, .1, .08, .02])
        if op == 'add':
            k = int(r.choice([1, 1, 2, cap, cap + 1, 2 * cap + 3]))
            if width is None:
                items = r.normal(size=k).tolist()
                arg = np.array(items) if r.randint(2) else list(items)
            else:
                k = max(k, 1)
                arr = r.normal(size=(k, width)).round(3)
                items = arr.tolist()
                style = r.randint(3)
                if k == 1:
                    arg = arr[0] if style else items[0]
                else:
                    arg = arr if style else [list(x) for x in items]
            ev = []
            for it in items:
                if len(model) == cap:
                    ev.append(model.popleft())
                model.append(it)
            got = buf.add_element(arg)
            rec.check((got is None) == (not ev), s + 'nothing', lambda: 'returned %r, evicted %r' % (got, ev[:5]))
            got = [] if got is None else list(got)
            rec.check(_eq(got, ev), s + 'evicted', lambda: 'evicted %r, expected %r' % (got[:5], ev[:5]))
            rec.count('evictions', len(ev))
        elif op == 'next':
            e = model.popleft() if model else None
            g = buf.get_next_element()
            rec.check(_eq([g], [e]), s + 'next', 'got %r, expected %r' % (g, e))
        elif op == 'peek':
            e = model[0] if model else None
            g = buf.peek()
            rec.check(_eq([g], [e]), s + 'peek', 'got %r, expected %r' % (g, e))
        else:
            buf.clear_queue()
            model.clear()
        rec.count('operations')
        q = list(buf.get_queue())
        rec.check(_eq(q, list(model)), s + 'contents', lambda: 'holds %r, expected %r' %
                  (q[:4], list(model)[:4]))
        rec.same((int(buf.get_current_size()), bool(buf.is_full()), bool(buf.is_empty())),
                 (len(model), len(model) == cap, not model), s + 'size')
        if step % 10 == 0:
            rec.key(name, cap, np.array(list(model)))


def _complexbuffer(case, rec, r):
    _fastbuffer(case, rec, r, width=int(r.randint(1, 5)))


def _eq(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is None or y is None:
            if x is not y:
                return False
        elif not np.array_equal(np.asarray(x, float).ravel(), np.asarray(y, float).ravel()):
            return False
    return True


def _sliding(case, rec, r):
    from skmultiflow.utils import SlidingWindow
    s = 'container:SlidingWindow:'
    cap = int(r.choice([1, 2, 5, 20]))
    f, t = int(r.randint(1, 5)), int(r.randint(1, 4))
    w = SlidingWindow(window_size=cap)
    model = deque()
    live = False
    buf = np.zeros((1, f))
    for step in range(120):
        op = r.choice(['add', 'del', 'bad', 'reset'], p=[.8, .1, .07, .03])
        if op == 'add':
            x, y = r.normal(size=(1, f)), r.normal(size=(1, t))
            if len(model) == cap:
                model.popleft()
                rec.count('evictions')
            model.append((x[0].copy(), y[0].copy()))
            buf[:] = x
            w.add_sample(buf, y)          # the caller's row is recycled afterwards
            live = True
        elif op == 'del':
            w.delete_oldest_sample()
            if model:
                model.popleft()
                rec.count('evictions')
        elif op == 'bad' and live:
            try:
                w.add_sample(r.normal(size=(1, f + 1)), r.normal(size=(1, t)))
                rec.fail(s + 'width', 'a sample with another number of features was accepted')
            except ValueError:
                rec.count('refused')
        elif op == 'reset':
            w.reset()
            model.clear()
            live = False
            f, t = int(r.randint(1, 5)), int(r.randint(1, 4))
            buf = np.zeros((1, f))
        rec.count('operations')
        rec.same(int(w.size), len(model), s + 'size')
        if live:
            rec.same((int(w.n_features), int(w.n_targets)), (f, t), s + 'shape')
            rec.close(w.features_buffer, np.array([m[0] for m in model]).reshape(-1, f), s + 'features')
            rec.close(w.targets_buffer, np.array([m[1] for m in model]).reshape(-1, t), s + 'targets')
        if step % 10 == 0:
            rec.key(cap, f, t, [m[0] for m in model])


def _matrix(case, rec, r):
    from skmultiflow.metrics._confusion_matrix import ConfusionMatrix
    s = 'container:ConfusionMatrix:'
    init = int(r.choice([2, 3, 6]))
    cm = ConfusionMatrix(n_classes=init)
    d, cl = {}, set(range(init))
    for step in range(120):
        if r.randint(60) == 0:
            cm.reset()
            d, cl = {}, set(range(init))
        i, j, w = int(r.randint(0, 8)), int(r.randint(0, 8)), float(r.choice([1, .5, 4, -1]))
        if w < 0 and d.get((i, j), 0) < 1:
            w = 1.0
        rec.count('growths', len({i, j} - cl) > 0)
        cm[(i, j)] = w
        d[i, j] = d.get((i, j), 0.0) + w
        cl |= {i, j}
        rec.count('operations')
        rec.same(tuple(cm.shape), (len(cl), len(cl)), s + 'shape')
        rec.same(int(cm.n_classes), len(cl), s + 'n_classes')
        for a in range(8):
            for b in range(8):
                rec.close(cm[(a, b)], d.get((a, b), 0.0), s + 'cell')
            rec.close(cm.sum_row[a], sum(v for (x, y), v in d.items() if x == a), s + 'row')
            rec.close(cm.sum_col[a], sum(v for (x, y), v in d.items() if y == a), s + 'col')
        rec.close(cm.sum_diag, sum(v for (x, y), v in d.items() if x == y), s + 'diag')
        if step % 10 == 0:
            rec.key(init, sorted(d.items()))


def _multilabel_matrix(case, rec, r):
    from skmultiflow.metrics._confusion_matrix import MultiLabelConfusionMatrix
    s = 'container:MultiLabelConfusionMatrix:'
    init = int(r.choice([2, 3, 6]))
    cm = MultiLabelConfusionMatrix(n_labels=init)
    d, n = {}, init
    for step in range(120):
        if r.randint(60) == 0:
            cm.reset()
            d, n = {}, init
        l, i, j, w = int(r.randint(0, 9)), int(r.randint(0, 2)), int(r.randint(0, 2)), \
            float(r.choice([1, .5, 4]))
        if r.randint(12) == 0:
            try:
                cm[(l, 2, 0) if r.randint(2) else (l, 0, -1)] = 1.0
                rec.fail(s + 'range', 'a non-binary indicator was accepted')
            except ValueError:
                rec.count('refused')
            continue
        rec.count('growths', l >= n)
        cm[(l, i, j)] = w
        d[l, i, j] = d.get((l, i, j), 0.0) + w
        n = max(n, l + 1)
        rec.count('operations')
        rec.same(tuple(cm.shape), (n, 2, 2), s + 'shape')
        for a in range(n):
            for b in (0, 1):
                for c in (0, 1):
                    rec.close(cm[(a, b, c)], d.get((a, b, c), 0.0), s + 'cell')
        if step % 10 == 0:
            rec.key(init, sorted(d.items()))


def _legacy_matrix(case, rec, r):
    from skmultiflow.metrics import ConfusionMatrix
    s = 'container:LegacyConfusionMatrix:'
    n = int(r.choice([1, 2, 4]))
    cm = ConfusionMatrix(n)
    d, size, cnt = {}, n, 0
    for step in range(120):
        op = r.choice(['up', 'rm', 'restart'], p=[.7, .28, .02])
        i, j = int(r.randint(0, 7)), int(r.randint(0, 7))
        if op == 'up':
            rec.count('growths', max(i, j) >= size)
            ok = cm.update(i, j)
            size = max(size, i + 1, j + 1)
            d[i, j] = d.get((i, j), 0) + 1
            cnt += 1
            rec.check(ok is True, s + 'update', 'update(%d, %d) returned %r' % (i, j, ok))
        elif op == 'rm':
            inside = i < size and j < size
            if inside and d.get((i, j), 0) < 1:
                continue
            ok = cm.remove(i, j)
            rec.check(ok is inside, s + 'remove', 'remove(%d, %d) of a %dx%d matrix returned %r' %
                      (i, j, size, size, ok))
            if inside:
                d[i, j] -= 1
                cnt -= 1
            else:
                rec.count('refused')
        else:
            n = int(r.randint(1, 5))
            cm.restart(n)
            d, size, cnt = {}, n, 0
        rec.count('operations')
        E = np.zeros((size, size))
        for (a, b), v in d.items():
            E[a, b] = v
        rec.close(cm.matrix, E, s + 'cells')
        rec.same(int(cm.sample_count), cnt, s + 'count')
        rec.close(cm.get_sum_main_diagonal(), np.trace(E), s + 'diagonal')
        k = int(r.randint(size))
        rec.close(np.ravel(cm.row(k)), E[k], s + 'row')
        rec.close(np.ravel(cm.column(k)), E[:, k], s + 'column')
        if step % 10 == 0:
            rec.key(E)


def _legacy_mol_matrix(case, rec, r):
    from skmultiflow.metrics import MOLConfusionMatrix
    s = 'container:MOLConfusionMatrix:'
    n = int(r.choice([0, 1, 3]))
    cm = MOLConfusionMatrix(n)
    E = np.zeros((n, 2, 2))
    for step in range(120):
        op = r.choice(['up', 'rm', 'bad'], p=[.65, .25, .1])
        t, i, j = int(r.randint(0, len(E) + 1)), int(r.randint(0, 2)), int(r.randint(0, 2))
        if op == 'up':
            if t >= 7:
                continue
            rec.count('growths', t >= len(E))
            ok = cm.update(t, i, j)
            if t >= len(E):
                E = np.concatenate([E, np.zeros((1, 2, 2))])
            E[t, i, j] += 1
            rec.check(ok is True, s + 'update')
        elif op == 'rm':
            inside = t < len(E)
            if inside and E[t, i, j] < 1:
                continue
            ok = cm.remove(t, i, j)
            rec.check(ok is inside, s + 'remove', 'remove(%d, ...) of %d targets returned %r' %
                      (t, len(E), ok))
            if inside:
                E[t, i, j] -= 1
            else:
                rec.count('refused')
        else:
            rec.check(cm.update(t, 2, 0) is False and cm.update(t, 0, -1) is False, s + 'range')
            rec.count('refused')
        rec.count('operations')
        rec.close(cm.matrix, E, s + 'cells')
        rec.close(cm.get_total_sum(), E.sum(), s + 'total')
        diag = E[:, 0, 0].sum() + E[:, 1, 1].sum()
        rec.close(cm.get_sum_main_diagonal(), diag, s + 'diagonal')
        rec.close(cm.get_total_discordance(), E.sum() - diag, s + 'discordance')
        if step % 10 == 0:
            rec.key(E)
