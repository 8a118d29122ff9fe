"""C17: what evaluators report (measurements, summary and CSV) is what their models predicted."""
import os
import re

import numpy as np

from vp import driftload
from vp import evalload as E
from checks import c16_prequential as P

LEVEL = 'exploration'
RULE = ('an evaluation is one reported number (measurement object, printed summary or CSV cell) '
        'compared with a recomputation from the logged predictions; distinct = (task, sizes, '
        'report point) digests')
REQUIRED = {'csv_rows': 800, 'csv_files': 60, 'aligned_reports': 200, 'summaries': 60,
            'multi_model': 20, 'delayed_rows': 100, 'time_limited': 10}
ASSUMPTIONS = ['the file keeps six decimals; a report of prequential evaluation is numbered by the '
               'samples processed before its last batch, of holdout evaluation by all samples read, of delayed '
               'evaluation by the samples trained before its last batch']


def cases(tier, seed):
    k = 250 if tier == 'quick' else 1200
    return [{'fam': f, 'i': i, 'seed': seed} for f in ('prequential', 'holdout')
            for i in range(k if f == 'prequential' else k // 2)] + \
        [{'fam': 'delayed', 'i': i, 'seed': seed} for i in range(k // 2)] + \
        [{'fam': 'time', 'i': i, 'seed': seed, 'cost': 2} for i in range(9 if tier == 'quick' else 60)]


SUMMARY = {'accuracy': 'Accuracy', 'kappa': 'Kappa', 'kappa_t': 'Kappa T', 'kappa_m': 'Kappa M',
           'precision': 'Precision', 'recall': 'Recall', 'f1': 'F1 score',
           'hamming_score': 'Hamming score', 'hamming_loss': 'Hamming loss',
           'exact_match': 'Exact matches', 'j_index': 'Jaccard index', 'mean_square_error': 'MSE',
           'mean_absolute_error': 'MAE', 'average_mean_square_error': 'AMSE',
           'average_mean_absolute_error': 'AMAE', 'average_root_mean_square_error': 'ARMSE'}


def run(case, rec):
    from skmultiflow.evaluation import EvaluatePrequential, EvaluateHoldout
    r = driftload.rng(case)
    if case['fam'] == 'delayed':
        return delayed(case, rec)
    if case['fam'] == 'time':
        kind = ('preq', 'holdout', 'delayed')[case['i'] % 3]
        return E.time_limit(rec, kind, r, 'report', lambda text, metrics, names, ev: check_summary(
            rec, text, 'classification', metrics, names, ev))
    preq = case['fam'] == 'prequential'
    log = []
    task = E.TASKS[r.randint(4)]
    n = int(r.choice([40, 57, 100, 163, 400]))
    X, y = E.table(r, task, n)
    if r.randint(2):
        from skmultiflow.data import DataStream
        st = DataStream(X, y, n_targets=1 if y.ndim == 1 else y.shape[1], name='d')
    else:
        st = E.spy_stream_class()(X, y, task, log)
    n_models = int(r.choice([1, 2, 3]))
    names = None if r.randint(2) else ['mod %d' % (7 - j) for j in range(n_models)]
    metrics = list(E.METRICS[task])
    r.shuffle(metrics)
    metrics = metrics[:r.randint(1, len(metrics) + 1)]
    if not any(m in E.GET for m in metrics):
        metrics.append([m for m in E.METRICS[task] if m in E.GET][0])
    if r.randint(3) == 0:
        metrics = [m.upper() for m in metrics]
    b = int(r.choice([1, 1, 2, 3, 8, 25]))
    mx = int(r.choice([n + 50, n + 3, n + 15, n, n - 5]))
    with E.scratch() as d:
        path = os.path.join(d, 'out.csv')
        if preq:
            p = int(r.choice([0, 0, 1, 7, 20]))
            w = int(r.choice([1, 5, 10, 33, n]))
            ev = EvaluatePrequential(n_wait=w, max_samples=mx, batch_size=b, pretrain_size=p,
                                     metrics=list(metrics), output_file=path)
            window = w
        else:
            p = 0
            window = ts = int(r.choice([5, 10, 20]))
            w = int(r.choice([5, 10, 20]))
            dyn = bool(r.randint(2))
            if dyn:
                b = int(r.choice([1, 5]))
            ev = EvaluateHoldout(n_wait=w, max_samples=mx, batch_size=b, metrics=list(metrics),
                                 output_file=path, test_size=ts, dynamic_test_set=dyn)
        rounds = int(r.choice([1, 1, 2]))
        for rnd in range(rounds):
            del log[:]
            models = [E.SpyModel(j, task, log, X, y) for j in range(n_models)]
            _, text = E.quiet(ev.evaluate, stream=st, model=models, model_names=names)
            nm = names or ['M%d' % j for j in range(n_models)]
            results = [[(y[i], a) for e in log if e[0] == 'predict' and e[1] == j
                        for i, a in zip(e[2], e[4])] for j in range(n_models)]
            if not rec.check(all(len(q) == len(results[0]) > 0 for q in results), 'report:nothing',
                             'no predictions were made: %s' % text[-300:]):
                return
            for j in range(n_models):
                E.compare_measurements(rec, ev, task, j, results[j], window,
                                       'report:' + case['fam'])
            comments, header, rows, good = E.read_csv(path)
            rec.count('csv_files')
            rec.check(good, 'report:csv:shape', 'ragged or duplicated columns: %r' % header)
            low = [m.lower() for m in metrics]
            check_header(rec, header, low, nm)
            if preq:
                check_prequential(rec, rows, task, low, nm, results, window, n, p, b, mx)
            else:
                check_holdout(rec, rows, task, low, nm, log, y, n_models, window)
            check_summary(rec, text, task, low, nm, ev)
            rec.count('multi_model', n_models > 1)
            rec.key(case['fam'], task, n, p, b, mx, w, rnd, sorted(low))
    rec.sample(family=case['fam'], task=task, rows=n, pretrain=p, batch=b, n_wait=w, metrics=low,
               csv_rows=len(rows))


def delayed(case, rec):
    """Delayed evaluation: a report states the results scored until then; n_wait counts the rows trained."""
    from skmultiflow.data import TemporalDataStream
    from skmultiflow.evaluation import EvaluatePrequentialDelayed
    r = driftload.rng(case)
    log = []
    task = E.TASKS[r.randint(4)]
    n = int(r.choice([40, 57, 100, 163]))
    X, y = E.table(r, task, n)
    kw = {'sample_delay': int(r.choice([0, 1, 5, 30]))}
    st = TemporalDataStream(X.copy(), y.copy(), n_targets=1 if y.ndim == 1 else y.shape[1], name='t', **kw)
    n_models = int(r.choice([1, 2, 3]))
    names = None if r.randint(2) else ['mod %d' % (7 - j) for j in range(n_models)]
    metrics = list(E.METRICS[task])
    r.shuffle(metrics)
    metrics = metrics[:r.randint(1, len(metrics) + 1)]
    if not any(m in E.GET for m in metrics):
        metrics.append([m for m in E.METRICS[task] if m in E.GET][0])
    p, b, w = int(r.choice([0, 1, 7, 20])), int(r.choice([1, 1, 2, 3, 8])), int(r.choice([1, 5, 10, 33, 300]))
    mx = int(r.choice([10 ** 6, n, n - 10]))
    with E.scratch() as d:
        path = os.path.join(d, 'out.csv')
        ev = EvaluatePrequentialDelayed(n_wait=w, max_samples=mx, batch_size=b, pretrain_size=p, metrics=list(metrics),
                                        output_file=path)
        for rnd in range(int(r.choice([1, 1, 2]))):
            del log[:]
            models = [E.SpyModel(j, task, log, X, y) for j in range(n_models)]
            _, text = E.quiet(ev.evaluate, stream=st, model=models, model_names=names)
            nm = names or ['M%d' % j for j in range(n_models)]
            per, marks = [], []
            for j in range(n_models):
                preds, res, count, at = {}, [], 0, {}
                for e in log:
                    if e[1] == j and e[0] == 'predict':
                        preds.update(zip(e[2], e[4]))
                    elif e[1] == j and e[0] == 'fit':
                        new = [i for i in e[2] if i in preds]
                        if new:                         # rows are scored when their labels arrive, then trained
                            res += [(y[i], preds[i]) for i in new]
                            at[count] = len(res)
                        count += len(e[2])
                per.append(res)
                marks.append(at)
            for j in range(n_models):
                E.compare_measurements(rec, ev, task, j, per[j], w, 'report:delayed')
            comments, header, rows, good = E.read_csv(path)
            rec.count('csv_files')
            rec.check(good, 'report:csv:shape', 'ragged or duplicated columns: %r' % header)
            check_header(rec, header, metrics, nm)
            ids = [int(q['id']) for q in rows]
            rec.check(all(a < c for a, c in zip(ids, ids[1:])), 'report:csv:order', 'ids %r' % ids[:50])
            counts = [i + b for i in ids]
            due = sorted(marks[0])
            for c in counts:
                rec.check(c in marks[0], 'report:csv:ids', lambda: 'id %d is no moment at which rows were scored' % (c - b))
            for c in due:
                if c % w == 0:
                    rec.check(c in counts, 'report:csv:missing', 'no report when %d samples had been processed (n_wait=%d)' % (
                        c, w))
                    rec.count('aligned_reports')
            gap = max([c2 - c1 for c1, c2 in zip(due, due[1:])] + [b])
            last = p
            for c in counts + due[-1:]:
                rec.check(c - last <= 2 * w + gap, 'report:csv:gap', 'no report between %d and %d processed samples (n_wait=%d, '
                          'up to %d at once)' % (last, c, w, gap))
                last = c
            step = max(1, len(rows) // 12)
            for k, (row, c) in enumerate(zip(rows, counts)):
                if k % step and k < len(rows) - 2 or c not in marks[0]:
                    continue
                E.check_csv_row(rec, row, task, metrics, nm, [q[:marks[0][c]] for q in per], w, 'report:csv',
                                'id %s' % row['id'])
                rec.count('csv_rows')
                rec.count('delayed_rows')
            check_times(rec, rows, metrics, nm)
            check_summary(rec, text, task, metrics, nm, ev)
            rec.count('multi_model', n_models > 1)
            rec.key('delayed', task, n, p, b, mx, w, rnd, sorted(metrics))


def check_header(rec, header, metrics, names):
    want = {'id'}
    for m in metrics:
        for nm in names:
            if m in E.GET:
                c = E.COLUMN.get(m, m)
                want |= {'mean_%s_[%s]' % (c, nm), 'current_%s_[%s]' % (c, nm)}
            elif m == 'true_vs_predicted':
                want |= {'true_value', 'predicted_value_[%s]' % nm}
            elif m == 'running_time':
                want |= {'%s_[%s]' % (k, nm) for k in ('training_time', 'testing_time',
                                                       'total_running_time')}
            elif m == 'model_size':
                want.add('model_size_[%s]' % nm)
    rec.same(sorted(header), sorted(want), 'report:csv:header', 'columns')


def check_prequential(rec, rows, task, metrics, names, results, window, n, p, b, mx):
    end = min(n, mx)
    last = p + -(-(end - p) // b) * b              # nominal count after the last batch
    ids = [int(q['id']) for q in rows]
    rec.check(all(a < c for a, c in zip(ids, ids[1:])), 'report:csv:order', 'ids %r' % ids[:50])
    counts = [i + b for i in ids]
    rec.check(all((c - p) % b == 0 and p < c <= last for c in counts), 'report:csv:ids',
              lambda: 'ids %r are not batch boundaries' % ids[:50])
    rec.check(bool(counts) and counts[-1] == last, 'report:csv:end',
              lambda: 'the last report is at %r of %r' % (counts[-1:], last))
    for c in range(p + b, last + 1, b):
        if c % window == 0:
            rec.count('aligned_reports')
            rec.check(c in counts, 'report:csv:missing', 'no report when %d samples had been '
                      'processed (n_wait=%d)' % (c, window))
    prev = p
    for c in counts:
        rec.check(c - prev <= window + b, 'report:csv:gap', 'no report between %d and %d processed '
                  'samples (n_wait=%d, batch %d)' % (prev, c, window, b))
        prev = c
    step = max(1, len(rows) // 12)
    for k, (row, c) in enumerate(zip(rows, counts)):
        if k % step and k < len(rows) - 2:
            continue
        m = min(c, n) - p
        E.check_csv_row(rec, row, task, metrics, names, [q[:m] for q in results], window,
                        'report:csv', 'id %s' % row['id'])
        rec.count('csv_rows')
        rec.key(task, row['id'], window, p, b, n)
    check_times(rec, rows, metrics, names)


def check_times(rec, rows, metrics, names):
    if 'running_time' not in metrics:
        return
    for nm in names:
        for k in ('training_time', 'testing_time', 'total_running_time'):
            v = [float(q['%s_[%s]' % (k, nm)]) for q in rows]
            rec.check(all(a <= c + 1e-6 for a, c in zip(v, v[1:])), 'report:csv:time_decreases',
                      '%s of %s: %r' % (k, nm, v[:20]))


def check_holdout(rec, rows, task, metrics, names, log, y, n_models, window):
    """One report per test of the whole test set; the log cuts the results into tests."""
    tests = [[] for _ in range(n_models)]
    done = []
    read = 0
    trained = 0
    for e in log:
        if e[0] == 'fit' and e[1] == 0:
            trained += len(e[2])
        if e[0] == 'predict':
            tests[e[1]].append([(y[i], a) for i, a in zip(e[2], e[4])])
            if e[1] == 0:
                done.append(trained)
    ids = [int(q['id']) for q in rows]
    rec.check(all(a < c for a, c in zip(ids, ids[1:])), 'report:csv:order', 'ids %r' % ids[:50])
    if not rec.same(len(rows), len(tests[0]), 'report:csv:tests', 'reports for the tests made'):
        return
    step = max(1, len(rows) // 12)
    for k, row in enumerate(rows):
        if k % step and k < len(rows) - 2:
            continue
        per = [sum(tests[j][:k + 1], []) for j in range(n_models)]
        E.check_csv_row(rec, row, task, metrics, names, per, window, 'report:csv',
                        'test %d' % k)
        rec.count('csv_rows')
        rec.key(task, 'test', k, window, row['id'])
    rec.count('aligned_reports', len(rows))
    check_times(rec, rows, metrics, names)


def check_summary(rec, text, task, metrics, names, ev):
    """The printed mean performance is the final mean performance."""
    rec.count('summaries')
    tail = text[text.rfind('Mean performance'):]
    for j, nm in enumerate(names):
        mean = ev.get_mean_measurements(j)
        for m in metrics:
            if m in SUMMARY:
                hit = re.search(re.escape('%s - %s' % (nm, SUMMARY[m])) + r'\s*:\s*(\S+)', tail)
                if not rec.check(hit is not None, 'report:summary:missing',
                                 'no %s of %s in the summary' % (SUMMARY[m], nm)):
                    continue
                want = getattr(mean, E.GET[m])()
                rec.check(abs(float(hit.group(1)) - want) <= 1.01e-4 + 1e-9 * abs(want),
                          'report:summary:value', '%s of %s: printed %s, measured %r'
                          % (m, nm, hit.group(1), want))
