"""Row-coded sources and spy models: everything an evaluator reads, predicts and trains is logged.

Column 0 of every sample is its row number, so the log says which row went where and when; the
spy models' predictions depend on the row, on the model and on how many rows the model had been
trained with, so a result attributed to the wrong row, model or moment shows in the scores.
"""
import contextlib
import io
import os
import tempfile

import numpy as np

TASKS = ('classification', 'regression', 'multi_label', 'multi_target')
METRICS = {
    'classification': ['accuracy', 'kappa', 'kappa_t', 'kappa_m', 'precision', 'recall', 'f1',
                       'gmean', 'true_vs_predicted', 'running_time', 'model_size'],
    'regression': ['mean_square_error', 'mean_absolute_error', 'true_vs_predicted', 'running_time',
                   'model_size'],
    'multi_label': ['hamming_score', 'hamming_loss', 'exact_match', 'j_index', 'running_time',
                    'model_size'],
    'multi_target': ['average_mean_square_error', 'average_mean_absolute_error',
                     'average_root_mean_square_error', 'running_time', 'model_size']}


def table(r, task, n, d=3):
    """X with the row number in column 0 and targets that identify the row as far as they can."""
    X = np.column_stack([np.arange(n, dtype=float)] +
                        [np.round(r.normal(size=n) * 64) / 64 for _ in range(d - 1)])
    if task == 'classification':
        y = r.randint(0, int(r.choice([2, 3, 4])), n)
        y[:min(n, 4)] = np.arange(min(n, 4)) % (y.max() + 1)
    elif task == 'regression':
        y = np.arange(n) * 0.5 + np.round(r.normal(size=n) * 64) / 64
    elif task == 'multi_label':
        y = r.randint(0, 2, (n, 3))
        y[0], y[1] = 0, 1
    else:
        y = np.column_stack([np.arange(n) * 0.5, r.normal(size=n)])
    return X, y


def spy_stream_class():
    from skmultiflow.data.base_stream import Stream

    class SpyStream(Stream):
        """In-memory source that never repeats a row and logs each delivery."""

        def __init__(self, X, y, task, log, finite=True):
            super().__init__()
            self.X, self.Y, self.log, self.finite = X, y, log, finite
            self.n_samples = len(X)
            self.n_features = X.shape[1]
            self.n_num_features = X.shape[1]
            self.n_targets = 1 if y.ndim == 1 else y.shape[1]
            self.name = 'spy'
            self.feature_names = ['f%d' % i for i in range(X.shape[1])]
            self.target_names = ['t%d' % i for i in range(self.n_targets)]
            if task == 'classification':
                self.target_values = sorted(set(int(v) for v in y))
                self.n_classes = len(self.target_values)
            elif task == 'multi_label':
                self.target_values = [[0, 1]] * y.shape[1]
            else:
                self.target_values = [float] * self.n_targets
            self.pos = 0

        def _prepare_for_use(self):
            self.pos = 0

        def n_remaining_samples(self):
            return len(self.X) - self.pos if self.finite else -1

        def has_more_samples(self):
            return self.pos < len(self.X)

        def get_info(self):
            return 'SpyStream()'

        def next_sample(self, batch_size=1):
            lo, hi = self.pos, min(self.pos + batch_size, len(self.X))
            self.pos = hi
            self.log.append(('deliver', lo, hi))
            self.current_sample_x, self.current_sample_y = self.X[lo:hi], self.Y[lo:hi]
            return self.current_sample_x, self.current_sample_y

    return SpyStream


class SpyModel:
    """Deterministic predictor that records every call; not a learner."""

    def __init__(self, idx, task, log, X, y, delay=0.0):
        self._idx, self._task, self._log = idx, task, log
        self._X, self._y, self._fitted, self._delay = X, y, 0, delay

    def get_info(self):
        return 'Spy(%d)' % self._idx

    def _answer(self, rid, fitted):
        h = (rid * 2654435761 + self._idx * 40503 + fitted * 97) % 1000003
        if self._task == 'classification':
            k = int(self._y.max()) + 1
            return int(self._y[rid]) if h % 3 else int(h % k)
        if self._task == 'regression':
            return float(self._y[rid]) + (h % 64) / 32.0
        if self._task == 'multi_label':
            return np.array([(h >> b) & 1 if (h >> (b + 3)) & 1 else self._y[rid][b]
                             for b in range(self._y.shape[1])], dtype=int)
        return self._y[rid] + np.array([(h % 64) / 32.0, (h % 17) / 8.0])

    def predict(self, X):
        if self._delay:
            import time
            time.sleep(self._delay)
        X = np.asarray(X)
        ids = [int(v) for v in X[:, 0]]
        out = [self._answer(i, self._fitted) for i in ids]
        self._log.append(('predict', self._idx, ids, intact(X, self._X, ids), list(out)))
        return np.array(out)

    def partial_fit(self, X, y, classes=None, sample_weight=None):
        X = np.asarray(X)
        ids = [int(v) for v in X[:, 0]]
        self._fitted += len(ids)
        self._log.append(('fit', self._idx, ids, intact(X, self._X, ids),
                          intact(np.asarray(y), self._y, ids),
                          None if classes is None else np.asarray(classes).ravel().tolist(),
                          None if sample_weight is None else np.array(sample_weight, dtype=float)))
        return self


def intact(A, full, ids):
    try:
        return A.shape == full[ids].shape and np.array_equal(np.asarray(A, float),
                                                             np.asarray(full[ids], float))
    except (IndexError, ValueError, TypeError):
        return False


def forwarding(rec, ev, models, log, task, X, y, tag):
    """The evaluator's own predict and partial_fit reach every model, with everything they were given."""
    n = min(3, len(X))
    classes = sorted(set(int(v) for v in np.ravel(y))) + [99]
    weight = np.arange(1.0, n + 1)
    before = [m._fitted for m in models]
    for use in (False, True):
        del log[:]
        preds, _ = quiet(ev.predict, X[:n])
        got = [e for e in log if e[0] == 'predict']
        rec.check(len(preds) == len(models) and [e[1] for e in got] == [m._idx for m in models] and
                  all(e[3] and len(e[2]) == n for e in got) and
                  all(np.array_equal(np.asarray(p), np.array(e[4])) for p, e in zip(preds, got)), tag + ':predict',
                  lambda: 'predict() of the evaluator answers %r' % (preds,))
        del log[:]
        kw = {}
        if use:
            kw = {'sample_weight': weight.copy()}
            if task in ('classification', 'multi_label'):
                kw['classes'] = list(classes)
        quiet(ev.partial_fit, X[:n], y[:n], **kw)
        got = [e for e in log if e[0] == 'fit']
        rec.check([e[1] for e in got] == [m._idx for m in models] and all(e[3] and e[4] and len(e[2]) == n for e in got),
                  tag + ':partial_fit', lambda: 'partial_fit() of the evaluator reached the models as %r' % ([e[:5] for e in got],))
        if use:
            rec.check(all(e[6] is not None and np.array_equal(e[6], weight) for e in got), tag + ':partial_fit',
                      'partial_fit() of the evaluator does not pass the sample weights on')
            if 'classes' in kw:
                rec.check(all(e[5] == classes for e in got), tag + ':partial_fit',
                          lambda: 'partial_fit() of the evaluator passes the classes %r on' % ([e[5] for e in got],))
    rec.same([m._fitted for m in models], [v + 2 * n for v in before], tag + ':partial_fit', 'rows forwarded to the models')


def time_limit(rec, kind, r, tag, summary=None):
    """A time limit: no batch is read once it has passed, nothing ends before, every evaluation has its own.

    Sound under any load: the evaluator's clock runs at least from its first look at the stream to the end
    of the last training call, and at most from the call of evaluate() to its return."""
    import time
    import skmultiflow.evaluation as V
    from skmultiflow.data import TemporalDataStream
    log, clock = [], []
    n = 4000
    X, y = table(r, 'classification', n)
    X, y = X.copy(), y.copy()
    base = TemporalDataStream if kind == 'delayed' else spy_stream_class()

    class Timed(base):
        def n_remaining_samples(self):
            clock.append(('look', time.perf_counter()))
            return super().n_remaining_samples()

        def next_sample(self, batch_size=1):
            clock.append(('read', time.perf_counter()))
            return super().next_sample(batch_size)

    class Slow(SpyModel):
        def partial_fit(self, *a, **k):
            out = super().partial_fit(*a, **k)
            time.sleep(0.004)
            clock.append(('fit', time.perf_counter()))
            return out

    if kind == 'delayed':
        st = Timed(X, y, sample_delay=int(r.choice([0, 3])), name='t')
    else:
        st = Timed(X, y, 'classification', log, finite=bool(r.randint(2)))
    limit = float(r.choice([0.12, 0.25]))
    restart = bool(r.randint(2))
    metrics = ['accuracy', 'kappa', 'f1']
    kw = dict(n_wait=int(r.choice([7, 3000])), max_samples=n, batch_size=int(r.choice([1, 5])), max_time=limit,
              metrics=list(metrics), restart_stream=restart)
    pre = 0
    if kind == 'holdout':
        ev = V.EvaluateHoldout(test_size=5, dynamic_test_set=bool(r.randint(2)), **kw)
    else:
        pre = int(r.choice([0, 20]))
        ev = (V.EvaluatePrequential if kind == 'preq' else V.EvaluatePrequentialDelayed)(pretrain_size=pre, **kw)
    ends = []
    for rnd in range(2):
        del log[:], clock[:]
        m = Slow(0, 'classification', log, X, y)
        t0 = time.perf_counter()
        _, text = quiet(ev.evaluate, stream=st, model=m, model_names=['only'])
        t1 = time.perf_counter()
        looks = [t for k, t in clock if k == 'look']
        begin = looks[0] if looks else t1
        late, done = [], begin
        for k, t in clock:
            if k == 'fit':
                done = t
            elif k == 'read' and done - begin > limit + 0.02:
                late.append(done - begin)
        rec.check(len(late) == 0, tag + ':max_time', lambda: 'a batch was read %.3f s into an evaluation with max_time=%r' % (
            late[0], limit))
        rec.check(t1 - t0 >= limit, tag + ':max_time', lambda: 'evaluation %d ended after %.3f s of %r with samples left' % (
            rnd, t1 - t0, limit))
        rec.count('time_limited')
        rec.count('rows_in_time', m._fitted)
        res = [(y[i], a) for e in log if e[0] == 'predict' for i, a in zip(e[2], e[4])]
        if summary is not None:
            summary(text, metrics, ['only'], ev)
        if res and kind != 'delayed':
            compare_measurements(rec, ev, 'classification', 0, res, kw['n_wait'] if kind == 'preq' else 5, tag + ':limited')
        used = max([i for e in log if e[0] in ('fit', 'predict') for i in e[2]] + [-1]) + 1
        del clock[:]
        nxt = st.next_sample(1)[0]
        want = 0 if restart else max(used, 5 if kind == 'holdout' else 0)
        if kind != 'holdout' or restart:
            rec.same(int(np.asarray(nxt)[0, 0]), want, tag + ':restart', 'the next row after a time-limited evaluation')
        st.restart()
        ends.append(m._fitted)
    rec.key('time', kind, limit, restart, pre)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='vp_eval_')
    try:
        yield d
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def quiet(fn, *a, **k):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        out = fn(*a, **k)
    return out, buf.getvalue()


def trackers(task, window):
    import skmultiflow.metrics as M
    if task == 'classification':
        return (M.ClassificationPerformanceEvaluator(),
                M.WindowClassificationPerformanceEvaluator(window_size=window))
    if task == 'multi_label':
        return (M.MultiLabelClassificationPerformanceEvaluator(),
                M.WindowMultiLabelClassificationPerformanceEvaluator(window_size=window))
    if task == 'regression':
        return M.RegressionMeasurements(), M.WindowRegressionMeasurements(window_size=window)
    return (M.MultiTargetRegressionMeasurements(),
            M.WindowMultiTargetRegressionMeasurements(window_size=window))


GET = {'accuracy': 'accuracy_score', 'kappa': 'kappa_score', 'kappa_t': 'kappa_t_score',
       'kappa_m': 'kappa_m_score', 'precision': 'precision_score', 'recall': 'recall_score',
       'f1': 'f1_score', 'gmean': 'geometric_mean_score', 'hamming_score': 'hamming_score',
       'hamming_loss': 'hamming_loss_score', 'exact_match': 'exact_match_score',
       'j_index': 'jaccard_score', 'mean_square_error': 'get_mean_square_error',
       'mean_absolute_error': 'get_average_error',
       'average_mean_square_error': 'get_average_mean_square_error',
       'average_mean_absolute_error': 'get_average_absolute_error',
       'average_root_mean_square_error': 'get_average_root_mean_square_error'}
COLUMN = {'accuracy': 'acc', 'mean_square_error': 'mse', 'mean_absolute_error': 'mae',
          'average_mean_square_error': 'amse', 'average_mean_absolute_error': 'amae',
          'average_root_mean_square_error': 'armse'}


def independent(task, results):
    """The simplest metric of each task, straight from its definition."""
    t = np.array([a for a, _ in results], dtype=float)
    p = np.array([b for _, b in results], dtype=float)
    if task == 'classification':
        return 'accuracy', float(np.mean(t == p))
    if task == 'regression':
        return 'mean_square_error', float(np.mean((t - p) ** 2))
    if task == 'multi_label':
        return 'exact_match', float(np.mean(np.all(t == p, axis=1)))
    return 'average_mean_square_error', float(np.mean(np.mean((t - p) ** 2, axis=0)))


def scored(task, results, window):
    """Fresh trackers fed with the given (true, predicted) sequence."""
    mean, cur = trackers(task, window)
    for t, p in results:
        mean.add_result(t, p)
        cur.add_result(t, p)
    return mean, cur


def compare_measurements(rec, ev, task, j, results, window, sig):
    """Measurements reported for model j against trackers fed with the logged results."""
    mean, cur = ev.get_mean_measurements(j), ev.get_current_measurements(j)
    rmean, rcur = scored(task, results, window)
    for m in METRICS[task]:
        if m in GET:
            rec.close(getattr(mean, GET[m])(), getattr(rmean, GET[m])(), sig + ':mean', m)
            rec.close(getattr(cur, GET[m])(), getattr(rcur, GET[m])(), sig + ':current', m)
    if results:
        m, v = independent(task, results)
        rec.close(getattr(mean, GET[m])(), v, sig + ':mean', m)
        m, v = independent(task, results[-window:])
        rec.close(getattr(cur, GET[m])(), v, sig + ':current', m)


def read_csv(path):
    with open(path) as f:
        lines = [ln for ln in f.read().split('\n')]
    comments = [ln for ln in lines if ln.startswith('#')]
    body = [ln for ln in lines if ln and not ln.startswith('#')]
    header = body[0].split(',')
    rows = [dict(zip(header, ln.split(','))) for ln in body[1:]]
    widths = {len(ln.split(',')) for ln in body[1:]} | {len(header)}
    return comments, header, rows, len(widths) == 1 and len(set(header)) == len(header)


def check_csv_row(rec, row, task, metrics, names, per_model, window, sig, at):
    """per_model: results of each model up to the moment of the report."""
    for j, name in enumerate(names):
        mean, cur = scored(task, per_model[j], window)
        for m in metrics:
            if m in GET:
                for kind, tr in (('mean', mean), ('current', cur)):
                    col = '%s_%s_[%s]' % (kind, COLUMN.get(m, m), name)
                    if not rec.check(col in row, sig + ':columns', 'no column %s' % col):
                        continue
                    want = getattr(tr, GET[m])()
                    got = float(row[col])
                    rec.check(abs(got - want) <= 1.5e-6 + 1e-9 * abs(want), sig + ':value',
                              lambda: '%s at %s: file says %r, the results say %r'
                              % (col, at, got, want))
            elif m == 'true_vs_predicted':
                t, p = per_model[j][-1]
                rec.close(float(row['true_value']), float(t), sig + ':true_value', at, atol=1e-6)
                rec.close(float(row['predicted_value_[%s]' % name]), float(p),
                          sig + ':predicted_value', at, atol=1e-6)
            elif m == 'running_time':
                tr, te, tot = (float(row['%s_[%s]' % (k, name)]) for k in
                               ('training_time', 'testing_time', 'total_running_time'))
                rec.check(tr >= 0 and te >= 0 and tot >= 0 and tot <= tr + te + 1e-5,
                          sig + ':time', lambda: '%r+%r vs total %r' % (tr, te, tot))
            elif m == 'model_size':
                rec.check(float(row['model_size_[%s]' % name]) > 0, sig + ':size')
