"""C14: regression trackers (single and multi target, cumulative and windowed) equal recomputation."""
from collections import deque

import numpy as np

from vp import driftload, signals

LEVEL = 'exploration'
RULE = ('an evaluation is one error measure compared with a recomputation from the raw pairs at one '
        'point of a history; distinct = digests of the tracked pairs')
REQUIRED = {'results_added': 20000, 'comparisons': 10000, 'window_full': 2000, 'resets': 50}
ASSUMPTIONS = ['windowed sums may carry rounding residue proportional to the largest value that '
               'passed through the window']


def cases(tier, seed):
    k = 120 if tier == 'quick' else 1200
    return [{'fam': f, 'i': i, 'seed': seed} for f in ('single', 'single_window', 'multi',
                                                       'multi_window', 'time') for i in range(k)]


def run(case, rec):
    import skmultiflow.metrics as M
    r = driftload.rng(case)
    fam = case['fam']
    s = 'metrics:regression_%s:' % fam
    if fam == 'time':
        return _time(rec, r, s)
    win = int(r.choice([1, 2, 7, 30, 200])) if 'window' in fam else None
    multi = fam.startswith('multi')
    n = 250
    d = int(r.randint(1, 5)) if multi else 1
    Y = np.stack([signals.real(r, n)[1] for _ in range(d)], 1)
    Z = Y + r.normal(0, r.uniform(0.01, 10), (n, d)) * (r.uniform(size=(n, d)) < 0.9)
    name = ('Window' if win else '') + ('MultiTarget' if multi else '') + 'RegressionMeasurements'
    ev = getattr(M, name)(**(dict(window_size=win) if win else {}))
    log = deque(maxlen=win)
    scale = 0.0
    resets = set(r.randint(1, n, 2).tolist()) if r.randint(2) else set()
    rec.sample(tracker=name, window=win, targets=d)
    for i in range(n):
        if i in resets:
            ev.reset()
            log.clear()
            rec.count('resets')
            first = ev.get_average_mean_square_error() if multi else ev.get_mean_square_error()
            rec.close(first, 0.0, s + 'reset', 'after reset')
        y, z = Y[i].copy(), Z[i].copy()
        if multi:
            ev.add_result(y, z)
        else:
            ev.add_result(float(y[0]), float(z[0]))
        log.append((Y[i], Z[i]))
        scale = max(scale, float(np.max(np.abs(Y[i] - Z[i]))))
        rec.count('results_added')
        rec.count('window_full', win is not None and len(log) == win)
        E = np.array([a - b for a, b in log])
        mse, mae = np.mean(E ** 2, 0), np.mean(np.abs(E), 0)
        at = 'after result %d' % i
        tol = 1e-9 + 1e-11 * scale * scale
        rec.count('comparisons')
        if i % 10 == 0:
            rec.key(E[-40:])
        if multi:
            rec.close(ev.get_average_mean_square_error(), mse.mean(), s + 'mse', at, atol=tol)
            rec.close(ev.get_average_absolute_error(), mae.mean(), s + 'mae', at,
                      atol=1e-9 + 1e-11 * scale)
            rec.close(ev.get_average_root_mean_square_error(), np.sqrt(mse).mean(), s + 'rmse', at,
                      atol=max(np.sqrt(tol), 1e-7 * scale))
            c = ev._sample_count
        else:
            rec.close(ev.get_mean_square_error(), mse[0], s + 'mse', at, atol=tol)
            rec.close(ev.get_average_error(), mae[0], s + 'mae', at, atol=1e-9 + 1e-11 * scale)
            c = ev.sample_count
        rec.same(int(c), len(log), s + 'sample_count', at)
        a, b = ev.get_last()
        rec.close(np.atleast_1d(a), Y[i], s + 'last', at)
        rec.close(np.atleast_1d(b), Z[i], s + 'last', at)


def _time(rec, r, s):
    """Running times: non-negative, non-decreasing, total = training + testing at each update."""
    import time
    from skmultiflow.metrics import RunningTimeMeasurements
    ev = RunningTimeMeasurements()
    last = (0.0, 0.0)
    spent = [0.0, 0.0]
    for _ in range(12):
        k = r.randint(2)
        t0 = time.perf_counter()
        (ev.compute_training_time_begin, ev.compute_testing_time_begin)[k]()
        t1 = time.perf_counter()
        x = 0
        while time.perf_counter() < t1 + 0.0005:
            x += 1
        t2 = time.perf_counter()
        (ev.compute_training_time_end, ev.compute_testing_time_end)[k]()
        t3 = time.perf_counter()
        ev.update_time_measurements(int(r.randint(1, 5)))
        cur = (ev.get_current_training_time(), ev.get_current_testing_time())
        rec.check(cur[1 - k] == last[1 - k], s + 'time', 'the other phase was charged')
        rec.check(t2 - t1 - 1e-4 <= cur[k] - last[k] <= t3 - t0 + 1e-4, s + 'time',
                  'measured %r for a phase of %r..%r' % (cur[k] - last[k], t2 - t1, t3 - t0))
        rec.close(ev.get_current_total_running_time(), sum(cur), s + 'time', 'total')
        last = cur
        rec.count('comparisons')
    ev.reset()
    rec.same((ev.get_current_training_time(), ev.get_current_testing_time(),
              ev.get_current_total_running_time()), (0, 0, 0), s + 'time')
    rec.key('time', r.randint(10 ** 6))
