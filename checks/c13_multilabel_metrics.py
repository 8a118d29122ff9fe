"""C13: multi-label performance trackers and batch scores equal a recomputation over the samples."""
import warnings
from collections import deque

import numpy as np

from vp import driftload

LEVEL = 'exploration'
RULE = ('an evaluation is one multi-label score compared with a recomputation from the raw label '
        'matrices at one point of a history; distinct = digests of the tracked matrices')
REQUIRED = {'results_added': 10000, 'comparisons': 5000, 'window_full': 1000, 'empty_union': 100,
            'resets': 50, 'reused_arrays': 1000, 'missing_labels': 300}
ASSUMPTIONS = ['unit weights; the two families of trackers define the Jaccard score of a sample '
               'without any label differently (0 for the current one, 1 for the deprecated one), as '
               'documented']


def cases(tier, seed):
    k = 90 if tier == 'quick' else 900
    fams = ['cumulative', 'window', 'legacy', 'legacy_window', 'functions']
    return [{'fam': f, 'i': i, 'seed': seed} for f in fams for i in range(k)]


def jac(t, p, empty):
    u = np.sum((t > 0) | (p > 0))
    return np.sum((t > 0) & (p > 0)) / u if u else empty


def scores(T, P, n_labels, empty):
    if not len(T):
        return dict(hamming=0.0, exact=0.0, jaccard=0.0)
    T, P = np.array(T), np.array(P)
    return dict(hamming=float((T == P).sum()) / (len(T) * n_labels),
                exact=float(np.mean([np.array_equal(a, b) for a, b in zip(T, P)])),
                jaccard=float(np.mean([jac(a, b, empty) for a, b in zip(T, P)])))


def run(case, rec):
    import skmultiflow.metrics as M
    r = driftload.rng(case)
    fam = case['fam']
    L = int(r.choice([2, 3, 5, 8]))
    n = 160
    dens = r.uniform(0.05, 0.95)
    T = (r.uniform(size=(n, L)) < dens).astype(float)
    P = np.where(r.uniform(size=(n, L)) < r.uniform(0, 1), T, r.randint(0, 2, (n, L))).astype(float)
    if r.randint(3) == 0:
        T[r.randint(0, n, 30)] = 0
        P[r.randint(0, n, 30)] = 0
    if r.randint(2):
        T, P = T.astype(int), P.astype(int)
    rec.count('empty_union', int(np.sum((T.sum(1) + P.sum(1)) == 0)))
    s = 'metrics:multilabel_%s:' % fam
    if fam == 'functions':
        for _ in range(20):
            a = r.randint(0, n)
            b = r.randint(a + 1, n + 1)
            t, p = T[a:b], P[a:b]
            e = scores(t, p, L, 1.0)
            tt, pp = (t.tolist(), p.tolist()) if r.randint(2) else (t, p)
            rec.close(M.hamming_score(tt, pp), e['hamming'], s + 'hamming')
            rec.close(M.exact_match(tt, pp), e['exact'], s + 'exact')
            rec.close(M.j_index(tt, pp), e['jaccard'], s + 'jaccard')
            rec.count('comparisons', 3)
            rec.key(t, p)
        return
    win = int(r.choice([1, 2, 7, 30, 200])) if 'window' in fam else None
    legacy = fam.startswith('legacy')
    if legacy:
        ev = M.WindowMultiTargetClassificationMeasurements(window_size=win) if win else \
            M.MultiTargetClassificationMeasurements()
    else:
        kw = dict(n_labels=int(r.choice([2, L])))
        ev = M.WindowMultiLabelClassificationPerformanceEvaluator(window_size=win, **kw) if win else \
            M.MultiLabelClassificationPerformanceEvaluator(**kw)
    log = deque(maxlen=win)
    resets = set(r.randint(1, n, 2).tolist()) if r.randint(2) else set()
    reuse = (not legacy) and r.randint(2) == 0
    bt, bp = T[0].copy(), P[0].copy()
    rec.sample(family=fam, labels=L, window=win, density=dens)
    for i in range(n):
        if i in resets:
            ev.reset()
            log.clear()
            rec.count('resets')
            if not legacy:
                rec.same(int(ev.n_samples), 0, s + 'reset')
        if not legacy and r.randint(25) == 0:   # a result with a missing label is skipped
            t, q = T[i].astype(float), P[i].astype(float)
            (t if r.randint(2) else q)[r.randint(L)] = np.nan
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                ev.add_result(t, q)
            rec.count('missing_labels')
            rec.same(int(ev.n_samples), len(log), s + 'missing', 'a result with a NaN label counted')
        if reuse:                               # the caller recycles its buffers
            bt[:], bp[:] = T[i], P[i]
            ev.add_result(bt, bp)
            rec.count('reused_arrays')
        else:
            ev.add_result(T[i].copy(), P[i].copy())
        log.append((T[i], P[i]))
        rec.count('results_added')
        rec.count('window_full', win is not None and len(log) == win)
        e = scores([a for a, _ in log], [b for _, b in log], L, 1.0 if legacy else 0.0)
        at = 'after result %d' % i
        rec.count('comparisons')
        if i % 7 == 0:
            rec.key([np.r_[a, b] for a, b in list(log)[-40:]])
        if legacy:
            rec.same(int(ev.sample_count), len(log), s + 'sample_count', at)
            rec.close(ev.get_hamming_score(), e['hamming'], s + 'hamming', at)
            rec.close(ev.get_hamming_loss(), 1 - e['hamming'], s + 'hamming_loss', at)
            rec.close(ev.get_exact_match(), e['exact'], s + 'exact', at)
            rec.close(ev.get_j_index(), e['jaccard'], s + 'jaccard', at)
            a, b = ev.get_last()
        else:
            rec.same(int(ev.n_samples), len(log), s + 'n_samples', at)
            rec.close(ev.hamming_score(), e['hamming'], s + 'hamming', at)
            rec.close(ev.hamming_loss_score(), 1 - e['hamming'], s + 'hamming_loss', at)
            rec.close(ev.exact_match_score(), e['exact'], s + 'exact', at)
            rec.close(ev.jaccard_score(), e['jaccard'], s + 'jaccard', at)
            A, B = np.array([x for x, _ in log]), np.array([x for _, x in log])
            for l in range(L):
                for u in (0, 1):
                    for v in (0, 1):
                        rec.close(ev.confusion_matrix[l, u, v],
                                  float(np.sum((A[:, l] == u) & (B[:, l] == v))), s + 'matrix', at)
            a, b = ev.get_last()
        rec.close(a, T[i], s + 'last', at)
        rec.close(b, P[i], s + 'last', at)
