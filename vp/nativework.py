"""Workload executed in a sanitized interpreter (AddressSanitizer + UBSan builds of the native code).

Run as: python -m vp.nativework MODULES.json FAMILY SEED ROUNDS OUT.json
The parent judges the exit status, the sanitizer log and the findings listed in OUT.json.
"""
import json
import sys

import numpy as np

OUT = {'calls': 0, 'rejected': 0, 'bad': [], 'keys': []}


def bad(sig, msg):
    if len(OUT['bad']) < 6:
        OUT['bad'].append([sig, str(msg)[:600]])


def variants(r, A):
    """The same values in other memory layouts."""
    k = r.randint(6)
    if k == 0:
        return A.tolist()
    if k == 1:
        B = np.zeros((A.shape[0] * 2,) + A.shape[1:], dtype=A.dtype)
        B[::2] = A
        return B[::2]
    if k == 2:
        return np.asfortranarray(A)
    if k == 3 and A.dtype.kind == 'f' and np.all(np.isfinite(A)) and np.all(A == np.round(A)):
        return A.astype(np.int64)
    if k == 4:
        return A[::-1].copy()[::-1]
    return A.copy()


def values(r, shape):
    k = r.randint(3)
    if k == 0:
        return r.normal(size=shape)
    if k == 1:
        return r.randint(-3, 4, size=shape).astype(float)
    return r.normal(size=shape) * 10.0 ** r.randint(-3, 6)


def sizes(r, lo=0):
    return int(r.choice([lo, 1, 2, 3, 7, 16, 33, 128, 300]))


def kernels(NN, r, rounds):
    for t in range(rounds):
        OUT['calls'] += 1
        n, m, d = max(1, sizes(r)), sizes(r), int(r.choice([1, 2, 3, 10, 40]))
        A, B = values(r, (n, d)), values(r, (m, d))
        want = ((A[:, None, :] - B[None, :, :]) ** 2).sum(axis=2)
        tol = 1e-9 * (1 + float(want.max() if want.size else 0))
        if m == 0:
            Bv = B
        else:
            Bv = variants(r, B)
        got = NN.get1ToNDistances(variants(r, A[0]), Bv)
        if got.shape != (m,) or not np.allclose(got, want[0], rtol=1e-9, atol=tol):
            bad('kernel:get1ToNDistances', 'n=%d d=%d: %r' % (m, d, got[:5]))
        if m and n * m < 20000:
            got = NN.getNToNDistances(variants(r, A), variants(r, B))
            if got.shape != (n, m) or not np.allclose(got, want, rtol=1e-9, atol=tol):
                bad('kernel:getNToNDistances', '%dx%d d=%d' % (n, m, d))
        # n smallest
        rows, cols = int(r.choice([1, 1, 2, 5])), max(1, sizes(r, 1))
        V = values(r, (rows, cols))
        if r.randint(8) == 0:
            V[r.uniform(size=V.shape) < 0.2] = np.inf
        k = int(r.randint(0, min(cols, 12) + 1))
        one = rows == 1 and bool(r.randint(2))
        got = np.asarray(NN.nArgMin(k, variants(r, V[0] if one else V)))
        if got.shape != (rows, k):
            bad('kernel:nArgMin', 'shape %r for %d of %dx%d' % (got.shape, k, rows, cols))
        else:
            for i in range(rows):
                g = got[i]
                good = len(set(g.tolist())) == k and (k == 0 or (g.min() >= 0 and g.max() < cols))
                if not good or not np.array_equal(V[i][g], np.sort(V[i])[:k]):
                    bad('kernel:nArgMin', '%d smallest of %r: indices %r' % (k, V[i][:8], g))
        # votes
        L = r.randint(0, int(r.choice([2, 3, 300])), size=(rows, cols)).astype(np.int32)
        W = np.abs(values(r, (rows, cols)))
        if r.randint(3) == 0:
            W[r.uniform(size=W.shape) < 0.2] = 0
        got = NN.mostCommon(variants(r, L[0] if one else L))
        for i in range(rows):
            u, c = np.unique(L[i], return_counts=True)
            if int(got[i]) not in u[c == c.max()]:
                bad('kernel:mostCommon', '%r of %r' % (got[i], L[i][:10]))
        got = NN.getLinearWeightedLabels(variants(r, L[0] if one else L),
                                         variants(r, W[0] if one else W))
        for i in range(rows):
            u = np.unique(L[i])
            s = np.array([np.sum(1 / np.maximum(W[i][L[i] == c], 1e-9)) for c in u])
            ok = u[s >= s.max() * (1 - 1e-9)]
            if int(got[i]) not in ok:
                bad('kernel:getLinearWeightedLabels', '%r of %r' % (got[i], L[i][:10]))
        OUT['keys'].append([n, m, d, rows, cols, k])


def invalid(NN, r, rounds):
    """Malformed arguments must be refused with a Python exception, never read out of bounds."""
    a, A = np.arange(3.0), np.arange(12.0).reshape(4, 3)
    calls = [
        lambda: NN.get1ToNDistances(np.arange(5.0), A), lambda: NN.get1ToNDistances(np.arange(2.0), A[:, :1]),
        lambda: NN.get1ToNDistances(A, A), lambda: NN.get1ToNDistances(np.array(['x', 'y', 'z']), A),
        lambda: NN.get1ToNDistances(a, np.array([['x', 'y', 'z']])), lambda: NN.get1ToNDistances(a, None),
        lambda: NN.get1ToNDistances(3.0, A), lambda: NN.get1ToNDistances(a),
        lambda: NN.get1ToNDistances(np.arange(500.0), A),
        lambda: NN.getNToNDistances(np.zeros((2, 50)), A), lambda: NN.getNToNDistances('abc', A),
        lambda: NN.getNToNDistances(A, 'abc'), lambda: NN.getNToNDistances(A, np.zeros((2, 2, 2))),
        lambda: NN.getNToNDistances(A, np.zeros((2, 1))),
        lambda: NN.nArgMin(50, a), lambda: NN.nArgMin(-1, a), lambda: NN.nArgMin(2, 'abc'),
        lambda: NN.nArgMin('x', a), lambda: NN.nArgMin(4, np.zeros((7, 3))), lambda: NN.nArgMin(1, 5.0),
        lambda: NN.mostCommon('abc'), lambda: NN.mostCommon(None), lambda: NN.mostCommon(np.zeros((2, 2, 2))),
        lambda: NN.getLinearWeightedLabels([1, 2, 3], [0.5]), lambda: NN.getLinearWeightedLabels([1], 'x'),
        lambda: NN.getLinearWeightedLabels('x', [1.0]),
        lambda: NN.getLinearWeightedLabels(np.zeros((3, 4), int), np.zeros(4)),
    ]
    for i, f in enumerate(calls):
        OUT['calls'] += 1
        try:
            out = f()
        except Exception as e:
            OUT['rejected'] += 1
            OUT['keys'].append([i, type(e).__name__])
        else:
            bad('kernel:accepted', 'malformed call %d returned %r' % (i, out))


def samknn(NN, r, rounds):
    """The learner on top of the kernels, over both memories and hostile shapes."""
    from skmultiflow.lazy import SAMKNNClassifier
    for t in range(rounds):
        W = int(r.choice([40, 60, 100]))
        m = SAMKNNClassifier(n_neighbors=int(r.choice([1, 3, 5])), max_window_size=W,
                             min_stm_size=int(r.choice([10, 20])),
                             weighting=['distance', 'uniform'][r.randint(2)],
                             stm_size_option=['maxACC', 'maxACCApprox'][r.randint(2)],
                             use_ltm=bool(r.randint(4)))
        d = int(r.choice([1, 3]))
        n = 160
        X = np.round(r.normal(size=(n, d)) * 8) / 8
        y = (X[:, 0] > 0).astype(int) * int(r.choice([1, 200]))
        y[n // 2:] = y.max() - y[n // 2:]
        for i in range(0, n, 20):
            p = m.predict(X[i:i + 20])
            if len(p) != len(X[i:i + 20]) or not set(np.asarray(p).tolist()) <= set(y.tolist()) | {0}:
                bad('samknn:labels', 'predicted %r' % (p[:5],))
            m.partial_fit(X[i:i + 20], y[i:i + 20])
            OUT['calls'] += 20
        for q in (np.zeros((2, d + 3)), np.array([['a'] * d])):
            try:
                m.predict(q)
                bad('samknn:accepted', 'a query of shape %r dtype %s was answered' % (q.shape, q.dtype))
            except Exception:
                OUT['rejected'] += 1
        OUT['keys'].append([W, d, len(m.STMLabels), len(m.LTMLabels)])


def trackers(NN, r, rounds):
    """The Cython metric trackers and confusion matrices, with growth, eviction and bad indices."""
    import skmultiflow.metrics as M
    for t in range(rounds):
        w = int(r.choice([1, 5, 40]))
        objs = [M.ClassificationPerformanceEvaluator(), M.WindowClassificationPerformanceEvaluator(window_size=w),
                M.MultiLabelClassificationPerformanceEvaluator(),
                M.WindowMultiLabelClassificationPerformanceEvaluator(window_size=w)]
        log = []
        for i in range(150):
            OUT['calls'] += 4
            a, b = int(r.randint(0, 2 + i // 20)), int(r.randint(0, 2 + i // 20))
            log.append(a == b)
            for o in objs[:2]:
                o.add_result(a, b)
            A, B = r.randint(0, 2, 4), r.randint(0, 2, 4)
            for o in objs[2:]:
                o.add_result(A, B)
            if i % 10 == 0:
                for o in objs[:2]:
                    o.accuracy_score(), o.kappa_score(), o.f1_score(), o.geometric_mean_score()
                for o in objs[2:]:
                    o.hamming_score(), o.jaccard_score(), o.exact_match_score()
            if r.randint(60) == 0:
                for o in objs:
                    o.reset()
                log = []
        if log and abs(objs[0].accuracy_score() - np.mean(log)) > 1e-9:
            bad('tracker:accuracy', 'accuracy %r of %r' % (objs[0].accuracy_score(), np.mean(log)))
        if log and abs(objs[1].accuracy_score() - np.mean(log[-w:])) > 1e-9:
            bad('tracker:window', 'accuracy %r' % objs[1].accuracy_score())
        OUT['keys'].append([w, len(log)])


def main():
    mods, fam, seed, rounds, path = sys.argv[1:6]
    from vp import build
    with open(mods) as f:
        build.activate(json.load(f))
    import warnings
    warnings.simplefilter('ignore')
    from skmultiflow.lazy import libNearestNeighbor as NN
    r = np.random.RandomState(int(seed))
    globals()[fam](NN, r, int(rounds))
    with open(path, 'w') as f:
        json.dump(OUT, f)


if __name__ == '__main__':
    main()
