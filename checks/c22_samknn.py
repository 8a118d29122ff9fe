"""C22: SAM-kNN's memories evolve and answer as specified, step by step."""
from collections import deque

import numpy as np

from vp import driftload

LEVEL = 'exploration'
RULE = ('an evaluation is one training step (memories before and after compared with the specified '
        'transition) or one prediction (compared with the vote of the best memory); distinct = '
        'digests of the memory sizes and the query')
REQUIRED = {'steps': 5000, 'shrinks': 20, 'ltm_cleanings': 20, 'compressions': 5, 'predictions': 2000,
            'exact_sizing': 2000, 'exact_sizing_approx': 1000,
            'fixed_window': 300, 'ltm_compressed': 5}
ASSUMPTIONS = ['continuous features (no distance ties); majority voting is exercised with odd k and '
               'two classes; labels start at 1, because memories that do not exist yet count as '
               'predicting 0']


def cases(tier, seed):
    k = 140 if tier == 'quick' else 500
    return [{'fam': f, 'i': i, 'seed': seed, 'cost': 3}
            for f in ('sam', 'stm', 'window') for i in range(k if f == 'sam' else k // 2)]


def dist(q, A):
    return ((A - q) ** 2).sum(axis=1) if len(A) else np.zeros(0)


def vote(d, L, k, weighting):
    """Labels that win the vote of the k nearest (a set: near-ties admit several)."""
    o = np.argsort(d, kind='stable')[:k]
    w = 1 / np.maximum(np.sqrt(d[o]), 1e-9) if weighting == 'distance' else np.ones(len(o))
    s = {}
    for i, c in zip(w, L[o]):
        s[int(c)] = s.get(int(c), 0.0) + i
    m = max(s.values())
    return {c for c, v in s.items() if v >= m * (1 - 1e-9)}


def clean(S, SL, C, CL, k, points):
    """Removes from C what contradicts the given STM points."""
    if len(SL) <= k or len(CL) == 0:
        return C, CL
    for i in points:
        if len(CL) == 0:
            break
        rest = np.delete(np.arange(len(SL)), i)
        dS = dist(S[i], S[rest])
        near = np.argsort(dS, kind='stable')[:k]
        same = near[SL[rest][near] == SL[i]]
        if len(same) == 0:
            continue
        limit = dS[same].max()
        dC = dist(S[i], C)
        nc = np.argsort(dC, kind='stable')[:min(k, len(CL))]
        gone = [j for j in nc if CL[j] != SL[i] and dC[j] <= limit]
        C, CL = np.delete(C, gone, 0), np.delete(CL, gone, 0)
    return C, CL


def run(case, rec):
    from skmultiflow.lazy import SAMKNNClassifier
    r = driftload.rng(case)
    fam = case['fam']
    weighting = ['distance', 'uniform'][r.randint(2)]
    k = int(r.choice([1, 3, 5]))
    nc = 2 if weighting == 'uniform' else int(r.choice([2, 3]))
    W = int(r.choice([50, 70, 110]))
    mn = int(r.choice([10, 20]))
    option = None if fam == 'window' else ['maxACC', 'maxACCApprox', 'maxACCApprox'][r.randint(3)]
    ltm = fam == 'sam' and True
    m = SAMKNNClassifier(n_neighbors=k, weighting=weighting, max_window_size=W, min_stm_size=mn,
                         stm_size_option=option, use_ltm=ltm)
    d = int(r.choice([1, 2, 3]))
    n = 230
    X = r.normal(size=(n, d))
    style = r.randint(3)
    drift = n // 3 + r.randint(40)
    shift = np.where(np.arange(n) >= drift, r.uniform(0.8, 2.0), 0.0)
    z = X[:, 0] + shift
    if style == 1:
        z = np.where(np.arange(n) >= drift, -X[:, 0], X[:, 0])
    if style == 2:
        z = X[:, 0] * np.where((np.arange(n) // 60) % 2 == 0, 1, -1)
    y = 1 + np.digitize(z, np.linspace(-0.7, 0.7, nc - 1)) if nc > 2 else 1 + (z > 0).astype(int)
    flip = r.uniform(size=n) < 0.05
    y = np.where(flip, 1 + r.randint(0, nc, n), y).astype(int)
    rec.sample(family=fam, k=k, window=W, min_stm=mn, option=option, weighting=weighting,
               classes=nc, features=d)
    S, SL = np.zeros((0, d)), np.zeros(0, dtype=int)
    C, CL = np.zeros((0, d)), np.zeros(0, dtype=int)
    sizer = Sizer(option, k, mn, weighting)
    hist = [deque(), deque(), deque()]               # STM, LTM, both
    i = 0
    while i < n:
        # prediction
        if r.randint(3) == 0:
            Q = r.normal(size=(int(r.choice([1, 3])), d))
            out = np.asarray(m.predict(Q))
            if rec.check(out.shape == (len(Q),), 'sam:shape', 'shape %r' % (out.shape,)):
                for q, p in zip(Q, out):
                    want = answer(S, SL, C, CL, hist, q, k, weighting, ltm)
                    rec.count('predictions')
                    rec.check(int(p) in want, 'sam:predict', lambda: 'after %d samples (STM %d, '
                              'LTM %d): predicted %r, the best memory votes %r'
                              % (i, len(SL), len(CL), p, sorted(want)))
                    rec.key(q, len(SL), len(CL))
        x, c = X[i], int(y[i])
        m.partial_fit(X[i:i + 1], y[i:i + 1])
        i += 1
        rec.count('steps')
        if ltm:
            # correctness of the three memories on the new sample, before it is stored
            vs, vl, vb = verdicts(S, SL, C, CL, x, k, weighting)
            for h, v in zip(hist, (vs, vl, vb)):
                h.append(None if len(v) > 1 and c in v else c in v)
        S2, SL2 = np.vstack([S, x]), np.append(SL, c)
        gS, gSL = np.asarray(m.STMSamples), np.asarray(m.STMLabels).astype(int)
        gC, gCL = np.asarray(m.LTMSamples), np.asarray(m.LTMLabels).astype(int)
        at = 'step %d (STM %d -> %d, LTM %d -> %d)' % (i, len(SL), len(gSL), len(CL), len(gCL))
        t = len(gSL)
        ok = rec.check(0 < t <= len(SL2) and np.array_equal(gS, S2[-t:]) and
                       np.array_equal(gSL, SL2[-t:]), 'sam:stm', '%s: the short term memory is not '
                       'the latest samples' % at)
        rec.check(len(gSL) + len(gCL) <= W, 'sam:size', '%s: more than %d samples stored' % (at, W))
        rec.check(set(gCL.tolist()) <= set(y[:i].tolist()), 'sam:ltm_labels', at)
        if not ltm:
            rec.check(len(gCL) == 0, 'sam:ltm_unused', at)
        if ok and not transition(rec, at, S2, SL2, C, CL, gS, gSL, gC, gCL, k, W, mn, option,
                                 weighting, ltm, m, sizer):
            break
        for h in hist:
            while len(h) > t:
                h.popleft()
        S, SL, C, CL = gS.copy(), gSL.copy(), gC.copy(), gCL.copy()
        rec.key('state', i, t, len(CL), fam, k, W)


def verdicts(S, SL, C, CL, q, k, weighting):
    zero = {0}
    if len(SL) == 0:
        return zero, zero, zero
    dS = dist(q, S)
    if len(SL) < k:
        return vote(dS, SL, len(SL), weighting), zero, zero
    dC = dist(q, C)
    vs = vote(dS, SL, k, weighting)
    vb = vote(np.append(dS, dC), np.append(SL, CL), k, weighting)
    vl = vote(dC, CL, k, weighting) if len(CL) >= k else zero
    return vs, vl, vb


def answer(S, SL, C, CL, hist, q, k, weighting, ltm):
    if len(SL) == 0:
        return {0}
    vs, vl, vb = verdicts(S, SL, C, CL, q, k, weighting)
    if not ltm or len(SL) < k or len(CL) < k:
        return vs
    lo = [sum(1 for v in h if v) for h in hist]
    hi = [sum(1 for v in h if v or v is None) for h in hist]
    best = max(lo)
    out = set()
    for h, v in zip(hi, (vs, vl, vb)):
        if h >= best:
            out |= v
    return out


class Sizer:
    """Candidate sizes of the STM (the window, its latest half, quarter, ...) and which of them is chosen.

    Keeps, per window start, which interleaved test-train predictions were correct. maxACCApprox keeps
    the predictions of a window whose start moves by one and recomputes only when it is about to shrink;
    maxACC recomputes whenever the start moves. None stands for a vote too close to call."""

    def __init__(self, option, k, mn, weighting):
        self.option, self.k, self.mn, self.weighting = option, k, mn, weighting
        self.h = {}
        self.unsure = False

    def extend(self, D, SL, lo, done):
        for i in range(lo + len(done) + self.k, len(SL)):
            v = vote(D[i, lo:i], SL[lo:i], self.k, self.weighting)
            if len(v) > 1:
                self.unsure = True
            done.append(int(SL[i]) in v)
        return done

    def faded(self):
        """The oldest sample was dropped."""
        if self.option != 'maxACCApprox':
            self.h = {}
            return
        if 0 in self.h:
            self.h[0] = self.h[0][1:]
        new = {}
        for key in self.h:                       # in order of insertion, a window at 1 replaces that at 0
            if key == 0:
                if 1 not in self.h:
                    new[0] = self.h[0]
            else:
                new[key - 1] = self.h[key]
        self.h = new

    def size(self, S, SL):
        n = len(SL)
        if self.option is None or n < 2 * self.mn:
            return n, None, None
        D = ((S[:, None, :] - S[None, :, :]) ** 2).sum(axis=2)
        sizes = [float(n)]
        while sizes[-1] / 2 >= self.mn:
            sizes.append(sizes[-1] / 2)
        starts = [int(n - z) for z in sizes]
        if self.option == 'maxACC':
            self.h = {key: v for key, v in self.h.items() if key in [n - z for z in sizes]}
        acc = []
        for lo in starts:
            if lo in self.h:
                done = self.h[lo]
            elif self.option == 'maxACCApprox' and lo - 1 in self.h:
                done = self.h.pop(lo - 1)[1:]
            else:
                done = []
            self.h[lo] = self.extend(D, SL, lo, done)
            acc.append(sum(self.h[lo]) / float(len(self.h[lo])))
        acc = np.round(acc, 4)
        best = int(np.argmax(acc))
        if self.option == 'maxACCApprox' and best > 0:
            for j in np.where(acc > acc[0])[0]:
                lo = starts[j]
                self.h[lo] = self.extend(D, SL, lo, [])
                acc[j] = np.round(sum(self.h[lo]) / float(len(self.h[lo])), 4)
            best = int(np.argmax(acc))
        for _ in range(best):
            keys = sorted(self.h)
            self.h = {key - keys[1]: self.h[key] for key in keys[1:]}
        # a size whose accuracy ties up to rounding may be either
        close = {n - starts[j] for j in range(len(acc)) if acc[j] >= acc[best] - 1e-9}
        return n - starts[best], close, dict(zip([n - q for q in starts], acc.tolist()))


def compress(C, CL):
    """Each class is replaced by half as many k-means centres."""
    from sklearn.cluster import KMeans
    out, lab = np.zeros((0, C.shape[1])), np.zeros(0, dtype=int)
    for c in np.unique(CL):
        P = C[CL == c]
        q = max(len(P) // 2, 1)
        out = np.vstack([out, KMeans(n_clusters=q, n_init=1, random_state=0).fit(P).cluster_centers_])
        lab = np.append(lab, np.full(q, c))
    return out, lab


def transition(rec, at, S2, SL2, C, CL, gS, gSL, gC, gCL, k, W, mn, option, weighting, ltm, m, sizer):
    t = len(gSL)
    share = 0.4 * W
    # 1. room: the oldest sample fades out, or the oldest ones fill up the LTM, which is compressed
    overflow = len(SL2) + len(CL) > W
    if not ltm and overflow:
        S2, SL2 = S2[1:], SL2[1:]
        sizer.faded()
        rec.count('fixed_window', option is None)
    if ltm and overflow:
        rec.count('compressions')
        if len(CL) > share:
            C, CL = compress(C, CL)
            rec.count('ltm_compressed')
        else:
            j = int(share - len(CL) + 1)
            C, CL = compress(np.vstack([C, S2[:j]]), np.append(CL, SL2[:j]))
            S2, SL2 = S2[j:], SL2[j:]
            sizer.h = {}
    n = len(SL2)
    # 2. the new sample cleans the LTM
    eC, eCL = C, CL
    if ltm:
        eC, eCL = clean(S2, SL2, C, CL, k, [n - 1])
        rec.count('ltm_cleanings', len(eCL) < len(CL))
    # 3. sizing of the STM
    if option is None:
        rec.check(t == n, 'sam:fixed', '%s: the short term memory was adapted although it is fixed' % at)
    elif n < 2 * mn:
        rec.check(t == n, 'sam:min', '%s: %d samples are too few to shrink' % (at, n))
    else:
        want, close, acc = sizer.size(S2, SL2)
        if not sizer.unsure:
            rec.count('exact_sizing')
            rec.count('exact_sizing_approx', option == 'maxACCApprox')
            if not rec.check(t == want, 'sam:sizing', lambda: '%s: chose size %d, the interleaved accuracies are %r' % (
                    at, t, acc)):
                return False
        rec.check(t in acc, 'sam:halving', lambda: '%s: new size not in %r' % (at, sorted(acc)))
        rec.count('shrinks', t < n)
    if t > n:
        return rec.fail('sam:stm', '%s: %d samples expected in the short term memory' % (at, n))
    # 4. what leaves the STM moves to the LTM unless it contradicts what stays
    if ltm:
        if t < n:
            oS, oL = clean(gS, gSL, S2[:n - t], SL2[:n - t], k, range(t))
            eC, eCL = np.vstack([eC, oS]), np.append(eCL, oL)
        good = eC.shape == gC.shape and np.allclose(eC, gC, atol=1e-7) and np.array_equal(eCL, gCL)
        return rec.check(good, 'sam:ltm', '%s: the long term memory does not follow from the '
                         'rules (%d samples expected)' % (at, len(eCL)))
    return True
