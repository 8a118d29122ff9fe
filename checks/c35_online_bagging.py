"""Online bagging: how often members see a sample, and how their votes are added up."""
import warnings

import numpy as np

from vp.spyload import Lockstep, Rates, Watch

LEVEL = 'exploration'
RULE = ('a case feeds one bagging ensemble, whose members are scripted spies, 200-1500 random rows in batches of random '
        'size, reads from the spies\' log how often every member was trained on every row and compares the answers with '
        'the sum of the members\' own; every case is non-trivial; distinct by ensemble and training counts')
REQUIRED = {'rows': 30000, 'trainings': 100000, 'rate_tests': 1500, 'votes': 3000, 'codes': 40, 'synthetic': 2000,
            'weighted': 2000,
            'gapped': 15, 'resized': 8, 'often_wrong': 50}
ASSUMPTIONS = ['numbers of trainings are judged statistically, at 7 or more standard deviations',
               'OzaBaggingADWIN and ensembles that detect drift are fed one row per call']
FAMS = ('oza', 'oza_adwin', 'under_over', 'smote', 'leveraging_bag', 'leveraging_bag_me', 'leveraging_bag_half',
        'leveraging_bag_wt', 'leveraging_subag', 'codes')


def cases(tier, seed):
    n = 20 if tier == 'quick' else 150
    return [{'fam': f, 'i': i, 'seed': (seed * 7919 + i * 131 + 17 * j) % (2 ** 31)}
            for i in range(n) for j, f in enumerate(FAMS)] + [
                {'fam': 'smote', 'i': n, 'between': True, 'seed': seed * 7919 + 5}]


def run(case, rec):
    from skmultiflow import meta
    fam, r = case['fam'], np.random.RandomState(case['seed'])
    k = int(r.choice([2, 2, 3, 4]))
    n = int(r.choice([1, 2, 3, 5, 8]))
    rate = float(r.choice([0.5, 1, 2, 3.5]))
    w = float(r.choice([1, 2.5, 6]))
    delta = float(r.choice([0.002, 0.05]))
    rs = int(r.randint(1000))
    single = fam in ('oza_adwin', 'leveraging_bag_me')
    drift = bool(r.randint(2)) and fam in ('under_over', 'smote')
    widths = None
    if fam != 'leveraging_bag_me' and r.rand() < 0.3:
        widths = r.randint(1, k + 1, size=3).tolist()
    L = list(range(k))
    if fam not in ('codes', 'leveraging_bag_me') and r.rand() < 0.25:     # labels with gaps
        L = sorted([1] + [int(v) for v in r.choice([0, 2, 3, 4, 5], size=k - 1, replace=False)])
        rec.count('gapped')
    name = {'oza': 'OzaBaggingClassifier', 'oza_adwin': 'OzaBaggingADWINClassifier',
            'under_over': 'OnlineUnderOverBaggingClassifier',
            'smote': 'OnlineSMOTEBaggingClassifier'}.get(fam, 'LeveragingBaggingClassifier')
    C = getattr(meta, name)
    if fam in ('oza', 'oza_adwin'):
        def build(p): return C(base_estimator=p, n_estimators=n, random_state=rs)
    elif fam in ('under_over', 'smote'):
        def build(p): return C(base_estimator=p, n_estimators=n, sampling_rate=rate, drift_detection=drift,
                               random_state=rs)
    else:
        def build(p): return C(base_estimator=p, n_estimators=n, w=w, delta=delta, enable_code_matrix=fam == 'codes',
                               leverage_algorithm='leveraging_bag' if fam == 'codes' else fam, random_state=rs)
    low = 0.05 if r.rand() < 0.4 else 0.6
    acc = (lambda uid, resets: low + 0.1 * (uid % 4)) if fam == 'leveraging_bag_me' else None
    W = Watch(rec, name, build, 2 if fam == 'codes' else max(L) + 1, acc, lambda x: L[int(abs(x[0]) * 1e6) % k], widths, L)
    if drift:
        single = True
    rows = int(r.choice([200, 600])) if single else int(r.choice([300, 900, 1500]))
    want_n = max(n, k) if fam in ('oza', 'oza_adwin', 'under_over', 'smote') else n
    rates = Rates(rec, name)
    ad = Lockstep(delta)
    codes = {}
    positives = []
    prev = None
    weighted = r.rand() < 0.3 and name != 'LeveragingBaggingClassifier'
    j0 = 0
    while j0 < rows:
        b = 1 if single else int(r.choice([1, 1, 2, 7, 30]))
        X = r.normal(size=(b, 3))
        y = (r.rand(b) < 0.4).astype(int) if k == 2 else r.randint(0, k, size=b)
        y = np.array(L)[y]
        if fam == 'leveraging_bag_me':
            y = np.array([W.log.truth(x) for x in X])
        sw = r.uniform(0.5, 3, size=b) if weighted else None
        before, counts, labels, other, reset, seen, old = W.train(X, y, sw)
        if j0 == 0:
            rec.check(len(old) == want_n, 'size:' + name, lambda: '%d members, %d expected (n_estimators=%d, %d classes)' %
                      (len(old), want_n, n, k))
        if weighted:
            W.weights(sw, seen)
            rec.count('weighted', len(seen))
        m = len(old)
        if fam == 'codes':
            for (j, i), ls in labels.items():
                codes.setdefault((i, int(y[j])), set()).update(ls)
        else:
            W.plain_labels(y, labels)
        if fam != 'smote':
            rec.check(not other, 'row:' + name, lambda: 'member %d was trained on %s' % (other[0][0], other[0][1].tolist()))
        extra = np.zeros((b, m), dtype=int)
        if fam == 'smote':
            for j in range(b):
                if y[j] == 1:
                    positives.append(X[j])
            P = np.array(positives)
            for i, row, lab in other:
                jj = smote_row(rec, name, row[0], lab, X, y, P, case.get('between'))
                if jj == 'stop':
                    return
                if jj is not None:
                    extra[jj, i] += 1
                rec.count('synthetic')
        for j in range(b):
            lams = []
            for i in range(m):
                c = counts[j, i]
                a = (i + 1) / m
                if fam in ('oza', 'oza_adwin'):
                    lam = 1.0
                elif fam == 'under_over':
                    lam = a * (rate if y[j] == 1 else 1.0)
                elif fam == 'smote':
                    lam = a * rate if y[j] == 1 else 1.0
                    rates.add(extra[j, i] if len(positives) > 1 else 0,
                              (1 - a) * rate if y[j] == 1 and len(positives) > 1 else 0.0, 'synthetic',
                              'synthetic%d' % i)
                elif fam in ('leveraging_bag', 'codes'):
                    lam = w
                elif fam == 'leveraging_bag_wt':
                    rec.check(c >= 1, 'rate:' + name, 'a member was not trained although every one is at least once')
                    c, lam = c - 1, 1.0
                else:
                    lam = None
                if lam is None:
                    rec.check(c <= 1, 'rate:' + name, lambda: 'a member was trained %d times on one row' % c)
                    if fam == 'leveraging_bag_half':
                        p = 0.5
                    elif fam == 'leveraging_subag':
                        p = 1 - np.exp(-1)
                    else:
                        e = ad.estimate(i)
                        wrong = W.log.all[old[i]].label_at(before[i], X[j]) != y[j]
                        if not wrong and e >= 1 - 1e-12:
                            lams.append((c, 1.0))        # error/(1-error) has no value
                            continue
                        rec.count('often_wrong', int(not wrong and e >= 0.5 + 1e-9))
                        p = 1.0 if wrong or e >= 0.5 + 1e-9 else min(1 - 1e-9, e / (1 - e)) if e < 1 else 1.0
                    if p >= 1:
                        rec.check(c == 1, 'rate:' + name, 'a member was not trained on a row it misclassified')
                    else:
                        bern(rates, c, p, ('bern', 'all'), ('bern', 'm%d' % i))
                        if p == 0:
                            rec.check(c == 0, 'rate:' + name, 'a member without errors was trained')
                    lams.append((c, p))
                    continue
                # a synthetic row equal to the sample itself cannot be told from it: judged on the others
                if not (fam == 'smote' and y[j] == 1 and len(positives) <= 1):
                    rates.add(c, lam, 'all', 'member%d' % i, 'class%d' % y[j])
                lams.append((c, lam))
            for q in range(m - 1):
                rates.pair('of two members', lams[q][0], lams[q][1], lams[q + 1][0], lams[q + 1][1])
            if prev is not None and fam != 'leveraging_bag_me':
                rates.pair('of two rows', prev[0], prev[1], lams[-1][0], lams[-1][1])
            prev = lams[-1]
        if fam == 'leveraging_bag_me':
            errs = [W.log.all[old[i]].label_at((before[i][0], before[i][1] + counts[0, i]), X[0]) != y[0]
                    for i in range(m)]
            ad.step(errs)
            for i in reset:
                ad.replaced(i)
        rec.key(name, counts)
        j0 += b
        if r.rand() < 0.05 or j0 >= rows:
            Q = r.normal(size=(3, 3))
            if fam == 'codes':
                code_votes(rec, W, name, Q, codes, k, m)
            else:
                W.votes(Q)
    if fam == 'codes':
        for i in range(m):
            have = [codes.get((i, c), set()) for c in range(k)]
            rec.check(all(len(h) <= 1 and h <= {0, 1} for h in have), 'codes:' + name,
                      lambda: 'member %d codes the classes as %s' % (i, have))
            if all(len(h) == 1 for h in have):
                ones = sum(1 in h for h in have)
                rec.check(abs(2 * ones - k) <= k % 2, 'codes:' + name, lambda: 'unbalanced code %s' % have)
                rec.count('codes')
    rates.judge()
    if want_n > n:
        # the classes decide anew how many members there are
        W.m.reset()
        W.log.take()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            W.m.partial_fit(X[:1], np.array(L[:1]), classes=[L[0], L[-1]])
            W.log.take()
            W.m.predict_proba(X[:1])
        have = {e[1] for e in W.log.take() if e[0] == 'proba'}
        rec.check(len(have) == max(n, 2), 'size:' + name, lambda: '%d members after reset, %d expected (n_estimators=%d, 2 '
                  'classes)' % (len(have), max(n, 2), n))
        rec.count('resized')


def bern(rates, c, p, *groups):
    for g in groups:
        a = rates.g.setdefault(g, np.zeros(7))
        a += (1, c - p, p * (1 - p), 0, 0, 0, 0)


def code_votes(rec, W, name, Q, codes, k, m):
    if any(len(codes.get((i, c), ())) != 1 for i in range(m) for c in range(k)):
        return
    q, p = np.asarray(W.m.predict_proba(Q), dtype=float), W.m.predict(Q)
    for r, x in enumerate(Q):
        want = np.zeros(k)
        for i in range(m):
            lab = W.spy(i).label(x)
            for c in range(k):
                want[c] += lab in codes[(i, c)]
        if want.sum():
            want /= want.sum()
        rec.check(np.allclose(q[r], want, atol=1e-9), 'votes:' + name,
                  lambda: 'scores %s, the coded votes are %s' % (q[r].tolist(), want.tolist()))
        rec.check(want[int(p[r])] >= want.max() - 1e-9, 'argmax:' + name, lambda: 'label %s of %s' % (p[r], want))
        rec.count('votes')


def smote_row(rec, name, s, lab, X, y, P, between):
    """A synthetic row belongs to a positive row x of this call and an earlier positive row p: it lies on their line."""
    rec.check(list(lab) == [1], 'synthetic-label:' + name, lambda: 'a synthetic row got the label %s' % lab)
    best = None
    for j in np.flatnonzero(y == 1):
        x = X[j]
        at = int(np.flatnonzero((P == x).all(axis=1))[0])
        D = P[:at] - x                   # towards the earlier positives
        if not len(D):
            continue
        v = s - x
        t = (D @ v) / (D * D).sum(axis=1)
        off = np.sqrt(((v - t[:, None] * D) ** 2).sum(axis=1)) / (1e-12 + np.sqrt((D * D).sum(axis=1)))
        hit = (off < 1e-9) & (np.abs(t) <= 1 + 1e-9)
        if hit.any():
            h = int(np.flatnonzero(hit)[0])
            near = np.argsort((D * D).sum(axis=1), kind='stable')[:5]
            best = (j, t[h] >= 0 and h in near)
            if best[1]:
                break
    rec.check(best is not None, 'synthetic:' + name,
              lambda: 'synthetic row %s does not lie on a line through the sample and an earlier positive' % s.tolist())
    if best is None:
        return None
    if between and not best[1]:
        rec.fail('synthetic-not-between:' + name, 'synthetic row %s does not lie between the sample and one of its '
                 'nearest positives' % s.tolist())
        return 'stop'
    return best[0]
