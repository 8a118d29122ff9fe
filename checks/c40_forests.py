"""Adaptive forests and random patches: resampling, subspaces, background learners, weighted votes."""
import warnings

import numpy as np

from vp.forestload import Machine, PatchSpy, detector_class, logged
from vp.spy import Log

LEVEL = 'exploration'
RULE = ('a case feeds one forest 150-400 single rows with detectors that raise warnings and drifts at scripted moments; the '
        'base learners (scripted spies, or the real trees with their calls logged) show what every member and background '
        'learner was trained on and when members were replaced; answers to probe rows must be the weighted votes; '
        'non-trivial when a member was replaced; distinct by forest and history')
REQUIRED = {'rows': 10000, 'trainings': 25000, 'warnings': 300, 'drifts': 300, 'promotions': 150, 'votes': 3000,
            'background_trainings': 3000, 'detector_inputs': 5000, 'rate_tests': 400, 'subspaces': 100, 'featured': 100,
            'worse_than_chance': 100}
ASSUMPTIONS = ['one row per call (batches: C33)', 'numbers of trainings are judged statistically, at 7 or more sigma']
FAMS = ('patches', 'subspaces', 'resampling', 'forest', 'regression', 'features')


def cases(tier, seed):
    n = 56 if tier == 'quick' else 200
    return [{'fam': f, 'i': i, 'seed': (seed * 3001 + i * 977 + j) % (2 ** 31)}
            for i in range(n) for j, f in enumerate(FAMS)]


def run(case, rec):
    fam, r = case['fam'], np.random.RandomState(case['seed'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if fam == 'features':
            features(case, rec, r)
        elif fam in ('forest', 'regression'):
            forest(case, rec, r, fam)
        else:
            patches(case, rec, r, fam)


def detectors(log, r):
    import itertools
    log.dets = itertools.count()
    D = detector_class()
    return (D(log, 'drift', int(r.choice([25, 60, 150]))), D(log, 'warn', int(r.choice([15, 40, 100]))))


def size_of(mode, k, M):
    """Documented sizes of the subspaces."""
    if mode == 'm':
        n = k
    elif mode == 'sqrtM1':
        n = int(np.round(np.sqrt(M)) + 1)
    elif mode == 'MsqrtM1':
        n = M - int(np.round(np.sqrt(M)) + 1)
    else:
        p = (100.0 + k) / 100.0 if k < 0 else k / 100.0
        n = int(np.round(M * p))
        if n < 2:
            n += 1
    return n + M if n < 0 else n


def patches(case, rec, r, fam):
    from skmultiflow.meta import StreamingRandomPatchesClassifier as C
    name = C.__name__
    k, M, n = int(r.choice([2, 3])), int(r.choice([3, 5, 8, 24])), int(r.choice([1, 3, 6]))
    mode = str(r.choice(['m', 'sqrtM1', 'MsqrtM1', 'percentage']))
    size = {'m': int(r.choice([2, 3, -1, 5])), 'percentage': int(r.choice([60, 30, 80, -25, 100]))}.get(mode, 60)
    lam = float(r.choice([1, 6, 2.5]))
    log = Log(lambda u, s: 0.35 + 0.06 * (u % 10), None)
    # the truth is read from the whole row, members see part of it: keyed by the first value they share
    table = {}
    log.truth = lambda x: table.get(float(x[0]), 0)
    dd, wd = detectors(log, r)
    method = {'patches': 'randompatches', 'subspaces': 'randomsubspaces', 'resampling': 'resampling'}[fam]
    off, nobg, flat = r.rand() < 0.15, r.rand() < 0.25, r.rand() < 0.25
    widths = None if r.rand() < 0.7 else [int(v) for v in r.randint(1, k + 1, 7)]
    m = C(base_estimator=PatchSpy(log, k, widths), n_estimators=n, subspace_mode=mode, subspace_size=size, training_method=method,
          lam=lam, drift_detection_method=dd, warning_detection_method=wd, disable_weighted_vote=flat,
          disable_drift_detection=off, disable_background_learner=nobg, random_state=int(r.randint(1000)))
    sub = size_of(mode, size, M)
    whole = method == 'resampling' or sub == 0 or sub >= M
    if method != 'resampling' and sub == 1 and M > 2:
        sub = 2
    always = method == 'randomsubspaces' and not whole
    log.take()
    x0 = r.normal(size=(1, M))
    m.predict(x0)
    made = [e[1] for e in log.take() if e[0] == 'new']
    rec.check(len(made) == n, 'members:' + name, lambda: '%d base learners for %d members' % (len(made), n))
    W = Machine(rec, name, log, made, lam, not nobg, not off, None if whole else sub, M, 1 if always else None)
    weighted = r.rand() < 0.3
    hist = []
    for j in range(int(r.choice([150, 300, 400]))):
        X = r.normal(size=(1, M))
        y = int(r.randint(k))
        for v in X[0]:
            table[float(v)] = y
        w = float(r.choice([0.5, 1, 2, 1e-4, 1e5])) if weighted else 1.0
        pre = []
        for mm in W.mem:
            pre.append((log.all[mm.uid], log.all[mm.uid].state(), mm.feat))
        kw = {'sample_weight': np.array([w])} if weighted else {}
        log.take()
        m.partial_fit(X, np.array([y]), classes=list(range(k)), **kw)
        ev = log.take()
        uids = [mm.uid for mm in W.mem]
        done = W.row(ev, X[0], y, pre, w, None)
        asks = {}
        for e in ev:                      # a member that was never trained shows its features when asked
            if e[0] in ('proba', 'predict') and e[1] in uids and e[1] not in asks:
                asks[e[1]] = e[2][0]
        for i, mm in enumerate(W.mem):
            spy, state, feat = pre[i]
            if feat is None and not whole:
                if mm in done and not done[mm].get('fired_drift'):
                    feat = mm.feat
                elif spy.uid in asks:
                    feat = W._feat(asks[spy.uid], X[0])
                    if not done.get(mm, {}).get('fired_drift'):
                        mm.feat = feat
                else:
                    return
                rec.count('subspaces')
            row = X[0] if whole else X[0][list(feat)]
            hit = int(np.argmax(spy.scores_at(state, row))) == y
            if mm in done:
                d = done[mm]
                after = spy.label_at((state[0], state[1] + 1), row)
                for v in d.get('values', []):
                    rec.check(v == float(after != y), 'detector:' + name, lambda: (
                        'the detectors of a member that answers %s to class %s saw %s' % (after, y, v)))
                    rec.count('detector_inputs')
                if d.get('fired_drift'):
                    hist.append((j, i))
                    continue              # its statistics start again
            mm.good += w * hit
            mm.total += w
        W.resolve(ev, done)
        if r.rand() < 0.2 or j % 100 == 99:
            if not whole and any(mm.feat is None for mm in W.mem):
                learn_features(W, m, log, r, M)
            Q = r.normal(size=(3, M))
            log.take()
            q, p = np.asarray(m.predict_proba(Q), dtype=float), np.asarray(m.predict(Q))
            for i, x in enumerate(Q):
                want = np.zeros(k)
                for mm in W.mem:
                    s = log.all[mm.uid].scores(x if whole else x[list(mm.feat)])
                    acc = mm.good / mm.total if mm.total else 0.0
                    want[:len(s)] += s * (acc if not flat and acc > 0 else 1.0)
                judge(rec, name, want, q[i], p[i])
    W.rates.judge()
    if hist:
        rec.key(name, hist, fam)


def learn_features(W, m, log, r, M):
    """Features of members that were replaced and not trained since: seen when they are asked."""
    x = r.normal(size=(1, M))
    log.take()
    m.predict_proba(x)
    for e in log.take():
        if e[0] == 'proba':
            for mm in W.mem:
                if mm.uid == e[1] and mm.feat is None:
                    mm.feat = W._feat(e[2][0], x[0])


def judge(rec, name, want, got, label):
    g = np.zeros(len(want))
    g[:len(got)] = got[:len(want)]
    rec.check(len(got) <= len(want) and np.allclose(g, want, rtol=1e-6, atol=1e-8), 'votes:' + name,
              lambda: 'scores %s, the weighted votes of the members are %s' % (np.asarray(got).tolist(), want.tolist()))
    rec.check(want[int(label)] >= want.max() - 1e-7, 'argmax:' + name, lambda: 'label %s, votes %s' % (label, want.tolist()))
    rec.count('votes')


def forest(case, rec, r, fam):
    from skmultiflow.meta import AdaptiveRandomForestClassifier, AdaptiveRandomForestRegressor
    from skmultiflow.trees.arf_hoeffding_tree import ARFHoeffdingTreeClassifier
    from skmultiflow.trees.arf_hoeffding_tree_regressor import ARFHoeffdingTreeRegressor
    reg = fam == 'regression'
    C = AdaptiveRandomForestRegressor if reg else AdaptiveRandomForestClassifier
    T = ARFHoeffdingTreeRegressor if reg else ARFHoeffdingTreeClassifier
    name = C.__name__
    log = Log()
    with logged(T, log):
        forest_watched(case, rec, r, reg, C, name, log)


def forest_watched(case, rec, r, reg, C, name, log):
    k, M, n = int(r.choice([2, 3])), int(r.choice([2, 4])), int(r.choice([1, 3, 5]))
    lam = float(r.choice([1, 6, 2.5]))
    dd, wd = detectors(log, r)
    off, nobg = r.rand() < 0.1, r.rand() < 0.25
    kw = dict(n_estimators=n, lambda_value=lam, drift_detection_method=None if off else dd,
              warning_detection_method=None if nobg else wd, grace_period=30, random_state=int(r.randint(1000)))
    flat, metric, agg, strat, crit = False, 'acc', None, None, None
    if reg:
        agg = str(r.choice(['mean', 'mean', 'median']))
        strat = [None, 'mse', 'mae'][int(r.randint(3))]
        crit = str(r.choice(['mse', 'mae', 'predictions']))
        kw.update(aggregation_method=agg, weighted_vote_strategy=strat, drift_detection_criteria=crit,
                  leaf_prediction=str(r.choice(['mean', 'perceptron'])))
    else:
        flat = r.rand() < 0.25
        metric = str(r.choice(['acc', 'kappa']))
        kw.update(disable_weighted_vote=flat, performance_metric=metric, leaf_prediction=str(r.choice(['mc', 'nb', 'nba'])))
    m = C(**kw)
    log.take()
    m.predict(np.zeros((1, M)))
    made = [e[1] for e in log.take() if e[0] == 'new']
    rec.check(len(made) == n, 'members:' + name, lambda: '%d trees for %d members' % (len(made), n))
    W = Machine(rec, name, log, made, lam, not nobg, not off)
    weighted = r.rand() < 0.3 and not reg
    shift = r.normal(size=M)
    hist = []
    for j in range(int(r.choice([150, 300]))):
        X = r.normal(size=(1, M))
        z = float(X[0] @ shift)
        y = z + 0.1 * r.normal() if reg else int(min(k - 1, abs(int(z * 2)) % k))
        w = float(r.choice([0.5, 1, 2, 0, 1e-4, 1e5])) if weighted else 1.0
        trees_now = [log.all[mm.uid] for mm in W.mem]
        backs = [None if mm.bg is None else log.all[mm.bg] for mm in W.mem]
        pre = [float(np.ravel(t.predict(X))[0]) for t in trees_now]
        pre_bg = [None if t is None else float(np.ravel(t.predict(X))[0]) for t in backs]
        args = {'sample_weight': np.array([w])} if weighted else {}
        if not reg:
            args['classes'] = list(range(k))
        log.take()
        m.partial_fit(X, np.array([y]), **args)
        ev = log.take()
        if w == 0:
            rec.check(not ev, 'weight:' + name, 'a sample of weight zero reached the members')
            continue
        bg_stats = [mm.bg_stats for mm in W.mem]
        main_stats = [mm.stats for mm in W.mem]
        norms = [mm.norm for mm in W.mem]
        done = W.row(ev, X[0], y, pre, w, None)
        resets = {e[1] for e in ev if e[0] == 'reset'}
        for i, mm in enumerate(W.mem):
            d = done.get(mm)
            if d is None:
                if not reg:
                    mm.saw(pre[i], y, w)
                continue
            if reg:
                e = y - pre[i]
                add(main_stats[i], e)
                if pre_bg[i] is not None:
                    add(bg_stats[i], y - pre_bg[i])
                v = e * e if crit == 'mse' else abs(e) if crit == 'mae' else pre[i]
                norms[i].append(v)
                want = normalised(norms[i])
            else:
                t = trees_now[i]
                want = None if mm.old in resets else float(int(t.predict(X)[0] != y))
            if want is not None:
                for v in d.get('values', []):
                    rec.check(np.isclose(v, want, rtol=1e-6, atol=1e-9), 'detector:' + name,
                              lambda: 'the detectors saw %r instead of %r (row %d)' % (v, want, j))
                    rec.count('detector_inputs')
            if d.get('fired_drift'):
                hist.append((j, i))
                continue
            if not reg:
                mm.saw(pre[i], y, w)
        W.resolve(ev, done)
        if r.rand() < 0.2 or j % 100 == 99:
            Q = r.normal(size=(3, M))
            log.take()
            if reg:
                regression_votes(rec, name, m, W, log, Q, agg, strat)
                continue
            q, p = np.asarray(m.predict_proba(Q), dtype=float), np.asarray(m.predict(Q))
            for i, x in enumerate(Q):
                want = np.zeros(k)
                for mm in W.mem:
                    s = np.ravel(log.all[mm.uid].predict_proba(x.reshape(1, -1)))
                    if s.sum() <= 0:
                        continue
                    s = s / s.sum()
                    acc = mm.accuracy() if metric == 'acc' else mm.kappa()
                    if abs(acc) < 1e-9 and metric == 'kappa' and not flat:
                        want[:] = 0           # nought or nearly so
                        break
                    if acc < 0 and not flat:
                        rec.count('worse_than_chance')
                    want[:len(s)] += s * (acc if not flat and acc != 0 else 1.0)
                if want.sum() <= 1e-6:
                    continue
                want = want / want.sum()
                judge(rec, name, want, q[i], p[i])
    W.rates.judge()
    if hist:
        rec.key(name, hist)


def quota(spec, M):
    """Documented number of features a node may look at."""
    if spec in ('auto', 'sqrt'):
        n = round(M ** 0.5)
    elif spec == 'log2':
        n = round(float(np.log2(M)))
    elif spec is None:
        n = M
    elif isinstance(spec, float):
        n = int(spec * M)
    else:
        n = spec + M if spec < 0 else spec
    return min(M, max(1, int(n)))


def features(case, rec, r):
    """max_features: how many features the nodes of every tree look at, and that they differ."""
    from skmultiflow.meta import AdaptiveRandomForestClassifier, AdaptiveRandomForestRegressor
    from skmultiflow.trees.arf_hoeffding_tree import ARFHoeffdingTreeClassifier
    from skmultiflow.trees.arf_hoeffding_tree_regressor import ARFHoeffdingTreeRegressor
    reg = bool(r.randint(2))
    C = AdaptiveRandomForestRegressor if reg else AdaptiveRandomForestClassifier
    T = ARFHoeffdingTreeRegressor if reg else ARFHoeffdingTreeClassifier
    name = C.__name__
    M = int(r.randint(3, 13))
    spec = ['auto', 'sqrt', 'log2', None, float(r.choice([0.3, 0.5, 0.9, 1.0, 0.01])), int(r.randint(1, M + 1)),
            -int(r.randint(1, M + 3)), M + 3][int(r.randint(8))]
    m = quota(spec, M)
    n = 12
    np.random.seed(int(r.randint(10 ** 6)))
    log = Log()
    with logged(T, log):
        kw = dict(n_estimators=n, max_features=spec, drift_detection_method=None, warning_detection_method=None,
                  lambda_value=6, random_state=None if r.randint(2) else int(r.randint(1000)))
        seeded = kw['random_state'] is not None
        if reg:
            f = C(grace_period=150, leaf_prediction='mean', tie_threshold=1.0, **kw)
        else:
            f = C(grace_period=10 ** 6, leaf_prediction='nb', **kw)
        best = int(r.randint(M))
        for t in range(70):
            X = r.normal(size=(1, M))
            y = int(r.randint(2))
            X[0, best] = 10 * y + 0.01 * r.normal() if reg else X[0, best]
            f.partial_fit(X, np.array([10.0 * y if reg else y]), **({} if reg else {'classes': [0, 1]}))
        trees = list(log.all.values())
        rec.check(len(trees) == n and all(u.max_features == m for u in trees), 'features:' + name, lambda: (
            'max_features=%r of %d: trees made with %s' % (spec, M, [u.max_features for u in trees])))
        seen = []
        if reg:
            # one feature tells everything: a tree splits on it if and only if it is among those its root looks at
            seen = [bool(np.ptp([float(u.predict(x.reshape(1, -1))[0]) for x in probes(r, M, best)]) > 5) for u in trees]
            if m == M:
                rec.check(all(seen), 'features:' + name, 'a tree that may look at every feature missed the only telling one')
            else:
                q = m / M
                z = (sum(seen) - n * q) / (n * q * (1 - q)) ** 0.5 if not seeded else 0
                rec.check(abs(z) < 7, 'features:' + name, lambda: '%d of %d trees saw a feature each sees with chance %.2f' % (
                    sum(seen), n, q))
        else:
            # the posterior moves with those features only that the leaf looks at
            for u in trees:
                x = r.normal(size=M)
                p0 = u.predict_proba(x.reshape(1, -1))[0]
                mv = []
                for a in range(M):
                    z = x.copy()
                    z[a] += 1.7
                    mv.append(bool(np.abs(u.predict_proba(z.reshape(1, -1))[0] - p0).max() > 1e-12))
                rec.check(sum(mv) == m, 'features:' + name, lambda: (
                    'max_features=%r of %d features: a leaf uses %d instead of %d' % (spec, M, sum(mv), m)))
                seen.append(tuple(mv))
            if m < M and not seeded:
                rec.check(len(set(seen)) > 1, 'features:' + name, 'all trees look at the same features')
        rec.count('featured', n)
    rec.key(name, M, spec, seen)


def probes(r, M, best):
    base = r.normal(size=M)
    out = []
    for v in (0.0, 10.0):
        x = base.copy()
        x[best] = v
        out.append(x)
    return out


def add(st, e):
    st[0] += 1
    st[1] += e * e
    st[2] += abs(e)


def normalised(vals):
    if len(vals) == 1:
        return 0.0
    sd = np.std(vals, ddof=1)
    z = (vals[-1] - np.mean(vals)) / sd if sd > 1e-12 * max(1.0, np.abs(vals).max()) else 0.0
    if sd <= 1e-12 * max(1.0, np.abs(vals).max()):
        return None
    return (z + 3) / 6


def regression_votes(rec, name, m, W, log, Q, agg, strat):
    p = np.asarray(m.predict(Q), dtype=float)
    P = np.array([np.ravel(log.all[mm.uid].predict(Q)) for mm in W.mem])
    if agg == 'median':
        want = np.median(P, axis=0)
    else:
        w = np.ones(len(W.mem))
        if strat is not None:
            e = np.array([0.0 if mm.stats[0] == 0 else mm.stats[1 if strat == 'mse' else 2] / mm.stats[0]
                          for mm in W.mem])
            if e.sum() != 0 and len(e) > 1:
                w = e.sum() - e
        want = (P * w[:, None]).sum(axis=0) / w.sum()
    rec.check(np.allclose(p, want, rtol=1e-6, atol=1e-9), 'votes:' + name,
              lambda: 'predictions %s, the members say %s' % (p.tolist(), want.tolist()))
    rec.count('votes', len(Q))
