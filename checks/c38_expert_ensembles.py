"""Weighted-majority ensembles: experts lose weight for mistakes, weak ones go, new ones come."""
import numpy as np

from vp.spy import Log, Spy

LEVEL = 'exploration'
RULE = ('a case feeds an expert ensemble, whose experts are scripted spies of changing accuracy, 100-500 rows and follows '
        'in lock step which experts exist, what each was trained on and what its weight is; answers to 12 probe rows per '
        'stop must be the weighted majority; non-trivial when experts were added or dropped; distinct by history')
REQUIRED = {'rows': 10000, 'added': 400, 'pruned': 150, 'faded': 30, 'answers': 15000, 'disagreements': 6000,
            'weighted': 1000}
ASSUMPTIONS = ['ties between weights or votes (within 1e-9) may be broken either way']


def cases(tier, seed):
    n = 60 if tier == 'quick' else 240
    return [{'fam': f, 'i': i, 'seed': (seed * 5003 + i * 613 + j) % (2 ** 31)}
            for i in range(n) for j, f in enumerate(('dwm', 'weakest', 'oldest'))]


class Expert:
    def __init__(self, uid, born):
        self.uid, self.w, self.born = uid, 1.0, born


def vote(experts, label, k):
    v = np.zeros(k)
    for e in experts:
        v[label(e)] += e.w
    return v


def run(case, rec):
    from skmultiflow.meta import AdditiveExpertEnsembleClassifier, DynamicWeightedMajorityClassifier
    fam, r = case['fam'], np.random.RandomState(case['seed'])
    k = int(r.choice([2, 3, 4]))
    n = int(r.choice([1, 2, 3, 5, 8]))
    beta = float(r.choice([0.3, 0.5, 0.8, 0.95]))
    theta = float(r.choice([0.01, 0.1, 0.4]))
    exact = beta == 0.5 and r.rand() < .6     # all weights are powers of two: the edge is exact
    if exact:
        theta = float(r.choice([0.5, 0.25, 0.125]))
    gamma = float(r.choice([0.05, 0.1, 0.4, 0.9]))
    period = int(r.choice([1, 2, 5, 20]))
    t = {'now': 0}
    accs = r.uniform(0.2, 1.0, size=(7, 11))

    def acc(uid, resets):
        return accs[(t['now'] // 40 + uid) % 7, uid % 11]
    log = Log(acc, lambda x: int(abs(x[0]) * 1e6) % k)
    proto = Spy(log, k)
    if fam == 'dwm':
        m = DynamicWeightedMajorityClassifier(n_estimators=n, base_estimator=proto, period=period, beta=beta, theta=theta)
    else:
        m = AdditiveExpertEnsembleClassifier(n_estimators=n, base_estimator=proto, beta=beta, gamma=gamma, pruning=fam)
    name = type(m).__name__
    made = [e[2] for e in log.take() if e[0] == 'copy']
    experts = [Expert(made[-1], 0)]
    first, weighted, epoch = True, r.rand() < 0.3, 0
    rows = int(r.choice([100, 250, 500]))
    hist = []
    while epoch < rows:
        b = int(r.choice([1, 1, 3, 10]))
        X = r.normal(size=(b, 3))
        y = np.array([log.truth(x) for x in X])
        w = r.uniform(0.5, 2, size=b) if weighted else None
        kw = {'classes': list(range(k))} if first or r.rand() < 0.2 else {}
        if weighted:
            kw['sample_weight'] = w
        first = False
        n0 = {u: s.n for u, s in log.all.items()}
        m.partial_fit(X, y, **kw)
        ev = log.take()
        new = [e[2] for e in ev if e[0] == 'copy']
        trained = {}
        for e in ev:
            if e[0] in ('train', 'fit'):
                rec.check(len(e[2]) == 1, 'row:' + name, 'an expert was trained on several rows at once')
                trained.setdefault(e[1], []).append(e)
        ptr = {u: 0 for u in trained}
        states = {u: (0, n0.get(u, 0)) for u in log.all}
        for j in range(b):
            epoch += 1

            def lab(e):
                return log.all[e.uid].label_at(states[e.uid], X[j])
            upd = fam != 'dwm' or epoch % period == 0
            if fam == 'dwm':
                labs = [lab(e) for e in experts]
                for e, l in zip(experts, labs):
                    if upd and l != y[j]:
                        e.w *= beta
                v = np.zeros(k)
                for e, l in zip(experts, labs):
                    v[l] += e.w
            else:
                v = vote(experts, lab, k)
                for e in experts:
                    if lab(e) != y[j]:
                        e.w *= beta
            top = v.max()
            best = np.flatnonzero(v >= top - 1e-9 * top)
            unsure = y[j] in best and len(best) > 1
            wrong = y[j] not in best
            used = {u for u in trained if len(trained[u]) > ptr[u]
                    and trained[u][ptr[u]][2][0].tobytes() == X[j].tobytes()}
            if unsure:           # a tie: what happened tells which way it was broken
                wrong = bool(new) and new[0] in used and ptr[new[0]] == 0
            if upd and fam == 'dwm':
                top = max(e.w for e in experts)
                weakest = min(e.w for e in experts)
                can_go = {e.uid for e in experts if e.w <= weakest * (1 + 1e-9)}
                for e in experts:
                    e.w /= top
                faded = [e for e in experts if e.w < theta * (1 - 1e-12)]
                edge = [e for e in experts if abs(e.w - theta) <= 1e-12 * theta]
                for e in edge:
                    if exact:
                        rec.count('at_threshold')
                    elif e.uid not in used and not (wrong and e.uid in can_go):
                        faded.append(e)
                if faded:
                    rec.count('faded', len(faded))
                    hist.append((epoch, 'faded', len(faded)))
                experts = [e for e in experts if e not in faded]
            if upd and wrong:
                full = len(experts) >= n
                if fam == 'dwm':
                    add = Expert(None, epoch)
                else:
                    total = sum(e.w for e in experts)
                    add = Expert(None, epoch)
                    add.w = gamma * total
                    weakest = min([e.w for e in experts] + [add.w])
                    can_go = {e.uid for e in experts + [add] if e.w <= weakest * (1 + 1e-9)}
                if fam == 'oldest':
                    can_go = {min(experts, key=lambda e: e.born).uid}
                if not new:
                    rec.fail('added:' + name, 'sample %d was misclassified, but no expert was added' % epoch)
                    return
                add.uid = new.pop(0)
                if None in can_go:
                    can_go = (can_go - {None}) | {add.uid}
                experts.append(add)
                rec.count('added')
                hist.append((epoch, 'added'))
                if full:
                    gone = [e for e in experts if e.uid not in used]
                    rec.check(len(gone) == 1 and gone[0].uid in can_go, 'pruned:' + name, lambda: (
                        'sample %d: experts %s were dropped, it should be one of %s (weights %s)' %
                        (epoch, [e.uid for e in gone], sorted(can_go), {e.uid: round(e.w, 4) for e in experts})))
                    experts = [e for e in experts if e not in gone]
                    rec.count('pruned')
                    hist.append((epoch, 'pruned', [e.born for e in gone]))
            if fam != 'dwm':
                total = sum(e.w for e in experts)
                for e in experts:
                    e.w /= total
            want = {e.uid for e in experts}
            rec.check(used == want, 'experts:' + name, lambda: 'sample %d: experts %s were trained, the ensemble is %s' %
                      (epoch, sorted(used), sorted(want)))
            for u in used & want:
                e = trained[u][ptr[u]]
                rec.check(list(e[3]) == [y[j]], 'label:' + name, lambda: 'learned %s as %s' % (y[j], e[3]))
                ok = e[5] is None if w is None else e[5] is not None and np.ravel(e[5]).tolist() == [w[j]]
                rec.check(ok, 'weight:' + name, lambda: 'weight %s of sample %d reached an expert as %s' %
                          (None if w is None else w[j], epoch, e[5]))
                if w is not None:
                    rec.count('weighted')
                ptr[u] += 1
                states[u] = (states[u][0], states[u][1] + 1)
        rec.check(not new, 'added:' + name, 'an expert was added although no sample was misclassified')
        rec.check(all(ptr[u] == len(trained[u]) for u in trained), 'row:' + name, 'an expert was trained on other rows')
        rec.check(len(experts) <= n, 'size:' + name, lambda: '%d experts' % len(experts))
        rec.count('rows', b)
        Q = r.normal(size=(12, 3))
        p = np.asarray(m.predict(Q))
        if log.events:
            log.take()
        for i, x in enumerate(Q):
            v = vote(experts, lambda e: log.all[e.uid].label(x), k)
            if (v > 0).sum() > 1:
                rec.count('disagreements')
            rec.check(v[int(p[i])] >= v.max() * (1 - 1e-9), 'vote:' + name,
                      lambda: 'after %d samples: label %s, the votes are %s' % (epoch, p[i], v.tolist()))
            rec.count('answers')
        t['now'] = epoch
    if hist:
        rec.key(name, hist)
