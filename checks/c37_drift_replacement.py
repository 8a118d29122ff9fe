"""Ensembles with change detection replace their worst member when an error rises, and only then."""
import numpy as np

from vp.spyload import Lockstep, Watch

LEVEL = 'exploration'
RULE = ('a case feeds one ensemble, whose members are scripted spies with chosen accuracies that fall or rise at chosen '
        'moments, single rows, and compares after every row which member was replaced with an ADWIN per member fed with '
        'the same errors; non-trivial when a change was detected; distinct by ensemble and history of replacements')
REQUIRED = {'rows': 15000, 'replacements': 80, 'quiet_rows': 15000, 'improvements': 30, 'disabled_rows': 2000}
ASSUMPTIONS = ['one row per call', 'the decisions of ADWIN itself are judged by C06 and C07']
FAMS = {'oza_adwin': 'OzaBaggingADWINClassifier', 'leveraging': 'LeveragingBaggingClassifier',
        'codes': 'LeveragingBaggingClassifier', 'boosting': 'OnlineBoostingClassifier', 'adac2': 'OnlineAdaC2Classifier',
        'csb2': 'OnlineCSB2Classifier', 'rus': 'OnlineRUSBoostClassifier', 'smote': 'OnlineSMOTEBaggingClassifier',
        'under_over': 'OnlineUnderOverBaggingClassifier'}
INVERTED = ('csb2', 'rus')       # known findings: they follow the accuracy instead of the error


def cases(tier, seed):
    n = 24 if tier == 'quick' else 120
    return [{'fam': f, 'i': i, 'seed': (seed * 9001 + i * 419 + 7 * j) % (2 ** 31)}
            for i in range(n) for j, f in enumerate(sorted(FAMS))] + \
        [{'fam': f, 'i': -1, 'seed': 3, 'proper': True} for f in INVERTED]


def run(case, rec):
    from skmultiflow import meta
    fam, r = case['fam'], np.random.RandomState(case['seed'])
    name = FAMS[fam]
    k = 2 if fam in ('adac2', 'csb2', 'codes') else int(r.choice([2, 3]))
    n = int(r.choice([1, 3, 5]))
    delta = float(r.choice([0.002, 0.002, 0.1])) if fam in ('leveraging', 'codes') else None
    off = r.rand() < 0.15 and fam not in ('oza_adwin', 'leveraging', 'codes')
    proper = case.get('proper', False)
    if proper:
        off = False
    kw = dict(n_estimators=n, random_state=int(r.randint(1000)))
    if fam in ('leveraging', 'codes'):
        kw.update(delta=delta, w=float(r.choice([1, 6])), enable_code_matrix=fam == 'codes')
    elif fam != 'oza_adwin':
        kw['drift_detection'] = not off
    if fam in ('adac2', 'csb2'):
        kw.update(cost_positive=1.0, cost_negative=0.8)
    phases = [r.choice([0.1, 0.4, 0.75, 0.97], size=8) for _ in range(4)]
    t = {'phase': 0}

    def acc(uid, resets):
        return phases[(t['phase'] + 3 * (resets - base)) % 4][uid % 8]
    codes = {}
    base = 1                     # constructors reset their prototype once
    W = Watch(rec, name, lambda p: getattr(meta, name)(base_estimator=p, **kw), k, acc,
              lambda x: int(abs(x[0]) * 1e6) % k)
    ad = Lockstep(delta, invert=fam in INVERTED and not proper)
    rows = 480
    hist = []
    for j in range(rows):
        t['phase'] = j // 120
        X = r.normal(size=(1, 3))
        y = np.array([W.log.truth(X[0])])
        before, counts, labels, other, reset, seen, old = W.train(X, y)
        m = len(old)
        extra = np.zeros(m, dtype=int)
        for i, row, _ in other:
            extra[i] += len(row)
        errs = []
        for i in range(m):
            lab = W.log.all[old[i]].label_at((before[i][0], before[i][1] + counts[0, i] + extra[i]), X[0])
            want = int(y[0])
            if fam == 'codes':
                for (_, ii), ls in labels.items():
                    if ii == i:
                        codes[(i, want)] = next(iter(ls))
                        codes[(i, 1 - want)] = 1 - next(iter(ls))
                if (i, want) not in codes:
                    return       # a member nobody has trained yet: its code is unknown
                want = codes[(i, want)]
            errs.append(lab != want)
        if off:
            rec.check(not reset, 'disabled:' + name, 'a member was replaced although drift detection is off')
            rec.count('disabled_rows')
            continue
        e0 = [ad.estimate(i) for i in range(m)]
        may = ad.step(errs)
        if not may and any(ad.estimate(i) < e0[i] - 0.05 for i in range(m)):
            rec.count('improvements')
        if proper and not ((not reset and not may) or (len(reset) == 1 and reset[0] in may)):
            rec.fail('follows-accuracy:' + name, 'row %d: replaced %s, by the errors it should be one of %s' %
                     (j, reset, sorted(may)))
            return
        if not may:
            rec.check(not reset, 'needless:' + name,
                      lambda: 'row %d: members %s were replaced although no error rose (errors %s)' %
                      (j, reset, [round(ad.estimate(i), 3) for i in range(m)]))
            rec.count('quiet_rows')
        else:
            rec.check(len(reset) == 1 and reset[0] in may, 'replaced:' + name,
                      lambda: 'row %d: members %s were replaced, the worst is %s (errors %s)' %
                      (j, reset, sorted(may), [round(ad.estimate(i), 3) for i in range(m)]))
            rec.count('replacements')
            for i in reset:
                ad.replaced(i)
                hist.append((j, i))
                s = W.spy(i)
                rec.check(s.n == 0, 'fresh:' + name, lambda: 'the replaced member still knows %d rows' % s.n)
    if hist:
        rec.key(name, hist, kw.get('random_state'))
