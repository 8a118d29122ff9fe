"""C24: a Hoeffding tree is the tree its split rule prescribes, and answers from its leaves."""
import numpy as np

from vp import driftload, refht

LEVEL = 'exploration'
RULE = ('an evaluation is one answer, leaf rule set or size report compared with a reference tree '
        'rebuilt from raw samples; distinct = digests of (samples seen, query)')
REQUIRED = {'answers': 15000, 'splits': 80, 'nominal_splits': 15, 'attempts': 800, 'new_branches': 3,
            'rules': 2000, 'disabled': 5, 'judged_to_end': 30}
ASSUMPTIONS = ['decisions closer than 1e-9 to a tie end the comparison for that stream; memory '
               'limits are not reached (see C25)']


def cases(tier, seed):
    k = 160 if tier == 'quick' else 1600
    return ([{'fam': 'ht', 'i': i, 'seed': seed, 'cost': 3} for i in range(k)] +
            [{'fam': 'lc', 'i': i, 'seed': seed, 'cost': 3} for i in range(k // 4)])


def make_stream(r, n, d, nominal, n_classes):
    """Learnable streams with noise, concept changes and rare nominal values."""
    X = r.normal(size=(n, d)) * r.choice([.5, 1, 20], size=d) + r.choice([0, 3, -50], size=d)
    if r.rand() < .2:
        X = np.round(X, 1)
    for a in nominal:
        k = r.randint(2, 6)
        X[:, a] = r.choice(k, size=n, p=r.dirichlet(np.ones(k) * .7 + .05))
    style = r.randint(4)
    y = np.zeros(n, dtype=int)
    for c in range(1, n_classes):
        a = r.randint(d)
        if a in nominal:
            hit = X[:, a] == r.randint(3)
        else:
            hit = X[:, a] > np.quantile(X[:, a], r.uniform(.3, .8))
        if style == 1:
            b = r.randint(d)
            hit ^= X[:, b] > np.median(X[:, b])
        y[hit] = c
    if style == 2:
        y = (y + (np.arange(n) > n // 2)) % n_classes
    flip = r.rand(n) < r.choice([0, .05, .2])
    y[flip] = r.randint(n_classes, size=flip.sum())
    rescale(r, X, nominal)
    return X, y


def rescale(r, X, nominal):
    """Nominal values need not be 0, 1, 2, ...; numeric ones may be of any magnitude."""
    for a in range(X.shape[1]):
        if a in nominal:
            X[:, a] = X[:, a] * r.choice([1, 1, .25, -2]) + r.choice([0, 0, -1, .5])
        elif r.rand() < .1:
            X[:, a] *= r.choice([1e-6, 1e8])


def params(r, d, nominal):
    p = dict(grace_period=float(r.choice([10.4, 25.4, 60.4, 150.4, 50])),
             split_criterion=str(r.choice(['info_gain', 'gini', 'hellinger'], p=[.5, .3, .2])),
             split_confidence=float(r.choice([1e-7, 1e-3, .1, .3])),
             tie_threshold=float(r.choice([0.0, .05, .2, .4])),
             binary_split=bool(r.rand() < .4), no_preprune=bool(r.rand() < .4),
             leaf_prediction=str(r.choice(['mc', 'nb', 'nba'])),
             nb_threshold=int(r.choice([0, 0, 30])),
             nominal_attributes=nominal if nominal or r.rand() < .5 else None,
             remove_poor_atts=bool(r.rand() < .3))
    return p


class Combined:
    """A label-combination tree seen as a tree over the codes of the label sets."""

    def __init__(self, n_labels, p):
        from skmultiflow.trees import LabelCombinationHoeffdingTreeClassifier
        self.m = LabelCombinationHoeffdingTreeClassifier(n_labels=n_labels, **p)
        self.k = n_labels

    def bits(self, y):
        return np.array([[int(c) for c in format(int(v), '0%db' % self.k)] for v in y],
                        dtype=int).reshape(len(y), self.k)

    def partial_fit(self, X, y, classes=None, sample_weight=None):
        self.m.partial_fit(X, self.bits(y), sample_weight=sample_weight)

    def predict(self, X):
        L = np.asarray(self.m.predict(X))
        if L.shape != (len(X), self.k) or not np.isin(L, (0, 1)).all():
            raise ValueError('label sets %r' % (L,))
        return np.array([int(''.join(map(str, v)), 2) for v in L.astype(int).tolist()])

    def __getattr__(self, a):
        return getattr(self.m, a)


def run(case, rec):
    from skmultiflow.trees import HoeffdingTreeClassifier
    r = driftload.rng(case)
    d = r.randint(1, 6)
    nominal = sorted(int(a) for a in np.where(r.rand(d) < 0.35)[0])
    p = params(r, d, nominal)
    nc = 2 if p['split_criterion'] == 'hellinger' else r.randint(2, 6)
    if p['split_criterion'] == 'hellinger':
        p['binary_split'] = True if nominal else p['binary_split']
    n = int(r.choice([600, 1200, 2000]))
    X, y = make_stream(r, n, d, nominal, nc)
    classes = list(range(nc)) if r.rand() < .5 else None
    if case['fam'] == 'lc':
        p['split_criterion'] = p['split_criterion'].replace('hellinger', 'gini')
        classes = None
        k = int(np.ceil(np.log2(nc))) + r.randint(2)
        m = Combined(k, p)
        rec.count('label_combination')
    else:
        m = HoeffdingTreeClassifier(**p)
    ref = refht.RefHT(choose=chooser(m, rec), **p)
    judged = True
    rec.same(np.asarray(m.predict(X[:2])), np.zeros(2), 'unfitted', 'untrained predictions')
    pos = 0
    shape_seen = None
    weighted = r.rand() < .4
    fractional = r.rand() < .5
    try:
        while pos < n:
            b = int(r.choice([1, 3, 10, 40]))
            xb, yb = X[pos:pos + b], y[pos:pos + b]
            w = None
            if weighted:
                w = r.choice([0.0, 1.0, 1.0, 2.0, 3.0], size=len(xb))
                if fractional:
                    w = w * 0.75
            answers(rec, m, ref, xb[:4], classes, pos, r)
            m.partial_fit(xb, yb, classes=classes, sample_weight=w)
            for i in range(len(xb)):
                ref.learn(tuple(float(v) for v in xb[i]), int(yb[i]),
                          1.0 if w is None else float(w[i]))
            pos += len(xb)
            mm = ref.measures()
            if mm != shape_seen or r.rand() < .05:
                shape_seen = mm
                if not shape(rec, m, ref, pos, r):
                    judged = False
                    break
            if rec.fails:
                judged = False
                break
    except refht.Ambiguous as e:
        rec.count('ended_at_tie')
        rec.count('tie:' + str(e))
        judged = False
    rec.count('judged_to_end', judged)
    for e in ref.events:
        rec.count('attempts', e == 'attempt')
        rec.count('splits', e.startswith('split'))
        rec.count('nominal_splits', e in ('split:eq', 'split:multi'))
        rec.count('new_branches', e == 'new_branch')
        rec.count('nulls', e == 'null')
        rec.count('disabled', e == 'disabled')
    rec.sample(params=p, samples=pos, shape=shape_seen)


def chooser(m, rec):
    """Which of several equally good tests the real tree took at a node (any of them is right)."""
    def choose(path, tests):
        seen = set()
        for rule in m.get_model_rules():
            pr = [(p.att_idx, p.operator, float(p.value)) for p in rule.predicate_set]
            if len(pr) > len(path) and all(
                    a[:2] == b[:2] and abs(a[2] - b[2]) <= 1e-9 * (1 + abs(b[2]))
                    for a, b in zip(pr, path)):
                seen.add(pr[len(path)])
        rec.count('ties_adopted')
        for i, (kind, a, val) in enumerate(tests):
            if kind == 'num' and any(s[0] == a and s[1] == '<=' and abs(s[2] - val) <= 1e-9 *
                                     (1 + abs(val)) for s in seen):
                return i
            if kind == 'eq' and (a, '!=', float(val)) in seen:
                return i
            if kind == 'multi' and seen and all(s[0] == a and s[1] == '==' for s in seen):
                return i
        return None
    return choose


def answers(rec, m, ref, Q, classes, pos, r, perturb=True):
    """Distribution and label of each query; a query too close to call is skipped."""
    if perturb and r.rand() < .2:
        Q = Q.copy()
        Q[0] = Q[0] + r.normal(size=Q.shape[1])
    P = m.predict_proba(Q)
    pred = np.asarray(m.predict(Q))
    rec.check(len(P) == len(Q) and pred.shape == (len(Q),), 'shape', 'one answer per sample expected')
    for i, q in enumerate(Q):
        try:
            e = ref.proba(tuple(float(v) for v in q))
        except refht.Ambiguous:
            rec.count('skipped')
            continue
        row = np.asarray(P[i], dtype=float)
        if ref.root is not None and classes is not None:
            rec.check(len(row) == len(classes), 'columns', '%d columns for %d classes' %
                      (len(row), len(classes)))
        exp = np.zeros(max(len(row), max(e) + 1 if e else 0))
        for c, v in e.items():
            exp[c] = v
        obs = np.zeros(len(exp))
        obs[:len(row)] = row
        rec.count('answers')
        rec.key(pos, q)
        if not rec.close(obs, exp, 'answer', 'after %d samples, query %r' % (pos, q.tolist()),
                         rtol=1e-6, atol=1e-8):
            return
        rec.check(obs[int(pred[i])] >= obs.max() * (1 - 1e-12), 'predict', 'predicted %r from %r' %
                  (pred[i], obs.tolist()))


def shape(rec, m, ref, pos, r, books=True):
    mm = m.model_measurements
    e = ref.measures()
    got = {'nodes': mm['Tree size (nodes)'], 'leaves': mm['Tree size (leaves)'],
           'active': mm['Active learning nodes'], 'depth': mm['Tree depth']}
    if not books:
        got = dict(e, depth=got['depth'])
    ok = rec.check(got == e, 'measurements', 'after %d samples: %r, expected %r' % (pos, got, e))
    if e['nodes'] == 0:
        return ok
    exp = ref.paths()
    rules = m.get_model_rules()
    rec.count('rules', len(rules))

    ok &= rec.check(len(rules) == len(exp), 'rules', 'after %d samples: %d rules, expected %d' %
                    (pos, len(rules), len(exp)))
    if not ok:
        return False
    got = sorted(((tuple((p.att_idx, p.operator, float(p.value)) for p in x.predicate_set),
                   dict(x.observed_class_distribution), x.class_idx) for x in rules), key=repr_path)
    exp = sorted(exp, key=repr_path)
    for (gp, gd, gc), (ep, ed) in zip(got, exp):
        same = len(gp) == len(ep) and all(a[:2] == b[:2] and abs(a[2] - b[2]) <= 1e-9 * (1 + abs(b[2]))
                                          for a, b in zip(gp, ep))
        if not rec.check(same, 'rules', 'after %d samples: leaf path %r, expected %r' % (pos, gp, ep)):
            return False
        ks = sorted(set(gd) | set(ed))
        if not rec.close([gd.get(k, 0) for k in ks], [ed.get(k, 0) for k in ks], 'leaf_distribution',
                         'after %d samples, leaf %r' % (pos, gp), rtol=1e-6, atol=1e-7):
            return False
        if gd:
            rec.check(gd[gc] >= max(gd.values()) * (1 - 1e-12), 'rule_class',
                      'rule class %r of %r' % (gc, gd))
    if r.rand() < .3:
        text = m.get_model_description()
        rec.count('descriptions')
        n = [ln for ln in text.splitlines() if 'Leaf = Class' in ln]
        tests = [ln.strip() for ln in text.splitlines() if ln.strip().startswith('if ')]
        kids = e['nodes'] - 1
        rec.check(len(n) == e['leaves'] and len(tests) == kids, 'description',
                  'after %d samples the description has %d leaves and %d branches, expected %d and %d'
                  % (pos, len(n), len(tests), e['leaves'], kids))
        rec.check(len([ln for ln in m.get_rules_description().splitlines()]) == e['leaves'],
                  'description', 'rules description')
        depth = max(len(ln) - len(ln.lstrip()) for ln in text.splitlines()) // 2
        rec.check(depth == e['depth'], 'description', 'described depth %d, expected %d' %
                  (depth, e['depth']))
        used = {(p[0], float(p[2])) for path, _ in ref.paths() for p in path}
        said = set()
        for t in tests:
            q = t.rstrip(':').split()
            said.add((int(q[2]), float(q[4])))
        rec.check({(a, round(v, 6)) for a, v in used} == {(a, round(v, 6)) for a, v in said},
                  'description', 'described tests %r, expected %r' % (sorted(said), sorted(used)))
    return True


def repr_path(t):
    return tuple((a, o, round(float(v), 7)) for a, o, v in t[0])
