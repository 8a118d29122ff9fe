"""C26: regression trees split as their rule prescribes and answer from their leaves."""
import numpy as np

from checks.c24_hoeffding_tree import rescale
from vp import driftload, refhat, refht, refhtr

LEVEL = 'exploration'
RULE = ('an evaluation is one predicted value, leaf statistic or size report compared with a '
        'reference regression tree; distinct = digests of (samples seen, query)')
REQUIRED = {'values': 20000, 'splits': 250, 'nominal_splits': 20, 'attempts': 800, 'leaves': 4000,
            'prunings': 100, 'multi_values': 5000, 'perceptron_values': 5000, 'stacked_values': 1500, 'judged_to_end': 60,
            'adaptive_steps': 3000, 'alternate': 100, 'switched': 5}
ASSUMPTIONS = ['integer sample weights; decisions closer than about 1e-9 to a tie end the comparison '
               'for that stream; features and targets of moderate scale']


def cases(tier, seed):
    k = 90 if tier == 'quick' else 1200
    return [{'fam': f, 'i': i, 'seed': seed, 'cost': 3} for f in ('single', 'multi')
            for i in range(k)] + [{'fam': 'stacked', 'i': i, 'seed': seed, 'cost': 3} for i in range(k // 2)] + [{'fam': 'adaptive', 'i': i, 'seed': seed, 'cost': 4} for i in range(k // 2)]


def make_stream(r, n, d, nominal, t):
    X = r.normal(size=(n, d)) * r.choice([.5, 1, 20], size=d) + r.choice([0, 3], size=d)
    if r.rand() < .3:
        X = np.round(X, 1)
    for a in nominal:
        k = r.randint(2, 5)
        X[:, a] = r.choice(k, size=n, p=r.dirichlet(np.ones(k)))
    Y = r.normal(size=(n, t)) * r.choice([.05, .3, 1])
    for j in range(t):
        for _ in range(r.randint(1, 4)):
            a = r.randint(d)
            cut = np.quantile(X[:, a], r.uniform(.2, .8))
            Y[:, j] += r.normal() * 3 * (X[:, a] == r.randint(2) if a in nominal else X[:, a] > cut)
        if r.rand() < .5:
            a = r.randint(d)
            Y[:, j] += X[:, a] / (1 + X[:, a].std())
    if r.rand() < .2:
        Y = Y * 50 + 10
    rescale(r, X, nominal)
    return X, Y


def drifting(r, n, d, nominal):
    """One concept after another, each a few hundred samples long."""
    X, Y = make_stream(r, n, d, nominal, 1)
    start = 0
    while start < n:
        end = start + int(r.choice([400, 700, 1200]))
        a, s = r.randint(d), X[start:end]
        Y[start:end, 0] = r.normal() * 5 * (s[:, a] > np.quantile(X[:, a], r.uniform(.3, .7))) + \
            r.normal() * 3 + r.normal(size=len(s)) * r.choice([.05, .5])
        start = end
    return X, Y


def parse(text):
    """[(path, leaf line)] of a model description."""
    out, stack = [], []
    for ln in text.splitlines():
        if not ln.strip():
            continue
        depth = (len(ln) - len(ln.lstrip())) // 2
        stack = stack[:depth]
        q = ln.strip().rstrip(':').split()
        if q[0] == 'if':
            stack.append((int(q[2]), {'=': '=='}.get(q[3], q[3]), float(q[4])))
        else:
            out.append((tuple(stack), ln.strip()))
    return out


def near(a, b):
    return abs(a - b) <= 1e-9 * (1 + abs(b))


def chooser(m, rec):
    def choose(path, tests):
        seen = set()
        for pr, _ in parse(m.get_model_description()):
            if len(pr) > len(path) and all(a[:2] == b[:2] and near(a[2], b[2])
                                           for a, b in zip(pr, path)):
                seen.add(pr[len(path)])
        rec.count('ties_adopted')
        for i, (kind, a, val) in enumerate(tests):
            if kind == 'num' and any(s[0] == a and s[1] == '<=' and near(s[2], val) for s in seen):
                return i
            if kind == 'eq' and (a, '!=', float(val)) in seen:
                return i
            if kind == 'multi' and seen and all(s[0] == a and s[1] == '==' for s in seen):
                return i
        return None
    return choose


def run(case, rec):
    from skmultiflow.trees import HoeffdingTreeRegressor, iSOUPTreeRegressor, \
        HoeffdingAdaptiveTreeRegressor, StackedSingleTargetHoeffdingTreeRegressor
    r = driftload.rng(case)
    stacked, adaptive = case['fam'] == 'stacked', case['fam'] == 'adaptive'
    multi = case['fam'] in ('multi', 'stacked')
    d = r.randint(1, 5)
    nominal = sorted(int(a) for a in np.where(r.rand(d) < 0.3)[0])
    p = dict(grace_period=float(r.choice([20.4, 50.4, 120.4, 100])),
             split_confidence=float(r.choice([1e-7, 1e-3, .1, .4])),
             tie_threshold=float(r.choice([0.0, .05, .2, .4])),
             binary_split=bool(r.rand() < .4), no_preprune=bool(r.rand() < .4),
             leaf_prediction=str(r.choice(['perceptron', 'adaptive'] if stacked else ['mean', 'perceptron'] +
                                          (['adaptive'] if multi else []))),
             nominal_attributes=nominal if nominal or r.rand() < .5 else None,
             learning_ratio_perceptron=float(r.choice([.005, .02, .1])),
             learning_ratio_decay=float(r.choice([.001, .01])),
             learning_ratio_const=bool(r.rand() < .6), random_state=int(r.randint(1000)),
             remove_poor_atts=bool(r.rand() < .25) and not adaptive)
    t = r.randint(1, 4) if multi else 1
    n = int(r.choice([400, 800, 1500]))
    X, Y = make_stream(r, n, d, nominal, t)
    if not multi:
        Y = Y[:, 0]
    cls = StackedSingleTargetHoeffdingTreeRegressor if stacked else iSOUPTreeRegressor if multi else HoeffdingAdaptiveTreeRegressor if adaptive \
        else HoeffdingTreeRegressor
    if adaptive:
        p.update(bootstrap_sampling=bool(r.rand() < .5))
        if r.rand() < .6:
            p.update(split_confidence=1e-7, tie_threshold=.05, grace_period=150.4)
        n = 2400
        X, Y = drifting(r, n, d, nominal)
        Y = Y[:, 0]
        m = cls(**p)
        ref = refhat.RefHATR(choose=chooser(m, rec), **p)
    else:
        m = cls(**p)
        ref = refhtr.RefHTR(multi=multi, stacked=stacked, choose=chooser(m, rec), **p)
    weighted = r.rand() < .4
    frozen = adaptive and r.rand() < .7
    pos, seen, judged = 0, None, True
    try:
        while pos < n:
            b = int(r.choice([1, 3, 10, 40]))
            xb, yb = X[pos:pos + b], Y[pos:pos + b]
            w = r.choice([0.0, 1.0, 2.0, 3.0], size=len(xb)) if weighted else None
            if frozen and ref.events.count('split:num') > 1 and pos > 500:
                m.grace_period = ref.grace = 1e9        # alternates can win on their record only
                frozen = False
                rec.count('frozen')
            if ref.root is not None:
                values(rec, m, ref, xb[:3], pos, multi, p, r, adaptive)
            m.partial_fit(xb, yb, sample_weight=w)
            for i in range(len(xb)):
                ref.learn(xb[i], yb[i], 1.0 if w is None else float(w[i]))
            pos += len(xb)
            if adaptive:
                got = (m.alternate_trees_cnt, m.switch_alternate_trees_cnt, m.pruned_alternate_trees_cnt)
                exp = (ref.alternates, ref.switched, ref.dropped)
                rec.count('adaptive_steps')
                if not rec.check(got == exp, 'alternates', 'after %d samples (alternate trees started, '
                                 'switched to, dropped) = %r, expected %r' % (pos, got, exp)):
                    judged = False
                    break
            mm = ref.measures()
            if ref.root is not None and (mm != seen or r.rand() < .05):
                seen = mm
                if not shape(rec, m, ref, pos, not adaptive or not ref.alternates):
                    judged = False
                    break
            if rec.fails:
                judged = False
                break
    except refht.Ambiguous as e:
        rec.count('ended_at_tie')
        rec.count('tie:' + str(e))
        judged = False
    rec.count('judged_to_end', judged)
    for e in ref.events:
        rec.count('attempts', e == 'attempt')
        rec.count('splits', e.startswith('split'))
        rec.count('nominal_splits', e in ('split:eq', 'split:multi'))
        rec.count('prunings', e == 'pruning')
        for k in ('new_branch', 'disabled', 'pruned_root', 'alternate', 'switched', 'dropped'):
            rec.count(k, e == k)
    rec.sample(params=p, samples=pos, shape=seen)


def values(rec, m, ref, Q, pos, multi, p, r, adaptive):
    Q = Q.copy()
    if r.rand() < .2 and not adaptive:
        Q[0] += r.normal(size=Q.shape[1])
    V = np.asarray(m.predict(Q), dtype=float)
    rec.check(len(V) == len(Q), 'shape', '%d values for %d samples' % (len(V), len(Q)))
    for i, q in enumerate(Q):
        if adaptive and not ref.route(tuple(float(v) for v in q))[0].leaf:
            continue
        try:
            e = ref.value(q)
        except refht.Ambiguous:
            rec.count('skipped')
            continue
        e = np.asarray(e, dtype=float).reshape(-1)
        rec.count('values')
        rec.count('multi_values', multi)
        rec.count('stacked_values', ref.stacked)
        rec.count('perceptron_values', p['leaf_prediction'] != 'mean')
        rec.key(pos, q)
        scale = float(np.sqrt(np.max(np.abs(ref.all_y.q)) / max(ref.all_y.n, 1)))
        if not rec.close(V[i].reshape(-1), e, 'value', 'after %d samples, query %r' % (pos, q.tolist()),
                         rtol=1e-6, atol=1e-7 * (1 + scale)):
            return


def shape(rec, m, ref, pos, books=True):
    mm = m.model_measurements
    e = ref.measures()
    got = {'nodes': mm['Tree size (nodes)'], 'leaves': mm['Tree size (leaves)'],
           'active': mm['Active learning nodes'], 'depth': mm['Tree depth']}
    if not books:
        got = dict(e, depth=got['depth'])
    if not rec.check(got == e, 'measurements', 'after %d samples: %r, expected %r' % (pos, got, e)):
        return False
    got = sorted(parse(m.get_model_description()), key=key)
    exp = sorted(ref.paths(), key=key)
    rec.count('leaves', len(exp))
    if not rec.check(len(got) == len(exp), 'description', 'after %d samples: %d leaves described, '
                     'expected %d' % (pos, len(got), len(exp))):
        return False
    for (gp, ln), (ep, st) in zip(got, exp):
        same = len(gp) == len(ep) and all(a[:2] == b[:2] and near(a[2], b[2]) for a, b in zip(gp, ep))
        if not rec.check(same, 'paths', 'after %d samples: leaf path %r, expected %r' % (pos, gp, ep)):
            return False
        st_txt = ln[ln.index('{'):]
        if st.n == 0:
            continue
        nums = eval(st_txt, {'nan': np.nan, 'inf': np.inf})
        for k, v in ((0, st.n), (1, st.s), (2, st.q)):
            v = np.atleast_1d(np.asarray(v, dtype=float))
            if not rec.close(np.atleast_1d(nums[k]), v, 'leaf_statistics', 'after %d samples, leaf %r, '
                             'moment %d' % (pos, gp, k), rtol=1e-6, atol=2e-4 + 1e-6 * abs(v).max()):
                return False
    return True


def key(t):
    return tuple((a, o, round(float(v), 7)) for a, o, v in t[0])
