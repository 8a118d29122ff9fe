"""C25: EFDT re-evaluates its splits as specified; an adaptive tree is the plain tree until it
suspects drift, and comes back from a drift."""
import numpy as np

from vp import driftload, refhat, refht
from checks import c24_hoeffding_tree as ht

LEVEL = 'exploration'
RULE = ('an evaluation is one answer, leaf rule set or size report compared with a reference tree '
        'rebuilt from raw samples; distinct = digests of (samples seen, query)')
REQUIRED = {'answers': 8000, 'splits': 200, 'reevaluations': 3000, 'replaced': 20, 'moved': 20,
            'adaptive_answers': 30000, 'judged_to_end': 40, 'recoveries': 4, 'alternate': 80, 'switched': 8,
            'bootstrapped': 15, 'killed_heavy': 1}
ASSUMPTIONS = ['decisions closer than 1e-9 to a tie end the comparison for that stream; the error '
               'estimates of adaptive trees come from the ADWIN that C06 and C07 judge; node counts are '
               'compared only until the first alternate tree']


def cases(tier, seed):
    k = 90 if tier == 'quick' else 1200
    return ([{'fam': 'efdt', 'i': i, 'seed': seed, 'cost': 4} for i in range(k)] +
            [{'fam': 'hat', 'i': i, 'seed': seed, 'cost': 5} for i in range(k)] +
            [{'fam': 'books', 'i': 0, 'seed': seed}] +
            [{'fam': 'recovery', 'i': i, 'seed': seed, 'cost': 6} for i in range(8 if tier == 'quick'
                                                                          else 60)])


def run(case, rec):
    r = driftload.rng(case)
    if case['fam'] == 'recovery':
        return recovery(rec, r)
    if case['fam'] == 'books':
        return books(rec, r)
    from skmultiflow.trees import ExtremelyFastDecisionTreeClassifier, \
        HoeffdingAdaptiveTreeClassifier
    efdt = case['fam'] == 'efdt'
    d = r.randint(1, 5)
    nominal = sorted(int(a) for a in np.where(r.rand(d) < 0.3)[0])
    p = ht.params(r, d, nominal)
    for k in ('remove_poor_atts',) + (('no_preprune',) if efdt else ()):
        p.pop(k)
    if p['split_criterion'] == 'hellinger':
        p['split_criterion'] = 'gini'
    nc = r.randint(2, 5)
    n = int(r.choice([300, 600, 900])) if efdt else int(r.choice([600, 1200, 2000]))
    X, y = ht.make_stream(r, n, d, nominal, nc)
    classes = list(range(nc)) if r.rand() < .5 else None
    heavy = None
    if efdt and r.rand() < .25:            # from some point on every sample is (almost) the same
        heavy = int(r.choice([97, 151]))
        n = heavy + 120
        nominal = list(range(d))
        X, y = ht.make_stream(r, n, d, nominal, nc)
        p.update(nominal_attributes=nominal, split_confidence=.3, grace_period=10.4,
                 split_criterion='info_gain')
        X[heavy:] = X[heavy]
    if efdt:
        p['min_samples_reevaluate'] = float(r.choice([10.4, 20.4, 50.4]))
        m = ExtremelyFastDecisionTreeClassifier(**p)
        ref = refht.RefEFDT(**p)
        pick = ht.chooser(m, rec)
    else:
        p.update(bootstrap_sampling=bool(r.rand() < .5), random_state=int(r.randint(1000)))
        p['leaf_prediction'] = str(r.choice(['mc', 'nb', 'nba'], p=[.6, .2, .2]))
        p['nominal_attributes'] = nominal = nominal if r.rand() < .5 else None
        n = 2400
        X, y = drifting(r, n, d, nominal or [], nc)
        if r.rand() < .5:                      # trees that never split again after a first concept
            p.update(split_confidence=1e-7, tie_threshold=.05, grace_period=150.4)
        m = HoeffdingAdaptiveTreeClassifier(**p)
        ref = refhat.RefHAT(choose=ht.chooser(m, rec), **p)
        rec.count('bootstrapped', p['bootstrap_sampling'])
    judged, pos, seen = True, 0, None
    frozen = not efdt and r.rand() < .7
    weighted, batch = r.rand() < .4, r.rand() < .3
    try:
        while pos < n:
            if frozen and ref.events.count('split:num') > 1 and pos > 500:
                m.grace_period = ref.grace = 1e9        # alternates can win on their record only
                frozen = False
                rec.count('frozen')
            b = int(r.choice([3, 10, 40])) if batch else 1
            xb, yb = X[pos:pos + b], y[pos:pos + b]
            w = r.choice([0.0, 1.0, 2.0, 3.0], size=len(xb)) if weighted else None
            if heavy is not None and pos >= heavy:
                w = np.full(len(xb), 317.3)
            if efdt:
                ref.choose = pick if b == 1 else None
            Q = X[r.randint(n, size=2)] if b == 1 else xb[:4]
            if pos % 3 == 0 or b > 1:
                if not efdt and ref.root is not None:
                    Q = np.array([q for q in Q if ref.route(tuple(map(float, q)))[0].leaf])
                if len(Q):
                    ht.answers(rec, m, ref, Q, classes, pos, r, perturb=efdt)
                    rec.count('adaptive_answers', 0 if efdt else len(Q))
            m.partial_fit(xb, yb, classes=classes, sample_weight=w)
            for i in range(len(xb)):
                ref.learn(tuple(float(v) for v in xb[i]), int(yb[i]),
                          1.0 if w is None else float(w[i]))
            pos += len(xb)
            if not efdt:
                got = (m.alternate_trees_cnt, m.switch_alternate_trees_cnt, m.pruned_alternate_trees_cnt)
                exp = (ref.alternates, ref.switched, ref.dropped)
                if not rec.check(got == exp, 'alternates', 'after %d samples (alternate trees started, '
                                 'switched to, dropped) = %r, expected %r' % (pos, got, exp)):
                    judged = False
                    break
            now = (ref.measures(), ref.events.count('moved'), ref.events.count('replaced'),
                   ref.events.count('switched'))
            if now != seen or r.rand() < .03:
                seen = now
                if not ht.shape(rec, m, ref, pos, r, efdt or not ref.alternates):
                    judged = False
                    break
            if rec.fails:
                judged = False
                break
    except refht.Ambiguous as e:
        rec.count('ended_at_tie')
        rec.count('tie:' + str(e))
        judged = False
    rec.count('judged_to_end', judged)
    rec.count('killed_heavy', heavy is not None and 'killed' in ref.events)
    for e in ref.events:
        rec.count('splits', e.startswith('split'))
        rec.count('reevaluations', e == 'reevaluation')
        for k in ('moved', 'replaced', 'killed', 'new_branch', 'null', 'alternate', 'switched', 'dropped'):
            rec.count(k, e == k)
    rec.sample(params=p, samples=pos, shape=seen)


def drifting(r, n, d, nominal, nc):
    """One concept after another, each a few hundred samples long."""
    X, y = ht.make_stream(r, n, d, nominal, nc)
    start = 0
    while start < n:
        end = start + int(r.choice([400, 700, 1200, 1600]))
        if start and r.rand() < .3:
            y[start:start + 120] = r.randint(nc, size=len(y[start:start + 120]))   # the same concept again
            start = end
            continue
        _, new = ht.make_stream(r, n, d, nominal, nc)
        a = r.randint(d)
        cut = np.quantile(X[:, a], r.uniform(.3, .7))
        part = (X[start:end, a] > cut).astype(int) ^ r.randint(2)
        noise = r.rand(len(part)) < r.choice([0, .05, .2])
        noise[:r.choice([0, 60, 120])] = True          # a burst of noise
        part[noise] = r.randint(nc, size=noise.sum())
        y[start:end] = part
        start = end
    return X, y


def recovery(rec, r):
    """After an abrupt change every adaptive tree learns the new concept."""
    from skmultiflow.trees import HoeffdingAdaptiveTreeClassifier
    n = 6000
    X = r.rand(2 * n, 3)
    a = r.randint(3)
    y = (X[:, a] > .5).astype(int)
    y[n:] = 1 - y[n:]
    m = HoeffdingAdaptiveTreeClassifier(random_state=int(r.randint(1000)),
                                        leaf_prediction=str(r.choice(['mc', 'nb', 'nba'])),
                                        bootstrap_sampling=bool(r.rand() < .5))
    for s in range(0, 2 * n, 200):
        m.partial_fit(X[s:s + 200], y[s:s + 200], classes=[0, 1])
        if s + 200 == n:
            before = np.mean(m.predict(X[:500]) == y[:500])
    after = np.mean(m.predict(X[-500:]) == y[-500:])
    rec.count('recoveries')
    rec.key(before, after)
    rec.check(before > .85 and after > .85, 'recovery',
              'accuracy %.3f before the change and %.3f at the end' % (before, after))


def books(rec, r):
    """The reported sizes are those of the tree, also after an alternate tree took over."""
    from skmultiflow.trees import HoeffdingAdaptiveTreeClassifier
    X = r.rand(8000, 3)
    y = (X[:, 0] > .5).astype(int)
    y[4000:] = (X[4000:, 2] > .5)
    m = HoeffdingAdaptiveTreeClassifier(random_state=1, bootstrap_sampling=False, leaf_prediction='mc')
    for s in range(0, 8000, 100):
        m.partial_fit(X[s:s + 100], y[s:s + 100], classes=[0, 1])
        mm, n = m.model_measurements, len(m.get_model_rules())
        alt = m.alternate_trees_cnt > 0
        rec.count('books')
        if not rec.check(mm['Tree size (leaves)'] == n,
                         'books_after_alternate' if alt else 'books', '%d leaves reported, the tree has %d' %
                         (mm['Tree size (leaves)'], n)):
            return
