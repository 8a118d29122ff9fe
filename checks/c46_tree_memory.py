"""C46: under a memory limit a tree keeps learning where it matters, and its books stay right."""
import collections
import sys

import numpy as np

from vp import driftload, refht, refhtr
from checks import c24_hoeffding_tree as ht, c26_regression_trees as rt

LEVEL = 'exploration'
RULE = ('an evaluation is one answer, leaf statistic or size report compared with a reference tree that '
        'closes and reopens leaves by its own count; distinct = digests of (samples seen, query)')
REQUIRED = {'answers': 6000, 'values': 4000, 'estimates': 1500, 'closed': 150, 'reopened': 50,
            'limited': 120, 'stops': 8, 'sizes': 300, 'judged_to_end': 25, 'within': 1500}
ASSUMPTIONS = ['the byte size of a leaf and the overhead are taken from the tree\'s own published '
               'measurements; the total they imply is compared with its measured size']


def cases(tier, seed):
    k = 60 if tier == 'quick' else 800
    return ([{'fam': f, 'i': i, 'seed': seed, 'cost': 3} for f in ('ht', 'htr', 'isoup')
             for i in range(k)] + [{'fam': 'sst', 'i': i, 'seed': seed, 'cost': 3} for i in range(k // 2)] +
            [{'fam': 'efdt', 'i': i, 'seed': seed, 'cost': 5} for i in range(k)] +
            [{'fam': 'size', 'i': i, 'seed': seed} for i in range(k // 10)])


def run(case, rec):
    r = driftload.rng(case)
    if case['fam'] == 'size':
        return size(rec, r)
    from skmultiflow.trees import ExtremelyFastDecisionTreeClassifier, HoeffdingTreeClassifier, \
        HoeffdingTreeRegressor, StackedSingleTargetHoeffdingTreeRegressor, iSOUPTreeRegressor
    fam = case['fam']
    reg, multi = fam in ('htr', 'isoup', 'sst'), fam in ('isoup', 'sst')
    d = r.randint(1, 5)
    nominal = sorted(int(a) for a in np.where(r.rand(d) < 0.3)[0])
    n = int(r.choice([500, 900]))
    mem = dict(max_byte_size=int(r.choice([8e3, 2e4, 4e4, 8e4, 2e5])) * (8 if reg else 1),
               memory_estimate_period=int(r.choice([10, 25, 60, 130])),
               stop_mem_management=bool(r.rand() < .25))
    if reg:
        t = r.randint(1, 4) if multi else 1
        p = dict(grace_period=float(r.choice([20.4, 50.4])), split_confidence=float(r.choice([1e-3, .1, .4])),
                 tie_threshold=float(r.choice([.05, .2, .4])), binary_split=bool(r.rand() < .4),
                 no_preprune=bool(r.rand() < .4), nominal_attributes=nominal,
                 leaf_prediction=str(r.choice(['mean', 'perceptron', 'adaptive'][fam == 'sst':2 + multi])),
                 learning_ratio_const=bool(r.rand() < .6), random_state=int(r.randint(1000)), **mem)
        X, y = rt.make_stream(r, n, d, nominal, t)
        if fam == 'htr':
            y = y[:, 0]
        m = {'isoup': iSOUPTreeRegressor, 'htr': HoeffdingTreeRegressor,
             'sst': StackedSingleTargetHoeffdingTreeRegressor}[fam](**p)
        ref = refhtr.RefHTR(multi=multi, stacked=fam == 'sst', choose=rt.chooser(m, rec), **p)
    else:
        p = ht.params(r, d, nominal)
        p.pop('remove_poor_atts')
        p['grace_period'] = float(r.choice([10.4, 25.4, 50]))
        p['split_confidence'] = float(r.choice([1e-3, .1, .3]))
        p['tie_threshold'] = float(r.choice([.05, .2, .4]))
        if p['split_criterion'] == 'hellinger':
            p['split_criterion'] = 'gini'
        if fam == 'efdt':
            p.pop('no_preprune')
            p['min_samples_reevaluate'] = float(r.choice([20.4, 50.4]))
            n = 500
        p.update(mem)
        nc = r.randint(2, 5)
        X, y = ht.make_stream(r, n, d, nominal, nc)
        cls, rcls = (ExtremelyFastDecisionTreeClassifier, refht.RefEFDT) if fam == 'efdt' else \
            (HoeffdingTreeClassifier, refht.RefHT)
        m = cls(**p)
        ref = rcls(choose=ht.chooser(m, rec), **p)
    weighted = r.rand() < .4
    judged, seen, clean = True, None, 0
    try:
        for i in range(n):
            w = float(r.choice([0.0, 1.0, 2.0, 3.0])) if weighted else 1.0
            q = X[[i, r.randint(n)]]
            if ref.root is not None and i % 3 == 0:
                if reg:
                    rt.values(rec, m, ref, q, i, multi, p, r, False)
                else:
                    ht.answers(rec, m, ref, q, None, i, r)
            m.partial_fit(X[i:i + 1], y[i:i + 1], **(dict(sample_weight=np.array([w])) if weighted else {}))
            mm = m.model_measurements
            ref.reported = (mm['Active leaf byte size estimate'], mm['Inactive leaf byte size estimate'],
                            mm['Byte size estimate overhead'])
            done, marks = ref.estimates, len(ref.events)
            if reg:
                ref.learn(X[i], y[i], w)
            else:
                ref.learn(tuple(float(v) for v in X[i]), int(y[i]), w)
            if not books(rec, m, mm, ref, i + 1):
                judged = False
                break
            if ref.estimates > done:
                rec.count('estimates')
                if len(ref.events) == marks:
                    real = m.measure_byte_size()
                    slack = 400 if not reg else .1 * real
                    rec.count('sizes')
                    rec.check(abs(ref.measured - real) <= slack, 'estimate', 'after %d samples the '
                              'estimates add up to %.0f bytes, the model measures %d' %
                              (i + 1, ref.measured, real))
            else:
                rec.check(ref.sizes == ref.reported, 'period', 'the size estimates changed after %d '
                          'samples, period %d' % (i + 1, mem['memory_estimate_period']))
            now = (ref.measures(), ref.growth)
            if ref.root is not None and (now != seen or r.rand() < .03):
                seen = now
                if not (rt.shape(rec, m, ref, i + 1) if reg else ht.shape(rec, m, ref, i + 1, r)):
                    judged = False
                    break
            if rec.fails:
                judged = False
                break
    except refht.Ambiguous as e:
        rec.count('ended_at_tie')
        rec.count('tie:' + str(e))
        judged = False
    rec.count('judged_to_end', judged)
    ev = collections.Counter(ref.events)
    rec.count('closed', ev['deactivated'])
    rec.count('reopened', ev['activated'])
    rec.count('limited', ev['limited'])
    rec.count('stops', ev['growth_stopped'])
    rec.count('splits', sum(v for k, v in ev.items() if k.startswith('split')))
    for k in ('replaced', 'killed', 'null'):
        rec.count(k, ev[k])
    rec.sample(params=p, samples=n, shape=seen)


def books(rec, m, mm, ref, pos):
    """Counts add up, and what is kept active fits the limit whenever the limit was enforced."""
    e = ref.measures()
    rec.count('within')
    got = (mm['Tree size (nodes)'], mm['Tree size (leaves)'], mm['Active learning nodes'])
    return rec.check(got == (e['nodes'], e['leaves'], e['active']), 'books_stopped' if ref.stop else 'books',
                     'after %d samples (nodes, leaves, active leaves) = %r, expected %r' %
                     (pos, got, (e['nodes'], e['leaves'], e['active'])))


class Thing:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def size(rec, r):
    """The measured size of an object is the sum over everything distinct it holds."""
    from skmultiflow.utils import calculate_object_size
    for _ in range(60):
        pool = []

        def make(depth):
            k = r.randint(9)
            if pool and r.rand() < .15:
                return pool[r.randint(len(pool))]
            if depth == 0 or k < 2:
                v = [int(r.randint(10 ** 6)) + 1000, float(r.rand()), 'x' * r.randint(50), None, True][r.randint(5)]
            elif k < 4:
                v = [make(depth - 1) for _ in range(r.randint(5))]
            elif k == 4:
                v = tuple(make(depth - 1) for _ in range(r.randint(5)))
            elif k < 7:
                v = {('k%d' % j if r.rand() < .5 else j): make(depth - 1) for j in range(r.randint(5))}
            else:
                v = Thing(**{'a%d' % j: make(depth - 1) for j in range(r.randint(4))})
            pool.append(v)
            return v
        obj = make(int(r.randint(1, 6)))
        if r.rand() < .3 and isinstance(obj, list):
            obj.append(obj)                      # a cycle
        seen, todo, total = {}, [obj], 0
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen[id(o)] = o
            total += sys.getsizeof(o)
            if isinstance(o, dict):
                todo += list(o) + list(o.values())
            elif isinstance(o, (list, tuple)):
                todo += list(o)
            elif hasattr(o, '__dict__'):
                todo.append(o.__dict__)
        rec.count('sizes')
        rec.key(total, len(seen))
        got = [calculate_object_size(obj), calculate_object_size(obj, 'kB'), calculate_object_size(obj, 'MB')]
        rec.close(np.array(got), np.array([total, total / 1024, total / 2 ** 20]), 'object_size',
                  'sizes %r of an object of %d bytes' % (got, total), rtol=1e-9)
