"""Learners share nothing: neither the prototypes they are built from, nor default arguments, nor class state."""
import copy
import inspect

import numpy as np

from vp import models as M

LEVEL = 'exploration'
RULE = ('a case trains a learner alone and the same learner while a second one, built from the very same parameter '
        'objects (or from the default arguments) learns another problem in between, and compares all answers; '
        'afterwards the shared base estimators and drift detectors are compared with untouched copies of them; '
        'non-trivial when answers vary; distinct by learner and answers')
REQUIRED = {'answers': 600, 'varied': 300, 'prototypes': 80, 'models': 37, 'default_models': 30}
ASSUMPTIONS = ['base estimators are handed over untrained', 'every learner carries its own integer seed']
STORED = {'SAMKNNClassifier': {'max_window_size': 200}, 'OnlineBoostingClassifier': {'n_estimators': 3},
          'OnlineSMOTEBaggingClassifier': {'random_state': 11}}
SMALL = {'n_estimators': 3, 'grace_period': 20, 'max_window_size': 300, 'window_size': 30, 'n_ensembles': 2,
         'error_threshold': 0.6}
NEEDS_BASE = ('ClassifierChain', 'ProbabilisticClassifierChain', 'MonteCarloClassifierChain', 'RegressorChain',
              'MultiOutputLearner')


def cases(tier, seed):
    return M.cases([('shared', lambda e: e.pure),
                    ('default', lambda e: e.pure and e.name not in NEEDS_BASE)], tier, seed, 6, 60, 34)


def prototype_same(rec, e, name, obj, pristine, r):
    """A shared prototype behaves like an untouched copy of it."""
    a, b = copy.deepcopy(obj), copy.deepcopy(pristine)
    if hasattr(a, 'add_element'):
        data = (r.rand(300) < np.repeat([0.1, 0.7, 0.3], 100)).astype(float)
        tr = []
        for dct in (a, b):
            o = []
            for x in data:
                dct.add_element(x)
                o.append(bool(dct.detected_change()))
            tr.append(o)
        rec.check(tr[0] == tr[1], 'prototype:%s:%s' % (e.name, name), 'the drift detector it was built from has changed')
        rec.count('prototypes')
        return
    X = r.normal(size=(40, 3))
    reg = e.kind in ('reg', 'mt')
    y = X[:, 0] if reg else (X[:, 0] > 0).astype(int)
    kw = {} if reg else {'classes': [0, 1]}
    if not hasattr(a, 'partial_fit'):
        rec.check(not hasattr(a, 'tree_') and not hasattr(a, 'classes_'), 'prototype:%s:%s' % (e.name, name),
                  'the base estimator it was built from has been fitted')
    else:
        outs = []
        for m in (a, b):
            if not hasattr(m, 'reset') and not reg:     # sklearn estimators remember being fitted
                outs.append(hasattr(m, 'classes_'))
                continue
            m.partial_fit(X, y, **kw)
            outs.append(np.asarray(m.predict(X)).tolist())
        rec.check(outs[0] == outs[1], 'prototype:%s:%s' % (e.name, name), 'the base estimator it was built from has changed')
    rec.count('prototypes')


def run(case, rec):
    e, d, dr, fresh, r = M.start(case)
    d2 = M.Data(e, r)
    dr2 = M.Driver(e, d2, weights=dr.weights)
    if case['fam'] == 'shared':
        proto = fresh()
        cls, kw = type(proto), proto.get_params(deep=False)
        kw.update({k: v for k, v in STORED.get(e.name, {}).items()})
        if 'random_state' in kw and e.name not in STORED:
            kw['random_state'] = int(case['seed'] % 1000)
    else:
        cls = type(fresh())
        names = inspect.signature(cls.__init__).parameters
        kw = {k: v for k, v in SMALL.items() if k in names}
        if 'random_state' in names:
            kw['random_state'] = int(case['seed'] % 1000)
        if e.name == 'LabelCombinationHoeffdingTreeClassifier':
            kw['n_labels'] = 3
        kw.update(STORED.get(e.name, {}))
        if e.name == 'AccuracyWeightedEnsembleClassifier':
            kw['window_size'] = 40
        if e.name == 'BatchIncrementalClassifier':
            kw['window_size'] = 20
    if case['i'] == 0:
        rec.count('models' if case['fam'] == 'shared' else 'default_models')
    objs = {k: v for k, v in kw.items()
            if hasattr(v, 'partial_fit') or hasattr(v, 'add_element') or hasattr(v, 'fit')}
    pristine = copy.deepcopy(objs)
    alone = cls(**{**kw, **copy.deepcopy(objs)})
    one, other = cls(**kw), cls(**kw)
    try:
        ch, ch2 = dr.chunks(r), dr2.chunks(r)
        stops = set(r.randint(1, len(ch), size=3).tolist()) | {0, len(ch) - 1}
        got = []
        np.random.seed(5)          # default base estimators draw from the global generator
        for n, (a, b) in enumerate(ch):
            dr.train(alone, a, b)
            if n in stops:
                got.append(M.out(alone, d.probe, e))
        j = 0
        got = iter(got)
        np.random.seed(5)
        for n, (a, b) in enumerate(ch):
            st = np.random.get_state()
            for _ in range(int(r.randint(0, 4))):
                if j < len(ch2):
                    dr2.train(other, *ch2[j])
                    j += 1
            if j and r.rand() < 0.1:
                M.out(other, d2.probe, e)
            np.random.set_state(st)
            dr.train(one, a, b)
            if n in stops:
                want = next(got)
                bad = M.same_out(M.out(one, d.probe, e), want)
                rec.check(bad is None, '%s:%s' % (case['fam'], e.name),
                          lambda: 'beside another learner, after %d rows: %s' % (b, bad))
                rec.count('answers')
                if len(np.unique(want[0], axis=0)) > 1:
                    rec.count('varied')
                    rec.key(e.name, want[0], b)
        for k in objs:
            prototype_same(rec, e, k, kw[k], pristine[k], r)
    except M.Skip:
        rec.count('refused')
