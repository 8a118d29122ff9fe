"""Seeded learners are reproducible, private in their randomness, and survive copying and pickling."""
import copy
import pickle
import random

import numpy as np

from vp import models as M

LEVEL = 'exploration'
RULE = ('Two learners with the same parameters and integer seed that receive the same calls give the same answers, '
        'whatever happens to the global random generators in between, and they never draw from or reseed those '
        'generators; a deep copy or a pickled copy taken at any moment answers like the original, continues like it '
        'under the same later training, and is not affected by what the other one learns afterwards; clone() of a '
        'trained learner behaves like a new learner. The same holds for copies, pickles and clones of drift detectors.')
REQUIRED = {'models': 38, 'answers': 1000, 'copies': 70, 'pickles': 70, 'clones': 70, 'detectors': 28, 'detections': 20}
ASSUMPTIONS = ['base estimators handed to ensembles are deterministic or carry their own integer seed']
FAMS = ('seed', 'deepcopy', 'pickle', 'clone', 'clone_wider')


def cases(tier, seed):
    return (M.cases([(f, None) for f in FAMS], tier, seed, 4, 40, 29)
            + [{'fam': 'detector', 'i': i, 'seed': seed, 'det': n}
               for n in DETECTORS for i in range(4 if tier == 'quick' else 30)])


DETECTORS = ('ADWIN', 'DDM', 'EDDM', 'HDDM_A', 'HDDM_W', 'PageHinkley', 'KSWIN')


def detector(case, rec):
    """Copies, pickles and clones of a drift detector behave like a detector of their own."""
    import skmultiflow.drift_detection as dd
    from skmultiflow.core import clone
    from vp.driftload import rng
    r = rng(case)
    kw = {'ADWIN': dict(delta=float(r.choice([0.002, 0.3]))),
          'DDM': dict(min_num_instances=int(r.choice([10, 30])), warning_level=1.0, out_control_level=1.5),
          'EDDM': {}, 'HDDM_A': dict(drift_confidence=0.05, warning_confidence=0.1),
          'HDDM_W': dict(drift_confidence=0.05, warning_confidence=0.1, lambda_option=0.1),
          'PageHinkley': dict(min_instances=10, threshold=5.0, delta=0.01),
          'KSWIN': dict(alpha=0.05, window_size=60, stat_size=15)}[case['det']]
    cls = getattr(dd, case['det'])
    n = 500
    p = np.repeat(r.choice([0.1, 0.3, 0.6, 0.9], size=5), n // 5)
    xs = (r.rand(n) < p).astype(float)
    seeded = case['det'] == 'KSWIN'          # draws from the global generator: compared under equal global seeds

    def trace(d, data):
        if seeded:
            np.random.seed(7)
        o = []
        for x in data:
            d.add_element(x)
            o.append((bool(d.detected_change()), bool(d.detected_warning_zone())))
        return o
    cut = int(r.randint(1, n))
    want = trace(cls(**kw), xs)
    d = cls(**kw)
    head = trace(d, xs[:cut])
    rec.count('detectors')
    rec.count('detections', sum(c for c, _ in want))
    copies = {'deepcopy': copy.deepcopy(d), 'pickle': pickle.loads(pickle.dumps(d))}
    tail = trace(d, xs[cut:])
    for how, c in copies.items():
        rec.check(trace(c, xs[cut:]) == tail, 'detector-%s:%s' % (how, case['det']),
                  'the copy of a detector decides differently from the original')
        rec.key(case['det'], how, tail)
    try:
        c = clone(d)
        got = trace(c, xs)
    except TypeError as x:
        rec.fail('detector-clone-fails:%s' % case['det'], 'the clone of a detector cannot be used: %s' % x)
        return
    rec.check(got == want, 'detector-clone:%s' % case['det'], 'the clone decides differently from a new detector')


def gstate():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], random.getstate())


def run(case, rec):
    if case['fam'] == 'detector':
        return detector(case, rec)
    e, d, dr, fresh, r = M.start(case)
    fam = case['fam']
    if case['i'] == 0 and fam == 'seed':
        rec.count('models')
    g0 = gstate()
    ch = dr.chunks(r)
    cut = int(r.randint(1, len(ch)))
    stops = set(r.randint(1, len(ch), size=3).tolist()) | {len(ch) - 1}

    def judge(a, b, sig, msg):
        want = M.out(b, d.probe, e)
        bad = M.same_out(M.out(a, d.probe, e), want)
        rec.check(bad is None, '%s:%s' % (sig, e.name), lambda: '%s: %s' % (msg, bad))
        rec.count('answers')
        rec.key(e.name, want[0])

    try:
        if fam == 'seed':
            m1 = fresh()
            np.random.seed(int(r.randint(2 ** 31)))
            random.seed(3)
            m2 = fresh()
            g0 = gstate()
            for n, (a, b) in enumerate(ch):
                dr.train(m1, a, b)
                rec.check(gstate() == g0, 'global-rng:%s' % e.name,
                          'training consumed or reseeded the global random generator')
                np.random.rand(int(r.randint(1, 9)))
                dr.train(m2, a, b)
                if n in stops:
                    judge(m2, m1, 'seed', 'twin with the same seed after %d rows' % b)
                g0 = gstate()
            return
        m = fresh()
        if fam == 'clone_wider':         # it had learned a problem of few features and many classes
            od = M.Data(e, r, d=e.d[0], k=3)
            odr = M.Driver(e, od, weights=dr.weights)
            for a, b in odr.chunks(r)[:cut]:
                odr.train(m, a, b)
            d = M.Data(e, r, d=e.d[1], k=2)
            dr = M.Driver(e, d, weights=dr.weights)
            ch = dr.chunks(r)
            stops = set(r.randint(1, len(ch), size=3).tolist()) | {len(ch) - 1}
        for a, b in ch[:cut] if fam != 'clone_wider' else ():
            dr.train(m, a, b)
        if fam.startswith('clone'):
            from skmultiflow.core import clone
            rec.count('clones')
            new = fresh()
            try:
                c = clone(m)
                dr.train(c, *ch[0])
            except (TypeError, RuntimeError) as x:
                rec.fail('clone-fails:%s' % e.name, 'the clone of a trained learner cannot be trained: %s' % x)
                return
            dr.train(new, *ch[0])
            for n, (a, b) in list(enumerate(ch))[1:]:
                dr.train(c, a, b)
                dr.train(new, a, b)
                if n in stops:
                    judge(c, new, fam, 'clone of a trained learner against a new one after %d rows' % b)
            return
        if fam == 'deepcopy':
            c = copy.deepcopy(m)
            rec.count('copies')
        else:
            c = pickle.loads(pickle.dumps(m))
            rec.count('pickles')
        if e.pure:
            judge(c, m, fam, 'copy just taken')
        side = copy.deepcopy(c)                     # will learn something else entirely
        for n, (a, b) in enumerate(ch[cut:]):
            dr.train(m, a, b)
            k = int(r.randint(0, d.n - (b - a) + 1))
            dr.train(side, a, b, X=d.X[k:k + b - a][::-1] * 2 + 1, y=d.y[k:k + b - a].copy())
            dr.train(c, a, b)
            if n + cut in stops or n + cut == len(ch) - 1:
                judge(c, m, fam, 'copy and original %d rows later' % (b - ch[cut][0]))
    except M.Skip:
        rec.count('refused')
