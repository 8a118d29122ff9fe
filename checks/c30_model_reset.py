"""reset() makes a learner forget everything."""
import numpy as np

from vp import models as M

LEVEL = 'exploration'
RULE = ('After reset(), whatever it had learned before (another concept, another set of classes, nothing at all, or '
        'two histories), a learner is indistinguishable from a newly constructed one with the same parameters: same '
        'answers at every later moment, for the same training, down to its random choices.')
REQUIRED = {'models': 34, 'resets': 350, 'answers': 1000, 'detector_resets': 40, 'wider': 60}
ASSUMPTIONS = ['RobustSoftLearningVectorQuantization, HalfSpaceTrees and PerceptronMask offer no reset of their own; '
               'learners are given the classes again after a reset']
FAMS = ('same', 'other', 'twice', 'untrained', 'wider')
DETECTORS = ('ADWIN', 'DDM', 'EDDM', 'HDDM_A', 'HDDM_W', 'PageHinkley', 'KSWIN')


def cases(tier, seed):
    return (M.cases([(f, lambda e: e.reset) for f in FAMS], tier, seed, 4, 40, 30)
            + [{'fam': 'detector', 'i': i, 'seed': seed, 'det': n}
               for n in DETECTORS for i in range(12 if tier == 'quick' else 120)]
            + [{'fam': 'wider', 'model': 'StreamingRandomPatchesClassifier', 'i': 4 * i, 'cost': 3,
                'seed': (seed * 1000003 + 77777 + i) % (2 ** 31)} for i in range(8 if tier == 'quick' else 80)])


def detector(case, rec):
    import skmultiflow.drift_detection as dd
    from vp.driftload import rng
    r = rng(case)
    kw = {'ADWIN': dict(delta=float(r.choice([0.002, 0.3]))),
          'DDM': dict(min_num_instances=int(r.choice([10, 30])), warning_level=1.0, out_control_level=1.5),
          'EDDM': {}, 'HDDM_A': dict(drift_confidence=0.05, warning_confidence=0.1),
          'HDDM_W': dict(drift_confidence=0.05, warning_confidence=0.1, lambda_option=0.1),
          'PageHinkley': dict(min_instances=10, threshold=5.0, delta=0.01),
          'KSWIN': dict(alpha=0.05, window_size=60, stat_size=15)}[case['det']]
    cls = getattr(dd, case['det'])
    n = 500

    def signal():
        p = np.repeat(r.choice([0.1, 0.3, 0.6, 0.9], size=5), n // 5)
        return (r.rand(n) < p).astype(float)

    def trace(d, data):
        np.random.seed(7)                    # KSWIN samples from the global generator
        o = []
        for x in data:
            d.add_element(x)
            o.append((bool(d.detected_change()), bool(d.detected_warning_zone())))
        return o
    xs = signal()
    want = trace(cls(**kw), xs)
    d = cls(**kw)
    trace(d, signal()[:int(r.randint(1, n))])
    d.reset()
    # asking ADWIN for its verdict advances its clock, so it is not asked here
    rec.check(case['det'] == 'ADWIN' or not d.detected_change(), 'detector-flag:%s' % case['det'], 'a change is reported right after reset')
    rec.check(trace(d, xs) == want, 'detector-reset:%s' % case['det'],
              'a detector that was reset decides differently from a new one')
    rec.count('detector_resets')
    rec.key(case['det'], want)


def run(case, rec):
    if case['fam'] == 'detector':
        return detector(case, rec)
    e, d, dr, fresh, r = M.start(case)
    if case['i'] == 0 and case['fam'] == 'same':
        rec.count('models')
    wide = case['fam'] == 'wider'
    if wide:                         # from few features and many classes, or the other way round
        up = case['i'] % 4 != 3
        d = M.Data(e, r, d=e.d[1] if up else e.d[0], k=2 if up else 3)
        dr = M.Driver(e, d, weights=dr.weights)
        rec.count('wider')
    m, new = fresh(), fresh()
    try:
        for _ in range({'same': 1, 'other': 1, 'twice': 2, 'untrained': 0, 'wider': 1}[case['fam']]):
            if wide:
                od = M.Data(e, r, d=e.d[0] if up else e.d[1], k=3 if up else 2)
            elif case['fam'] == 'other':
                od = M.Data(e, r)
            else:
                od = M.Data(e, r)
                while od.k != d.k or od.d != d.d:
                    od = M.Data(e, r)
            odr = M.Driver(e, od, weights=dr.weights)
            ch = odr.chunks(r)
            for a, b in ch[:int(r.randint(1, len(ch) + 1))]:
                odr.train(m, a, b)
            if e.pure:
                M.out(m, od.probe, e)
            m.reset()
        if case['fam'] == 'untrained':
            m.reset()
        rec.count('resets')
        if e.fit0:
            bad = M.same_out(M.out(m, d.probe, e), M.out(new, d.probe, e))
            rec.check(bad is None, 'untrained:%s' % e.name, lambda: 'right after reset: %s' % bad)
        ch = dr.chunks(r)
        stops = set(r.randint(1, len(ch), size=3).tolist()) | {0, len(ch) - 1}
        for n, (a, b) in enumerate(ch):
            dr.train(m, a, b)
            dr.train(new, a, b)
            if n in stops:
                want = M.out(new, d.probe, e)
                bad = M.same_out(M.out(m, d.probe, e), want)
                rec.check(bad is None, 'reset:%s' % e.name, lambda: '%d rows after reset: %s' % (b, bad))
                rec.count('answers')
                rec.key(e.name, want[0])
    except M.Skip:
        rec.count('refused')
