"""C08: DDM, EDDM and Page-Hinkley signal exactly when their published statistic says so."""
import numpy as np

from vp import driftload, signals
from vp.refdrift import DDMRef, EDDMRef, PageHinkleyRef

LEVEL = 'exploration'
RULE = ('an evaluation is one processed element whose (change, warning, estimation) is compared with '
        'the reference automaton; distinct = (detector, signal kind, element index) of every signal')
REQUIRED = {'elements': 40000, 'changes': 200, 'warnings': 500, 'resets': 20}
ASSUMPTIONS = ['comparisons within 1e-9 of equality are accepted either way unless both sides are '
               'exact']


def cases(tier, seed):
    k = 150 if tier == 'quick' else 600
    return [{'fam': f, 'i': i, 'seed': seed} for f in ('DDM', 'EDDM', 'PageHinkley')
            for i in range(k)]


def run(case, rec):
    from skmultiflow.drift_detection import DDM, EDDM, PageHinkley
    r = driftload.rng(case)
    n = 900 if case['i'] % 3 else 3000
    if case['fam'] == 'DDM':
        kw = dict(min_num_instances=int(r.choice([30, 30, 1, 2, 100])),
                  warning_level=float(r.choice([2.0, 2.0, 1.0, 0.5])),
                  out_control_level=float(r.choice([3.0, 3.0, 2.0, 5.0])))
        det, ref = DDM(**kw), DDMRef(*kw.values())
        kind, x = signals.binary(r, n)
    elif case['fam'] == 'EDDM':
        kw = {}
        det, ref = EDDM(), EDDMRef()
        kind, x = signals.binary(r, n)
        if r.randint(3) == 0:
            # error gaps that shrink: the situation EDDM looks for
            gaps = np.maximum(1, np.linspace(r.randint(10, 40), 1, 200) + r.normal(0, 2, 200)).astype(int)
            x = np.concatenate([np.r_[np.zeros(g - 1), 1.0] for g in gaps])
            kind = 'shrinking gaps'
    else:
        kw = dict(min_instances=int(r.choice([30, 1, 5, 200])), delta=float(r.choice([0.005, 0.0, 0.5])),
                  threshold=float(r.choice([50, 5, 1, 0.5, 20])),
                  alpha=float(r.choice([1 - 0.0001, 1.0, 0.9])))
        det, ref = PageHinkley(**kw), PageHinkleyRef(*kw.values())
        kind, x = signals.real(r, n)
    resets = r.randint(0, n, 2).tolist() if r.randint(3) == 0 else []
    rec.sample(detector=case['fam'], parameters=kw, signal=kind, head=x[:6])
    driftload.drive(rec, det, ref, x, resets, 'drift:' + case['fam'], kind)
