"""C09: HDDM_A and HDDM_W signal exactly when the Hoeffding/McDiarmid bound is exceeded."""
from vp import driftload, signals
from vp.refdrift import HDDMARef, HDDMWRef

LEVEL = 'exploration'
RULE = ('an evaluation is one processed element whose (change, warning, estimation) is compared with '
        'the reference automaton; distinct = (detector, signal kind, element index) of every signal')
REQUIRED = {'elements': 40000, 'changes': 100, 'warnings': 200, 'resets': 20}
ASSUMPTIONS = ['values are in [0, 1]']


def cases(tier, seed):
    k = 150 if tier == 'quick' else 800
    return [{'fam': f, 'i': i, 'seed': seed} for f in ('HDDM_A', 'HDDM_W') for i in range(k)]


def run(case, rec):
    from skmultiflow.drift_detection.hddm_a import HDDM_A
    from skmultiflow.drift_detection.hddm_w import HDDM_W
    r = driftload.rng(case)
    n = 700 if case['i'] % 3 else 2000
    kind, x = signals.binary(r, n) if r.randint(3) else signals.real(r, n, bounded=True)
    dc, wc = [(0.001, 0.005), (0.001, 0.005), (0.05, 0.2), (1e-6, 0.01)][r.randint(4)]
    two = bool(r.randint(2))
    resets = r.randint(0, n, 2).tolist() if r.randint(3) == 0 else []
    if case['fam'] == 'HDDM_A':
        kw = dict(drift_confidence=dc, warning_confidence=wc, two_side_option=two)
        rec.sample(detector=case['fam'], parameters=kw, signal=kind)
        driftload.drive(rec, HDDM_A(**kw), HDDMARef(dc, wc, two), x, resets, 'drift:HDDM_A', kind)
        return
    lam = float(r.choice([0.05, 0.05, 0.01, 0.3, 1.0]))
    kw = dict(drift_confidence=dc, warning_confidence=wc, lambda_option=lam, two_side_option=two)
    rec.sample(detector=case['fam'], parameters=kw, signal=kind)
    if not two:
        driftload.drive(rec, HDDM_W(**kw), HDDMWRef(dc, wc, lam, False), x, resets, 'drift:HDDM_W',
                        kind)
        return
    # two-sided: the decrement monitor; a run explained only without it is the known deviation
    n0 = len(rec.fails)
    if driftload.drive(rec, HDDM_W(**kw), HDDMWRef(dc, wc, lam, True), x, resets,
                       'drift:HDDM_W:two_sided', kind):
        return
    del rec.fails[n0:]
    if driftload.drive(rec, HDDM_W(**kw), HDDMWRef(dc, wc, lam, False), x, resets,
                       'drift:HDDM_W', kind):
        rec.fail('hddm_w:decrement_monitor_inactive', 'with two_side_option=True the detector behaves '
                 'exactly as with False: a decrease of the mean never restarts the monitor')
