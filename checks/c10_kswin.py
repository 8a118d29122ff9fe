"""C10: KSWIN compares a sample of the older window with the newest values and signals exactly on a
significant difference."""
import math

import numpy as np
from scipy import stats

from vp import driftload, signals

LEVEL = 'exploration'
RULE = ('an evaluation is one processed element (window contents, p-value attainability, decision) '
        'or one aggregate of p-values against Monte-Carlo; distinct = (signal, parameters, detection '
        'index) digests')
REQUIRED = {'elements': 20000, 'changes': 50, 'tests': 10000, 'monte_carlo': 6}
ASSUMPTIONS = ['the detector draws from numpy\'s global generator (documented default behaviour); '
               'the workload seeds it']
_cache = {}


def table(r):
    if r not in _cache:
        base = np.arange(r, dtype=float)
        ps = []
        for k in range(r + 1):
            ps.append(stats.ks_2samp(base, base + k - 0.5 * (k > 0), mode='exact'))
        _cache[r] = [(p.statistic, p.pvalue) for p in ps]
    return _cache[r]


def cases(tier, seed):
    k = 150 if tier == 'quick' else 600
    out = [{'fam': 'kswin', 'i': i, 'seed': seed} for i in range(k)]
    out += [{'fam': 'mc', 'i': i, 'seed': seed, 'cost': 4} for i in range(16 if tier == 'quick' else 150)]
    return out


def run(case, rec):
    from skmultiflow.drift_detection import KSWIN
    r = driftload.rng(case)
    if case['fam'] == 'mc':
        return _mc(case, rec, r)
    ss = int(r.choice([5, 10, 20, 30]))
    ws = ss + int(r.choice([2, 5, 30, 70]))
    alpha = float(r.choice([0.005, 0.0001, 0.05, 0.3]))
    n = 500
    kind, x = signals.real(r, n)
    pre = r.normal(size=int(r.randint(0, ws))) if r.randint(3) == 0 else None
    seed = int(r.randint(10 ** 6))
    det = KSWIN(alpha=alpha, window_size=ws, stat_size=ss, data=None if pre is None else pre.copy())
    hist = [] if pre is None else pre.tolist()
    wlen = len(hist)
    dist = table(ss)
    rec.sample(parameters=dict(alpha=alpha, window_size=ws, stat_size=ss), signal=kind)
    np.random.seed(seed)
    log = []
    reset_at = int(r.randint(0, n)) if r.randint(4) == 0 else -1
    for i, v in enumerate(x):
        v = float(v)
        if i == reset_at:
            det.reset()
            hist, wlen = [], 0
            rec.check(len(det.window) == 0 and not det.detected_change() and det.p_value == KSWIN().p_value, 'kswin:reset',
                      "a reset detector still holds elements, a signal or a p-value")
        full = wlen >= ws
        det.add_element(v)
        chg = bool(det.detected_change())
        p = float(det.p_value)
        hist.append(v)
        log.append((chg, p))
        rec.count('elements')
        if not full:
            rec.check(not chg, 'kswin:warmup', 'signal with %d of %d elements' % (wlen, ws))
            wlen += 1
        else:
            rec.count('tests')
            near = [k for k, (st, q) in enumerate(dist) if abs(q - p) <= 1e-9 + 1e-6 * q]
            rec.check(bool(near), 'kswin:p_value', 'p_value %r is not a two-sample KS p-value for '
                      'samples of size %d' % (p, ss))
            if near:
                st = dist[near[-1]][0]
                rec.check(chg == (p <= alpha and st > 0.1), 'kswin:decision',
                          'change=%r with p_value=%r, alpha=%r' % (chg, p, alpha))
            old = np.array(hist[-1 - (ws - 1):-1][:-ss])
            new = np.array(hist[-1 - ss:-1])
            # decided cases: whatever is drawn from the older part, the statistic is known
            if len(old) and (old.max() < new.min() or new.max() < old.min()):
                rec.check(abs(p - dist[-1][1]) < 1e-9, 'kswin:disjoint', 'disjoint ranges but '
                          'p_value=%r' % p)
                rec.count('disjoint')
            if len(old) and np.ptp(np.r_[old, new]) == 0:
                rec.check(p > 0.999 and not chg, 'kswin:constant', 'constant window: p_value=%r' % p)
                rec.count('constant')
            if chg:
                rec.count('changes')
                rec.key(kind, alpha, ws, ss, i)
                wlen = ss + 1
            else:
                wlen = ws
        w = np.asarray(det.window, float)
        rec.check(len(w) == wlen and np.array_equal(w, np.array(hist[-wlen:])), 'kswin:window',
                  lambda: 'window of %d elements does not hold the last %d elements' % (len(w), wlen))
    # same global seed, same decisions
    det = KSWIN(alpha=alpha, window_size=ws, stat_size=ss, data=None if pre is None else pre.copy())
    np.random.seed(seed)
    for i, v in enumerate(x):
        if i == reset_at:
            det.reset()
        det.add_element(float(v))
        rec.check((bool(det.detected_change()), float(det.p_value)) == log[i], 'kswin:repeat',
                  'element %d differs on repetition' % i)
        if (bool(det.detected_change()), float(det.p_value)) != log[i]:
            break


def _mc(case, rec, r):
    """The compared sample is uniform over the older part: p-values follow the resampling law."""
    from skmultiflow.drift_detection import KSWIN
    ss = int(r.choice([10, 20]))
    ws = ss + int(r.choice([20, 60]))
    n = 260
    x = np.cumsum(r.normal(0, 1, n)) * 0.1 + r.normal(0, 1, n)     # slow drift: position matters
    det = KSWIN(alpha=1e-12, window_size=ws, stat_size=ss)
    dist = table(ss)
    tot = exp = var = 0.0
    for i, v in enumerate(x):
        det.add_element(float(v))
        if i < ws:
            continue
        p = float(det.p_value)
        k = int(np.argmin([abs(q - p) for _, q in dist]))
        old = x[i - ws + 1:i - ss]
        new = np.sort(x[i - ss:i])
        S = r.choice(old, size=(120, ss))
        # KS distance of each resample against `new`
        grid = np.sort(np.concatenate([S, np.tile(new, (120, 1))], axis=1), axis=1)
        Ss = np.sort(S, axis=1)
        D = np.array([np.max(np.abs(np.searchsorted(a, g, 'right') - np.searchsorted(new, g, 'right')))
                      for a, g in zip(Ss, grid)])
        tot += k
        exp += D.mean()
        var += D.var() * (1 + 1 / 120) + 0.01
        rec.count('tests')
        rec.count('elements')
    z = (tot - exp) / math.sqrt(var)
    rec.count('monte_carlo')
    rec.key('mc', ss, ws, round(z, 6))
    rec.sample(z=z, window=ws, stat=ss)
    rec.check(abs(z) < 6.5, 'kswin:sampling', 'KS distances sum to %.1f, resampling the older part '
              'gives %.1f (z=%.1f)' % (tot, exp, z))
