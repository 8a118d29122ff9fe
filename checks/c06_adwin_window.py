"""C06: ADWIN's published statistics are exactly those of the most recent `width` elements."""
import numpy as np

from vp import adwinload
from vp.refadwin import Sim

LEVEL = 'exploration'
RULE = ('an evaluation compares one published statistic with its recomputation from the recorded '
        'elements; distinct = digests of (signal kind, delta, window contents at a detection)')
REQUIRED = {'elements': 20000, 'detections': 100, 'variance_exact': 5000}
ASSUMPTIONS = ['the window is queried at quiescent points: after an element and its detection step']


def cases(tier, seed):
    return adwinload.cases(tier, seed, 'adwin')


def run(case, rec):
    from skmultiflow.drift_detection import ADWIN
    r, kind, x, delta, clock, call, resets = adwinload.setup(case)
    a = ADWIN(delta=delta)
    if clock != 32:
        a.set_clock(clock)
    hist = []
    quirk = Sim(delta, False, False, clock)
    quirk_ok = True
    cut_since_reset = False
    dets = 0
    rec.sample(signal=kind, delta=delta, clock=clock, calls=call, head=x[:5])
    rec.check(a.width == 0 and a.total == 0 and a.estimation == 0, 'adwin:empty', 'initial state')
    for i, v in enumerate(x):
        v = float(v)
        if i in resets:
            a.reset()
            a.set_clock(clock)
            hist, dets, cut_since_reset = [], 0, False
            quirk, quirk_ok = Sim(delta, False, False, clock), True
            rec.check(a.width == 0 and a.total == 0 and a.estimation == 0 and a.n_detections == 0,
                      'adwin:empty', 'state after reset')
        w0 = a.width
        a.add_element(v)
        hist.append(v)
        quirk.add(v)
        rec.count('elements')
        rec.check(a.width == w0 + 1, 'adwin:width', 'width %r after adding to %r' % (a.width, w0))
        w1 = a.width
        times = {'every': 1, 'skip': int(i % 3 == 0), 'burst': int(r.randint(0, 3))}[call]
        for _ in range(times):
            before = a.width
            chg = a.detected_change()
            rec.check(chg in (True, False), 'adwin:flag', repr(chg))
            rec.check((a.width < before) == bool(chg), 'adwin:shrink',
                      'change=%r but width went from %r to %r' % (chg, before, a.width))
            dets += bool(chg)
            if chg:
                rec.count('detections')
                cut_since_reset = True
                rec.key(kind, delta, a.width, round(a.total, 9))
            if quirk_ok:
                nxt = [s for s, c in quirk.detect() if c == bool(chg) and s.n == a.width]
                if nxt:
                    quirk = nxt[0]
                else:
                    quirk_ok = False
        w = int(a.width)
        rec.check(0 < w <= len(hist), 'adwin:width', 'width %r of %d elements' % (w, len(hist)))
        win = np.array(hist[-w:])
        scale = max(1.0, np.abs(hist).max() if i % 50 == 0 else 1.0, abs(win).max())
        tol = 1e-9 * scale * max(1, len(hist))
        rec.check(abs(a.total - win.sum()) <= tol, 'adwin:total', lambda:
                  'total %r, last %d elements sum to %r' % (a.total, w, win.sum()))
        rec.check(abs(a.estimation - win.mean()) <= tol, 'adwin:estimation', lambda:
                  'estimation %r, mean of the last %d elements %r' % (a.estimation, w, win.mean()))
        rec.check(a.n_detections == dets, 'adwin:n_detections', '%r detections counted, %d seen' %
                  (a.n_detections, dets))
        rec.check(not a.detected_warning_zone(), 'adwin:warning')
        var = a.variance
        ev = win.var()
        vt = 1e-7 * max(1.0, scale * scale) + 1e-7 * ev
        if abs(var - ev) <= vt:
            rec.ok()
            rec.count('variance_exact')
        elif cut_since_reset and quirk_ok and abs(var - quirk.m2 / quirk.n) <= vt:
            rec.count('variance_known_deviation')
            if not any(f['sig'] == 'adwin:variance_after_deletion' for f in rec.fails):
                rec.fail('adwin:variance_after_deletion', 'variance %r after dropping merged buckets, '
                         'variance of the last %d elements is %r' % (var, w, ev))
        else:
            rec.fail('adwin:variance', 'variance %r, variance of the last %d elements is %r' %
                     (var, w, ev))
