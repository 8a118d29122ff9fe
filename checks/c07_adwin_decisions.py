"""C07: ADWIN cuts exactly when the documented bound is exceeded, dropping the oldest bucket."""
from vp import adwinload
from vp.refadwin import Sim

LEVEL = 'exploration'
RULE = ('an evaluation is one detection step whose outcome (change flag, remaining width) is compared '
        'with the exponential-histogram reference; distinct = digests of (signal, delta, step, width)')
REQUIRED = {'steps': 20000, 'changes': 100, 'resets': 5}
ASSUMPTIONS = ['bucket variances may or may not be accumulated over merges, and the newest bucket of '
               'each size may or may not be a cut point (one combination must explain the whole run)']


def cases(tier, seed):
    return adwinload.cases(tier, seed, 'adwin')


def run(case, rec):
    from skmultiflow.drift_detection import ADWIN
    r, kind, x, delta, clock, call, resets = adwinload.setup(case)
    a = ADWIN(delta=delta)
    a.set_clock(clock)

    def fresh():
        return {(c, f): [Sim(delta, c, f, clock)] for c in (False, True) for f in (False, True)}
    sims = fresh()
    rec.sample(signal=kind, delta=delta, clock=clock, calls=call)
    for i, v in enumerate(x):
        if i in resets:
            a.reset()
            a.set_clock(clock)
            sims = fresh()
            rec.count('resets')
        a.add_element(float(v))
        for ss in sims.values():
            for s in ss:
                s.add(float(v))
        times = {'every': 1, 'skip': int(i % 3 == 0), 'burst': int(r.randint(0, 3))}[call]
        for _ in range(times):
            w0 = a.width
            chg = bool(a.detected_change())
            rec.count('steps')
            if chg:
                rec.count('changes')
                rec.key(kind, delta, i, a.width)
            keep = {}
            want = set()
            for k, ss in sims.items():
                nxt = []
                for s in ss:
                    for t, c in s.detect():
                        want.add((c, t.n))
                        if c == chg and t.n == a.width:
                            nxt.append(t)
                if nxt:
                    keep[k] = nxt[:8]
            rec.check(bool(keep), 'adwin:decision', lambda:
                      'element %d (window %d): change=%r width=%r, expected (change, width) in %r' %
                      (i, w0, chg, a.width, sorted(want)))
            if not keep:
                return
            sims = keep
