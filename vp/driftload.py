"""Online comparison of a detector with its reference automaton over a whole signal."""
import numpy as np


def rng(case):
    return np.random.RandomState((case['seed'] * 7919 + case['i'] * 104729 +
                                  sum(map(ord, case['fam']))) % (2 ** 31))


def close(a, b):
    return abs(a - b) <= 1e-7 * max(1.0, abs(b))


def compare(exp, obs):
    """exp: (change, warning, estimation) with None = not judged."""
    if exp[0] is not None and bool(exp[0]) != bool(obs[0]):
        return False
    if exp[1] is not None and bool(exp[1]) != bool(obs[1]):
        return False
    if exp[2] is not None and not close(obs[2], exp[2]):
        return False
    return True


def drive(rec, det, ref, x, resets, sig, kind):
    """Returns True when the whole run conformed."""
    sched = set(resets)
    for i, v in enumerate(x):
        if i in sched:
            det.reset()
            ref.reset()
            rec.count('resets')
            rec.check(not det.detected_change() and not det.detected_warning_zone(), sig,
                      'a reset detector signals')
        v = float(v)
        det.add_element(v)
        obs = (det.detected_change(), det.detected_warning_zone(), det.estimation)
        good, outs = ref.advance(v, obs, compare)
        rec.ok()
        rec.count('elements')
        if obs[0]:
            rec.count('changes')
            rec.key(sig, kind, i)
        if obs[1]:
            rec.count('warnings')
            rec.key(sig, kind, i, 'w')
        # reading the state again neither changes nor consumes it
        if i % 5 == 0:
            again = (det.detected_change(), det.detected_warning_zone(), det.estimation)
            rec.check(compare(again, obs), sig + ':reread', 'second read differs: %r, %r' % (again, obs))
            le = det.get_length_estimation()
            rec.check(close(le, obs[2]), sig + ':reread', 'get_length_estimation %r, estimation %r' %
                      (le, obs[2]))
        if not good:
            rec.fail(sig, 'element %d (%r) of a %s signal: (change, warning, estimation)=%r, expected '
                     '%r' % (i, v, kind, obs, outs[:3]), signal_head=x[:i + 1][-40:])
            return False
    return True
