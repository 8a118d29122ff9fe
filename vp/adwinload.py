"""Shared ADWIN workloads."""
import numpy as np

from vp import signals


def cases(tier, seed, fam):
    k = 160 if tier == 'quick' else 600
    return [{'fam': fam, 'i': i, 'seed': seed, 'n': 600 if i % 4 else 2500, 'cost': 1 if i % 4 else 4}
            for i in range(k)]


def setup(case):
    r = np.random.RandomState(case['seed'] * 7919 + case['i'] * 104729 + 11)
    n = case['n']
    if r.randint(3) == 0:
        kind, x = signals.binary(r, n)
    else:
        kind, x = signals.real(r, n, bounded=bool(r.randint(2)))
    if r.randint(5) == 0:
        x = np.round(x)
    delta = float(r.choice([0.002, 0.05, 0.3, 1e-5, 1.0]))
    clock = int(r.choice([32, 32, 32, 1, 7]))
    call = r.choice(['every', 'every', 'skip', 'burst'])
    resets = set(int(v) for v in r.randint(0, n, 2)) if r.randint(3) == 0 else set()
    return r, kind, x, delta, clock, call, resets
