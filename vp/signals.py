"""Workload signals for detectors and windows."""
import numpy as np


def binary(rng, n, kind=None):
    kind = kind or rng.choice(['stationary', 'abrupt', 'recur', 'gradual', 'burst', 'zeros', 'ones',
                               'sparse', 'improve', 'alternate', 'zeros_then', 'ones_then'])
    if kind == 'stationary':
        p = np.full(n, rng.uniform(0.02, 0.6))
    elif kind == 'abrupt':
        c = rng.randint(n // 4, 3 * n // 4)
        p = np.r_[np.full(c, rng.uniform(0.0, 0.3)), np.full(n - c, rng.uniform(0.4, 1.0))]
    elif kind == 'improve':
        c = rng.randint(n // 4, 3 * n // 4)
        p = np.r_[np.full(c, rng.uniform(0.5, 1.0)), np.full(n - c, rng.uniform(0.0, 0.3))]
    elif kind == 'recur':
        k = rng.randint(40, 200)
        lo, hi = rng.uniform(0, 0.2), rng.uniform(0.5, 1.0)
        p = np.where((np.arange(n) // k) % 2 == 0, lo, hi)
    elif kind == 'gradual':
        p = np.linspace(rng.uniform(0, .3), rng.uniform(.4, 1), n)
    elif kind == 'burst':
        p = np.full(n, 0.05)
        for _ in range(4):
            s = rng.randint(0, n)
            p[s:s + rng.randint(5, 60)] = 1.0
    elif kind == 'sparse':
        p = np.full(n, 0.01)
    elif kind == 'zeros':
        p = np.zeros(n)
    elif kind == 'ones':
        p = np.ones(n)
    elif kind == 'zeros_then':
        c = rng.randint(n // 4, 3 * n // 4)
        p = np.r_[np.zeros(c), np.full(n - c, rng.uniform(0.3, 1.0))]
    elif kind == 'ones_then':
        c = rng.randint(n // 4, 3 * n // 4)
        p = np.r_[np.ones(c), np.full(n - c, rng.uniform(0.0, 0.7))]
    else:
        return kind, (np.arange(n) % rng.randint(2, 7) == 0).astype(float)
    return kind, (rng.uniform(size=n) < p).astype(float)


def real(rng, n, kind=None, bounded=False):
    kind = kind or rng.choice(['normal', 'shift', 'const', 'const_shift', 'walk', 'uniform', 'ramp',
                               'spike', 'scale', 'binary', 'down'])
    if kind == 'normal':
        x = rng.normal(rng.uniform(-3, 3), rng.uniform(0.1, 3), n)
    elif kind in ('shift', 'down'):
        c = rng.randint(n // 4, 3 * n // 4)
        s = rng.uniform(1, 6) * (1 if kind == 'shift' else -1)
        x = rng.normal(0, 1, n) + np.where(np.arange(n) >= c, s, 0)
    elif kind == 'const':
        x = np.full(n, float(rng.choice([0.0, 1.0, 0.5, -2.0, 1e6])))
    elif kind == 'const_shift':
        c = rng.randint(n // 4, 3 * n // 4)
        x = np.where(np.arange(n) >= c, rng.uniform(-5, 5), rng.uniform(-5, 5))
    elif kind == 'walk':
        x = np.cumsum(rng.normal(0, 0.3, n))
    elif kind == 'uniform':
        x = rng.uniform(0, 1, n)
    elif kind == 'ramp':
        x = np.linspace(0, rng.uniform(1, 50), n) + rng.normal(0, .2, n)
    elif kind == 'spike':
        x = rng.normal(0, 1, n)
        x[rng.randint(0, n, 3)] += 100
    elif kind == 'scale':
        c = rng.randint(n // 4, 3 * n // 4)
        x = rng.normal(0, 1, n) * np.where(np.arange(n) >= c, 10, 0.1)
    else:
        return 'binary:' + binary(rng, n)[0], binary(rng, n)[1]
    if bounded:
        lo, hi = x.min(), x.max()
        x = (x - lo) / (hi - lo) if hi > lo else np.clip(x, 0, 1)
    return kind, x
