"""Registry of synthetic generators with sampled configurations."""
import numpy as np

SIMPLE = {
    'SEAGenerator': lambda r: dict(classification_function=int(r.randint(4)),
                                   balance_classes=bool(r.randint(2)),
                                   noise_percentage=float(r.choice([0.0, 0.1, 0.5, 1.0]))),
    'SineGenerator': lambda r: dict(classification_function=int(r.randint(4)),
                                    balance_classes=bool(r.randint(2)),
                                    has_noise=bool(r.randint(2))),
    'STAGGERGenerator': lambda r: dict(classification_function=int(r.randint(3)),
                                       balance_classes=bool(r.randint(2))),
    'MIXEDGenerator': lambda r: dict(classification_function=int(r.randint(2)),
                                     balance_classes=bool(r.randint(2))),
    'AGRAWALGenerator': lambda r: dict(classification_function=int(r.choice([0, 1, 2, 3, 4, 5, 6, 7,
                                                                             8, 9])),
                                       balance_classes=bool(r.randint(2)),
                                       perturbation=float(r.choice([0.0, 0.1, 0.6]))),
    'HyperplaneGenerator': lambda r: _hyper(r),
    'LEDGenerator': lambda r: dict(noise_percentage=float(r.choice([0.0, 0.2, 1.0])),
                                   has_noise=bool(r.randint(2))),
    'LEDGeneratorDrift': lambda r: dict(noise_percentage=float(r.choice([0.0, 0.2])),
                                        has_noise=bool(r.randint(2)),
                                        n_drift_features=int(r.randint(0, 8))),
    'WaveformGenerator': lambda r: dict(has_noise=bool(r.randint(2))),
    'RandomRBFGenerator': lambda r: dict(n_classes=int(r.randint(2, 6)),
                                         n_features=int(r.randint(1, 12)),
                                         n_centroids=int(r.choice([1, 2, 10, 50]))),
    'RandomRBFGeneratorDrift': lambda r: dict(n_classes=int(r.randint(2, 6)),
                                              n_features=int(r.randint(1, 12)),
                                              n_centroids=int(r.choice([1, 2, 10, 50])),
                                              change_speed=float(r.choice([0.0, 0.01, 0.4, 0.4])),
                                              num_drift_centroids=int(r.choice([0, 1, 5, 50, 50]))),
    'RandomTreeGenerator': lambda r: dict(n_classes=int(r.randint(2, 6)),
                                          n_cat_features=int(r.randint(1, 4)),
                                          n_num_features=int(r.randint(1, 5)),
                                          n_categories_per_cat_feature=int(r.randint(2, 5)),
                                          max_tree_depth=int(r.randint(2, 5)),
                                          min_leaf_depth=int(r.randint(1, 3)),
                                          fraction_leaves_per_level=float(r.uniform(0, .5))),
    'MultilabelGenerator': lambda r: dict(n_samples=int(r.choice([60, 300])),
                                          n_features=int(r.randint(2, 9)),
                                          n_targets=int(r.randint(2, 6)),
                                          n_labels=int(r.randint(1, 3))),
    'RegressionGenerator': lambda r: _regr(r),
    'AnomalySineGenerator': lambda r: _anom(r),
}
TWO_SEEDS = {'RandomRBFGenerator': ('model_random_state', 'sample_random_state'),
             'RandomRBFGeneratorDrift': ('model_random_state', 'sample_random_state'),
             'RandomTreeGenerator': ('tree_random_state', 'sample_random_state')}
FINITE = ('MultilabelGenerator', 'RegressionGenerator', 'AnomalySineGenerator')
DRIFTABLE = ('SEAGenerator', 'SineGenerator', 'STAGGERGenerator', 'MIXEDGenerator',
             'AGRAWALGenerator')


def _hyper(r):
    n = int(r.randint(2, 11))
    return dict(n_features=n, n_drift_features=int(r.randint(0, n + 1)),
                mag_change=float(r.choice([0.0, 0.02, 0.3, 0.7])),
                noise_percentage=float(r.choice([0.0, 0.05, 0.3])),
                sigma_percentage=float(r.choice([0.0, 0.1, 0.5, 1.0])))


def _regr(r):
    n = int(r.randint(3, 12))
    return dict(n_samples=int(r.choice([80, 300])), n_features=n,
                n_informative=int(r.randint(1, n + 1)), n_targets=int(r.randint(1, 4)))


def _anom(r):
    n = int(r.choice([60, 300]))
    return dict(n_samples=n, n_anomalies=int(r.randint(1, n)), contextual=bool(r.randint(2)),
                n_contextual=int(r.randint(1, n // 2)), shift=int(r.randint(0, 6)),
                noise=float(r.choice([0.0, 0.5])), replace=bool(r.randint(2)))


def names():
    return sorted(SIMPLE)


def config(name, r):
    return SIMPLE[name](r)


def make(name, cfg, seed):
    import skmultiflow.data as d
    kw = dict(cfg)
    if name in TWO_SEEDS:
        a, b = TWO_SEEDS[name]
        kw[a] = seed % 1000
        kw[b] = seed // 7 % 1000
    else:
        kw['random_state'] = seed
    return getattr(d, name)(**kw)


def partition(r, n, maxb=None):
    """Random batch sizes summing to n."""
    out = []
    style = r.randint(4)
    while n > 0:
        if style == 0:
            b = 1
        elif style == 1:
            b = int(r.randint(1, 4))
        elif style == 2:
            b = int(r.choice([1, 2, 7, 50]))
        else:
            b = int(r.randint(1, max(2, n)))
        b = min(b, n, maxb or n)
        out.append(b)
        n -= b
    return out


def draw(stream, sizes):
    xs, ys = [], []
    for b in sizes:
        X, y = stream.next_sample(b)
        xs.append(np.array(X, copy=True))
        ys.append(np.array(y, copy=True))
    return np.concatenate(xs), np.concatenate(ys)
