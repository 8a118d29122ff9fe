"""C03: a stream's metadata describes exactly what it delivers."""
import os

import numpy as np
import pandas as pd

from vp import streams as S

LEVEL = 'exploration'
RULE = ('an evaluation is one metadata statement compared with the samples delivered or with the '
        'source table; distinct = (stream kind, configuration) digests')
REQUIRED = {'batches': 500, 'sources': 50, 'rejections': 40}


def cases(tier, seed):
    k = 10 if tier == 'quick' else 80
    out = [{'fam': n, 'i': i, 'seed': seed} for n in S.names() for i in range(k)]
    out += [{'fam': f, 'i': i, 'seed': seed} for f in ('source', 'reject')
            for i in range(150 if tier == 'quick' else 400)]
    return out


def _rng(case):
    return np.random.RandomState((case['seed'] * 7919 + case['i'] * 104729 +
                                  sum(map(ord, case['fam']))) % (2 ** 31))


def run(case, rec):
    r = _rng(case)
    if case['fam'] == 'source':
        return _source(case, rec, r)
    if case['fam'] == 'reject':
        return _reject(case, rec, r)
    name = case['fam']
    cfg = S.config(name, r)
    st = S.make(name, cfg, int(r.randint(1000)))
    rec.key(name, repr(sorted(cfg.items())))
    rec.sample(stream=name, config=cfg, n_features=st.n_features, n_classes=st.n_classes)
    sig = 'meta:%s:' % name
    for k in ('n_features', 'n_targets', 'n_classes', 'n_num_features', 'n_cat_features'):
        if k in cfg and not (name == 'RandomTreeGenerator' and k == 'n_features'):
            rec.check(getattr(st, k) == cfg[k], sig + k, '%s is %r, configured %r' %
                      (k, getattr(st, k), cfg[k]))
    if name == 'RandomTreeGenerator':
        want = cfg['n_num_features'] + cfg['n_cat_features'] * cfg['n_categories_per_cat_feature']
    else:
        want = st.n_num_features + st.n_cat_features
    rec.check(st.n_features == want, sig + 'n_features', 'n_features=%r, parts give %r' %
              (st.n_features, want))
    if name in ('LEDGenerator', 'LEDGeneratorDrift'):
        rec.check(st.n_features == (24 if cfg['has_noise'] else 7), sig + 'n_features')
    if name == 'SineGenerator':
        rec.check(st.n_features == (4 if cfg['has_noise'] else 2), sig + 'n_features')
    if name == 'WaveformGenerator':
        rec.check(st.n_features == (40 if cfg['has_noise'] else 21), sig + 'n_features')
    rec.check(len(st.feature_names) == st.n_features, sig + 'feature_names',
              '%d feature names for %d features' % (len(st.feature_names), st.n_features))
    rec.check(len(set(st.feature_names)) == st.n_features, sig + 'feature_names', 'duplicate names')
    if st.target_names is not None:
        rec.check(len(st.target_names) == st.n_targets, sig + 'target_names',
                  '%d target names for %d targets' % (len(st.target_names), st.n_targets))
    rec.check(st.last_sample() == (None, None), sig + 'last', 'a sample before the first delivery')
    infinite = name not in S.FINITE
    seen = set()
    total = 0
    for b in ([1, 3, 50, 2] if not infinite else [1, 2, 30, 200, 1]):
        if not infinite and total + b > cfg['n_samples']:
            break
        if infinite:
            rec.check(st.n_remaining_samples() == -1, sig + 'remaining', 'not -1 for an endless stream')
            rec.check(st.has_more_samples() is True, sig + 'has_more')
        X, y = st.next_sample(b)
        rec.count('batches')
        total += b
        rec.check(X.shape == (b, st.n_features), sig + 'shape',
                  'batch of %d has shape %r with n_features=%d' % (b, X.shape, st.n_features))
        ys = (b,) if st.n_targets == 1 else (b, st.n_targets)
        rec.check(np.shape(y) == ys, sig + 'shape', 'targets of shape %r, expected %r' %
                  (np.shape(y), ys))
        rec.check(bool(np.all(np.isfinite(X))), sig + 'finite', 'non-finite feature')
        lx, ly = st.last_sample()
        rec.same(np.asarray(lx), np.asarray(X), sig + 'last', 'last_sample features')
        rec.same(np.asarray(ly), np.asarray(y), sig + 'last', 'last_sample targets')
        if name != 'RegressionGenerator':
            if st.n_targets == 1:
                bad = set(np.unique(y).tolist()) - set(st.target_values)
                seen |= set(np.unique(y).tolist())
                rec.check(not bad, sig + 'target_values', 'labels %r not in %r' %
                          (bad, st.target_values))
            else:
                for t in range(st.n_targets):
                    bad = set(np.unique(y[:, t]).tolist()) - set(st.target_values[t])
                    rec.check(not bad, sig + 'target_values')
    if name not in ('RegressionGenerator', 'MultilabelGenerator', 'AnomalySineGenerator'):
        rec.check(list(st.target_values) == list(range(st.n_classes)), sig + 'target_values',
                  'target_values %r with n_classes=%d' % (st.target_values, st.n_classes))
    if name == 'RegressionGenerator':
        rec.check(st.target_values == [float] * st.n_targets, sig + 'target_values')
    if hasattr(st, 'cat_features_idx') and name == 'MIXEDGenerator':
        st2 = S.make(name, cfg, 3)
        X, _ = st2.next_sample(200)
        for j in st.cat_features_idx:
            rec.check(set(np.unique(X[:, j])) <= {0., 1.}, sig + 'cat', 'non-categorical values')
    info = st.get_data_info()
    rec.check(str(st.n_features) in info, sig + 'info', 'n_features missing from %r' % info)
    rec.check(st.is_restartable() is True, sig + 'restartable')


def _source(case, rec, r):
    from skmultiflow.data import DataStream, FileStream, TemporalDataStream
    n, d, t = int(r.randint(2, 60)), int(r.randint(2, 7)), int(r.randint(1, 4))
    integer = bool(r.randint(2))
    X = np.round(r.normal(size=(n, d)) * 256) / 256
    labels = np.sort(r.choice(np.arange(-3, 40), size=int(r.randint(1, 6)), replace=False))
    Y = r.choice(labels, size=(n, t)) if integer else np.round(r.normal(size=(n, t)) * 256) / 256 + 1 / 512
    fn = ['feat %d' % j for j in r.permutation(d)]
    tn = ['tgt %d' % j for j in r.permutation(t)]
    kind = int(r.randint(5))
    cat = None if r.randint(2) else sorted(int(v) for v in
                                           r.choice(d, int(r.randint(1, d + 1)), replace=False))
    p = int(r.randint(0, d + 1))
    df = pd.DataFrame({k: v for k, v in
                       [(fn[j], X[:, j]) for j in range(p)] +
                       [(tn[j], Y[:, j]) for j in range(t)] +
                       [(fn[j], X[:, j]) for j in range(p, d)]})
    sig = 'meta:source%d:' % kind
    nm = None if r.randint(2) else 'nm'
    if kind == 0:
        st = DataStream(df, target_idx=p, n_targets=t, cat_features=cat, name=nm)
    elif kind == 1:
        st = DataStream(pd.DataFrame(X, columns=fn), pd.DataFrame(Y, columns=tn), cat_features=cat)
    elif kind == 2:
        path = os.path.join(os.getcwd(), 'a%d.CSV' % case['i'])
        df.to_csv(path, index=False)
        st = FileStream(path, target_idx=p, n_targets=t, cat_features=cat)
        ax, ay = st.get_all_samples()
        rec.same(np.asarray(ax, float), X, sig + 'all', 'get_all_samples features')
        rec.same(np.asarray(ay, float), Y.astype(float), sig + 'all', 'get_all_samples targets')
    elif kind == 3:
        df = df[[c for c in df.columns if c in fn] + tn]
        path = os.path.join(os.getcwd(), 'b%d.csv' % case['i'])
        df.to_csv(path, index=False)
        st = FileStream(path, n_targets=t, cat_features=cat)   # default index: last columns
    else:
        st = TemporalDataStream(pd.DataFrame(X, columns=fn), pd.DataFrame(Y, columns=tn),
                                cat_features=cat)
    rec.count('sources')
    rec.key(kind, n, d, t, integer, cat, p)
    rec.sample(kind=kind, shape=[n, d], targets=t, integer=integer, cat=cat, target_idx=p)
    rec.check(st.n_samples == n, sig + 'n_samples', '%r != %r' % (st.n_samples, n))
    rec.check(st.n_features == d, sig + 'n_features', '%r != %r' % (st.n_features, d))
    rec.check(st.n_targets == t, sig + 'n_targets', '%r != %r' % (st.n_targets, t))
    nc = 0 if cat is None else len(cat)
    rec.check(st.n_cat_features == nc and st.n_num_features == d - nc, sig + 'cat',
              'n_cat=%r n_num=%r expected %d/%d' % (st.n_cat_features, st.n_num_features, nc, d - nc))
    rec.check(list(st.cat_features_idx) == (cat or []), sig + 'cat')
    rec.check(list(st.feature_names) == fn, sig + 'names', '%r != %r' % (st.feature_names, fn))
    rec.check(list(st.target_names) == tn, sig + 'names', '%r != %r' % (st.target_names, tn))
    if integer:
        rec.check(st.n_classes == len(np.unique(Y)), sig + 'n_classes', '%r' % st.n_classes)
        want = np.unique(Y).tolist() if t == 1 else [np.unique(Y[:, j]).tolist() for j in range(t)]
        rec.check(st.target_values == want, sig + 'target_values', '%r != %r' %
                  (st.target_values, want))
        rec.check('%d target(s), %d classes' % (t, len(np.unique(Y))) in st.get_data_info(),
                  sig + 'info', st.get_data_info())
    else:
        rec.check(st.target_values == [float] * t, sig + 'target_values')
        rec.check('%d target(s)' % t in st.get_data_info(), sig + 'info')
    out = st.next_sample(n)
    gx = np.asarray(out[0], float)
    rec.same(gx, X, sig + 'columns', 'feature columns do not follow feature_names')


def _reject(case, rec, r):
    """Inputs and parameters outside the documented domain are refused, never accepted silently."""
    import skmultiflow.data as D
    n = 12
    X = r.normal(size=(n, 3))
    y = r.randint(0, 2, n)
    bad = X.copy()
    bad[int(r.randint(n)), int(r.randint(3))] = np.nan
    E = (ValueError, IndexError, TypeError, FileNotFoundError)
    todo = [
        lambda: D.DataStream(bad, y),
        lambda: D.DataStream(np.column_stack([bad, y])),
        lambda: D.DataStream(pd.DataFrame({'a': ['x', 'y'], 'b': [1, 2]})),
        lambda: D.DataStream(X, y[:-1]),
        lambda: D.DataStream(X, y, cat_features=[3]),
        lambda: D.DataStream(X.tolist(), y),
        lambda: D.DataStream(X, y.tolist()),
        lambda: D.FileStream(os.path.join(os.getcwd(), 'missing.csv')),
        lambda: D.FileStream(os.path.join(os.getcwd(), 'missing.txt')),
        lambda: D.TemporalDataStream(X, y, time=list(range(n))),
        lambda: D.TemporalDataStream(X, y, sample_delay=np.timedelta64(1, 'D')),
        lambda: D.TemporalDataStream(X, y, ordered=False),
        lambda: D.SEAGenerator(classification_function=int(r.choice([-1, 4, 9]))),
        lambda: D.SineGenerator(classification_function=int(r.choice([-1, 4, 9]))),
        lambda: D.STAGGERGenerator(classification_function=int(r.choice([-1, 3, 9]))),
        lambda: D.MIXEDGenerator(classification_function=int(r.choice([-1, 2, 9]))),
        lambda: D.AGRAWALGenerator(classification_function=int(r.choice([-1, 10, 19]))),
        lambda: D.AGRAWALGenerator(perturbation=float(r.choice([-0.1, 1.01]))),
        lambda: D.SEAGenerator(noise_percentage=float(r.choice([-0.1, 1.01]))),
        lambda: D.AnomalySineGenerator(n_samples=10, n_anomalies=11),
        lambda: D.AnomalySineGenerator(n_samples=10, n_anomalies=1, contextual=True,
                                       n_contextual=11),
        lambda: D.HyperplaneGenerator(noise_percentage=float(r.choice([-0.1, 1.01]))),
        lambda: D.HyperplaneGenerator(mag_change=float(r.choice([-0.1, 1.01]))),
        lambda: D.HyperplaneGenerator(sigma_percentage=float(r.choice([-0.1, 1.01]))),
        lambda: D.LEDGenerator(noise_percentage=float(r.choice([-0.1, 1.01]))),
        lambda: D.LEDGenerator(has_noise='yes'),
        lambda: D.WaveformGenerator(has_noise='yes'),
        lambda: D.SineGenerator(has_noise='yes'),
        lambda: D.SineGenerator(balance_classes='yes'),
        lambda: D.SEAGenerator(balance_classes='yes'),
        lambda: D.STAGGERGenerator(balance_classes='yes'),
        lambda: D.MIXEDGenerator(balance_classes='yes'),
        lambda: D.AGRAWALGenerator(balance_classes='yes'),
        lambda: D.ConceptDriftStream(D.SEAGenerator(), D.SineGenerator(),
                                     alpha=float(r.choice([-1., 90.5, 180.]))),
        lambda: D.TemporalDataStream(X.tolist(), y),
        lambda: D.TemporalDataStream(X, y, time=pd.date_range('2020-01-01', periods=n).values,
                                     sample_delay='1d'),
        lambda: D.TemporalDataStream(bad, y, sample_delay=1),
        lambda: D.DataStream(X, y, cat_features=[0, 5]),
    ]
    k = case['i'] % len(todo)
    rec.count('rejections')
    rec.key('reject', k)
    try:
        todo[k]()
    except E:
        rec.ok()
        return
    rec.fail('meta:reject:%d' % k, 'invalid construction %d was accepted' % k)
