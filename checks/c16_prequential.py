"""C16: prequential evaluation tests on every sample exactly once before it trains on it."""
import numpy as np

from vp import driftload
from vp import evalload as E

LEVEL = 'exploration'
RULE = ('an evaluation is one row-level obligation (predicted once, by the model state it should '
        'see, trained once, in order, unaltered); distinct = (source, sizes, batch, models) digests')
REQUIRED = {'rows_predicted': 10000, 'rows_trained': 10000, 'multi_model': 20, 'partial_batch': 10,
            'real_model_rows': 2000, 'restarts_off': 10, 'time_limited': 10}
ASSUMPTIONS = ['batches are processed whole, so the evaluation may run past max_samples by less '
               'than one batch; streams have at least 40 samples']


def cases(tier, seed):
    k = 300 if tier == 'quick' else 1500
    kr = 12 if tier == 'quick' else 100
    out = [{'fam': 'spy', 'i': i, 'seed': seed} for i in range(k)]
    out += [{'fam': 'data', 'i': i, 'seed': seed} for i in range(k // 2)]
    out += [{'fam': 'real', 'i': i, 'seed': seed, 'cost': 5} for i in range(kr)]
    out += [{'fam': 'time', 'i': i, 'seed': seed, 'cost': 2} for i in range(8 if tier == 'quick' else 60)]
    return out


def scenario(r, case, log):
    from skmultiflow.data import DataStream
    task = E.TASKS[r.randint(4)]
    n = int(r.choice([40, 57, 100, 163]))
    X, y = E.table(r, task, n)
    fam = case['fam']
    finite = True
    if fam == 'data':
        st = DataStream(X, y, n_targets=1 if y.ndim == 1 else y.shape[1], name='d')
    else:
        finite = bool(r.randint(4))
        st = E.spy_stream_class()(X, y, task, log, finite=finite)
    p = int(r.choice([0, 0, 1, 7, 20, 30]))
    b = int(r.choice([1, 1, 2, 3, 8, 25]))
    if not finite and n < 100:
        b = min(b, 8)
    if finite:
        mx = int(r.choice([n + 50, n + 3, n + 15, n, n - 5]))
    else:
        mx = n - b - 1
        while (mx - p) > 0 and p + -(-(mx - p) // b) * b > n:
            mx -= 1
    if mx <= p + 1:
        mx = n
        p = 0
        if not finite:
            mx = n - b
    w = int(r.choice([1, 5, 10, 33, n]))
    return task, X, y, st, finite, n, p, b, mx, w


def processed(n, p, b, mx, finite):
    target = min(n, mx) if finite else mx
    return min(n, p + -(-(target - p) // b) * b)


def run(case, rec):
    if case['fam'] == 'real':
        return real(case, rec)
    if case['fam'] == 'time':
        return E.time_limit(rec, 'preq', driftload.rng(case), 'preq')
    from skmultiflow.evaluation import EvaluatePrequential
    r = driftload.rng(case)
    log = []
    task, X, y, st, finite, n, p, b, mx, w = scenario(r, case, log)
    n_models = int(r.choice([1, 2, 3]))
    restart = bool(r.randint(4))
    metrics = [m for m in E.METRICS[task] if m not in ('running_time', 'model_size')]
    if n_models == 1 or r.randint(2):
        metrics = metrics[:2]
    ev = EvaluatePrequential(n_wait=w, max_samples=mx, batch_size=b, pretrain_size=p,
                             metrics=metrics, restart_stream=restart)
    rounds = 2 if restart and r.randint(2) else 1
    rec.sample(task=task, rows=n, pretrain=p, batch=b, max_samples=mx, n_wait=w, models=n_models,
               restart=restart, finite=finite)
    total = processed(n, p, b, mx, finite)
    rec.count('multi_model', n_models > 1)
    rec.count('partial_batch', (total - p) % b != 0)
    rec.count('restarts_off', not restart)
    Xc, yc = X.copy(), y.copy()
    for rnd in range(rounds):
        del log[:]
        models = [E.SpyModel(j, task, log, Xc, yc) for j in range(n_models)]
        arg = models if n_models > 1 or r.randint(2) else models[0]
        out, _ = E.quiet(ev.evaluate, stream=st, model=arg)
        rec.check(isinstance(out, list) and len(out) == n_models and
                  all(a is m for a, m in zip(out, models)), 'preq:models',
                  'evaluate() does not return the evaluated models')
        for j in range(n_models):
            check_model(rec, [e for e in log if e[0] != 'deliver' and e[1] == j], task, y, p, b,
                        total, 'model %d of %d, round %d' % (j, n_models, rnd))
        rec.key(case['fam'], task, n, p, b, mx, w, n_models, rnd)
    rec.check(np.array_equal(X, Xc) and np.array_equal(y, yc), 'preq:source_mutated',
              'the evaluation altered the source arrays')
    nxt = st.next_sample(1)
    if nxt[0] is not None and len(nxt[0]):
        got = int(np.asarray(nxt[0])[0, 0])
    else:
        got = n
    rec.same(got, 0 if restart else total, 'preq:restart', 'the next row of the stream after '
             'an evaluation with restart_stream=%r' % restart)
    # the evaluator also forwards predict and partial_fit to its models
    E.forwarding(rec, ev, models, log, task, X, y, 'preq')


def check_model(rec, events, task, y, p, b, total, who):
    fitted = []
    predicted = {}
    first_fit = None
    for e in events:
        if e[0] == 'predict':
            rec.check(e[3], 'preq:x', '%s: predict got altered samples %r' % (who, e[2]))
            for i in e[2]:
                rec.count('rows_predicted')
                if not rec.check(i >= p, 'preq:pretrain_predicted', '%s: row %d belongs to the '
                                 'pre-training samples but was tested' % (who, i)):
                    continue
                rec.check(i not in predicted, 'preq:twice', '%s: row %d tested twice' % (who, i))
                predicted[i] = len(fitted)
                due = p + b * ((i - p) // b)
                rec.same(len(fitted), due, 'preq:state', '%s: rows trained when row %d was tested'
                         % (who, i))
        else:
            rec.check(e[3] and e[4], 'preq:xy', '%s: partial_fit got altered samples or targets %r'
                      % (who, e[2]))
            if first_fit is None:
                first_fit = e
            for i in e[2]:
                rec.count('rows_trained')
                rec.check(i == len(fitted), 'preq:order', '%s: row %d trained as number %d'
                          % (who, i, len(fitted)))
                rec.check(i < p or i in predicted, 'preq:untested', '%s: row %d trained before it '
                          'was tested' % (who, i))
                fitted.append(i)
    rec.same(len(fitted), total, 'preq:trained_total', '%s: rows trained' % who)
    rec.same(len(predicted), total - p, 'preq:tested_total', '%s: rows tested' % who)
    if task == 'classification' and first_fit is not None:
        rec.check(first_fit[5] is not None and set(first_fit[5]) >= set(np.unique(y).tolist()),
                  'preq:classes', '%s: the first partial_fit was given classes %r, the stream has '
                  '%r' % (who, first_fit[5], np.unique(y).tolist()))


def real(case, rec):
    """Real models: the evaluator equals a hand-written test-then-train loop."""
    from skmultiflow.evaluation import EvaluatePrequential
    from skmultiflow import data as D
    from skmultiflow.bayes import NaiveBayes
    from skmultiflow.trees import HoeffdingTreeClassifier, HoeffdingTreeRegressor
    from skmultiflow.lazy import KNNClassifier
    from skmultiflow.meta import OzaBagging
    r = driftload.rng(case)
    seed = int(r.randint(1000))
    regression = case['i'] % 4 == 3
    if regression:
        mk = lambda: D.RegressionGenerator(n_samples=700, n_features=5, random_state=seed)
        models = lambda: [HoeffdingTreeRegressor(random_state=seed, grace_period=50)]
        metrics = ['mean_square_error', 'mean_absolute_error']
        task = 'regression'
    else:
        mk = [lambda: D.SEAGenerator(random_state=seed), lambda: D.RandomTreeGenerator(seed, seed),
              lambda: D.HyperplaneGenerator(random_state=seed)][case['i'] % 3]
        models = lambda: [NaiveBayes(), HoeffdingTreeClassifier(grace_period=50),
                          KNNClassifier(n_neighbors=3, max_window_size=100),
                          OzaBagging(NaiveBayes(), n_estimators=3, random_state=seed)]
        metrics = ['accuracy', 'kappa', 'precision', 'recall', 'f1']
        task = 'classification'
    p, b, n = int(r.choice([50, 100])), int(r.choice([1, 4, 10])), 500
    w = int(r.choice([50, 100]))
    ms = models()
    ev = EvaluatePrequential(n_wait=w, max_samples=n, pretrain_size=p, batch_size=b,
                             metrics=metrics)
    E.quiet(ev.evaluate, stream=mk(), model=ms)
    st = mk()
    ref = models()
    Xp, yp = st.next_sample(p)
    for m in ref:
        m.partial_fit(Xp, yp, classes=st.target_values) if task == 'classification' else \
            m.partial_fit(Xp, yp)
    count = p
    results = [[] for _ in ref]
    while count < n:
        X, y = st.next_sample(b)
        for j, m in enumerate(ref):
            results[j] += list(zip(y, m.predict(X)))
        for m in ref:
            m.partial_fit(X, y)
        count += b
    for j in range(len(ref)):
        E.compare_measurements(rec, ev, task, j, results[j], w, 'preq:real')
        rec.count('real_model_rows', len(results[j]))
        Xq, _ = mk().next_sample(60)
        rec.close(ms[j].predict(Xq), ref[j].predict(Xq), 'preq:real:state',
                  'predictions of %s after the evaluation' % type(ms[j]).__name__)
    rec.key('real', case['i'], p, b, w)
