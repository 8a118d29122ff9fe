"""C18: holdout evaluation keeps its test samples out of training and tests on schedule."""
import numpy as np

from vp import driftload
from vp import evalload as E

LEVEL = 'exploration'
RULE = ('an evaluation is one row-level obligation (tested with its whole set, never trained; '
        'trained once, in order, unaltered; test made when due); distinct = (mode, sizes, batch) '
        'digests')
REQUIRED = {'tests': 300, 'rows_tested': 5000, 'rows_trained': 5000, 'dynamic': 30, 'static': 30,
            'real_model_rows': 500, 'multi_model': 20, 'time_limited': 10}
ASSUMPTIONS = ['batches are processed whole; a dynamic test set cut by the end of the stream may '
               'hold fewer samples; streams have at least 40 samples']


def cases(tier, seed):
    k = 350 if tier == 'quick' else 1500
    kr = 8 if tier == 'quick' else 60
    return [{'fam': f, 'i': i, 'seed': seed} for f in ('static', 'dynamic') for i in range(k)] + \
        [{'fam': 'real', 'i': i, 'seed': seed, 'cost': 5} for i in range(kr)] + \
        [{'fam': 'time', 'i': i, 'seed': seed, 'cost': 2} for i in range(8 if tier == 'quick' else 60)]


def run(case, rec):
    if case['fam'] == 'real':
        return real(case, rec)
    if case['fam'] == 'time':
        return E.time_limit(rec, 'holdout', driftload.rng(case), 'holdout')
    from skmultiflow.evaluation import EvaluateHoldout
    from skmultiflow.data import DataStream
    r = driftload.rng(case)
    dyn = case['fam'] == 'dynamic'
    log = []
    task = E.TASKS[r.randint(4)]
    n = int(r.choice([60, 100, 163, 300]))
    X, y = E.table(r, task, n)
    Xc, yc = X.copy(), y.copy()
    ts = int(r.choice([1, 5, 10, 20]))
    w = int(r.choice([4, 5, 10, 20, 33]))
    b = int(r.choice([1, 1, 2, 3, 5, 10]))
    spy = bool(r.randint(2))
    if spy:
        st = E.spy_stream_class()(X, y, task, log)
    else:
        st = DataStream(X, y, n_targets=1 if y.ndim == 1 else y.shape[1], name='d')
    mx = int(r.choice([n + 50, n + 3, n, n - 5, n // 2 + 11]))
    n_models = int(r.choice([1, 2, 3]))
    restart = bool(r.randint(4))
    metrics = [m for m in E.METRICS[task] if m in E.GET][:2]
    ev = EvaluateHoldout(n_wait=w, max_samples=mx, batch_size=b, metrics=metrics, test_size=ts,
                         dynamic_test_set=dyn, restart_stream=restart)
    rounds = 2 if restart and r.randint(3) == 0 else 1
    end = min(n, mx)
    rec.count(case['fam'])
    rec.count('multi_model', n_models > 1)
    rec.sample(mode=case['fam'], task=task, rows=n, test_size=ts, n_wait=w, batch=b, max_samples=mx,
               models=n_models)
    script, read = plan(n, end, ts, w, b, dyn)
    for rnd in range(rounds):
        del log[:]
        models = [E.SpyModel(j, task, log, Xc, yc) for j in range(n_models)]
        out, text = E.quiet(ev.evaluate, stream=st, model=models)
        rec.check(isinstance(out, list) and all(a is m for a, m in zip(out, models)),
                  'holdout:models', 'evaluate() does not return the evaluated models')
        for j in range(n_models):
            conform(rec, [e for e in log if e[0] != 'deliver' and e[1] == j], script, task, y,
                    '%s, model %d of %d, round %d' % (case['fam'], j, n_models, rnd))
        results = [[(y[i], a) for e in log if e[0] == 'predict' and e[1] == j
                    for i, a in zip(e[2], e[4])] for j in range(n_models)]
        for j in range(n_models):
            if results[j]:
                E.compare_measurements(rec, ev, task, j, results[j], ts, 'holdout:scores')
        rec.key(case['fam'], task, n, ts, w, b, mx, spy, rnd)
    rec.check(np.array_equal(X, Xc) and np.array_equal(y, yc), 'holdout:source_mutated')
    nxt = st.next_sample(1)
    got = int(np.asarray(nxt[0])[0, 0]) if nxt[0] is not None and len(nxt[0]) else n
    rec.same(got, 0 if restart else read, 'holdout:restart', 'the next row of the stream after an '
             'evaluation with restart_stream=%r' % restart)
    E.forwarding(rec, ev, models, log, task, X, y, 'holdout')


def plan(n, end, ts, w, b, dyn):
    """The obligations of a run, at row level: ('train', row) and ('test', rows)."""
    out = []
    pos = count = 0
    if not dyn:
        test = list(range(0, ts))
        pos = count = ts
    trained = tests = 0
    while count < end and pos < n:
        hi = min(n, pos + b)
        out += [('train', i) for i in range(pos, hi)]
        pos = hi
        count += b
        trained += b
        if dyn:
            due = trained >= w * (tests + 1)
        else:
            due = trained % w == 0
        if due or count >= end:
            if dyn:
                hi = min(n, pos + ts)
                test = list(range(pos, hi))
                pos = hi
                count += len(test)
            out.append(('test', test))
            tests += 1
    return out, pos


def conform(rec, events, script, task, y, who):
    got = []
    first = None
    for e in events:
        if e[0] == 'fit':
            rec.check(e[3] and e[4], 'holdout:xy', '%s: partial_fit got altered samples or targets '
                      '%r' % (who, e[2]))
            first = first or e
            got += [('train', i) for i in e[2]]
            rec.count('rows_trained', len(e[2]))
        else:
            rec.check(e[3], 'holdout:x', '%s: predict got altered samples %r' % (who, e[2]))
            got.append(('test', list(e[2])))
            rec.count('tests')
            rec.count('rows_tested', len(e[2]))
    tested = {i for k, v in got if k == 'test' for i in v}
    trained = [v for k, v in got if k == 'train']
    rec.check(not tested & set(trained), 'holdout:leak', '%s: test rows %r were trained on'
              % (who, sorted(tested & set(trained))[:10]))
    rec.check(len(set(trained)) == len(trained), 'holdout:twice', '%s: a row was trained twice'
              % who)
    want = [s for s in script if s[0] == 'train' or s[1]]
    seen = [s for s in got if s[0] == 'train' or s[1]]
    bad = next((k for k in range(max(len(want), len(seen)))
                if k >= len(want) or k >= len(seen) or want[k] != seen[k]), None)
    rec.check(bad is None, 'holdout:schedule', lambda: '%s: step %d of %d is %r, due was %r'
              % (who, bad, len(want), seen[bad] if bad < len(seen) else 'nothing',
                 want[bad] if bad < len(want) else 'nothing'))
    if task == 'classification' and first is not None:
        rec.check(first[5] is not None and set(first[5]) >= set(np.unique(y).tolist()),
                  'holdout:classes', '%s: the first partial_fit was given classes %r'
                  % (who, first[5]))


def real(case, rec):
    """Real models: the evaluator equals a hand-written holdout loop."""
    from skmultiflow.evaluation import EvaluateHoldout
    from skmultiflow import data as D
    from skmultiflow.bayes import NaiveBayes
    from skmultiflow.trees import HoeffdingTreeClassifier
    from skmultiflow.lazy import KNNClassifier
    r = driftload.rng(case)
    seed = int(r.randint(1000))
    dyn = bool(case['i'] % 2)
    mk = [lambda: D.SEAGenerator(random_state=seed), lambda: D.RandomTreeGenerator(seed, seed)][
        case['i'] // 2 % 2]
    models = lambda: [NaiveBayes(), HoeffdingTreeClassifier(grace_period=50),
                      KNNClassifier(n_neighbors=3, max_window_size=100)]
    ts, w, b, n = 40, 60, int(r.choice([1, 4, 10])), 600
    ms = models()
    ev = EvaluateHoldout(n_wait=w, max_samples=n, batch_size=b, test_size=ts,
                         dynamic_test_set=dyn, metrics=['accuracy', 'kappa', 'f1'])
    E.quiet(ev.evaluate, stream=mk(), model=ms)
    st = mk()
    ref = models()
    big = 4000
    script, _ = plan(big, n, ts, w, b, dyn)
    X, y = [], []
    for _ in range(script_max(script) + 1):
        a, c = st.next_sample(1)
        X.append(a[0])
        y.append(c[0])
    X, y = np.array(X), np.array(y)
    results = [[] for _ in ref]
    first = True
    for kind, v in script:
        for j, m in enumerate(ref):
            if kind == 'train':
                if first:
                    m.partial_fit(X[v:v + 1], y[v:v + 1], classes=st.target_values)
                else:
                    m.partial_fit(X[v:v + 1], y[v:v + 1])
            else:
                results[j] += list(zip(y[v], m.predict(X[v])))
        first = first and kind != 'train'
    for j in range(len(ref)):
        E.compare_measurements(rec, ev, 'classification', j, results[j], ts, 'holdout:real')
        rec.count('real_model_rows', len(results[j]))
    rec.key('real', case['i'], b)


def script_max(script):
    return max(v if k == 'train' else max(v) for k, v in script)
