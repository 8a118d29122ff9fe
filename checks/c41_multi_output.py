"""Multi-output meta learners: one model per output, chains that pass outputs on, probabilistic chains."""
import itertools

import numpy as np

from vp.spy import Log, Spy, _h

LEVEL = 'exploration'
RULE = ('a case feeds one multi-output meta learner, whose models are scripted spies, 3-8 batches of random labels or '
        'targets and reads from the log what each model was trained on; answers to 6-12 probe rows per stop are recomputed '
        'from the answers of the models; every case is non-trivial; distinct by learner, order of the chain and answers')
REQUIRED = {'trainings': 1000, 'answers': 2000, 'scores': 800, 'reordered': 30, 'joint': 350, 'samples': 2500,
            'signatures': 15, 'weighted': 100}
ASSUMPTIONS = ['labels of chains are 0/1', 'the first call of a chain or MultiOutputLearner may use fit or partial_fit of the models',
               'sampling of MonteCarloClassifierChain is judged statistically, at 6.5 sigma']
FAMS = ('cc', 'pcc', 'mcc', 'rc', 'mol', 'mol_reg')


def cases(tier, seed):
    n = 56 if tier == 'quick' else 240
    return [{'fam': f, 'i': i, 'seed': (seed * 5003 + i * 613 + j) % (2 ** 31)}
            for i in range(n) for j, f in enumerate(FAMS)]


class RegSpy(Spy):
    _estimator_type = 'regressor'

    def label_at(self, state, x):
        x = np.asarray(x, dtype=float)
        return 4 * _h('r', self.uid, state, x) - 2

    def predict_proba(self, X):
        raise NotImplementedError


def picky(base, keys):
    """A spy whose partial_fit and fit accept only some of the optional arguments."""
    class Plain(base):
        def partial_fit(self, X, y):
            return self._learn('train', X, y, None, None)

        def fit(self, X, y):
            return self._learn('fit', X, y, None, None)

    class Classes(base):
        def partial_fit(self, X, y, classes=None):
            return self._learn('train', X, y, classes, None)

        def fit(self, X, y, classes=None):
            return self._learn('fit', X, y, classes, None)

    class Weights(base):
        def partial_fit(self, X, y, sample_weight=None):
            return self._learn('train', X, y, None, sample_weight)

        def fit(self, X, y, sample_weight=None):
            return self._learn('fit', X, y, None, sample_weight)

    class Sk(base):
        """Like scikit-learn: classes only in partial_fit."""

        def fit(self, X, y, sample_weight=None):
            return self._learn('fit', X, y, None, sample_weight)
    return {'': Plain, 'c': Classes, 'w': Weights, 'cw': base, 'sk': Sk}[keys]


def run(case, rec):
    from skmultiflow import meta
    fam, r = case['fam'], np.random.RandomState(case['seed'])
    L, D = int(r.choice([1, 2, 3, 4])), int(r.choice([1, 3]))
    order = 'random' if r.randint(2) else None
    rs = int(r.randint(1000))
    log = Log(lambda u, s: 0.0, lambda x: 0)
    reg = fam in ('rc', 'mol_reg')
    base, keys, k = (RegSpy if reg else Spy), 'cw', 2
    if fam.startswith('mol'):
        keys = str(r.choice(['', 'c', 'w', 'cw', 'sk'] if not reg else ['', 'w']))
        base = picky(base, keys)
        rec.count('signatures')
    proto = base(log, k, None, bool(r.randint(2)))
    if fam == 'cc':
        m = meta.ClassifierChain(proto, order=order, random_state=rs)
    elif fam == 'pcc':
        m = meta.ProbabilisticClassifierChain(proto, order=order, random_state=rs)
    elif fam == 'mcc':
        order = None
        m = meta.MonteCarloClassifierChain(proto, M=int(r.choice([1, 3, 10])), random_state=rs)
    elif fam == 'rc':
        m = meta.RegressorChain(proto, order=order, random_state=rs)
    else:
        m = meta.MultiOutputLearner(proto)
    name = type(m).__name__
    chain = not fam.startswith('mol')
    Xs, Ys, Ws = np.zeros((0, D)), np.zeros((0, L)), []
    weighted = not chain and r.rand() < 0.6
    seen = {}
    for b in range(int(r.randint(3, 9))):
        n = int(r.choice([1, 5, 20]))
        X = r.normal(size=(n, D))
        Y = r.normal(size=(n, L)) if reg else r.randint(0, 2, size=(n, L))
        w = r.uniform(0.5, 2, size=n) if weighted else None
        kw = {} if reg else {'classes': [0, 1]} if r.rand() < 0.6 or b == 0 else {}
        if weighted:
            kw['sample_weight'] = w
        log.take()
        (m.fit if b == 0 and r.randint(2) else m.partial_fit)(X, Y, **kw)
        for e in log.take():
            if e[0] in ('fit', 'train'):
                seen.setdefault(e[1], []).append((b, e))
                rec.count('trainings')
        Xs, Ys = np.vstack([Xs, X]), np.vstack([Ys, Y])
        rec.check(len(seen) == L and all(sum(x[0] == b for x in v) == 1 for v in seen.values()), 'models:' + name,
                  lambda: '%d models were trained for %d outputs' % (len(seen), L))
        pos = match(rec, name, seen, Xs, Ys, D, chain)
        if pos is None:
            continue                     # two outputs cannot be told apart yet
        if chain:
            got = [pos[u] for u in sorted(pos)]
            rec.check(order == 'random' or got == list(range(L)), 'order:' + name, lambda: 'chain %s' % got)
            rec.count('reordered', int(got != sorted(got)))
        if weighted and 'w' in keys or weighted and keys == 'sk':
            for u in seen:
                e = seen[u][-1][1]
                rec.check(e[5] is not None and np.array_equal(np.ravel(e[5]), w), 'weight:' + name,
                          lambda: 'weights %s reached a model as %s' % (w, e[5]))
                rec.count('weighted')
        if 'c' in keys and not reg and 'classes' in kw and not chain:
            for u in seen:
                e = seen[u][-1][1]
                rec.check(e[4] == [0, 1], 'classes:' + name, lambda: 'classes reached a model as %s' % e[4])
        if keys == 'sk' and 'classes' in kw:
            for u in seen:
                e = seen[u][-1][1]
                rec.check(e[0] == 'fit' or e[4] == [0, 1], 'classes:' + name, lambda: 'classes reached a model as %s' % e[4])
        Q = r.normal(size=(6, D))
        {'cc': chain_answers, 'rc': chain_answers, 'pcc': joint_answers, 'mcc': sampled, 'mol': parallel,
         'mol_reg': parallel}[fam](rec, name, m, log, pos, Q, L, reg)


def match(rec, name, seen, X, Y, D, chain):
    """Which output every model learns: from the labels it was given. Its features must be those prescribed."""
    L = Y.shape[1]
    pos = {}
    for u, evs in seen.items():
        lab = np.concatenate([e[3] for _, e in evs])
        can = [c for c in range(L) if len(lab) == len(Y) and np.array_equal(lab.astype(float), Y[:, c].astype(float))]
        rec.check(bool(can), 'labels:' + name, lambda: 'model %d was trained on labels that are no column of the outputs' % u)
        if not can:
            return None
        pos[u] = can
    if any(len(c) > 1 for c in pos.values()):
        if len({tuple(Y[:, c]) for c in range(L)}) < L:
            return None
    pos = {u: c[0] for u, c in pos.items()}
    rec.check(len(set(pos.values())) == L, 'labels:' + name, lambda: 'the models learn the outputs %s' % sorted(pos.values()))
    before = []
    for u in sorted(seen):
        F = np.vstack([e[2] for _, e in seen[u]])
        want = np.hstack([X] + [Y[:, [c]] for c in before]) if chain else X
        rec.check(F.shape == want.shape and np.allclose(F, want), 'features:' + name,
                  lambda: 'model of output %d was not trained on the features%s' %
                  (pos[u], ' and the outputs before it' if chain else ''))
        before.append(pos[u])
    return pos


def chain_answers(rec, name, m, log, pos, Q, L, reg):
    p = np.asarray(m.predict(Q), dtype=float)
    want = np.zeros((len(Q), L))
    F = Q
    for u in sorted(pos):
        col = np.array([log.all[u].label(x) for x in F], dtype=float)
        want[:, pos[u]] = col
        F = np.column_stack([F, col])
    rec.check(p.shape == want.shape and np.allclose(p, want), 'answer:' + name,
              lambda: 'answers %s, the chain says %s' % (p.tolist(), want.tolist()))
    rec.count('answers', len(Q))
    rec.key(name, p, sorted(pos.items()))
    if not reg:
        q = np.asarray(m.predict_proba(Q), dtype=float)
        want = np.zeros((len(Q), L))
        F = Q
        for u in sorted(pos):
            col = np.array([log.all[u].scores(x)[1] for x in F])
            want[:, pos[u]] = col
            F = np.column_stack([F, col])
        rec.check(q.shape == want.shape and np.allclose(q, want), 'scores:' + name,
                  lambda: 'scores %s, the chain says %s' % (q.tolist(), want.tolist()))
        rec.count('scores', len(Q))


def joint(log, pos, x):
    """The joint probability of every combination of labels (in the order of the outputs)."""
    L = len(pos)
    out = {}
    for y in itertools.product((0, 1), repeat=L):
        p, f = 1.0, list(x)
        for u in sorted(pos):
            c = y[pos[u]]
            p *= log.all[u].scores(np.array(f))[c]
            f.append(float(c))
        out[y] = p
    return out


def joint_answers(rec, name, m, log, pos, Q, L, reg):
    p = np.asarray(m.predict(Q))
    rec.check(p.shape == (len(Q), L), 'answer:' + name, lambda: 'shape %s' % (p.shape,))
    for i, x in enumerate(Q):
        J = joint(log, pos, x)
        top = max(J.values())
        got = J.get(tuple(int(v) for v in p[i]), -1)
        rec.check(got >= top * (1 - 1e-9), 'joint:' + name, lambda: 'labels %s have probability %.4f, the best %.4f' %
                  (p[i].tolist(), got, top))
        rec.count('joint')
        rec.count('answers')
    rec.key(name, p, sorted(pos.items()))


def sampled(rec, name, m, log, pos, Q, L, reg):
    """The best of M sampled combinations and the greedy one."""
    for x in Q[:3]:
        J = joint(log, pos, x)
        g, f = np.zeros(L, dtype=int), list(x)
        for u in sorted(pos):
            g[pos[u]] = log.all[u].label(np.array(f))
            f.append(float(g[pos[u]]))
        Jg = J[tuple(g)]
        better = sum(v for v in J.values() if v > Jg * (1 + 1e-9))
        top = max(J.values())
        for M in (None, 1, 4):
            n = 40
            P = np.asarray(m.predict(np.tile(x, (n, 1)), **({} if M is None else {'M': M})))
            draws = m.M if M is None else M
            hit_top = hit_g = 0
            for row in P:
                v = J.get(tuple(int(a) for a in row), -1)
                rec.check(v >= Jg * (1 - 1e-9), 'joint:' + name, lambda: (
                    'labels %s have probability %.4f, the plain chain finds %.4f' % (row.tolist(), v, Jg)))
                hit_top += v >= top * (1 - 1e-9)
                hit_g += tuple(int(a) for a in row) == tuple(g)
                rec.count('samples')
            for what, hits, p in (('best', hit_top, 1 - (1 - top) ** draws if top > Jg * (1 + 1e-9) else 1.0),
                                  ('greedy', hit_g, (1 - better) ** draws)):
                tail(rec, name, what, hits, n, p)
        rec.count('answers')
        rec.key(name, J[tuple(g)])


def tail(rec, name, what, hits, n, p):
    from scipy.stats import binom
    lo, hi = binom.cdf(hits, n, p), binom.sf(hits - 1, n, p)
    rec.check(min(lo, hi) > 1e-11, 'sampling:' + name, lambda: (
        'the %s combination came up %d of %d times, its probability is %.4f' % (what, hits, n, p)))


def parallel(rec, name, m, log, pos, Q, L, reg):
    p = np.asarray(m.predict(Q), dtype=float)
    want = np.zeros((len(Q), L))
    for u in pos:
        want[:, pos[u]] = [log.all[u].label(x) for x in Q]
    rec.check(p.shape == want.shape and np.allclose(p, want), 'answer:' + name,
              lambda: 'answers %s, the models say %s' % (p.tolist(), want.tolist()))
    rec.count('answers', len(Q))
    rec.key(name, p)
    if not reg:
        q = np.asarray(m.predict_proba(Q), dtype=float)
        for u in pos:
            want[:, pos[u]] = [log.all[u].scores(x)[1] for x in Q]
        rec.check(q.shape == want.shape and np.allclose(q, want), 'scores:' + name,
                  lambda: 'scores %s, the models say %s' % (q.tolist(), want.tolist()))
        rec.count('scores', len(Q))
