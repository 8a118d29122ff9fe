"""Chunk ensembles: one model per window of samples, weighted by how it does on the latest window."""
import numpy as np

from vp.spy import Log, Spy

LEVEL = 'exploration'
RULE = ('a case feeds a chunk ensemble, whose members are scripted spies of changing accuracy, 3-14 windows of samples in '
        'batches of random size and follows in lock step what every member was trained and judged on; answers to 12 probe '
        'rows per stop must be those of the members\' votes; non-trivial when there is more than one window; distinct by '
        'ensemble and answers')
REQUIRED = {'windows': 400, 'answers': 8000, 'scores': 3000, 'disagreements': 3000, 'dropped': 150, 'folds': 400,
            'boosted': 80, 'draws': 1000, 'kept': 3000, 'weighted': 30,
            'gaps': 25}
ASSUMPTIONS = ['every window contains every class (AccuracyWeightedEnsemble: all but the last few)', 'BatchIncrementalClassifier: two classes',
               'ties (within 1e-9) may be broken either way',
               'Learn++ draws its training and test rows at random: the rows drawn are read from the members\' log']
FAMS = ('awe', 'batch', 'learnpp', 'nse')


def cases(tier, seed):
    n = 56 if tier == 'quick' else 200
    return [{'fam': f, 'i': i, 'seed': (seed * 4001 + i * 811 + j) % (2 ** 31)}
            for i in range(n) for j, f in enumerate(FAMS)] + [
                {'fam': 'accumulating', 'i': 0, 'seed': seed * 4001 + 9}]


class Load:
    """Feeds batches, cuts the history into windows, collects the events of every window."""

    def __init__(self, rec, r, fam, k, size, fits=True, widths=None, gaps=False):
        self.rec, self.r, self.k, self.size = rec, r, k, size
        self.gaps, self.here = gaps, k       # classes of the present window: the first 'here' of k
        self.t = {'now': 0}
        accs = r.uniform(0.3, 1.0, size=(5, 11))
        if fam == 'learnpp':
            accs = r.uniform(0.75, 1.0, size=(5, 11))
        self.log = Log(lambda uid, resets: accs[(self.t['now'] + uid) % 5, uid % 11],
                       lambda x: int(abs(x[0]) * 1e6) % k)
        self.proto = Spy(self.log, k, widths, fits)
        self.X, self.y, self.w = [], [], []

    def feed(self, m, windows, weighted=False):
        """Yields (rows, labels, weights, events) after every call that completes a window."""
        r, n, done = self.r, 0, 0
        first = True
        left = None
        while done < windows:
            room = self.size - n
            b = min(room, int(r.choice([1, 3, 10, self.size])))
            X = r.normal(size=(b, 3))
            if n == 0:
                self.X, self.y, self.w = [], [], []
                self.here = int(r.randint(2, self.k + 1)) if self.gaps and r.rand() < 0.5 else self.k
                self.order = r.permutation(self.size)[:self.k]
            for i in range(b):
                while self.log.truth(X[i]) >= self.here:
                    X[i] = r.normal(size=3)
            for c in range(self.here):       # a window holds all of its classes
                at = self.order[c] - n
                if 0 <= at < b:
                    while self.log.truth(X[at]) != c:
                        X[at] = r.normal(size=3)
            y = np.array([self.log.truth(x) for x in X])
            w = r.uniform(0.5, 2, size=b)
            kw = {'sample_weight': w} if weighted else {}
            if first or r.rand() < 0.2:
                kw['classes'] = np.arange(self.k)
            first = False
            self.log.take()
            m.partial_fit(X, y, **kw)
            self.X += list(X)
            self.y += list(y)
            self.w += list(w)
            n += b
            ev = self.log.take()
            if n < self.size:
                self.rec.check(not any(e[0] in ('fit', 'train') for e in ev), 'early:' + type(m).__name__,
                               lambda: 'a model was trained after %d of %d samples' % (n, self.size))
                yield None
            else:
                n = 0
                done += 1
                self.rec.count('windows')
                for s in self.log.all.values():
                    self.rec.check(s.intact(), 'overwritten:' + type(m).__name__,
                                   lambda: 'the samples given to model %d to learn were changed afterwards' % s.uid)
                    self.rec.count('kept')
                yield np.array(self.X), np.array(self.y), np.array(self.w), ev
            self.t['now'] = done


def same_rows(rec, name, what, A, yA, B, yB):
    ok = len(A) == len(B) and np.array_equal(A, B) and np.array_equal(np.asarray(yA, dtype=float),
                                                                      np.asarray(yB, dtype=float))
    rec.check(ok, 'window:' + name, lambda: '%s: not the samples of the window, in order' % what)
    return ok


def argmax_ok(rec, name, v, p, when):
    rec.check(v[int(p)] >= v.max() - 1e-9 * max(1.0, np.abs(v).max()), 'vote:' + name,
              lambda: '%s: label %s, the votes are %s' % (when, p, v.tolist()))
    rec.count('answers')
    if (v > 0).sum() > 1:
        rec.count('disagreements')


def run(case, rec):
    r = np.random.RandomState(case['seed'])
    globals()[case['fam']](case, rec, r)


# ---------------------------------------------------------------- BatchIncremental

def batch(case, rec, r):
    from skmultiflow.meta import BatchIncrementalClassifier as C
    size, n = int(r.choice([4, 10, 25])), int(r.choice([1, 2, 4, 7]))
    L = Load(rec, r, 'batch', 2, size)
    m = C(base_estimator=L.proto, window_size=size, n_estimators=n)
    weighted = r.rand() < 0.5
    members = []
    for got in L.feed(m, 10, weighted):
        if got is not None:
            X, y, w, ev = got
            fits = [e for e in ev if e[0] in ('fit', 'train')]
            rec.check(len(fits) == 1, 'models:' + C.__name__, lambda: '%d models for one window' % len(fits))
            e = fits[0]
            same_rows(rec, C.__name__, 'new model', e[2], e[3], X, y)
            if weighted:
                rec.check(e[5] is not None and np.array_equal(np.ravel(e[5]), w), 'weight:' + C.__name__,
                          lambda: 'weights %s reached the model as %s' % (w, e[5]))
                rec.count('weighted')
            members.append(e[1])
            if len(members) > n:
                members.pop(0)
                rec.count('dropped')
        Q = r.normal(size=(12, 3))
        q, p = np.asarray(m.predict_proba(Q), dtype=float), np.asarray(m.predict(Q))
        labs = np.array([[L.log.all[u].label(x) for u in members] for x in Q], dtype=float).reshape(12, -1)
        v = labs.mean(axis=1) if members else np.zeros(12)
        rec.check(np.allclose(q, v, atol=1e-9), 'scores:' + C.__name__,
                  lambda: 'scores %s, the members vote %s' % (q.tolist(), v.tolist()))
        for i in range(12):
            if abs(v[i] - 0.5) > 1e-9:
                rec.check(int(p[i]) == int(v[i] > 0.5), 'vote:' + C.__name__, lambda: 'label %s, votes %s' % (p[i], v[i]))
            rec.count('answers')
            rec.count('scores')
        rec.count('disagreements', int(((v > 0) & (v < 1)).sum()))
        rec.key('batch', q)


# ---------------------------------------------------------------- AccuracyWeightedEnsemble

def mse(S, y, here):
    """What a model never saw, or gives no score to, it has no probability for."""
    return float(np.mean([(1 - (s[int(c)] if c < min(here, len(s)) else 0.0)) ** 2 for s, c in zip(S, y)]))


def accumulating(case, rec, r):
    """Cross-validation with a base learner whose fit goes on learning, as the library's own do."""
    awe(case, rec, r, False)


def awe(case, rec, r, fits=True):
    from skmultiflow.meta import AccuracyWeightedEnsembleClassifier as C
    k = int(r.choice([2, 3, 4]))
    size, n, kept = int(r.choice([12, 30, 17])), int(r.choice([1, 2, 4])), int(r.choice([1, 3, 6]))
    splits = int(r.choice([2, 3, 5]))
    widths = [int(v) for v in r.randint(1, k + 1, 7)] if r.rand() < 0.4 else None
    L = Load(rec, r, 'awe', k, size, fits, widths, True)
    knew = {}                        # uid -> number of classes in the window it learned
    m = C(n_estimators=n, n_kept_estimators=kept, base_estimator=L.proto, window_size=size, n_splits=splits)
    name = C.__name__
    pool = {}                        # uid -> weight
    log = L.log
    w_i = 0
    for got in L.feed(m, 12):
        if got is not None:
            w_i += 1
            X, y, _, ev = got
            tr = [e for e in ev if e[0] in ('fit', 'train')]
            whole = [e for e in tr if len(e[2]) == size]
            rec.check(len(whole) == 1, 'models:' + name, lambda: '%d models for one window' % len(whole))
            new = whole[0][1]
            same_rows(rec, name, 'new model', whole[0][2], whole[0][3], X, y)
            knew[new] = L.here
            rec.count('gaps', int(L.here < k))
            p = np.bincount(y.astype(int), minlength=k) / size
            base = float((p * (1 - p) ** 2).sum())
            # the folds: a model trained on the rest of the window is judged on the fold
            rows = {x.tobytes(): i for i, x in enumerate(X)}
            err, cover, state = [], [], {}
            for e in ev:
                if e[0] in ('fit', 'train') and len(e[2]) < size:
                    state[e[1]] = (e, [rows.get(x.tobytes()) for x in e[2]])
                elif e[0] == 'proba' and e[1] in state and e[1] != new and e[1] not in pool:
                    te, idx = state[e[1]]
                    test = [rows.get(x.tobytes()) for x in e[2]]
                    rec.check(None not in test and sorted(set(test)) == sorted(set(range(size)) - set(idx)),
                              'fold:' + name, 'a model is not judged on the rows of the window it was not trained on')
                    if e[3][1] != len(idx):
                        rec.fail(('fold:' if fits else 'fold-accumulates:') + name,
                                 'a model judged on a fold has learned %d rows, the rest of the window has %d' %
                                 (e[3][1], len(idx)))
                        return
                    same_rows(rec, name, 'fold', te[2], te[3], X[idx], y[idx])
                    cover += test
                    err.append(mse([log.all[e[1]].scores_at(e[3], x) for x in e[2]], e_y(y, test), L.here))
                    rec.count('folds')
            rec.check(len(err) == splits and sorted(cover) == list(range(size)), 'fold:' + name,
                      lambda: '%d folds of %d rows for a window of %d in %d parts' % (len(err), len(cover), size, splits))
            w_new = max(0.0, base - float(np.mean(err)))
            for u in pool:
                pool[u] = max(0.0, base - mse([log.all[u].scores(x) for x in X], y, knew[u]))
            if len(pool) < kept:
                pool[new] = w_new
            else:
                worst = min(pool.values())
                if w_new > worst + 1e-12:
                    can = [u for u in pool if pool[u] <= worst + 1e-12]
                    pool[new] = w_new
                    rec.count('dropped')
                    if len(can) > 1:
                        gone = find_gone(m, log, pool, can, r, n)
                        if gone is None:
                            return            # a tie that cannot be told apart
                        del pool[gone]
                    else:
                        del pool[can[0]]
                elif abs(w_new - worst) <= 1e-12 and w_new > 0:
                    return                    # a tie
        Q = r.normal(size=(12, 3))
        p = np.asarray(m.predict(Q))
        order = sorted(pool.items(), key=lambda a: -a[1])
        if len(order) > n and order[n - 1][1] - order[n][1] <= 1e-12 and order[n][1] > 0:
            continue
        if order and order[min(n, len(order)) - 1][1] <= 0 and order[0][1] <= 0:
            continue                          # nobody is better than guessing
        for i, x in enumerate(Q):
            v = np.zeros(k)
            for u, w in order[:n]:
                v[log.all[u].label(x)] += w
            if pool:
                argmax_ok(rec, name, v, p[i], 'after %d windows' % w_i)
        rec.key('awe', p, [round(w, 9) for _, w in order])


def e_y(y, idx):
    return y[np.array(idx)]


def find_gone(m, log, pool, can, r, n):
    """Which of the tied members (all without weight) was dropped: seen from who is asked, if all are."""
    log.take()
    m.predict(r.normal(size=(1, 3)))
    asked = {e[1] for e in log.take() if e[0] in ('predict', 'proba')}
    if len(pool) - 1 > n:
        return None
    gone = [u for u in can if u not in asked]
    return gone[0] if len(gone) == 1 else None


# ---------------------------------------------------------------- Learn++.NSE

def nse(case, rec, r):
    from skmultiflow.meta import LearnPPNSEClassifier as C
    k = int(r.choice([2, 3]))
    size, n = int(r.choice([6, 15, 30])), int(r.choice([1, 3, 5]))
    slope, cross = float(r.choice([0.5, 1.0, 0.1])), int(r.choice([1, 3, 10]))
    pruning = [None, 'age', 'error'][int(r.randint(3))]
    fits = bool(r.randint(2))
    L = Load(rec, r, 'nse', k, size, fits)
    m = C(base_estimator=L.proto, window_size=size, slope=slope, crossing_point=cross, n_estimators=n, pruning=pruning)
    name = C.__name__
    log = L.log
    mem = []                              # [uid, history of b, history of sigmoid weights, say]
    for got in L.feed(m, 12):
        if got is not None:
            X, y, _, ev = got
            tr = [e for e in ev if e[0] in ('fit', 'train')]
            rec.check(1 <= len(tr) <= 2, 'models:' + name, lambda: '%d models for one window' % len(tr))
            for e in tr:
                same_rows(rec, name, 'new model', e[2], e[3], X, y)
            D = np.ones(size) / size
            if mem:
                V = np.array([tally(log, mem, x, k) for x in X])
                if any((v >= v.max() - 1e-9).sum() > 1 for v in V):
                    if any((v >= v.max() - 1e-9).sum() > 1 and v[int(c)] >= v.max() - 1e-9 for v, c in zip(V, y)):
                        votes = first_labels(V)
                    else:
                        votes = V.argmax(axis=1)
                else:
                    votes = V.argmax(axis=1)
                e = float(np.mean(votes != y))
                D[votes == y] = e / size
                if D.sum() > 0:
                    D = D / D.sum()
            mem.append([tr[0][1], [], [], 0.0])
            t = len(mem)
            errs = []
            for q, c in enumerate(mem):
                lab = np.array([log.all[c[0]].label_at((0, size), x) for x in X])
                ek = float(D[lab != y].sum())
                if q == t - 1 and ek > 0.5:
                    rec.check(len(tr) == 2, 'retrain:' + name, 'a new model that fails on its own window was kept')
                    if len(tr) == 2:
                        c[0] = tr[1][1]
                elif ek > 0.5:
                    ek = 0.5
                errs.append(ek)
                s = 1.0 / (1.0 + np.exp(-slope * (t - 1 - q - cross)))
                c[1].append(ek / (1 - ek) if ek < 1 else np.inf)
                c[2].append(s / (sum(c[2]) + s))
                c[3] = float(np.log(1.0 / (np.dot(c[1], c[2]) + 1e-50)))
            if len(tr) == 2 and errs[-1] <= 0.5 - 1e-9:
                rec.fail('retrain:' + name, 'a good new model was trained again')
            if pruning and t > n:
                rec.count('dropped')
                if pruning == 'age':
                    mem.pop(0)
                else:
                    top = max(errs)
                    can = [q for q in range(t) if errs[q] >= top - 1e-12]
                    if len(can) > 1:
                        log.take()
                        m.predict(X[:1])
                        asked = {e[1] for e in log.take() if e[0] == 'proba'}
                        can = [q for q in can if mem[q][0] not in asked] if all(c[3] > 0 for c in mem) else can[:1]
                        if len(can) != 1:
                            return
                    mem.pop(can[0])
        if not mem:
            continue
        Q = r.normal(size=(12, 3))
        q, p = np.asarray(m.predict_proba(Q), dtype=float), np.asarray(m.predict(Q))
        for i, x in enumerate(Q):
            v = tally(log, mem, x, k)
            rec.check(np.allclose(q[i], v, rtol=1e-6, atol=1e-6), 'scores:' + name,
                      lambda: 'scores %s, the weighted scores of the members are %s' % (q[i].tolist(), v.tolist()))
            rec.count('scores')
            argmax_ok(rec, name, v, p[i], '%d models' % len(mem))
        rec.key('nse', q)


def first_labels(V):
    return V.argmax(axis=1)


def tally(log, mem, x, k):
    v = np.zeros(k)
    for uid, _, _, say in mem:
        if say > 0:
            v += say * log.all[uid].scores(x)
    return v


# ---------------------------------------------------------------- Learn++

def learnpp(case, rec, r):
    from skmultiflow.meta import LearnPPClassifier as C
    k = int(r.choice([2, 3]))
    size, n, groups = int(r.choice([10, 20, 40, 25, 11])), int(r.choice([2, 4, 7])), int(r.choice([1, 2, 4]))
    limit = float(r.choice([0.5, 0.6]))
    L = Load(rec, r, 'learnpp', k, size, bool(r.randint(2)))
    m = C(base_estimator=L.proto, error_threshold=limit, n_estimators=n, n_ensembles=groups, window_size=size,
          random_state=int(r.randint(1000)))
    name = C.__name__
    log = L.log
    ens = []
    luck = [0.0, 0.0]              # how much more often rows of large weight were drawn than expected, and its variance
    gen = L.feed(m, 7)
    while True:
        try:
            got = next(gen)
        except StopIteration:
            break
        except RuntimeError:
            rec.count('refused')
            return
        if got is not None:
            X, y, _, ev = got
            ens.append(group(rec, name, log, X, y, ev, n, limit, k, luck))
            if len(ens) > groups:
                ens.pop(0)
                rec.count('dropped')
        if not ens:
            continue
        Q = r.normal(size=(12, 3))
        q, p = np.asarray(m.predict_proba(Q), dtype=float), np.asarray(m.predict(Q))
        for i, x in enumerate(Q):
            v = np.zeros(k)
            for g in ens:
                for uid, e in g:
                    v[log.all[uid].label(x)] += np.log(1 / (e + 1e-50))
            rec.check(np.allclose(q[i], v, rtol=1e-6, atol=1e-6), 'scores:' + name,
                      lambda: 'scores %s, the votes of the members are %s' % (q[i].tolist(), v.tolist()))
            rec.count('scores')
            argmax_ok(rec, name, v, p[i], '%d ensembles' % len(ens))
        rec.key('learnpp', q)


def group(rec, name, log, X, y, ev, n, limit, k, luck):
    """Follows the boosting of one window from the rows each member was trained and tested on."""
    rows = {x.tobytes(): i for i, x in enumerate(X)}
    size = len(X)
    D = np.ones(size) / size
    out = []
    rounds = []                  # (uid, training rows, test rows, state)
    for e in ev:
        if e[0] in ('fit', 'train'):
            rounds.append([e[1], [rows.get(x.tobytes()) for x in e[2]], None, None])
            idx = rounds[-1][1]
            rec.check(None not in idx and len(idx) == size // 2 and np.array_equal(np.asarray(e[3]), y[np.array(idx)]),
                      'window:' + name, 'a member was not trained on half a window')
        elif e[0] == 'predict' and rounds and rounds[-1][0] == e[1] and rounds[-1][2] is None:
            rounds[-1][2] = [rows.get(x.tobytes()) for x in e[2]]
            rounds[-1][3] = e[3]
    for uid, train, test, state in rounds:
        rec.check(test is not None and None not in test and len(test) == size // 2, 'window:' + name,
                  'a member was not tested on half a window')
        D = D / D.sum()
        rec.check(all(D[i] > 0 for i in train + test), 'draw:' + name, 'a row without weight was drawn')
        if D.max() - D.min() > 1e-9:
            mean = float((D * D).sum())
            luck[0] += sum(D[i] - mean for i in train + test)
            luck[1] += len(train + test) * (float((D ** 3).sum()) - mean ** 2)
            rec.count('draws', len(train + test))
            z = luck[0] / np.sqrt(luck[1]) if luck[1] > 0 else 0.0
            rec.check(abs(z) < 6.5, 'draw:' + name, lambda: (
                'rows are not drawn in proportion to their weight (%.1f sigma)' % z))
        s = log.all[uid]
        ti = np.array(test)
        bad = np.array([s.label_at(state, X[i]) != y[i] for i in test])
        e = float(D[ti][bad].sum() / D[ti].sum())
        if any(u == uid for u, _ in out):
            out = [(u, v) for u, v in out if u != uid]
        if abs(e - limit) < 1e-12:
            rec.count('refused')
        if e >= limit:
            out.append((uid, 1.0))
            continue
        out.append((uid, e / (1 - e)))
        comp = []
        tie = False
        for i in range(size):
            v = np.zeros(k)
            for u, w in out:
                st = state if u == uid else (0, log.all[u].n)
                v[log.all[u].label_at(st, X[i])] += np.log(1 / (w + 1e-50))
            comp.append(int(v.argmax()))
        comp = np.array(comp)
        ce = float(D[comp != y].sum() / D.sum())
        if ce < limit and len(out) < n:
            D = D.copy()
            D[comp == y] *= ce / (1 - ce)
            rec.count('boosted')
        if D.sum() == 0:
            break
    rec.check(len(out) <= n, 'models:' + name, lambda: '%d members' % len(out))
    return out
