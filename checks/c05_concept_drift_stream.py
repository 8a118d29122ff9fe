"""C05: a concept-drift stream is an order-preserving merge of its two concepts, switched by the
documented sigmoid."""
import math

import numpy as np

LEVEL = 'exploration'
RULE = ('an evaluation checks one delivered sample (identity, order, provenance) or one window of '
        'drift decisions against the sigmoid; distinct = (position, width/alpha, schedule) digests')
REQUIRED = {'samples': 20000, 'from_drift': 1000, 'from_base': 1000, 'restarts': 10, 'nested': 5}


def cases(tier, seed):
    k = 40 if tier == 'quick' else 400
    out = [{'fam': 'merge', 'i': i, 'seed': seed} for i in range(k)]
    out += [{'fam': 'sigmoid', 'i': i, 'seed': seed, 'cost': 3} for i in range(12 if tier == 'quick'
                                                                              else 60)]
    out += [{'fam': 'nested', 'i': i, 'seed': seed} for i in range(k // 3)]
    out += [{'fam': 'finite', 'i': i, 'seed': seed} for i in range(k // 3)]
    return out


def _tagged(tag, t=1):
    from skmultiflow.data.base_stream import Stream

    class Tagged(Stream):
        def __init__(self, tag=0):
            super().__init__()
            self.tag = tag
            self.calls = 0
            self.n_targets = t
            self.n_features = 3
            self.n_num_features = 3
            self.n_classes = 7
            self.feature_names = ['a', 'b', 'c']
            self.target_names = ['t%d' % i for i in range(t)]
            self.target_values = [0, 1]
            self.name = 'Tagged'
            self._prepare_for_use()

        def _prepare_for_use(self):
            self.k = 0

        def next_sample(self, batch_size=1):
            ks = np.arange(self.k, self.k + batch_size)
            self.k += batch_size
            X = np.column_stack([np.full(batch_size, float(self.tag)), ks, ks * 3 + self.tag])
            y = np.column_stack([(ks * 5 + self.tag * 2 + j) % 11 for j in range(t)])
            self.current_sample_x, self.current_sample_y = X, (y.ravel() if t == 1 else y)
            return self.current_sample_x, self.current_sample_y
    return Tagged(tag)


def run(case, rec):
    from skmultiflow.data import ConceptDriftStream, DataStream
    r = np.random.RandomState((case['seed'] * 7919 + case['i'] * 104729 +
                               sum(map(ord, case['fam']))) % (2 ** 31))
    fam = case['fam']
    if fam == 'sigmoid':
        return _sigmoid(case, rec, r)
    t = 1 if r.randint(3) else 2
    a, b = _tagged(1, t), _tagged(2, t)
    pos = int(r.randint(20, 400))
    n = pos + int(r.randint(60, 300))
    alpha = float(r.choice([1, 5, 30, 45, 80, 90])) if r.randint(2) else None
    width = int(r.choice([1, 5, 40, 300]))
    if fam == 'finite':
        m = int(r.randint(20, 80))
        ids = np.arange(200)
        a = DataStream(np.column_stack([np.full(m, 1.), ids[:m], ids[:m] * 3 + 1]),
                       ((ids[:m] * 5 + 2) % 11), name='a')
        b = DataStream(np.column_stack([np.full(m, 2.), ids[:m], ids[:m] * 3 + 2]),
                       ((ids[:m] * 5 + 4) % 11), name='b')
        t = 1
    if fam == 'nested':
        inner = ConceptDriftStream(stream=b, drift_stream=_tagged(3, t),
                                   position=int(r.randint(5, 60)), width=1, random_state=3)
        b2 = inner
        rec.count('nested')
    else:
        b2 = b
    st = ConceptDriftStream(stream=a, drift_stream=b2, position=pos, width=width, alpha=alpha,
                            random_state=int(r.randint(1000)))
    for f in ('n_features', 'n_targets', 'n_classes', 'n_num_features', 'n_cat_features',
              'feature_names', 'target_names', 'target_values'):
        rec.check(getattr(st, f) == getattr(a, f), 'cds:metadata', '%s is %r, base stream has %r' %
                  (f, getattr(st, f), getattr(a, f)))
    w = st.width
    if alpha is not None:
        want = max(1, int(1 / math.tan(alpha * math.pi / 180)))
        rec.check(abs(w - want) <= 1, 'cds:alpha', 'alpha=%r gives width %r, expected %r' %
                  (alpha, w, want))
    else:
        rec.check(w == width, 'cds:width', 'width %r' % w)
    rec.sample(position=pos, width=w, alpha=alpha, targets=t, kind=fam)
    rec.key(pos, w, alpha, t, fam)
    first = None
    for episode in range(2):
        nxt = {1.0: 0, 2.0: 0, 3.0: 0}
        got = []
        at = 0
        while at < n:
            more = st.has_more_samples()
            if fam == 'finite':
                rec.check(more == (a.has_more_samples() and b.has_more_samples()), 'cds:has_more')
                if not more:
                    break
                bs = 1
            else:
                rec.check(more is True, 'cds:has_more')
                bs = int(r.choice([1, 1, 7, 33]))
            bs = min(bs, n - at)
            X, y = st.next_sample(bs)
            rec.check(X.shape == (bs, 3), 'cds:shape', 'features %r' % (X.shape,))
            rec.check(np.shape(y) == ((bs,) if t == 1 else (bs, t)), 'cds:shape',
                      'targets %r for %d targets' % (np.shape(y), t))
            lx, ly = st.last_sample()
            rec.same(np.asarray(lx), np.asarray(X), 'cds:last', 'last_sample')
            rec.same(np.asarray(ly), np.asarray(y), 'cds:last', 'last_sample')
            yy = np.asarray(y, float).reshape(bs, t)
            for j in range(bs):
                tag, k = float(X[j, 0]), float(X[j, 1])
                ok = tag in nxt and k == nxt[tag] and X[j, 2] == k * 3 + tag and \
                    all(yy[j, c] == (k * 5 + tag * 2 + c) % 11 for c in range(t))
                rec.check(ok, 'cds:order', lambda: 'sample %d is %r/%r, expected the next sample '
                          'of one concept (%r)' % (at + j, X[j], yy[j], nxt))
                if tag in nxt:
                    nxt[tag] = k + 1
                i = at + j + 1
                z = 4.0 * (i - pos) / w
                drift = tag != 1.0
                if z < -40:
                    rec.check(not drift, 'cds:switch', 'drift concept at sample %d, position %d, '
                              'width %d' % (i, pos, w))
                elif z > 40:
                    rec.check(drift, 'cds:switch', 'base concept at sample %d, position %d, width '
                              '%d' % (i, pos, w))
                rec.count('from_drift' if drift else 'from_base')
                got.append((tag, k))
            rec.count('samples', bs)
            at += bs
        if first is None:
            first = got
        else:
            rec.check(got == first[:len(got)] and (fam == 'finite' or len(got) == len(first)),
                      'cds:restart', 'the sequence after restart differs')
        st.restart()
        rec.count('restarts')
        if fam == 'nested':
            inner.restart()


def _sigmoid(case, rec, r):
    """Frequency of the drift concept around the change position, over many seeds."""
    from skmultiflow.data import ConceptDriftStream
    pos, w = int(r.randint(100, 200)), int(r.choice([20, 60, 150]))
    runs = 220
    hi = pos + 3 * w // 2
    lo = max(1, pos - 3 * w // 2)
    cnt = np.zeros(hi + 1)
    base = int(r.randint(10 ** 6))
    for s in range(runs):
        st = ConceptDriftStream(stream=_tagged(1), drift_stream=_tagged(2), position=pos, width=w,
                                random_state=base + s)
        X, _ = st.next_sample(hi)
        cnt[1:] += X[:, 0] == 2.0
        rec.count('samples', hi)
        rec.count('from_drift', int((X[:, 0] == 2.0).sum()))
        rec.count('from_base', int((X[:, 0] == 1.0).sum()))
    idx = np.arange(hi + 1)
    p = 1 / (1 + np.exp(-4.0 * (idx - pos) / w))
    rec.key('sigmoid', pos, w)
    blk = max(2, w // 8)
    for s in range(lo, hi - blk, blk):
        q = p[s:s + blk]
        mu, var = runs * q.sum(), runs * (q * (1 - q)).sum()
        got = cnt[s:s + blk].sum()
        rec.check(abs(got - mu) <= 6.5 * math.sqrt(var) + 1.0, 'cds:sigmoid',
                  'samples %d..%d (position %d, width %d): drift concept drawn %d times in %d, '
                  'expected %.1f +- %.1f' % (s, s + blk, pos, w, got, runs * blk, mu,
                                             math.sqrt(var)))
