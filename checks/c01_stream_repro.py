"""C01: the sample sequence of a seeded generator does not depend on how it is consumed."""
import copy
import pickle

import numpy as np

from vp import streams as S

LEVEL = 'exploration'
RULE = ('an evaluation compares one delivered stretch of samples with the reference stretch; '
        'distinct = (generator, configuration, seed, consumption schedule) digests')
ASSUMPTIONS = ['seeds are integers (random_state=None shares numpy\'s global generator by design)']
REQUIRED = {'samples_compared': 5000, 'chunked': 20, 'restart': 20, 'interleaved': 20,
            'global_rng': 20, 'copied': 10, 'concept_drift_stream': 5}


def cases(tier, seed):
    out = []
    reps = 12 if tier == 'quick' else 60
    for n in S.names():
        for i in range(reps):
            out.append({'fam': n, 'i': i, 'seed': seed, 'n': 160 if i % 4 else 700, 'cost': 2})
    for i in range(12 if tier == 'quick' else 80):
        out.append({'fam': 'ConceptDriftStream', 'i': i, 'seed': seed, 'n': 400, 'cost': 2})
    return out


def _maker(case, r):
    name = case['fam']
    seed = int(r.randint(0, 100000))
    if name != 'ConceptDriftStream':
        cfg = S.config(name, r)
        return name, (cfg, seed), lambda c=cfg, s=seed: S.make(name, c, s)
    from skmultiflow.data import ConceptDriftStream
    pair = str(r.choice(['SEAGenerator', 'SineGenerator', 'STAGGERGenerator', 'MIXEDGenerator',
                         'AGRAWALGenerator', 'HyperplaneGenerator', 'RandomRBFGenerator',
                         'LEDGenerator', 'RandomTreeGenerator', 'WaveformGenerator']))
    c1 = S.config(pair, r)
    c2 = dict(S.config(pair, r))
    for k in ('n_features', 'has_noise', 'n_classes', 'n_cat_features', 'n_num_features',
              'n_categories_per_cat_feature', 'n_drift_features'):
        if k in c1:
            c2[k] = c1[k]
    s2 = int(r.randint(0, 100000))
    pos, w = int(r.randint(50, 350)), int(r.choice([1, 50, 400]))
    al = None if r.randint(2) else float(r.uniform(0.5, 90))
    cfg = dict(pair=pair, c1=c1, c2=c2, s2=s2, position=pos, width=w, alpha=al)

    def mk():
        return ConceptDriftStream(stream=S.make(pair, c1, seed), drift_stream=S.make(pair, c2, s2),
                                  position=pos, width=w, alpha=al, random_state=seed)
    return name, (cfg, seed), mk


def _driven(st, sizes, drifts, total):
    """Draws `total` samples in the given sizes, calling generate_drift at the given indices."""
    xs, ys, at, q = [], [], 0, list(sizes)
    pend = sorted(drifts)
    while at < total:
        if pend and pend[0] == at:
            st.generate_drift()
            pend.pop(0)
        b = q.pop(0) if q else 1
        lim = (pend[0] if pend else total) - at
        if b > lim:
            q.insert(0, b - lim)
            b = lim
        X, y = st.next_sample(b)
        xs.append(np.array(X, copy=True))
        ys.append(np.array(y, copy=True))
        at += b
    return np.concatenate(xs), np.concatenate(ys)


def run(case, rec):
    r = np.random.RandomState((case['seed'] * 7919 + case['i'] * 104729 +
                               sum(map(ord, case['fam']))) % (2 ** 31))
    name, cfg, mk = _maker(case, r)
    n = case['n']
    first = mk()
    if name in S.FINITE:
        n = min(n, cfg[0]['n_samples'])
    RX, Ry = S.draw(first, [1] * n)
    rec.sample(generator=name, config=repr(cfg)[:300], first_row=RX[0], first_label=Ry[0])
    if name == 'ConceptDriftStream':
        rec.count('concept_drift_stream')
    if name not in S.FINITE and n > 50:
        distinct = len({row.tobytes() for row in np.column_stack([RX, Ry.reshape(n, -1)])})
        rec.count('distinct_rows_seen', distinct)

    def cmp(X, y, what, lo=0):
        hi = lo + len(X)
        rec.count('samples_compared', len(X))
        rec.key(repr(cfg), what, lo, hi)
        rec.same(X, RX[lo:hi], 'seq:%s:%s' % (name, what), '%s: features differ' % what)
        rec.same(np.asarray(y, float), np.asarray(Ry[lo:hi], float),
                 'seq:%s:%s' % (name, what), '%s: targets differ' % what)

    # 1 chunking
    for k in range(3):
        sizes = S.partition(r, n)
        X, y = S.draw(mk(), sizes)
        cmp(X, y, 'chunked')
        rec.count('chunked')
    # 2 restart anywhere, several times
    st = mk()
    for k in range(3):
        m = int(r.randint(1, n + 1))
        X, y = S.draw(st, S.partition(r, m))
        cmp(X, y, 'restart' if k else 'fresh')
        st.restart()
        rec.count('restart')
    X, y = S.draw(st, S.partition(r, n))
    cmp(X, y, 'restart')
    # 2b restart of an instance that has delivered nothing
    st = mk()
    st.restart()
    X, y = S.draw(st, S.partition(r, n))
    cmp(X, y, 'restart_unused')
    # 3 other instances of every kind are created and consumed in between
    st = mk()
    other = mk()
    others = [S.make(o, S.config(o, r), int(r.randint(0, 999)))
              for o in r.choice(S.names(), 3)]
    if name in S.SIMPLE:
        others.append(S.make(name, S.config(name, r), int(r.randint(0, 999))))
    lo = 0
    oth_X = []
    for b in S.partition(r, n, 40):
        X, y = st.next_sample(b)
        cmp(np.array(X), np.array(y), 'interleaved', lo)
        lo += b
        Xo, yo = other.next_sample(b)
        oth_X.append((np.array(Xo), np.array(yo)))
        o = others[r.randint(len(others))]
        if o.has_more_samples() and o.n_remaining_samples() not in range(0, 4):
            o.next_sample(int(r.randint(1, 4)))
        if r.rand() < 0.15:
            o.restart()
        if name in S.SIMPLE and r.rand() < 0.2:
            others.append(S.make(name, S.config(name, r), int(r.randint(0, 999))))
        rec.count('interleaved')
    cmp(np.concatenate([a for a, _ in oth_X]), np.concatenate([b for _, b in oth_X]),
        'interleaved_twin')
    # 4 the global random generators are used and re-seeded by the rest of the program
    np.random.seed(int(r.randint(1000)))
    st = mk()
    lo = 0
    for b in S.partition(r, n, 60):
        np.random.seed(int(r.randint(1000)))
        np.random.rand(3)
        X, y = st.next_sample(b)
        cmp(np.array(X), np.array(y), 'global_rng', lo)
        lo += b
        rec.count('global_rng')
    # 4b and drawing from a seeded stream leaves the program's own random numbers alone
    np.random.seed(5)
    want = np.random.rand(4)
    np.random.seed(5)
    st = mk()
    st.next_sample(5)
    rec.same(np.random.rand(4), want, 'seq:%s:touches_global_rng' % name,
             'a seeded stream consumed the global random generator')
    # 5 copies taken mid-stream continue the same sequence, independently
    st = mk()
    m = int(r.randint(0, n))
    if m:
        S.draw(st, S.partition(r, m))
    if name in S.FINITE and m == n:
        m = n - 1
    cps = [copy.deepcopy(st)]
    try:
        cps.append(pickle.loads(pickle.dumps(st)))
    except (pickle.PicklingError, AttributeError, TypeError):
        rec.count('not_picklable')
    for c in cps + [st]:
        if n - m > 0:
            X, y = S.draw(c, S.partition(r, n - m))
            cmp(X, y, 'copied', m)
            rec.count('copied')
    # 6 drift calls happen at sample positions, not at batch boundaries
    if name in S.DRIFTABLE:
        ds = sorted(set(int(v) for v in r.randint(0, n, 3)))
        a = mk()
        AX, Ay = _driven(a, [1] * n, ds, n)
        b = mk()
        BX, By = _driven(b, S.partition(r, n), ds, n)
        rec.same(BX, AX, 'seq:%s:drift_chunked' % name, 'features differ after generate_drift')
        rec.same(By, Ay, 'seq:%s:drift_chunked' % name, 'labels differ after generate_drift')
        rec.count('drift_calls', len(ds))
    # 7 another seed gives another sequence (the seed is actually used)
    if name in S.SIMPLE and name != 'AnomalySineGenerator' and n > 100:
        X, y = S.draw(S.make(name, cfg[0], cfg[1] + 12345), [n])
        rec.check(not (np.array_equal(X, RX) and np.array_equal(y, Ry)),
                  'seq:%s:seed_ignored' % name, 'two different seeds gave the same sequence')
