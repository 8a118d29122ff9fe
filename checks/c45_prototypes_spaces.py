"""Learning vector quantization, half-space trees and the perceptron mask against direct computations."""
import math
import warnings

import numpy as np

from vp import driftload

LEVEL = 'exploration'
RULE = ('a case trains one learner on 100-900 random samples in random batches and compares its published state and its answers '
        'with the published formulas applied to the raw samples; every case is non-trivial; distinct by configuration and answers')
REQUIRED = {'rslvq_samples': 5000, 'moved': 1000, 'late_classes': 12, 'several_prototypes': 8, 'given_prototypes': 6,
            'rslvq_answers': 8000, 'hst_scores': 3000, 'hst_windows': 100, 'hst_limited': 600, 'flagged': 700,
            'mask_answers': 5000}
ASSUMPTIONS = ['the random partition of a half-space tree is read from the tree; what is judged are the masses of the regions '
               'and the scores', 'half-space trees are judged from the third window on (see the known findings)']
FAMS = ('rslvq', 'hst', 'mask')


def cases(tier, seed):
    n = 160 if tier == 'quick' else 600
    return [{'fam': f, 'i': i, 'seed': seed} for i in range(n) for f in FAMS] + [
        {'fam': 'second', 'i': 0, 'seed': seed}, {'fam': 'last', 'i': 0, 'seed': seed}, {'fam': 'halves', 'i': 0, 'seed': seed}]


def run(case, rec):
    r = driftload.rng(case)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()[case['fam']](rec, r)


# ---------------------------------------------------------------- RSLVQ

def soft(w, x, sigma, among):
    f = {j: -float(np.dot(x - w[j], x - w[j])) / (2 * sigma) for j in among}
    m = max(f.values())
    s = math.fsum(math.exp(v - m) for v in f.values())
    return {j: math.exp(v - m) / s for j, v in f.items()}


def rslvq(rec, r):
    from skmultiflow.prototype import RobustSoftLearningVectorQuantization as M
    name = M.__name__
    D, k = int(r.randint(1, 5)), int(r.randint(2, 5))
    sigma, gamma = float(r.choice([0.5, 1, 3])), float(r.choice([0.5, 0.9]))
    ada = bool(r.randint(2))
    style = int(r.randint(4))
    ppc = 1 if style < 2 else int(r.randint(2, 4)) if style == 2 else [int(v) for v in r.randint(1, 4, size=k)]
    centre = r.normal(size=(k, D)) * 2
    given = None
    if r.rand() < 0.25:
        ppc = 1
        given = np.column_stack([centre + r.normal(size=(k, D)), np.arange(k)])
        rec.count('given_prototypes')
    kept = None if given is None else given.copy()
    seed = int(r.randint(1 << 30))
    m = M(prototypes_per_class=ppc, sigma=sigma, gamma=gamma, gradient_descent='adadelta' if ada else 'vanilla',
          random_state=seed, initial_prototypes=given)
    num = [ppc] * k if isinstance(ppc, int) else ppc
    lab = np.repeat(np.arange(k), num)
    rec.sample(model=name, ppc=str(ppc), sigma=sigma, adadelta=ada, given=given is not None, classes=k)
    rec.count('several_prototypes', int(sum(num) > k))
    w = None if given is None else given[:, :-1].copy()
    g2, s2 = np.zeros((len(lab), D)), np.zeros((len(lab), D))
    known = set() if given is None else set(range(k))
    n, t, first = int(r.choice([100, 300])), 0, True
    allowed = [0] if r.randint(2) and given is None else list(range(k))
    while t < n:
        b = min(n - t, int(r.choice([1, 1, 5, 30])))
        y = r.choice(allowed, size=b)
        X = centre[y] + r.normal(size=(b, D))
        if r.rand() < 0.2 and len(allowed) < k:
            allowed.append(len(allowed))
            rec.count('late_classes')
        kw = {'classes': [list(range(k)), np.arange(k)][int(r.randint(2))]} if first or r.randint(2) else {}
        if w is None:
            w = np.full((len(lab), D), np.inf)
        m.partial_fit(X.copy(), y.copy(), **kw)
        first = False
        real, rl = np.asarray(m.prototypes), np.asarray(m.prototypes_classes)
        rec.check(real.shape == w.shape and np.array_equal(rl, lab), 'prototypes:' + name,
                  lambda: 'prototypes of the classes %s' % rl.tolist())
        fresh = set(int(c) for c in y) - known
        guess = False
        for c in fresh:
            mean = X[y == c].mean(axis=0)
            at = np.flatnonzero(lab == c)
            if ppc == 1:
                w[at] = mean
            else:
                # a random offset of at most one in every direction from the mean; seen only when nothing moved it
                guess = True
                w[at] = real[at]
        known |= fresh
        if guess:
            if b == 1:
                for c in fresh:
                    at = np.flatnonzero(lab == c)
                    rec.check(np.abs(real[at] - X[0]).max() <= 1 + 1e-9 or len(known) > 1, 'start:' + name,
                              lambda: 'prototypes %s around the mean %s' % (real[at].tolist(), X[0].tolist()))
            w = real.copy()                       # where they start is random: adopt
            t += b
            if ada:
                g2, s2 = np.array(m.squared_mean_gradient), np.array(m.squared_mean_step)
            continue
        unsure = False
        for x, c in zip(X, y):
            dist = np.sqrt(((x - w) ** 2).sum(axis=1))
            good = [j for j in range(len(lab)) if lab[j] == c]
            bad = [j for j in range(len(lab)) if lab[j] != c and lab[j] in known]
            rec.count('rslvq_samples')
            if not bad:
                continue
            gj, bj = min(good, key=lambda j: dist[j]), min(bad, key=lambda j: dist[j])
            if abs(dist[gj] - dist[bj]) < 1e-9 * (1 + dist[gj]):
                unsure = True
            if not dist[bj] < dist[gj]:
                continue
            rec.count('moved')
            for j in (gj, bj):
                seen = [i for i in range(len(lab)) if lab[i] in known]
                p = soft(w, x, sigma, seen)[j]
                d = x - w[j]
                grad = (soft(w, x, sigma, good)[j] - p) * d if lab[j] == c else -p * d
                if ada:
                    g2[j] = gamma * g2[j] + (1 - gamma) * grad * grad
                    step = np.sqrt((s2[j] + 1e-8) / (g2[j] + 1e-8)) * grad
                    s2[j] = gamma * s2[j] + (1 - gamma) * step * step
                    w[j] = w[j] + step
                else:
                    w[j] = w[j] + grad / sigma
        if unsure:
            w = real.copy()
            if ada:
                g2, s2 = np.array(m.squared_mean_gradient), np.array(m.squared_mean_step)
        live = np.isin(lab, sorted(known))
        rec.check(np.allclose(real[live], w[live], rtol=1e-6, atol=1e-6), 'moved:' + name,
                  lambda: 'prototypes %s instead of %s' % (real[live].tolist(), w[live].tolist()))
        w[live] = real[live]
        if given is not None:
            rec.check(np.array_equal(given, kept), 'given:' + name, 'the initial prototypes were changed')
        Q = centre[r.randint(k, size=20)] + r.normal(size=(20, D))
        got = np.asarray(m.predict(Q))
        rec.check(got.shape == (20,), 'answer:' + name, lambda: 'shape %s' % (got.shape,))
        for q, a in zip(Q, got):
            dist = np.sqrt(((q - w[live]) ** 2).sum(axis=1))
            ok = lab[live][dist <= dist.min() + 1e-7 * (1 + dist.min())]
            rec.check(a in ok, 'answer:' + name, lambda: 'label %s, the nearest prototype has %s' % (a, ok.tolist()))
        rec.count('rslvq_answers', 20)
        t += b
    rec.key(name, got, w[live])


# ---------------------------------------------------------------- half-space trees

def region(node, x, depth):
    """The nodes a sample passes, from the root to the leaf."""
    out, d = [], 1
    while True:
        out.append((id(node), d))
        if d == depth:
            return out
        node = node.right if x[node.split_attribute] > node.split_value else node.left
        d += 1


def hst(rec, r):
    from skmultiflow.anomaly_detection import HalfSpaceTrees
    name = 'HalfSpaceTrees'
    D, W, depth = int(r.randint(2, 5)), int(r.choice([10, 25, 60])), int(r.randint(2, 8))
    n_est, limit = int(r.randint(1, 6)), int(r.choice([0, 2, 10]))
    thr = float(r.choice([0.2, 0.5, 0.8, 0.95]))
    m = HalfSpaceTrees(window_size=W, depth=depth, n_estimators=n_est, size_limit=limit, anomaly_threshold=thr,
                       random_state=int(r.randint(1 << 30)))
    rec.sample(model=name, window=W, depth=depth, trees=n_est, limit=limit)
    rows = []
    n = int(r.choice([4, 6, 8])) * W
    centre = r.rand(D)

    def draw(b):
        X = np.clip(centre + 0.15 * r.normal(size=(b, D)), 0, 1)
        far = r.rand(b) < 0.1
        X[far] = r.rand(int(far.sum()), D)
        return X
    seen = -1
    while len(rows) < n:
        b = int(r.choice([1, 2, 7, 40]))
        X = draw(b)
        if r.rand() < 0.05:
            centre = r.rand(D)
        m.partial_fit(X.copy())
        rows += [x for x in X]
        last = len(rows) - 1                       # number of the latest sample, from zero
        end = last // W * W                        # the profile is renewed with every W-th sample
        if end < 2 * W:
            continue
        if end != seen:
            seen = end
            rec.count('hst_windows')
            mass = {}
            for tree in m.ensemble:
                for x in rows[end - W + 1:end + 1]:
                    for node, _ in region(tree.root, x, depth):
                        mass[node] = mass.get(node, 0) + 1
        Q = draw(int(r.choice([1, 5, 20])))
        got = np.asarray(m.predict_proba(Q))
        lab = np.asarray(m.predict(Q))
        rec.check(got.shape == (len(Q), 2) and lab.shape == (len(Q),), 'shape:' + name, lambda: 'shapes %s, %s' % (got.shape, lab.shape))
        for q, p, a in zip(Q, got, lab):
            s = []
            for tree in m.ensemble:
                for node, d in region(tree.root, q, depth):
                    if d == depth or mass.get(node, 0) <= limit:
                        rec.count('hst_limited', int(d < depth))
                        s.append(mass.get(node, 0) * 2.0 ** d / (W * 2.0 ** depth))
                        break
            want = 1 - sum(s) / len(s)
            rec.check(abs(p[1] - want) < 1e-9 and abs(p[0] - (1 - want)) < 1e-9, 'score:' + name,
                      lambda: 'scores %s, the masses of the last window give %s' % (p.tolist(), want))
            rec.check(a == int(p[1] > thr) or abs(p[1] - thr) < 1e-9, 'flag:' + name, lambda: 'label %s for score %s (threshold %s)' % (a, p[1], thr))
            rec.count('flagged', int(a == 1))
        rec.count('hst_scores', len(Q))
        rec.key(name, got)


def second(rec, r):
    """Directed: in the second window the profile is that of the first window."""
    from skmultiflow.anomaly_detection import HalfSpaceTrees
    m = HalfSpaceTrees(window_size=50, depth=4, n_estimators=3, size_limit=0, random_state=1)
    X = np.full((75, 2), 0.5)
    m.partial_fit(X)
    s = float(np.asarray(m.predict_proba(X[:1]))[0, 1])
    if s > 0.5:
        rec.fail('second-window:HalfSpaceTrees', 'the only value ever seen scores %s in the second window' % s)
    rec.ok()
    rec.key('second', s)


def last(rec, r):
    """Directed: every feature can be split on."""
    from skmultiflow.anomaly_detection import HalfSpaceTrees
    m = HalfSpaceTrees(window_size=20, depth=6, n_estimators=30, random_state=1)
    m.partial_fit(np.random.RandomState(1).rand(50, 2))
    used = set()
    todo = [t.root for t in m.ensemble]
    while todo:
        v = todo.pop()
        if v is not None and v.left is not None:
            used.add(int(v.split_attribute))
            todo += [v.left, v.right]
    if 1 not in used:
        rec.fail('last-feature:HalfSpaceTrees', 'of two features only %s are ever split on' % sorted(used))
    rec.ok()
    rec.key('last', sorted(used))


def halves(rec, r):
    """Directed: a feature no test above a node has used is cut in the middle of its whole range."""
    from skmultiflow.anomaly_detection import HalfSpaceTrees
    m = HalfSpaceTrees(window_size=20, depth=6, n_estimators=20, random_state=1)
    m.partial_fit(np.random.RandomState(1).rand(50, 4))
    bad = 0
    for t in m.ensemble:
        cuts, todo = {}, [(t.root, ())]
        while todo:
            v, above = todo.pop()
            if v is None or v.left is None:
                continue
            a = int(v.split_attribute)
            if a not in above:
                bad += abs(cuts.setdefault(a, v.split_value) - v.split_value) > 1e-9
            todo += [(v.left, above + (a,)), (v.right, above + (a,))]
    if bad:
        rec.fail('uneven-halves:HalfSpaceTrees', '%d regions are not cut in the middle of their range' % bad)
    rec.ok()
    rec.key('halves', bad)


# ---------------------------------------------------------------- PerceptronMask

def mask(rec, r):
    from sklearn.linear_model import Perceptron
    from skmultiflow.neural_networks import PerceptronMask
    name = 'PerceptronMask'
    D, k = int(r.randint(1, 5)), int(r.randint(2, 5))
    kw = dict(penalty=[None, 'l2', 'l1', 'elasticnet'][int(r.randint(4))], alpha=float(r.choice([1e-4, 0.01])),
              fit_intercept=bool(r.randint(2)), max_iter=int(r.choice([5, 50])), tol=[None, 1e-3][int(r.randint(2))],
              shuffle=bool(r.randint(2)), eta0=float(r.choice([1, 0.1])), random_state=int(r.randint(1 << 30)),
              n_iter_no_change=int(r.choice([2, 5])), warm_start=bool(r.randint(2)),
              class_weight=None)
    m, ref = PerceptronMask(**kw), Perceptron(**kw)
    rec.sample(model=name, **{a: str(b) for a, b in kw.items()})
    centre = r.normal(size=(k, D)) * 2
    first = True
    for _ in range(int(r.randint(3, 15))):
        n = int(r.choice([k, 10, 40]))
        y = r.randint(k, size=n)
        X = centre[y] + r.normal(size=(n, D))
        sw = r.choice([0.5, 1, 3], size=n) if r.randint(2) else None
        if r.rand() < 0.2:
            y[:k] = np.arange(k)[:n]
            a = m.fit(X, y, sample_weight=sw)
            ref.fit(X, y, sample_weight=sw)
        else:
            c = np.arange(k) if first or r.randint(2) else None
            a = m.partial_fit(X, y, classes=c, sample_weight=sw)
            ref.partial_fit(X, y, classes=c, sample_weight=sw)
        first = False
        rec.check(a is m, 'chain:' + name, 'training does not return the learner')
        Q = centre[r.randint(k, size=30)] + r.normal(size=(30, D))
        rec.same(np.asarray(m.predict(Q)), ref.predict(Q), 'answer:' + name, 'labels')
        rec.check(np.allclose(m.predict_proba(Q), ref._predict_proba_lr(Q)), 'scores:' + name, 'scores differ from those of the masked perceptron')
        rec.count('mask_answers', 30)
    rec.key(name, m.predict(Q))
