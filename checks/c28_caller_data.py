"""Learners neither alter nor keep hold of the arrays their callers pass in or get back."""
import numpy as np

from vp import models as M

LEVEL = 'exploration'
RULE = ('No learner writes to the arrays it is given (rows, labels, weights, list of classes), in training or in '
        'prediction; what it learned does not change when the caller afterwards reuses those arrays for something '
        'else, nor when the caller overwrites an array of predictions or scores it was handed; and the memory layout '
        'of the rows (column order, strided or read-only views) has no influence on the outcome.')
REQUIRED = {'models': 38, 'arrays_watched': 10000, 'overwritten': 5000, 'layouts': 2000, 'answers': 600}
ASSUMPTIONS = ['rows are two-dimensional float arrays']


def cases(tier, seed):
    return M.cases([('reuse', None), ('layout', None)], tier, seed, 8, 60, 28)


def layout(X, how):
    if how == 0:
        return np.asfortranarray(X)
    if how == 1:
        Z = np.full((2 * X.shape[0], X.shape[1] + 3), 1e6)
        Z[::2, 1:-2] = X
        return Z[::2, 1:-2]
    if how == 2:
        Z = X[::-1].copy()
        return Z[::-1]
    X = X.copy()
    X.setflags(write=False)
    return X


def run(case, rec):
    e, d, dr, fresh, r = M.start(case)
    if case['i'] == 0 and case['fam'] == 'reuse':
        rec.count('models')
    plain, used = fresh(), fresh()
    if not e.pure:
        return
    ch = dr.chunks(r)
    stops = set(r.randint(1, len(ch), size=3).tolist()) | {len(ch) - 1}
    try:
        for n, (a, b) in enumerate(ch):
            dr.train(plain, a, b)
            X, y, w = d.X[a:b].copy(), d.y[a:b].copy(), d.w[a:b].copy()
            cl = None if d.classes is None else np.array(d.classes)
            if case['fam'] == 'layout':
                X = layout(X, int(r.randint(4)))
                y = y if r.randint(2) else layout(y.reshape(len(y), -1), 3).reshape(y.shape)
                rec.count('layouts')
            before = [v.copy() for v in (X, y, w)]
            dr.train(used, a, b, X=X, y=y, w=w, classes=cl if e.name.startswith('LearnPPNSE') else
                     (None if cl is None else cl.tolist()))
            for nm, v, o in zip(('X', 'y', 'sample_weight'), (X, y, w), before):
                rec.check(np.array_equal(v, o), 'training-writes:%s:%s' % (e.name, nm),
                          lambda: 'partial_fit changed the caller\'s %s from %s to %s' % (nm, o.tolist(), v.tolist()))
                rec.count('arrays_watched')
            if case['fam'] == 'reuse':
                X[...] = 77.25
                y[...] = y.flat[0] if n % 2 else 1
                w[...] = 1e3
                rec.count('overwritten', 3)
            if n in stops:
                want = M.out(plain, d.probe, e)
                P = d.probe.copy()
                if case['fam'] == 'layout':
                    P = layout(P, int(r.randint(4)))
                got = M.out(used, P, e)
                rec.check(np.array_equal(P, d.probe), 'prediction-writes:%s' % e.name,
                          lambda: 'predict changed the caller\'s rows')
                bad = M.same_out(got, want)
                rec.check(bad is None, '%s:%s' % ('kept-reference' if case['fam'] == 'reuse' else 'layout', e.name),
                          lambda: 'after %d rows: %s' % (b, bad))
                rec.count('answers')
                rec.key(e.name, want[0])
                if case['fam'] == 'reuse':
                    P[...] = -3.5
                    for v in got:
                        if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype != object:
                            v[...] = 1
                    bad = M.same_out(M.out(used, d.probe, e), want)
                    rec.check(bad is None, 'answer-aliased:%s' % e.name,
                              lambda: 'after the caller overwrote the arrays it was handed: %s' % bad)
    except M.Skip:
        rec.count('refused')
