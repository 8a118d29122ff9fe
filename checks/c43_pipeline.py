"""Pipelines: every step learns from and passes on exactly what the steps before it produce."""
import numpy as np

from vp import driftload
from vp.spy import Log, Spy

LEVEL = 'exploration'
RULE = ('a case builds a pipeline of 0-4 logged transforms (offering different methods, some steps None, some from '
        'scikit-learn) and a final scripted learner, makes 5-25 random fit, partial_fit, partial_fit_predict and predict '
        'calls and compares with the same steps applied by hand; every case is non-trivial; distinct by layout and answers')
REQUIRED = {'calls': 1200, 'learned': 900, 'answers': 2000, 'none_steps': 25, 'sklearn_steps': 25, 'classes': 200,
            'refused': 30}
ASSUMPTIONS = ['transforms implement fit, partial_fit and transform (fit_transform and partial_fit_transform are optional)']


def cases(tier, seed):
    n = 400 if tier == 'quick' else 1600
    return [{'fam': 'pipe', 'i': i, 'seed': seed} for i in range(n)] + [{'fam': 'bad', 'i': i, 'seed': seed} for i in range(8)]


class T:
    """x -> a * x + b + (number of rows learned) / 8; logs what it learns."""

    def __init__(self, a, b):
        self.a, self.b, self.n, self.log = a, b, 0, []

    def _learn(self, X, y, classes, fresh):
        self.n = (0 if fresh else self.n) + len(X)
        self.log.append((np.array(X), None if y is None else np.array(y), classes, fresh))

    def transform(self, X):
        return self.a * np.asarray(X) + self.b + self.n / 8.0


class Plain(T):
    def fit(self, X, y=None):
        self._learn(X, y, None, True)
        return self

    def partial_fit(self, X, y=None):
        self._learn(X, y, None, False)
        return self


class Both(Plain):
    """Offers the combined methods as well."""

    def fit_transform(self, X, y=None):
        return self.fit(X, y).transform(X)

    def partial_fit_transform(self, X, y=None):
        return self.partial_fit(X, y).transform(X)


class FitOnly(Plain):
    """Like scikit-learn: fit_transform, but no partial_fit_transform."""

    def fit_transform(self, X, y=None):
        return self.fit(X, y).transform(X)


class WithClasses(T):
    def fit(self, X, y=None):
        self._learn(X, y, None, True)
        return self

    def partial_fit(self, X, y=None, classes=None):
        self._learn(X, y, None if classes is None else list(classes), False)
        return self

    def partial_fit_transform(self, X, y=None, classes=None):
        return self.partial_fit(X, y, classes).transform(X)


class NoClasses(Spy):
    def partial_fit(self, X, y):
        return self._learn('train', X, y, None, None)


def run(case, rec):
    r = driftload.rng(case)
    (bad if case['fam'] == 'bad' else pipe)(case, rec, r)


def bad(case, rec, r):
    from skmultiflow.core import Pipeline

    class NoTransform:
        def fit(self, X, y=None):
            return self

    class NoFit:
        def transform(self, X):
            return X
    for step in (NoTransform(), NoFit(), object()):
        steps = [('a', Plain(1, 0)), ('b', step), ('c', Spy(Log()))]
        if r.randint(2):
            steps = steps[1:]
        try:
            Pipeline(steps)
            rec.fail('refuse:Pipeline', 'a step that is no transform was accepted')
        except TypeError:
            rec.ok()
        rec.count('refused', 3)
        rec.key(type(step).__name__, len(steps))


def pipe(case, rec, r):
    from skmultiflow.core import Pipeline
    from sklearn.preprocessing import StandardScaler
    log = Log()
    last = (NoClasses if r.rand() < 0.3 else Spy)(log, 2)
    steps, mirror = [], []
    for i in range(int(r.randint(0, 5))):
        kind = int(r.randint(6))
        a, b = float(r.choice([1, 2, -1])), float(r.randint(3))
        if kind == 4:
            steps.append(('s%d' % i, None))
            mirror.append(None)
            rec.count('none_steps')
        elif kind == 5:
            steps.append(('s%d' % i, StandardScaler()))
            mirror.append(StandardScaler())
            rec.count('sklearn_steps')
        else:
            C = (Plain, Both, FitOnly, WithClasses)[kind]
            steps.append(('s%d' % i, C(a, b)))
            mirror.append(C(a, b))
    steps.append(('last', last))
    p = Pipeline(steps)
    rec.sample(steps=[type(s).__name__ for _, s in steps])
    rec.same(list(p.named_steps()), [n for n, _ in steps], 'names:Pipeline', 'named_steps')
    fitted = False
    for _ in range(int(r.randint(5, 26))):
        how = str(r.choice(['fit', 'partial_fit', 'partial_fit', 'predict', 'partial_fit_predict']))
        if how == 'predict' and not fitted:
            continue
        n = int(r.choice([2, 3, 8]))
        X, y = r.normal(size=(n, 3)), r.randint(0, 2, size=n)
        log.take()
        kw = {}
        if how == 'partial_fit' and r.randint(2):
            kw['classes'] = [0, 1]
            rec.count('classes')
        keep = X.copy()
        out = getattr(p, how)(X) if how == 'predict' else getattr(p, how)(X, y, **kw)
        rec.check(np.array_equal(X, keep), 'input:Pipeline', how + ' changed the samples')
        ev = log.take()
        rec.count('calls')
        # the same by hand
        Xt = X
        for t in mirror:
            if t is None:
                continue
            if how == 'fit':
                t.fit(Xt, y)
            elif how != 'predict':
                if isinstance(t, WithClasses):
                    t.partial_fit(Xt, y, kw.get('classes'))
                else:
                    t.partial_fit(Xt, y)
            Xt = t.transform(Xt)
        learned = [e for e in ev if e[0] in ('train', 'fit')]
        if how == 'predict':
            rec.check(not learned, 'learned:Pipeline', 'predict trained the learner')
        else:
            fitted = True
            rec.check(len(learned) == 1, 'learned:Pipeline', lambda: '%s trained the learner %d times' % (how, len(learned)))
            e = learned[0]
            rec.check((e[0] == 'fit') == (how == 'fit'), 'learned:Pipeline', lambda: '%s called %s' % (how, e[0]))
            rec.check(e[2].shape == Xt.shape and np.allclose(e[2], Xt), 'passed:Pipeline',
                      lambda: '%s: the learner got %s, the steps give %s' % (how, e[2].tolist(), np.asarray(Xt).tolist()))
            rec.check(np.array_equal(e[3], y), 'labels:Pipeline', 'the learner got other labels')
            if not isinstance(last, NoClasses) and 'classes' in kw:
                rec.check(e[4] == [0, 1], 'classes:Pipeline', lambda: 'classes reached the learner as %s' % e[4])
            rec.count('learned')
            if how != 'partial_fit_predict':
                rec.check(out is p, 'chain:Pipeline', how + ' does not return the pipeline')
        for (_, s), t in zip(steps, mirror):
            if isinstance(s, T):
                same = len(s.log) == len(t.log) and all(
                    np.allclose(a[0], b[0]) and np.array_equal(a[1], b[1]) and a[3] == b[3]
                    and (a[2] == b[2]) for a, b in zip(s.log[-2:], t.log[-2:]))
                rec.check(same, 'step:Pipeline', lambda: '%s: %s learned %d times (%d expected), or something else' % (
                    how, type(s).__name__, len(s.log), len(t.log)))
        if how in ('predict', 'partial_fit_predict'):
            rec.check(np.array_equal(np.asarray(out), [last.label(x) for x in np.asarray(Xt)]), 'answer:Pipeline',
                      lambda: '%s: answers %s' % (how, np.asarray(out).tolist()))
            rec.count('answers', n)
            rec.key(out, [type(s).__name__ for _, s in steps])
