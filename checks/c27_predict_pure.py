"""Asking any learner for predictions leaves what it will answer and learn unchanged."""
from vp import models as M

LEVEL = 'exploration'
RULE = ('Predicting never changes a learner: between two twins that receive the same training calls, one of which is '
        'also asked for predictions (and scores, repeatedly, for seen and unseen rows, before and between trainings), '
        'all later answers are identical; asking twice gives the same answer twice.')
REQUIRED = {'models': 37, 'twin_answers': 400, 'extra_predictions': 3000}
ASSUMPTIONS = ['MonteCarloClassifierChain samples its answers and is excluded; learners that cannot predict before '
               'their first training are only asked after it']


def cases(tier, seed):
    return M.cases([('twins', lambda e: e.pure)], tier, seed, 16, 120, 27)


def run(case, rec):
    e, d, dr, fresh, r = M.start(case)
    quiet, asked = fresh(), fresh()
    rec.count('models', 0)
    rec.key(e.name)
    if case['i'] == 0:
        rec.count('models')
    if e.fit0:
        M.out(asked, d.probe[:3], e)
        rec.count('extra_predictions')
    ch = dr.chunks(r)
    stops = set(r.randint(1, len(ch), size=2).tolist()) | {len(ch) - 1}
    try:
        for n, (a, b) in enumerate(ch):
            dr.train(quiet, a, b)
            dr.train(asked, a, b)
            if n in stops:
                want = M.out(quiet, d.probe, e)
                got = M.out(asked, d.probe, e)
                bad = M.same_out(got, want)
                rec.check(bad is None, 'twin-differs:%s' % e.name,
                          lambda: 'after %d rows the learner that was asked for predictions in between gives %s'
                          % (b, bad))
                bad = M.same_out(M.out(quiet, d.probe, e), want)
                rec.check(bad is None, 'second-answer:%s' % e.name,
                          lambda: 'asked again after %d rows the learner gives %s' % (b, bad))
                rec.count('twin_answers')
                rec.key(e.name, want[0])
            for _ in range(int(r.choice([0, 1, 3]))):
                k = int(r.randint(1, 8))
                rows = d.probe[r.randint(0, len(d.probe), k)]
                M.out(asked, rows, e, probs=bool(r.randint(2)))
                rec.count('extra_predictions')
    except M.Skip:
        rec.count('refused')
