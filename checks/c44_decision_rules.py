"""Very fast decision rules: who learns what, when rules appear, grow and go, and how they vote."""
import math

import numpy as np

from vp import driftload
from vp.forestload import detector_class
from vp.refht import EPS, Ambiguous, Leaf, RefHT
from vp.spy import Log

LEVEL = 'exploration'
RULE = ('a case trains a rule classifier sample by sample (300-1200 samples with numeric and nominal features, random weights, '
        'criterion, ordering, drift detector, limits) and compares the published rules and the answers after every sample with '
        'a reference that keeps the raw samples of every rule; every case is non-trivial; distinct by configuration and rules')
REQUIRED = {'samples': 20000, 'created': 90, 'expanded': 50, 'merged': 10, 'not_equal': 10, 'dropped': 20, 'learned_rule':
            6000, 'learned_default': 10000, 'learned_several': 250, 'answers': 6000, 'bayes': 1500, 'several_fire': 300,
            'at_limit': 100, 'foil_rules': 40, 'judged': 500}
ASSUMPTIONS = ['the side of a test that becomes a rule is not prescribed, only that the rule and what is left of the default '
               'rule inherit the two sides', 'for foil_gain the choice of a test is not prescribed, only who may change and when']
FAMS = ('info_gain', 'info_gain', 'hellinger', 'foil_gain')


def cases(tier, seed):
    n = 110 if tier == 'quick' else 500
    return [{'fam': f, 'i': i * len(FAMS) + k, 'seed': seed} for i in range(n // 2) for k, f in enumerate(FAMS)]


class R(Leaf):
    """What one rule must look like."""

    def __init__(self, stats=None, preds=()):
        super().__init__(stats)
        self.preds = list(preds)
        self.last = 0.0

    def covers(self, x):
        return all(holds(p, x) for p in self.preds)


def holds(p, x):
    a, op, v = p
    return {'<=': x[a] <= v, '>': x[a] > v, '=': x[a] == v, '==': x[a] == v, '!=': x[a] != v}[op]


def seen(rule):
    return [(int(p.att_idx), {'==': '='}.get(p.operator, p.operator), float(p.value)) for p in rule.predicate_set]


def near(d, e):
    return all(abs(d.get(c, 0.0) - e.get(c, 0.0)) <= 1e-6 * (1 + abs(e.get(c, 0.0))) for c in set(d) | set(e))


class Rules:
    def __init__(self, rec, name, m, cfg, nominal, log):
        self.rec, self.name, self.m, self.cfg, self.log = rec, name, m, cfg, log
        self.nominal = set(nominal)
        self.rules, self.default = [], R()
        self.ids = []
        self.foil = cfg['expand_criterion'] == 'foil_gain'
        self.cand = RefHT(split_criterion='info_gain' if self.foil else cfg['expand_criterion'], binary_split=True,
                          no_preprune=True, nominal_attributes=sorted(self.nominal))

    # -- decisions
    def decide(self, leaf, n_att, poor):
        """None (stay) or the options one of which must be taken."""
        if sum(1 for c in leaf.stats) < 2:
            return None
        c = sorted(self.cand.candidates(leaf, n_att), key=lambda s: s[0])
        self.rec.count('judged')
        if not c:
            return None
        if len(c) == 1:
            return c[0][3] if c[0][0] > -math.inf else None
        n_cl = max(2, len(leaf.stats))
        bound = math.sqrt(math.log2(n_cl) ** 2 * math.log(1 / self.cfg['expand_confidence']) / (2 * leaf.total))
        best, second = c[-1], c[-2]
        if best[0] == -math.inf:
            return None
        gap = best[0] - second[0]
        if abs(gap - bound) < 1e-7 or abs(bound - self.cfg['tie_threshold']) < 1e-9:
            raise Ambiguous('close to the bound')
        go = gap > bound or bound < self.cfg['tie_threshold']
        if poor and not go:
            for s in c:
                d = best[0] - s[0]
                if abs(d - bound) < 1e-7:
                    raise Ambiguous('poor or not')
                if d > bound:
                    leaf.disabled.add(s[1][1])
        if not go:
            return None
        opts = list(best[3])
        for s in c[:-1]:
            if s[0] > best[0] - EPS:
                opts += s[3]
        return opts

    @staticmethod
    def sides(opts):
        for (kind, a, v), post in opts:
            ops = ('=', '!=') if kind == 'eq' else ('<=', '>')
            for op, i in zip(ops, (0, 1)):
                yield (a, op, float(v)), post[i], post[1 - i]

    @staticmethod
    def same(p, q):
        return p[0] == q[0] and p[1] == q[1] and abs(p[2] - q[2]) <= 1e-9 * (1 + abs(q[2]))

    # -- one sample
    def step(self, x, y, w):
        rec, cfg, name = self.rec, self.cfg, self.name
        n_att = len(x)
        ev = [e for e in self.log.take() if e[0] == 'drift'] if self.log else []
        real = list(self.m.rule_set)
        now = {id(o): o for o in real}
        fired, learned, gone, changed = False, 0, set(), []
        for rid, rule in list(zip(self.ids, self.rules)):
            if not rule.covers(x):
                continue
            fired = True
            if cfg['drift_detector'] is not None:
                top = max(rule.stats.values()) if rule.stats else 0
                best = {c for c, v in rule.stats.items() if v >= top - 1e-9 * (1 + top)} or {0}
                rec.check(bool(ev), 'watched:' + name, 'the detector of a rule that fires was not told')
                e = ev.pop(0)
                if not (y in best and len(best) > 1):
                    rec.check(e[1] == float(y not in best), 'watched:' + name,
                              lambda: 'the detector was told %s although the rule %s the class' % (
                                  e[1], 'knows' if y in best else 'misses'))
                if abs(rule.total - cfg['min_weight']) < 1e-9 * (1 + rule.total) and rule.total != cfg['min_weight']:
                    raise Ambiguous('minimum weight')
                if e[3] and rule.total > cfg['min_weight']:
                    rec.check(rid not in now, 'dropped:' + name, 'a rule outlives the change its detector reports')
                    gone.add(rid)
                    rec.count('dropped')
                    continue
            rec.check(rid in now, 'dropped:' + name, lambda: 'a rule of weight %s disappeared' % rule.total)
            rule.learn(x, y, w)
            learned += 1
            o = now[rid]
            if self.foil:
                due, last, before = self.due(rule), rule.last, list(rule.preds)
                if self.adopt(o, rule):
                    rec.check(due, 'expanded:' + name, lambda: 'rule %s became %s before its grace period had passed' % (
                        before, rule.preds))
                    changed.append(last)
                rule.last = rule.total if due else last
            elif self.due(rule):
                self.expand(o, rule, n_att)
                rule.last = rule.total
            if cfg['ordered_rules']:
                break
        rec.check(not ev, 'watched:' + name, 'the detector of a rule that does not fire was told something')
        rec.count('learned_rule', learned)
        rec.count('learned_several', int(learned > 1))
        keep = [(i, r) for i, r in zip(self.ids, self.rules) if i not in gone]
        room = cfg['max_rules'] > len(keep)
        rec.count('at_limit', int(not room))
        made = [o for o in real if id(o) not in self.ids]
        self.ids, self.rules = [i for i, _ in keep], [r for _, r in keep]
        if not fired:
            self.default.learn(x, y, w)
            rec.count('learned_default')
            if self.foil:
                due = self.due(self.default)
                rec.check(not made or due and room, 'created:' + name, lambda: 'a rule appeared although %s' % (
                    'no grace period has passed' if room else 'there are %d rules already' % len(keep)))
                for o in made:
                    p = seen(o)
                    rec.check(len(p) == 1 and o.class_idx in self.default.stats, 'created:' + name, lambda: (
                        'rule %s for class %s from a default rule that knows %s' % (p, o.class_idx, self.default.stats)))
                    self.add(o, R(dict(o.observed_class_distribution), p))
                    rec.count('foil_rules')
                d = dict(self.m.default_rule.observed_class_distribution)
                if made and not d:
                    self.default = R()
                elif due and room:
                    self.default.last = self.default.total
            elif room and self.due(self.default):
                self.create(made, n_att)
            else:
                rec.check(not made, 'created:' + name, lambda: 'a rule appeared although %s' % (
                    'no grace period has passed' if room else 'there are %d rules already' % len(keep)))
        elif self.foil and not cfg['ordered_rules']:
            rec.check(not made or bool(changed), 'created:' + name, 'a rule appeared although no rule was expanded')
            if made and len(changed) > 1:
                raise Ambiguous('which rule the new ones stem from')
            for o in made:
                self.add(o, R(dict(o.observed_class_distribution), seen(o)))
                self.rules[-1].last = changed[0]
                rec.count('foil_rules')
        else:
            rec.check(not made, 'created:' + name, 'a rule appeared although another one fired')
        rec.check(len(real) <= cfg['max_rules'], 'limit:' + name, lambda: '%d rules with max_rules=%d' % (
            len(real), cfg['max_rules']))
        self.compare(real)

    def due(self, rule):
        d = rule.total - rule.last
        g = self.cfg['grace_period']
        if abs(d - g) < 1e-7 and d != g:
            raise Ambiguous('grace period')
        return d >= g

    def add(self, o, rule):
        self.ids.append(id(o))
        self.rules.append(rule)
        self.held = getattr(self, 'held', []) + [o]

    def create(self, made, n_att):
        rec, name, d = self.rec, self.name, self.default
        opts = self.decide(d, n_att, False)
        if opts is None:
            rec.check(not made, 'created:' + name, lambda: 'a rule %s was made from a default rule that had no reason' % seen(made[0]))
            d.last = d.total
            return
        rec.check(len(made) == 1, 'created:' + name, lambda: '%d rules were made, not one (best test %s)' % (
            len(made), opts[0][0]))
        p = seen(made[0])
        hit = [(q, s, r) for q, s, r in self.sides(opts) if len(p) == 1 and self.same(p[0], q)]
        rec.check(bool(hit), 'created:' + name, lambda: 'rule %s instead of %s' % (p, [o[0] for o in opts]))
        rec.count('created')
        rec.count('not_equal', int(p[0][1] == '!='))
        q, mine, rest = hit[0]
        self.add(made[0], R(mine, p))
        self.default = R(rest)

    def expand(self, o, rule, n_att):
        rec, name = self.rec, self.name
        opts = self.decide(rule, n_att, self.cfg['remove_poor_atts'])
        p = seen(o)
        if opts is None:
            return
        for q, mine, _ in self.sides(opts):
            want, merged = list(rule.preds), False
            for k, u in enumerate(want):
                if u[:2] == q[:2] and q[1] in ('<=', '>'):
                    want[k] = (q[0], q[1], min(u[2], q[2]) if q[1] == '<=' else max(u[2], q[2]))
                    merged = True
            if not merged:
                want.append(q)
            if len(p) == len(want) and all(self.same(a, b) for a, b in zip(p, want)):
                rec.count('merged' if merged else 'expanded')
                rec.count('not_equal', int(q[1] == '!='))
                last = rule.last
                rule.__init__(mine, p)
                rule.last = last
                return
        rec.fail('expanded:' + name, 'rule %s should have been expanded by %s and is %s' % (
            rule.preds, [x[0] for x in opts], p))

    def adopt(self, o, rule):
        p = seen(o)
        if len(p) == len(rule.preds) and all(self.same(a, b) for a, b in zip(p, rule.preds)):
            if near(dict(o.observed_class_distribution), rule.stats):
                return False
        tight = len(p) >= len(rule.preds) and all(
            self.same(a, b) or a[:2] == b[:2] and (a[2] <= b[2] if a[1] == '<=' else a[2] >= b[2])
            for a, b in zip(p, rule.preds))
        self.rec.check(tight, 'expanded:' + self.name, lambda: 'rule %s became %s' % (rule.preds, p))
        # the distribution of an expanded rule is that of one side of the test
        new = dict(o.observed_class_distribution)
        self.rec.check(sum(new.values()) < rule.total - 1e-9, 'learned:' + self.name, lambda: (
            'rule %s: class weights %s instead of %s' % (rule.preds, new, rule.stats)))
        rule.__init__(new, p)
        return True

    def compare(self, real):
        rec, name = self.rec, self.name
        rec.check([id(o) for o in real] == self.ids, 'order:' + name, 'the rules are not in the order of their creation')
        for o, rule in zip(real, self.rules):
            p, d = seen(o), dict(o.observed_class_distribution)
            rec.check(len(p) == len(rule.preds) and all(self.same(a, b) for a, b in zip(p, rule.preds)), 'expanded:' + name,
                      lambda: 'rule %s became %s without a reason' % (rule.preds, p))
            rec.check(near(d, rule.stats), 'learned:' + name,
                      lambda: 'rule %s: class weights %s instead of %s' % (p, d, rule.stats))
        d = dict(self.m.default_rule.observed_class_distribution)
        rec.check(near(d, self.default.stats), 'learned:' + name,
                  lambda: 'default rule: class weights %s instead of %s' % (d, self.default.stats))

    # -- answers
    def votes(self, rule, x):
        if self.cfg['nb_prediction'] and rule.total >= self.cfg['nb_threshold']:
            self.rec.count('bayes')
            return rule.bayes(x, self.nominal)
        return dict(rule.stats)

    def answer(self, x):
        """The score dictionaries that are acceptable (several where too close to call)."""
        hit = [r for r in self.rules if r.covers(x)]
        self.rec.count('several_fire', int(len(hit) > 1))
        if not hit:
            return [norm(self.votes(self.default, x))]
        if self.cfg['rule_prediction'] == 'first_hit' or self.cfg['ordered_rules']:
            return [norm(self.votes(hit[0], x))]
        v = [norm(self.votes(r, x)) for r in hit]
        if self.cfg['rule_prediction'] == 'weighted_max':
            top = max(max(d.values()) for d in v)
            return [d for d in v if max(d.values()) >= top - 1e-9]
        out = {}
        for d in v:
            for c, s in d.items():
                out[c] = out.get(c, 0.0) + s
        return [norm(out)]


def norm(d):
    t = sum(d.values())
    return {c: v / t for c, v in d.items()} if t else d


def run(case, rec):
    from skmultiflow.drift_detection import ADWIN  # noqa: F401  (imported for its side effects on availability)
    from skmultiflow.rules import VeryFastDecisionRulesClassifier
    r = driftload.rng(case)
    crit = case['fam']
    k = 2 if crit == 'hellinger' else int(r.choice([2, 3]))
    D = int(r.randint(1, 6))
    nominal = [a for a in range(D) if r.rand() < 0.35]
    log = Log()
    import itertools
    log.dets = itertools.count()
    det = detector_class()(log, 'drift', int(r.choice([60, 200]))) if r.randint(2) else None
    nb = bool(r.randint(2)) and crit != 'foil_gain'
    cfg = dict(expand_confidence=float(r.choice([1e-7, 0.01, 0.2])), ordered_rules=bool(r.randint(2)),
               grace_period=float(r.choice([20, 50])) + 0.3, tie_threshold=float(r.choice([0.05, 0.15, 0.4])),
               rule_prediction=str(r.choice(['first_hit', 'weighted_max', 'weighted_sum'])), nominal_attributes=nominal or None,
               max_rules=int(r.choice([1, 3, 1000])), nb_threshold=int(r.choice([0, 0, 30])), nb_prediction=nb,
               drift_detector=det, expand_criterion=crit, remove_poor_atts=bool(r.randint(2)) and crit != 'foil_gain',
               min_weight=float(r.choice([0, 40])))
    m = VeryFastDecisionRulesClassifier(**cfg)
    rec.sample(cfg={a: str(b) for a, b in cfg.items() if a != 'drift_detector'}, drift=det is not None, features=D, classes=k)
    ref = Rules(rec, type(m).__name__ + ':' + crit, m, cfg, nominal, log if det is not None else None)
    vals = int(r.choice([2, 3, 5]))
    centre = r.normal(size=(k, D)) * float(r.choice([0.3, 1, 3]))
    table = [[r.dirichlet(np.ones(vals) * 0.5) for _ in range(D)] for _ in range(k)]
    weighted = r.randint(3) == 0
    classes = list(range(k))
    name = ref.name

    def draw():
        y = int(r.randint(k))
        x = centre[y] + r.normal(size=D)
        for a in nominal:
            x[a] = r.choice(vals, p=table[y][a])
        return x, (y if r.rand() < 0.95 else int(r.randint(k)))

    try:
        for t in range(int(r.choice([300, 600, 1200]))):
            if r.rand() < 0.01:
                centre = r.normal(size=(k, D))
            x, y = draw()
            w = float(r.choice([0.5, 1, 2])) if weighted else 1.0
            if r.rand() < 0.3:
                q = draw()[0]
                want = ref.answer(q)
                got = np.asarray(m.predict_proba(q.reshape(1, -1)))[0]
                lab = m.predict(q.reshape(1, -1))[0]
                if t:
                    ok = any(all(abs((got[c] if c < len(got) else 0.0) - d.get(c, 0.0)) < 1e-6 for c in range(k)) for d in want)
                    rec.check(ok, 'answer:' + name, lambda: 'scores %s instead of %s (%d rules fire)' % (
                        got.tolist(), want, sum(u.covers(q) for u in ref.rules)))
                    top = max(got)
                    rec.check(got[int(lab)] >= top - 1e-9, 'answer:' + name, lambda: 'label %s for scores %s' % (lab, got.tolist()))
                    rec.count('answers')
            args = {'sample_weight': np.array([w])} if weighted else {}
            m.partial_fit(x.reshape(1, -1), np.array([y]), classes=classes, **args)
            ref.step(tuple(float(v) for v in x), y, w)
            rec.count('samples')
        text = m.get_model_description()
        rec.check(text.count('Rule ') == len(ref.rules) + 1 and all('Att (%d) %s' % u[:2] in text for v in ref.rules for u in v.preds),
                  'described:' + name, lambda: 'the description of %s is %s' % ([v.preds for v in ref.rules], text))
    except Ambiguous:
        rec.count('ambiguous')
    rec.key(sorted(str(v.preds) for v in ref.rules), str(cfg['expand_confidence']), t)
    rec.ok()
