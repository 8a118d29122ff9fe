"""An independent Hoeffding tree kept from raw samples: what the real tree must answer and look like.

Every leaf keeps the samples it has seen; statistics are recomputed in two passes when needed.
Decisions closer than EPS to a tie are not judged: the reference raises Ambiguous."""
import math

EPS = 1e-9


class Ambiguous(Exception):
    pass


def ncdf(z):
    return 0.5 * math.erfc(-z / math.sqrt(2))


class Gauss:
    """Weighted Gaussian of a list of (value, weight)."""

    def __init__(self, vw):
        self.W = sum(w for _, w in vw)
        self.lo = min(v for v, _ in vw)
        self.hi = max(v for v, _ in vw)
        if self.lo == self.hi:
            self.mean, self.var = self.lo, 0.0
        else:
            self.mean = math.fsum(v * w for v, w in vw) / self.W
            s = math.fsum(w * (v - self.mean) ** 2 for v, w in vw)
            self.var = s / (self.W - 1.0) if self.W > 1.0 else 0.0
            if abs(self.W - 1.0) < 1e-9 and self.W != 1.0:
                raise Ambiguous('weight close to one')
        self.std = math.sqrt(self.var)
        self.several = self.lo != self.hi

    def pdf(self, x):
        if self.std > 0:
            d = x - self.mean
            return math.exp(-d * d / (2 * self.var)) / (math.sqrt(2 * math.pi) * self.std)
        if self.several and abs(x - self.mean) <= EPS * (1 + abs(x)):
            raise Ambiguous('density at a mean known only up to rounding')
        return 1.0 if x == self.mean else 0.0

    def below(self, x):
        """(weight at or left of x, weight right of x)"""
        eq = self.pdf(x) * self.W
        if self.std > 0:
            less = ncdf((x - self.mean) / self.std) * self.W - eq
        else:
            if self.several and abs(x - self.mean) <= EPS * (1 + abs(x)):
                raise Ambiguous('cut at the mean')
            less = self.W - eq if x < self.mean else 0.0
        return less + eq, max(0.0, self.W - eq - less)


# ---- merits --------------------------------------------------------------------------------------
def entropy(d):
    t = sum(v for v in d.values() if v > 0)
    return -sum(v / t * math.log2(v / t) for v in d.values() if v > 0) if t > 0 else 0.0


def enough(dists, frac=0.01):
    s = [sum(d.values()) for d in dists]
    t = sum(s)
    if t <= 0:
        return 0
    for x in s:
        if abs(x / t - frac) < 1e-12:
            raise Ambiguous('branch fraction')
    return sum(x / t > frac for x in s)


def info_gain(pre, post):
    if enough(post) < 2:
        return -math.inf
    t = sum(sum(d.values()) for d in post)
    return entropy(pre) - sum(sum(d.values()) * entropy(d) for d in post) / t


def gini(pre, post):
    t = sum(sum(d.values()) for d in post)
    g = 0.0
    for d in post:
        w = sum(d.values())
        g += w / t * (1 - sum((v / w) ** 2 for v in d.values()) if w else 1.0)
    return 1 - g


def hellinger(pre, post):
    if enough(post) < 2:
        return -math.inf
    if any(c not in post[b] for b in (0, 1) for c in (0, 1)):
        return 0.0
    n = post[0][0] + post[1][0]
    p = post[0][1] + post[1][1]
    return math.sqrt(sum((math.sqrt(post[b][0] / n) - math.sqrt(post[b][1] / p)) ** 2
                         for b in (0, 1)))


MERIT = {'info_gain': info_gain, 'gini': gini, 'hellinger': hellinger}


class Leaf:
    leaf = True

    def __init__(self, stats=None, active=True):
        self.stats = dict(stats or {})
        self.active = active
        self.rows = {}           # class -> list of (x, w)
        self.cache = {}
        self.mc = self.nb_lo = self.nb_hi = 0.0
        self.mc_hi = 0.0
        self.disabled = set()
        self.disabled_now = set()
        self.last = self.total

    @property
    def total(self):
        return sum(self.stats.values())

    def gauss(self, a, c):
        k = (a, c)
        if k not in self.cache:
            self.cache[k] = Gauss([(x[a], w) for x, w in self.rows[c]])
        return self.cache[k]

    def counts(self, a):
        """value -> class -> weight"""
        k = ('n', a)
        if k not in self.cache:
            out = {}
            for c, rows in self.rows.items():
                for x, w in rows:
                    d = out.setdefault(x[a], {})
                    d[c] = d.get(c, 0.0) + w
            self.cache[k] = out
        return self.cache[k]

    def likelihood(self, a, v, c, nominal):
        if a in self.disabled:
            return 0.0
        if c not in self.rows:
            return 0.0
        if a in nominal:
            n = {val: d[c] for val, d in self.counts(a).items() if c in d}
            return (n.get(v, 0.0) + 1.0) / (sum(n.values()) + len(n))
        return self.gauss(a, c).pdf(v)

    def bayes(self, x, nominal):
        t = self.total
        if not self.stats or t == 0:
            return {0: 0.0}
        out = {}
        for c in sorted(self.stats):
            p = self.stats[c] / t
            if self.rows:
                for a, v in enumerate(x):
                    p *= self.likelihood(a, v, c, nominal)
            out[c] = p
        return out

    def learn(self, x, y, w):
        self.stats[y] = self.stats.get(y, 0.0) + w
        if self.active:
            self.rows.setdefault(y, []).append((x, w))
            self.cache = {}


def winners(d):
    """Labels that may come out on top; more than one when too close to call."""
    m = max(d.values())
    if m == 0:
        return {min(c for c in d if d[c] == 0)}
    top = {c for c, v in d.items() if v >= m * (1 - EPS)}
    if len(top) > 1 and all(float(v).is_integer() for v in d.values()):
        return {min(top)}
    return top


class Split:
    leaf = False

    def __init__(self, kind, att, value, stats):
        self.kind, self.att, self.value, self.stats = kind, att, value, dict(stats)
        self.kids = {}

    def branch(self, x):
        v = x[self.att]
        if self.kind == 'num':
            return 0 if v <= self.value else 1
        if self.kind == 'eq':
            return 0 if v == self.value else 1
        return self.value.get(v)

    def tests(self, b):
        if self.kind == 'num':
            return (self.att, '<=' if b == 0 else '>', self.value)
        if self.kind == 'eq':
            return (self.att, '==' if b == 0 else '!=', self.value)
        return (self.att, '==', next(v for v, k in self.value.items() if k == b))


class RefHT:
    def __init__(self, grace_period=200, split_criterion='info_gain', split_confidence=1e-7,
                 tie_threshold=0.05, binary_split=False, no_preprune=False, leaf_prediction='nba',
                 nb_threshold=0, nominal_attributes=None, remove_poor_atts=False,
                 stop_mem_management=False, max_byte_size=33554432,
                 memory_estimate_period=1000000, choose=None):
        self.choose = choose
        self.limit, self.period, self.seen = max_byte_size, memory_estimate_period, 0.0
        self.sizes, self.reported = (0.0, 0.0, 1.0), None
        self.estimates = 0
        self.grace, self.crit, self.conf, self.tie = (grace_period, split_criterion,
                                                      split_confidence, tie_threshold)
        self.binary, self.noprune = binary_split, no_preprune
        self.mode, self.nbt = leaf_prediction, nb_threshold
        self.nominal = set(nominal_attributes or [])
        self.poor = remove_poor_atts
        self.stop = stop_mem_management
        self.root = None
        self.growth = True
        self.events = []

    def new_leaf(self, stats=None, active=True):
        return Leaf(stats, active)

    def new_split(self, kind, att, value, stats):
        return Split(kind, att, value, stats)

    # ---- routing
    def route(self, x):
        """(node, parent, branch): node is a Leaf, or the Split that has no branch for x."""
        node, parent, br = self.root, None, None
        while node is not None and not node.leaf:
            b = node.branch(x)
            if b is None or b not in node.kids:
                return node, parent, br
            parent, br, node = node, b, node.kids[b]
        return node, parent, br

    def path(self, x):
        node, out = self.root, []
        while node is not None and not node.leaf:
            b = node.branch(x)
            if b is None or b not in node.kids:
                break
            out.append(node.tests(b))
            node = node.kids[b]
        return out

    # ---- answers
    def votes(self, x):
        if self.root is None:
            return {}
        node, _, _ = self.route(x)
        return self.votes_of(node, x)

    def votes_of(self, node, x):
        if not node.leaf:
            return dict(node.stats)
        if not node.active or self.mode == 'mc':
            return dict(node.stats)
        if self.mode == 'nb':
            return node.bayes(x, self.nominal) if node.total >= self.nbt else dict(node.stats)
        if node.mc > node.nb_hi:
            return dict(node.stats)
        if node.mc_hi <= node.nb_lo:
            return node.bayes(x, self.nominal)
        raise Ambiguous('adaptive choice')

    def proba(self, x):
        v = self.votes(x)
        s = sum(v.values())
        if s != 0:
            if 0 < s < 1e-280:
                raise Ambiguous('underflow')
            v = {c: p / s for c, p in v.items()}
        return v

    # ---- memory: leaf sizes and overhead are the tree's own published estimates
    def leaves(self):
        out = []

        def walk(node, parent, br, depth):
            if node.leaf:
                out.append((node, parent, br, depth))
            else:
                for b in sorted(node.kids):
                    walk(node.kids[b], node, b, depth + 1)
        if self.root is not None:
            walk(self.root, None, None, 0)
        return out

    def rank(self, leaf, depth):
        """Promise of a leaf, and whether it is free of rounding."""
        s = leaf.stats
        t = sum(s.values())
        p = t - max(s.values()) if t > 0 else 0
        return p, sum(v != 0 for v in s.values()) < 2 or all(float(v).is_integer() for v in s.values())

    def remake(self, leaf, active):
        return self.new_leaf(leaf.stats, active)

    def swap(self, entry, active):
        leaf, parent, br, _ = entry
        new = self.remake(leaf, active)
        if parent is None:
            self.root = new
        else:
            parent.kids[br] = new
        self.events.append('activated' if active else 'deactivated')

    def cost(self, active, inactive):
        a, i, over = self.sizes
        return (active * a + inactive * i) * over

    def enforce(self):
        L = self.leaves()
        active = sum(e[0].active for e in L)
        if self.stop and (active < len(L) or self.cost(active, len(L) - active) > self.limit):
            if self.growth:
                self.events.append('growth_stopped')
            self.growth = False
            return
        ranks = [self.rank(e[0], e[3]) for e in L]
        k = 0
        while k < len(L) and self.cost(k + 1, len(L) - k - 1) <= self.limit:
            k += 1
        cut = len(L) - k
        order = sorted(range(len(L)), key=lambda i: ranks[i][0])
        if 0 < cut < len(L):
            edge = ranks[order[cut]][0]
            close = [i for i in order if abs(ranks[i][0] - edge) <= 1e-7 * (1 + abs(edge))]
            if min(map(order.index, close)) < cut and not all(ranks[i][1] for i in close):
                raise Ambiguous('equally promising leaves')
            self.events.append('limited')
        for n, i in enumerate(order):
            if L[i][0].active != (n >= cut):
                self.swap(L[i], n >= cut)

    def tick(self):
        """After a sample: at the end of a period the sizes are estimated anew."""
        if self.seen % self.period == 0 and self.reported is not None:
            self.sizes = self.reported
            self.estimates += 1
            L = self.leaves()
            active = sum(e[0].active for e in L)
            size = self.cost(active, len(L) - active)
            self.measured = size
            if abs(size - self.limit) < 1e-6 * size:
                raise Ambiguous('size at the limit')
            if size > self.limit:
                self.events.append('over_limit')
                self.enforce()

    # ---- learning
    def learn(self, x, y, w=1.0):
        if w == 0:
            return
        self.seen += w
        self.grow(x, y, w)
        self.tick()

    def grow(self, x, y, w):
        if self.root is None:
            self.root = self.new_leaf()
        node, parent, br = self.route(x)
        if not node.leaf:
            new = self.new_leaf()
            self.update(new, x, y, w)
            b = max(node.value.values()) + 1
            node.value[x[node.att]] = b
            node.kids[b] = new
            self.events.append('new_branch')
            return
        self.update(node, x, y, w)
        if self.growth and node.active and node.total - node.last >= self.grace - 0.0:
            if abs(node.total - node.last - self.grace) < 1e-7 and \
                    not float(node.total).is_integer():
                raise Ambiguous('grace period')
            self.attempt(node, parent, br, self.path(x))
            node.last = node.total
        elif self.growth and node.active and \
                abs(node.total - node.last - self.grace) < 1e-7 and not float(node.total).is_integer():
            raise Ambiguous('grace period')

    def update(self, node, x, y, w):
        if self.mode == 'nba' and node.active:
            if not node.stats:
                won = {0}
            else:
                won = winners(node.stats)
            if y in won:
                node.mc_hi += w
                if len(won) == 1:
                    node.mc += w
            try:
                nb = winners(node.bayes(x, self.nominal))
                small = node.stats and 0 < max(node.bayes(x, self.nominal).values()) < 1e-280
            except Ambiguous:
                nb, small = set(node.stats) | {0}, True
            if small:
                node.nb_hi += w
            elif y in nb:
                node.nb_hi += w
                if len(nb) == 1:
                    node.nb_lo += w
        node.learn(x, y, w)

    def candidates(self, node, n_att):
        merit = MERIT[self.crit]
        out = []
        if not self.noprune:
            out.append((merit(node.stats, [node.stats]), None, None, [(None, None)]))
        if not node.rows:
            return out
        for a in range(n_att):
            if a in node.disabled:
                continue
            best = None
            if a in self.nominal:
                cnt = node.counts(a)
                vals = sorted(cnt)
                opts = []
                if not self.binary:
                    opts.append(('multi', {v: i for i, v in enumerate(vals)}, [cnt[v] for v in vals]))
                for v in vals:
                    rest = {}
                    for u in vals:
                        if u != v:
                            for c, w in cnt[u].items():
                                rest[c] = rest.get(c, 0.0) + w
                    opts.append(('eq', v, [cnt[v], rest]))
            else:
                cl = sorted(node.rows)
                lo = min(node.gauss(a, c).lo for c in cl)
                hi = max(node.gauss(a, c).hi for c in cl)
                opts = []
                for i in range(10):
                    p = lo + (hi - lo) / 11.0 * (i + 1)
                    if lo < p < hi:
                        L, R = {}, {}
                        for c in cl:
                            g = node.gauss(a, c)
                            if g.lo != p and abs(p - g.lo) <= EPS * (abs(p) + hi - lo) or \
                                    g.hi != p and abs(p - g.hi) <= EPS * (abs(p) + hi - lo) or \
                                    (p in (g.lo, g.hi)):
                                raise Ambiguous('split point at a class boundary')
                            if p < g.lo:
                                R[c] = g.W
                            elif p >= g.hi:
                                L[c] = g.W
                            else:
                                L[c], R[c] = g.below(p)
                        opts.append(('num', p, [L, R]))
            for kind, val, post in opts:
                m = merit(node.stats, post)
                one = (kind, a, val), post
                if best is None or m > best[0] and (best[0] == -math.inf or m > best[0] + EPS):
                    best = (m, one[0], one[1], [one])
                elif m != -math.inf and m > best[0] - EPS:
                    best[3].append(one)               # tied options of one attribute
            if best is not None:
                out.append(best)
        return out

    def attempt(self, node, parent, br, path):
        if sum(v != 0 for v in node.stats.values()) < 2:
            self.events.append('pure')
            return
        n_att = len(next(iter(node.rows.values()))[0][0]) if node.rows else 0
        cand = self.candidates(node, n_att)
        self.events.append('attempt')
        order = sorted(range(len(cand)), key=lambda i: cand[i][0])
        split = False
        if len(cand) < 2:
            split = len(cand) > 0
        else:
            R = 1.0 if self.crit == 'gini' else math.log2(max(2, len(node.stats)))
            bound = math.sqrt(R * R * math.log(1 / self.conf) / (2 * node.total))
            best, second = cand[order[-1]][0], cand[order[-2]][0]
            gap = best - second if best != -math.inf else 0.0
            if best == -math.inf:
                gap = math.nan
            if abs(gap - bound) < EPS or abs(bound - self.tie) < EPS:
                raise Ambiguous('bound')
            split = gap > bound or bound < self.tie
            if self.poor:
                for i in order:
                    if cand[i][1] is None:
                        continue
                    d = best - cand[i][0]
                    if abs(d - bound) < EPS:
                        raise Ambiguous('poor attribute')
                    if d > bound and self.mode == 'mc':
                        node.disabled.add(cand[i][1][1])
                        self.events.append('disabled')
        if not split:
            return
        top = cand[order[-1]][0]
        tied = [o for c in cand if c[0] == top or c[0] > top - EPS for o in c[3]]
        test, post = tied[0]
        if len(tied) > 1:
            self.events.append('tied')
            if self.choose is None or any(t is None for t, _ in tied):
                raise Ambiguous('tied options')
            k = self.choose(path, [t for t, _ in tied])
            if k is None:
                raise Ambiguous('tied options not recognised')
            test, post = tied[k]
        if test is None:
            # not splitting is best: the leaf starts its estimates over (or is closed for good)
            self.events.append('null')
            new = self.new_leaf(node.stats, False)
        else:
            new = self.new_split(test[0], test[1], test[2], node.stats)
            for i, d in enumerate(post):
                new.kids[i] = self.new_leaf(d)
            self.events.append('split:' + test[0])
        if parent is None:
            self.root = new
        else:
            parent.kids[br] = new
        self.enforce()

    # ---- shape
    def paths(self):
        """[(tests along the path, class distribution)] of all leaves."""
        out = []

        def walk(node, path):
            if node is None:
                return
            if node.leaf:
                out.append((tuple(path), node.stats))
            else:
                for b in sorted(node.kids):
                    walk(node.kids[b], path + [node.tests(b)])
        walk(self.root, [])
        return out

    def measures(self):
        def walk(node):
            if node.leaf:
                return 0, 1, 0, int(node.active)
            d = s = l = a = 0
            for k in node.kids.values():
                kd, kl, ks, ka = walk(k)
                d, l, s, a = max(d, kd), l + kl, s + ks, a + ka
            return d + 1, l, s + 1, a
        if self.root is None:
            return {'depth': 0, 'leaves': 0, 'nodes': 0, 'active': 0}
        d, l, s, a = walk(self.root)
        return {'depth': d, 'leaves': l, 'nodes': l + s, 'active': a}


class ESplit(Split):
    """A split node that goes on observing the samples passing through it."""

    def __init__(self, kind, att, value, obs):
        super().__init__(kind, att, value, {})
        self.obs = obs
        self.last = obs.total

    @property
    def stats(self):
        return self.obs.stats if hasattr(self, 'obs') else {}

    @stats.setter
    def stats(self, v):
        pass


class RefEFDT(RefHT):
    def __init__(self, min_samples_reevaluate=20, **kw):
        super().__init__(**kw)
        self.again = min_samples_reevaluate
        self.noprune = True
        if self.crit == 'hellinger':
            self.crit = 'info_gain'

    def due(self, diff, limit, total):
        if abs(diff - limit) < 1e-7 and not float(total).is_integer():
            raise Ambiguous('period')
        return diff >= limit

    def learn(self, x, y, w=1.0):
        if w == 0:
            return
        self.seen += w
        if self.root is None:
            self.root = self.new_leaf()
        node, parent, br = self.route(x)
        if node.leaf:
            self.update(node, x, y, w)
        elif node.kind == 'multi':
            new = self.new_leaf()
            self.update(new, x, y, w)
            b = max(node.value.values()) + 1
            node.value[x[node.att]] = b
            node.kids[b] = new
            self.events.append('new_branch')
        self.tick()
        node, parent, br, path = self.root, None, None, []
        while node is not None:
            if node.leaf:
                if self.growth and node.active and \
                        self.due(node.total - node.last, self.grace, node.total):
                    self.attempt(node, parent, br, path)
                    node.last = node.total
                return
            node.obs.learn(x, y, w)
            if self.due(node.obs.total - node.last, self.again, node.obs.total):
                if self.reevaluate(node, parent, br, path):
                    return
            b = node.branch(x)
            if b is None:
                return
            path = path + [node.tests(b)]
            parent, br, node = node, b, node.kids.get(b)

    def scored(self, obs):
        merit = MERIT[self.crit]
        n_att = len(next(iter(obs.rows.values()))[0][0]) if obs.rows else 0
        cand = self.candidates(obs, n_att)
        null = merit(obs.stats, [obs.stats])
        null = 0.0 if null == -math.inf else null
        R = 1.0 if self.crit == 'gini' else math.log2(max(2, len(obs.stats)))
        bound = math.sqrt(R * R * math.log(1 / self.conf) / (2 * obs.total))
        if abs(bound - self.tie) < EPS:
            raise Ambiguous('bound')
        return cand, null, bound

    def pick(self, cand, path):
        top = max(c[0] for c in cand)
        if top == -math.inf and len(cand) > 1:
            raise Ambiguous('no useful attribute')
        tied = [o for c in cand if c[0] == top or c[0] > top - EPS for o in c[3]]
        if len(tied) > 1:
            self.events.append('tied')
            k = self.choose(path, [t for t, _ in tied]) if self.choose else None
            if k is None:
                raise Ambiguous('tied options')
            return top, tied[k]
        return top, tied[0]

    def exceeds(self, gap, bound):
        if abs(gap - bound) < EPS:
            raise Ambiguous('bound')
        return gap > bound

    def attempt(self, node, parent, br, path):
        if sum(v != 0 for v in node.stats.values()) < 2:
            return
        self.events.append('attempt')
        cand, null, bound = self.scored(node)
        if not cand:
            return
        top = max(c[0] for c in cand)
        if self.exceeds(top - null, bound) or bound < self.tie:
            top, (test, post) = self.pick(cand, path)
            self.place(node, test, post, parent, br)
            self.events.append('split:' + test[0])

    def place(self, obs, test, post, parent, br):
        new = ESplit(test[0], test[1], test[2], obs)
        for i, d in enumerate(post):
            new.kids[i] = Leaf(d)
        if parent is None:
            self.root = new
        else:
            parent.kids[br] = new
        self.enforce()

    def reevaluate(self, node, parent, br, path):
        obs = node.obs
        if sum(v != 0 for v in obs.stats.values()) < 2:
            return False
        cand, null, bound = self.scored(obs)
        if not cand:
            return False
        self.events.append('reevaluation')
        top = max(c[0] for c in cand)
        here = max(c[0] for c in cand if c[1][1] == node.att)
        if self.exceeds(null - top, bound):
            new = Leaf(obs.stats)
            new.rows, new.last = obs.rows, 0.0
            if parent is None:
                self.root = new
            else:
                parent.kids[br] = new
            self.events.append('killed')
            self.enforce()
            return True
        if self.exceeds(top - here, bound) or bound < self.tie:
            close = [c for c in cand if c[0] == top or c[0] > top - EPS]
            atts = {c[1][1] for c in close}
            if node.att in atts and len(atts) > 1:
                raise Ambiguous('attribute tie')
            if node.att in atts:
                tied = [o for c in close for o in c[3]]
                bins = [o for o in tied if o[0][0] != 'multi']
                if node.kind == 'multi':
                    return False
                if len(bins) < len(tied) and bins:
                    raise Ambiguous('tied kinds')
                if not bins:
                    return False
                if len(bins) > 1:
                    raise Ambiguous('tied options')
                if (node.kind, node.value) != (bins[0][0][0], bins[0][0][2]):
                    self.events.append('moved')
                node.kind, node.value = bins[0][0][0], bins[0][0][2]
                return False
            _, (test, post) = self.pick(cand, path)
            self.place(obs, test, post, parent, br)
            self.events.append('replaced')
            return True
        return False
