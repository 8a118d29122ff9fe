"""Reference regression trees (single target: variance reduction; multi target: intra-cluster
variance reduction), with an own extended binary search tree as specified for FIMT-DD."""
import math

import numpy as np

from vp.refht import Ambiguous, EPS, RefHT, Split


class St:
    """Weight, sum and sum of squares of targets (scalars or vectors)."""
    __slots__ = ('n', 's', 'q')

    def __init__(self, n=0.0, s=0.0, q=0.0):
        self.n, self.s, self.q = n, s, q

    def add(self, y, w):
        self.n, self.s, self.q = self.n + w, self.s + w * y, self.q + w * y * y

    def __add__(self, o):
        return St(self.n + o.n, self.s + o.s, self.q + o.q)

    def __sub__(self, o):
        return St(self.n - o.n, self.s - o.s, self.q - o.q)


def sd_single(t):
    n = int(t.n)
    v = (t.q - t.s * t.s / n) / n
    return math.sqrt(v) if v > 0 else 0.0


def spread_multi(t):
    return float(np.mean((t.q - t.s * t.s / t.n) / (t.n - 1)))


def reduction(pre, post, spread):
    for d in post:
        if abs(d.n - 5.0) < 1e-7 and d.n != 5.0:
            raise Ambiguous('branch weight')
    if any(d.n < 5.0 for d in post):
        return 0.0
    return spread(pre) - sum(d.n / pre.n * spread(d) for d in post)


class BST:
    """Each node holds the statistics of the values at or left of it within its subtree."""
    __slots__ = ('v', 'st', 'l', 'r')

    def __init__(self, v, y, w):
        self.v, self.l, self.r = v, None, None
        self.st = St()
        self.st.add(y, w)

    @staticmethod
    def insert(t, v, y, w):
        if t is None:
            return BST(v, y, w)
        if v > t.v:
            t.r = BST.insert(t.r, v, y, w)
        else:
            t.st.add(y, w)
            if v < t.v:
                t.l = BST.insert(t.l, v, y, w)
        return t

    @staticmethod
    def walk(t, base=None):
        """In-order (value, statistics of everything up to the value)."""
        if t is None:
            return
        base = base or St()
        yield from BST.walk(t.l, base)
        here = t.st + base
        yield t.v, here
        yield from BST.walk(t.r, here)

    @staticmethod
    def prune(t, bad, base=None):
        """Drops subtrees none of whose cut points is worth keeping; True when t itself is gone."""
        base = base or St()
        gone = True
        if t.l is not None:
            gone = BST.prune(t.l, bad, base)
            if gone:
                t.l = None
        if gone and t.r is not None:
            gone = BST.prune(t.r, bad, t.st + base)
            if gone:
                t.r = None
        return gone and bad(t.st + base)


class RLeaf:
    leaf = True

    def __init__(self, st=None, weights=None):
        self.st = st or St()
        self.empty = st is None
        self.w = None if weights is None else weights.copy()
        self.rs = None
        self.active = True
        self.bst, self.nom = {}, {}
        self.err_mean = self.err_lin = self.err_top = 0.0
        self.disabled = set()
        self.last = self.st.n

    @property
    def stats(self):
        return self.st


class RefHTR(RefHT):
    def __init__(self, multi=False, stacked=False, grace_period=200, split_confidence=1e-7, tie_threshold=0.05,
                 binary_split=False, no_preprune=False, leaf_prediction='perceptron',
                 nominal_attributes=None, learning_ratio_perceptron=0.02, learning_ratio_decay=0.001,
                 learning_ratio_const=True, random_state=None, remove_poor_atts=False,
                 stop_mem_management=False, max_byte_size=33554432,
                 memory_estimate_period=1000000, choose=None):
        super().__init__(grace_period=grace_period, split_confidence=split_confidence,
                         tie_threshold=tie_threshold, binary_split=binary_split,
                         no_preprune=no_preprune, nominal_attributes=nominal_attributes,
                         remove_poor_atts=remove_poor_atts, choose=choose,
                         stop_mem_management=stop_mem_management, max_byte_size=max_byte_size,
                         memory_estimate_period=memory_estimate_period)
        self.multi, self.stacked = multi or stacked, stacked
        multi = self.multi
        self.spread = spread_multi if multi else sd_single
        self.mode = leaf_prediction
        self.lr, self.decay, self.const = (learning_ratio_perceptron, learning_ratio_decay,
                                           learning_ratio_const)
        self.seed = random_state
        self.all_y, self.all_x = St(), St()

    def new_leaf(self, st=None, weights=None):
        return RLeaf(st, weights)

    # ---- standardisation (over everything seen by the tree)
    def norm_x(self, x):
        N = self.all_x.n
        out = np.zeros(len(x) + 1)
        if N > 1:
            mean = self.all_x.s / N
            v = self.all_x.q - self.all_x.s ** 2 / N
            sd = np.sqrt(np.maximum(v, 0) / ((N - 1) if self.multi else N))
            self.risky(sd, self.all_x)
            ok = sd > 0
            out[:-1][ok] = (x - mean)[ok] / (sd[ok] * (1 if self.multi else 3))
            out[-1] = 1.0
        if not self.multi:
            for a in self.nominal:
                out[a] = x[a]
        return out

    @staticmethod
    def risky(sd, t):
        """A spread that is pure rounding cannot be predicted."""
        rms = np.sqrt(np.abs(t.q) / max(t.n, 1)) + 1e-300
        bad = (np.asarray(sd) > 0) & (np.asarray(sd) < 1e-5 * rms)
        whole = (np.mod(t.s, 1) == 0) & (np.mod(t.q, 1) == 0)
        zero = (np.asarray(sd) == 0) & (np.asarray(rms) > 1e-200) & (t.n > 1) & ~whole
        if np.any(bad) or np.any(zero):
            raise Ambiguous('degenerate spread')

    def moments_y(self):
        N = self.all_y.n
        mean = self.all_y.s / N
        v = np.maximum(self.all_y.q - self.all_y.s ** 2 / N, 0)
        if N <= 1:
            return mean, 0.0 * v
        sd = np.sqrt(v / ((N - 1) if self.multi else N))
        self.risky(sd, self.all_y)
        return mean, sd

    def norm_y(self, y):
        if self.all_y.n <= 1:
            return 0.0 * y
        mean, sd = self.moments_y()
        s = np.asarray(sd if self.multi else 3 * sd, dtype=float)
        return np.where(s > 0, (y - mean) / np.where(s > 0, s, 1.0), 0.0) + 0.0 * y

    # ---- answers
    def mean_of(self, leaf):
        return leaf.st.s / leaf.st.n if leaf.st.n else 0.0

    def value(self, x):
        node, _, _ = self.route(tuple(float(v) for v in x))
        return self.value_of(node, x)

    def value_of(self, node, x):
        if not node.leaf:
            return node.st.s / node.st.n
        if self.mode == 'mean' or node.w is None:
            return self.mean_of(node)
        if self.stacked:
            return self.stacked_value(node, x)
        if self.multi and self.all_y.n <= 1:
            return self.mean_of(node)
        mean, sd = self.moments_y()
        lin = node.w.dot(self.norm_x(x)) * sd * (1 if self.multi else 3) + mean
        if self.mode == 'perceptron':
            return lin
        gap = np.abs(node.err_lin - node.err_mean)
        if np.any(gap < EPS * (1 + np.abs(node.err_mean))) and np.any(gap > 0):
            raise Ambiguous('adaptive choice')
        return np.where(node.err_lin <= node.err_mean, lin, self.mean_of(node))

    def stacked_value(self, node, x):
        mean, sd = self.moments_y()
        base = node.w[0].dot(self.norm_x(x))
        top = node.w[1].dot(np.append(base, 1.0))
        if self.mode == 'perceptron':
            return top * sd + mean
        E = np.array([np.zeros(len(base)) + e for e in (node.err_mean, node.err_lin, node.err_top)])
        out = np.array([np.zeros(len(base)) + self.mean_of(node), base * sd + mean, top * sd + mean])
        best = E.min(axis=0)
        near = E <= best + EPS * (1 + np.abs(best))
        if np.any(near.sum(axis=0) > 1) and np.any(E > 0):
            raise Ambiguous('adaptive choice')
        if not np.any(E > 0):
            return out[1]
        return out[E.argmin(axis=0), np.arange(len(base))]

    def stacked_update(self, leaf, xv, y, w, lr):
        k, d = len(y), len(xv) + 1
        if leaf.w is None:
            rs = np.random.RandomState(self.seed)
            leaf.w = [rs.uniform(-1, 1, (k, d)), rs.uniform(-1, 1, (k, k + 1))]
            leaf.w = [v / np.abs(v).sum(axis=1, keepdims=True) for v in leaf.w]
        for _ in range(int(w)):
            nx, ny = self.norm_x(xv), self.norm_y(y)
            base = leaf.w[0].dot(nx)
            mid = np.append(base, 1.0)
            top = leaf.w[1].dot(mid)
            new = [leaf.w[0] + lr * np.outer(ny - base, nx), leaf.w[1] + lr * np.outer(ny - top, mid)]
            leaf.w = [v / np.abs(v).sum(axis=1, keepdims=True) for v in new]
            if self.mode == 'adaptive':
                leaf.err_mean = .95 * leaf.err_mean + np.abs(ny - self.norm_y(self.mean_of(leaf)))
                leaf.err_lin = .95 * leaf.err_lin + np.abs(ny - base)
                leaf.err_top = .95 * leaf.err_top + np.abs(ny - top)

    # ---- learning
    def rank(self, leaf, depth):
        return -depth, True

    def remake(self, leaf, active):
        new = self.new_leaf(leaf.st, leaf.w)
        new.active = active
        if not active:
            new.err_mean, new.err_lin, new.err_top = leaf.err_mean, leaf.err_lin, leaf.err_top
        return new

    def grow(self, x, y, w):
        xv = np.asarray(x, dtype=float)
        y = np.asarray(y, dtype=float) if self.multi else float(y)
        self.all_y.add(y, w)
        self.all_x.add(xv, w)
        t = tuple(float(v) for v in xv)
        if self.root is None:
            self.root = self.new_leaf()
        node, parent, br = self.route(t)
        if not node.leaf:
            new = self.new_leaf()
            b = max(node.value.values()) + 1
            node.value[t[node.att]] = b
            node.kids[b] = new
            self.events.append('new_branch')
            self.update(new, xv, t, y, w)
            return
        self.update(node, xv, t, y, w)
        diff = node.st.n - node.last
        if abs(diff - self.grace) < 1e-7 and not float(node.st.n).is_integer():
            raise Ambiguous('grace period')
        if self.growth and node.active and diff >= self.grace:
            self.attempt(node, parent, br, self.path(t))
            node.last = node.st.n

    def update(self, leaf, xv, t, y, w):
        leaf.st.add(y, w)
        for a, v in enumerate(t if leaf.active else ()):
            if a in leaf.disabled:
                continue
            if a in self.nominal:
                leaf.nom.setdefault(a, {}).setdefault(v, St()).add(y, w)
            else:
                leaf.bst[a] = BST.insert(leaf.bst.get(a), v, y, w)
        if self.mode == 'mean':
            return
        if self.stacked:
            lr = self.lr if self.const else self.lr / (1 + leaf.st.n * self.decay)
            return self.stacked_update(leaf, xv, y, w, lr)
        d = len(t) + 1
        if leaf.w is None:
            rs = leaf.rs or np.random.RandomState(self.seed)
            if self.multi:
                leaf.w = rs.uniform(-1, 1, (len(y), d))
                leaf.w /= np.abs(leaf.w).sum(axis=1, keepdims=True)
            else:
                leaf.w = rs.uniform(-1, 1, d)
        lr = self.lr if self.const else self.lr / (1 + leaf.st.n * self.decay)
        for _ in range(int(w)):
            nx, ny = self.norm_x(xv), self.norm_y(y)
            pred = leaf.w.dot(nx)
            if self.multi:
                leaf.w = leaf.w + lr * np.outer(ny - pred, nx)
                leaf.w /= np.abs(leaf.w).sum(axis=1, keepdims=True)
                if self.mode == 'adaptive':
                    leaf.err_lin = .95 * leaf.err_lin + np.abs(ny - pred)
                    leaf.err_mean = .95 * leaf.err_mean + np.abs(ny - self.norm_y(self.mean_of(leaf)))
            else:
                leaf.w = leaf.w + lr * (ny - pred) * nx
                leaf.w = leaf.w / np.abs(leaf.w).sum()

    def candidates(self, node):
        tol = EPS * (1 + abs(self.spread(node.st)) if node.st.n > 1 else 1)
        out = []
        if not self.noprune:
            out.append((0.0, None, None, [(None, None)]))
        for a in sorted(set(node.bst) | set(node.nom)):
            if a in node.disabled:
                continue
            opts = []
            if a in self.nominal:
                vals = sorted(node.nom[a])
                if not self.binary:
                    opts.append((('multi', a, {v: i for i, v in enumerate(vals)}),
                                 [node.nom[a][v] for v in vals]))
                for v in vals:
                    opts.append((('eq', a, v), [node.nom[a][v], node.st - node.nom[a][v]]))
            else:
                for v, left in BST.walk(node.bst[a]):
                    opts.append((('num', a, v), [left, node.st - left]))
            best = None
            for test, post in opts:
                m = reduction(node.st, post, self.spread)
                if best is None or m > best[0] + tol:
                    best = (m, test, post, [(test, post)])
                elif m > best[0] - tol:
                    best[3].append((test, post))
            if best is not None:
                out.append(best)
        return out, tol

    def attempt(self, node, parent, br, path):
        cand, tol = self.candidates(node)
        self.events.append('attempt')
        ms = sorted(c[0] for c in cand)
        split = False
        if len(cand) < 2:
            split = len(cand) > 0
        else:
            bound = math.sqrt(math.log(1 / self.conf) / (2 * node.st.n))
            best, second = ms[-1], ms[-2]
            if 0 < best < 10 * tol:
                raise Ambiguous('merit is rounding')
            if best > 0:
                if abs(second / best - (1 - bound)) < 1e-7 or abs(bound - self.tie) < EPS:
                    raise Ambiguous('bound')
                split = second / best < 1 - bound or bound < self.tie
            if self.poor and not (self.multi and split):
                if best <= 0 and any(c[1] is not None and c[0] > -10 * tol for c in cand):
                    raise Ambiguous('poor attributes of a constant target')
                for c in cand:
                    if c[1] is None or best <= 0:
                        continue
                    k = c[0] / best - (second / best - 2 * bound)
                    if abs(k) < 1e-7:
                        raise Ambiguous('poor attribute')
                    if k < 0:
                        node.disabled.add(c[1][1])
                        self.events.append('disabled')
        if split:
            top = ms[-1]
            tied = [o for c in cand if c[0] > top - tol for o in c[3]]
            if any(t is None for t, _ in tied):
                raise Ambiguous('tied with not splitting')
            k = 0
            if len(tied) > 1:
                self.events.append('tied')
                k = self.choose(path, [t for t, _ in tied]) if self.choose else None
                if k is None:
                    raise Ambiguous('tied options')
            test, post = tied[k]
            new = self.new_split(test[0], test[1], test[2], {})
            new.st = St(node.st.n, node.st.s, node.st.q)
            for i, d in enumerate(post):
                new.kids[i] = self.new_leaf(St(d.n, d.s, d.q), node.w)
            self.events.append('split:' + test[0])
            if parent is None:
                self.root = new
            else:
                parent.kids[br] = new
            self.enforce()
        elif len(cand) >= 2 and ms[-1] > 0 and ms[-2] > 0:
            if ms[-2] < 10 * tol:
                raise Ambiguous('merit is rounding')
            limit = ms[-2] / ms[-1] - 2 * bound

            def bad(left):
                m = reduction(node.st, [left, node.st - left], self.spread) / ms[-1]
                if abs(m - limit) < 1e-7:
                    raise Ambiguous('bad split')
                return m < limit
            for a in list(node.bst):
                if a not in node.disabled and BST.prune(node.bst[a], bad):
                    node.bst[a] = None
                    self.events.append('pruned_root')
            self.events.append('pruning')

    def paths(self):
        out = []

        def walk(node, path):
            if node.leaf:
                out.append((tuple(path), node.st))
            else:
                for b in sorted(node.kids):
                    walk(node.kids[b], path + [node.tests(b)])
        if self.root is not None:
            walk(self.root, [])
        return out
