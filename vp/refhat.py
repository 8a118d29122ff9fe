"""Adaptive Hoeffding trees (classification and regression), on top of the plain references.

Every node watches its error with an ADWIN (the library's own, judged by C06 and C07). A split node whose error
rises starts an alternate leaf; the alternate takes the place of the subtree when it is significantly more accurate
over more than 300 samples or when it is ready to split itself, and is dropped when it is significantly worse."""
import math

import numpy as np

from vp.refht import Ambiguous, Leaf, RefHT, Split, winners
from vp.refhtr import RefHTR, RLeaf

WIDTH = 300


class Watch:
    def watch(self):
        from skmultiflow.drift_detection import ADWIN
        self.adwin = ADWIN()
        self.alt = None
        self.n, self.mean, self.s = 0, 0.0, 0.0

    def feed(self, err):
        """True when the error changed for the worse."""
        before = self.adwin.estimation
        self.adwin.add_element(err)
        return bool(self.adwin.detected_change()) and not before > self.adwin.estimation

    def standard(self, gap):
        """Absolute error to a standardised one (Welford)."""
        self.n += 1
        if self.n == 1:
            self.mean, self.s = gap, 0.0
            return 0.0
        old = self.mean
        self.mean = old + (gap - old) / self.n
        self.s += (gap - old) * (gap - self.mean)
        sd = math.sqrt(self.s / (self.n - 1))
        z = (gap - self.mean) / sd if sd > 0 else 0.0
        return (z + 3) / 6


class WLeaf(Leaf, Watch):
    pass


class WRLeaf(RLeaf, Watch):
    pass


class WSplit(Split, Watch):
    pass


class Adaptive:
    def setup(self, bootstrap, seed):
        self.bootstrap, self.boot_seed = bootstrap, seed
        self.alternates = self.switched = self.dropped = 0

    def new_leaf(self, *a):
        leaf = self.leaf_type(*a)
        leaf.watch()
        leaf.rs = np.random.RandomState(self.boot_seed)
        return leaf

    def new_split(self, kind, att, value, stats):
        s = WSplit(kind, att, value, stats)
        s.watch()
        return s

    def put(self, parent, br, node):
        if parent is None:
            self.root = node
        else:
            parent.kids[br] = node

    def route_from(self, node, x):
        while not node.leaf:
            b = node.branch(x)
            if b is None or b not in node.kids:
                return node
            node = node.kids[b]
        return node

    def below(self, node):
        """Alternate trees that disappear with the subtrees of a node."""
        return sum((k.alt is not None) + self.below(k) for k in node.kids.values() if not k.leaf)

    def visit(self, node, x, y, w, parent, br, path):
        if node.leaf:
            return self.visit_leaf(node, x, y, w, parent, br, path)
        worse = node.feed(self.error(node, self.route_from(node, x), x, y))
        if worse:
            node.alt = self.new_leaf()
            self.alternates += 1
            self.events.append('alternate')
        elif node.alt is not None and node.adwin.width > WIDTH and node.alt.adwin.width > WIDTH:
            e, a = node.adwin.estimation, node.alt.adwin.estimation
            bound = math.sqrt(max(0.0, 2 * e * (1 - e) * math.log(2 / .05) *
                                  (1 / node.alt.adwin.width + 1 / node.adwin.width)))
            if abs(abs(e - a) - bound) < 1e-9:
                raise Ambiguous('switch bound')
            if bound < e - a:
                self.put(parent, br, node.alt)
                self.switched += 1
                self.dropped += self.below(node)
                self.events.append('switched')
            elif bound < a - e:
                node.alt = None
                self.dropped += 1
                self.events.append('dropped')
        if node.alt is not None:
            self.visit(node.alt, x, y, w, parent, br, path)
        b = node.branch(x)
        if b is not None and b in node.kids:
            self.visit(node.kids[b], x, y, w, node, b, path + [node.tests(b)])
        elif node.kind == 'multi':
            new = self.new_leaf()
            b = max(node.value.values()) + 1
            node.value[x[node.att]] = b
            node.kids[b] = new
            self.events.append('new_branch')
            self.visit_leaf(new, x, y, w, parent, br, path)

    def visit_leaf(self, leaf, x, y, w, parent, br, path):
        leaf.feed(self.error(leaf, leaf, x, y))
        if self.bootstrap:
            w = w * max(1, leaf.rs.poisson(1.0))
        self.absorb(leaf, x, y, w)
        total = self.weight(leaf)
        diff = total - leaf.last
        if abs(diff - self.grace) < 1e-7 and not float(total).is_integer():
            raise Ambiguous('grace period')
        if diff >= self.grace:
            self.attempt(leaf, parent, br, path)
            leaf.last = total


class RefHAT(Adaptive, RefHT):
    leaf_type = WLeaf

    def __init__(self, bootstrap_sampling=True, random_state=None, **kw):
        super().__init__(**kw)
        self.setup(bootstrap_sampling, random_state)

    def error(self, watcher, node, x, y):
        d = self.votes_of(node, x)
        if not d:
            return 0.0 if y == 0 else 1.0
        t = sum(d.values())
        if 0 < t < 1e-280:
            raise Ambiguous('underflow')
        top = winners(d)
        if y in top and len(top) > 1:
            raise Ambiguous('error of a tie')
        return 0.0 if y in top else 1.0

    def absorb(self, leaf, x, y, w):
        self.update(leaf, x, y, w)

    @staticmethod
    def weight(leaf):
        return leaf.total

    def grow(self, x, y, w):
        if self.root is None:
            self.root = self.new_leaf()
        self.visit(self.root, x, y, w, None, None, [])


class RefHATR(Adaptive, RefHTR):
    leaf_type = WRLeaf

    def __init__(self, bootstrap_sampling=True, random_state=None, **kw):
        super().__init__(random_state=random_state, **kw)
        self.setup(bootstrap_sampling, random_state)

    def error(self, watcher, node, x, y):
        return watcher.standard(abs(y - float(self.value_of(node, np.asarray(x)))))

    def absorb(self, leaf, x, y, w):
        self.update(leaf, np.asarray(x), x, y, w)
        if leaf.w is None:                     # weights are drawn whatever the leaf answers with
            leaf.w = leaf.rs.uniform(-1, 1, len(x) + 1)

    @staticmethod
    def weight(leaf):
        return leaf.st.n

    def grow(self, x, y, w):
        xv = np.asarray(x, dtype=float)
        y = float(y)
        self.all_y.add(y, w)
        self.all_x.add(xv, w)
        if self.root is None:
            self.root = self.new_leaf()
        self.visit(self.root, tuple(float(v) for v in xv), y, w, None, None, [])
