"""Reference automata of the drift detectors, as sets of possible states.

Each automaton is written from the published definition (plus the constants and the warm-up
conventions of the documented API).  Comparisons whose two sides agree up to rounding noise are
genuinely undecided between equivalent floating-point evaluation orders: the automaton then keeps
both successors and lets the observations choose.  Comparisons that are exact in every evaluation
order (0 against 0, for example) are never treated as undecided.
"""
from math import log, sqrt

TOL = 1e-9


def cmp_gt(a, b, exact=False):
    """Possible truth values of a > b."""
    d = a - b
    scale = max(1.0, abs(a), abs(b))
    if exact:
        return (d > 0,)
    if abs(d) <= TOL * scale:
        return (True, False)
    return (d > 0,)


def cmp_ge(a, b, exact=False):
    d = a - b
    scale = max(1.0, abs(a), abs(b))
    if exact:
        return (d >= 0,)
    if abs(d) <= TOL * scale:
        return (True, False)
    return (d >= 0,)


class Ref:
    """Set-of-states runner."""
    MAXSTATES = 64

    def __init__(self):
        self.states = [self.init()]

    def reset(self):
        self.states = [self.init()]

    def advance(self, x, observed, compare):
        """One step; keeps the successors consistent with what was observed.

        Returns (consistent, expected outputs of all successors).
        """
        succ = []
        for s in self.states:
            succ.extend(self.step(s, x))
        keep = []
        seen = set()
        for s, out in succ:
            if compare(out, observed):
                k = repr(s)
                if k not in seen:
                    seen.add(k)
                    keep.append(s)
        outs = [o for _, o in succ]
        if keep:
            self.states = keep[:self.MAXSTATES]
            return True, outs
        return False, outs


class DDMRef(Ref):
    def __init__(self, min_inst, warn, out):
        self.p = (min_inst, warn, out)
        super().__init__()

    def init(self):
        return (1, 1.0, None, False)      # next index, p, (pmin, smin), change flag

    def step(self, s, x):
        mi, wl, ol = self.p
        n, p, mn, chg = s
        if chg:
            n, p, mn, chg = self.init()
        p = p + (x - p) / n
        p = min(max(p, 0.0), 1.0) if 0.0 <= x <= 1.0 else p
        sd = sqrt(max(p * (1 - p), 0.0) / n)
        n += 1
        if n < mi:
            return [((n, p, mn, False), (False, False, p))]
        res = []
        degenerate = p in (0.0, 1.0)
        if mn is None:
            news = [(p, sd)]
        else:
            news = []
            for t in set(cmp_ge(mn[0] + mn[1], p + sd, exact=degenerate and mn[1] == 0)):
                news.append((p, sd) if t else mn)
        for m in news:
            ex = m == (p, sd) or (degenerate and m[1] == 0.0)
            for c in set(cmp_gt(p + sd, m[0] + ol * m[1], exact=ex)):
                if c:
                    res.append(((n, p, m, True), (True, False, p)))
                else:
                    for w in set(cmp_gt(p + sd, m[0] + wl * m[1], exact=ex)):
                        res.append(((n, p, m, False), (False, w, p)))
        return res


class EDDMRef(Ref):
    OUT, WARN, MIN_INST, MIN_ERR = 0.9, 0.95, 30, 30

    def init(self):
        # elements seen, errors, position of last error, mean, M2, max, warning, change
        return (0, 0, 0, 0.0, 0.0, 0.0, False, False)

    def step(self, s, x):
        n, e, last, mean, m2, mx, warn, chg = s
        est = mean
        if chg:
            n, e, last, mean, m2, mx, warn, chg = self.init()
        n += 1
        if x != 1.0:
            return [((n, e, last, mean, m2, mx, warn, False), (False, warn, mean))]
        e += 1
        dist = n - last
        last = n
        om = mean
        mean = mean + (dist - mean) / e
        m2 = m2 + (dist - mean) * (dist - om)
        sd = sqrt(max(m2, 0.0) / e)
        v = mean + 2 * sd
        if n + 1 < self.MIN_INST:
            return [((n, e, last, mean, m2, mx, False, False), (False, False, mean))]
        res = []
        for g in set(cmp_gt(v, mx, exact=(sd == 0.0 and mx == v))):
            if g:
                res.append(((n, e, last, mean, m2, v, False, False), (False, False, mean)))
                continue
            p = v / mx
            if e > self.MIN_ERR:
                for c in set(cmp_gt(self.OUT, p)):
                    if c:
                        res.append(((n, e, last, mean, m2, mx, False, True), (True, False, mean)))
                    else:
                        for w in set(cmp_gt(self.WARN, p)):
                            res.append(((n, e, last, mean, m2, mx, w, False), (False, w, mean)))
            else:
                res.append(((n, e, last, mean, m2, mx, False, False), (False, False, mean)))
        return res


class PageHinkleyRef(Ref):
    def __init__(self, min_inst, delta, threshold, alpha):
        self.p = (min_inst, delta, threshold, alpha)
        super().__init__()

    def init(self):
        return (1, 0.0, 0.0, False)

    def step(self, s, x):
        mi, delta, thr, alpha = self.p
        n, mean, cum, chg = s
        if chg:
            n, mean, cum, chg = self.init()
        mean = mean + (x - mean) / n
        cum = max(0.0, alpha * cum + (x - mean - delta))
        n += 1
        if n < mi:
            return [((n, mean, cum, False), (False, False, mean))]
        return [((n, mean, cum, c), (c, False, mean)) for c in
                set(cmp_gt(cum, thr, exact=(cum == 0.0)))]


class HDDMARef(Ref):
    def __init__(self, drift, warn, two):
        self.p = (drift, warn, two)
        super().__init__()

    def init(self):
        # n_min, c_min, n_max, c_max, n, c, n_est, c_est
        return (0, 0.0, 0, 0.0, 0, 0.0, 0, 0.0)

    @staticmethod
    def _bound(n0, n, conf):
        return sqrt((n - n0) / n0 * (1.0 / n) / 2 * log(2.0 / conf))

    def step(self, s, x):
        dc, wc, two = self.p
        nmin, cmin, nmax, cmax, n, c, nest, cest = s
        n += 1
        c += x
        if nmin == 0:
            nmin, cmin = n, c
        if nmax == 0:
            nmax, cmax = n, c
        eps = lambda k: sqrt(log(1.0 / dc) / (2 * k))
        res = []
        for tmin in ((True,) if nmin == n else set(cmp_ge(cmin / nmin + eps(nmin), c / n + eps(n)))):
            a, b = (n, c) if tmin else (nmin, cmin)
            for tmax in ((True,) if nmax == n else
                         set(cmp_ge(c / n - eps(n), cmax / nmax - eps(nmax)))):
                p, q = (n, c) if tmax else (nmax, cmax)
                res.extend(self._decide(a, b, p, q, n, c, nest, cest))
        return res

    def _decide(self, nmin, cmin, nmax, cmax, n, c, nest, cest):
        dc, wc, two = self.p
        out = []
        incr = (False,) if nmin == n else set(cmp_ge(c / n - cmin / nmin, self._bound(nmin, n, dc)))
        for i in incr:
            if i:
                ne, ce = n - nmin, c - cmin
                out.append(self._finish(0, 0., 0, 0., 0, 0., ne, ce, True, False))
                continue
            warn = (False,) if nmin == n else set(cmp_ge(c / n - cmin / nmin,
                                                         self._bound(nmin, n, wc)))
            for w in warn:
                decr = (False,) if (not two or nmax == n) else \
                    set(cmp_ge(cmax / nmax - c / n, self._bound(nmax, n, dc)))
                for d in decr:
                    if d:
                        out.append(self._finish(0, 0., 0, 0., 0, 0., n - nmax, c - cmax, False, w))
                    else:
                        out.append(self._finish(nmin, cmin, nmax, cmax, n, c, nest, cest, False, w))
        return out

    @staticmethod
    def _finish(nmin, cmin, nmax, cmax, n, c, nest, cest, chg, w):
        if n >= nest:
            nest, cest = 0, 0.0
            est = c / n if n else None
        else:
            est = cest / nest
        return ((nmin, cmin, nmax, cmax, n, c, nest, cest), (chg, w, est))


class HDDMWRef(Ref):
    """two: also monitor decrements (a decrement restarts the monitor without a signal)."""

    def __init__(self, drift, warn, lam, two):
        self.p = (drift, warn, lam, two)
        super().__init__()

    def init(self):
        # total, incr: (cut, sample1, sample2), decr: (cut, sample1, sample2)
        return (None, (float('inf'), None, None), (float('-inf'), None, None))

    def _ew(self, s, x):
        lam = self.p[2]
        if s is None:
            return (x, 1.0)
        return (lam * x + (1 - lam) * s[0], lam * lam + (1 - lam) ** 2 * s[1])

    @staticmethod
    def _test(s1, s2, conf):
        """Possible truth values of: mean of s2 exceeds mean of s1."""
        if s1 is None or s2 is None:
            return (False,)
        return tuple(set(cmp_gt(s2[0] - s1[0], sqrt((s1[1] + s2[1]) * log(1 / conf) / 2))))

    def step(self, s, x):
        dc, wc, lam, two = self.p
        tot, (icut, i1, i2), (dcut, d1, d2) = s
        tot = self._ew(tot, x)
        b = sqrt(tot[1] * log(1.0 / dc) / 2)
        res = []
        for low in set(cmp_gt(icut, tot[0] + b)) if icut != float('inf') else (True,):
            if low:
                inc = (tot[0] + b, tot, None)
            else:
                inc = (icut, i1, self._ew(i2, x))
            for c in self._test(inc[1], inc[2], dc):
                if c:
                    res.append((self.init(), (True, False, 0.0)))
                    continue
                for w in self._test(inc[1], inc[2], wc):
                    if not two:
                        res.append(((tot, inc, s[2]), (False, w, tot[0])))
                        continue
                    for high in set(cmp_gt(tot[0] - b, dcut)) if dcut != float('-inf') else (True,):
                        dec = (tot[0] - b, tot, None) if high else (dcut, d1, self._ew(d2, x))
                        for r in self._test(dec[2], dec[1], dc):
                            if r:
                                res.append((self.init(), (False, None, None)))
                            else:
                                res.append(((tot, inc, dec), (False, w, tot[0])))
        return res
