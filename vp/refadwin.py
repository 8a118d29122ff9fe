"""Exponential-histogram reference of ADWIN, independent of the repository's data structures."""
import math

MAXB, MINLEN, MINSUB = 5, 10, 5


class Sim:
    """One variant: carry = bucket variances are kept when buckets are merged;
    full = cut points after every bucket (False: not after the newest bucket of each size)."""

    def __init__(self, delta, carry, full, clock=32):
        self.delta, self.carry, self.full, self.clock = delta, carry, full, clock
        self.rows = [[]]          # rows[i]: [total, sq] of buckets of 2**i elements, oldest first
        self.n = 0
        self.total = 0.0
        self.m2 = 0.0
        self.t = 0

    def copy(self):
        s = Sim(self.delta, self.carry, self.full, self.clock)
        s.rows = [list(r) for r in self.rows]
        s.n, s.total, s.m2, s.t = self.n, self.total, self.m2, self.t
        return s

    def add(self, x):
        self.n += 1
        self.rows[0].append((x, 0.0))
        if self.n > 1:
            d = x - self.total / (self.n - 1)
            self.m2 += (self.n - 1) * d * d / self.n
        self.total += x
        i = 0
        while len(self.rows[i]) == MAXB + 1:
            if i + 1 == len(self.rows):
                self.rows.append([])
            (t1, v1), (t2, v2) = self.rows[i][:2]
            k = 2 ** i
            d = t1 / k - t2 / k
            v = v2 + (v1 if self.carry else 0.0) + k * k * d * d / (2 * k)
            self.rows[i + 1].append((t1 + t2, v))
            del self.rows[i][:2]
            i += 1

    def drop_oldest(self):
        i = len(self.rows) - 1
        k = 2 ** i
        t, v = self.rows[i].pop(0)
        self.n -= k
        self.total -= t
        d = t / k - self.total / self.n
        self.m2 -= v + k * self.n * d * d / (k + self.n)
        while len(self.rows) > 1 and not self.rows[-1]:
            self.rows.pop()

    def _cut(self, n0, n1, u0, u1):
        """Possible truth values of the cut condition."""
        if self.n <= 1:
            return (False,)
        dd = math.log(2 * math.log(self.n) / self.delta)
        m = 1.0 / (n0 - MINSUB + 1) + 1.0 / (n1 - MINSUB + 1)
        v = self.m2 / self.n
        q = 2 * m * v * dd
        if q < 0:
            if q > -1e-12 * max(1.0, abs(self.total)):
                q = 0.0
            else:
                return (False,)       # the square root is not a number: no cut
        eps = math.sqrt(q) + 2.0 / 3.0 * dd * m
        d = abs(u0 / n0 - u1 / n1)
        if abs(d - eps) <= 1e-9 * max(1.0, d):
            return (True, False)
        return (d > eps,)

    def detect(self):
        """All possible (successor, change) pairs."""
        s = self.copy()
        s.t += 1
        if s.t % s.clock != 0 or s.n <= MINLEN:
            return [(s, False)]
        out = []
        todo = [(s, False)]
        while todo:
            s, chg = todo.pop()
            points = s._cutpoints()
            alive = True
            for n0, n1, u0, u1 in points:
                poss = s._cut(n0, n1, u0, u1)
                if True in poss:
                    c = s.copy()
                    c.drop_oldest()
                    if c.n > 0:
                        todo.append((c, True))
                if False not in poss:
                    alive = False
                    break
            if alive:
                out.append((s, chg))
            if len(out) + len(todo) > 64:
                break
        return out

    def _cutpoints(self):
        n0, n1, u0, u1 = 0, self.n, 0.0, self.total
        res = []
        for i in range(len(self.rows) - 1, -1, -1):
            row = self.rows[i]
            upto = len(row) if self.full else len(row) - 1
            for j in range(upto):
                n0 += 2 ** i
                n1 -= 2 ** i
                u0 += row[j][0]
                u1 -= row[j][0]
                if n0 >= MINSUB and n1 >= MINSUB:
                    res.append((n0, n1, u0, u1))
        return res
