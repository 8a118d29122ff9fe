"""Recorder handed to every workload case: what the monitors saw, and what they refuted."""
import hashlib
import json

import numpy as np


def digest(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        _feed(h, p)
    return h.hexdigest()


def _feed(h, p):
    if isinstance(p, np.ndarray):
        h.update(str(p.shape).encode())
        if p.dtype == object:
            h.update(repr(p.tolist()).encode())
        else:
            h.update(np.ascontiguousarray(np.asarray(p, dtype=float)).tobytes()
                     if p.dtype.kind in 'fiub' else repr(p.tolist()).encode())
    elif isinstance(p, (list, tuple)):
        h.update(b'[')
        for q in p:
            _feed(h, q)
        h.update(b']')
    else:
        h.update(repr(p).encode())


def jsonable(o, depth=0):
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:60]}
    if isinstance(o, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(o)[:200]]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist(), depth)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return repr(float(o)) if not np.isfinite(o) else float(o)
    if isinstance(o, float):
        return o if np.isfinite(o) else repr(o)
    if isinstance(o, (int, str, bool)) or o is None:
        return o
    return repr(o)[:300]


class StopCase(Exception):
    """Raised by Rec.fail to end a case after too many findings."""


class Rec:
    MAX_FAILS = 8
    MAX_SAMPLES = 3

    def __init__(self, case):
        self.case = case
        self.evals = 0
        self.keys = set()
        self.counters = {}
        self.samples = []
        self.fails = []

    # ---- what was observed
    def ok(self, n=1):
        self.evals += n

    def key(self, *parts):
        """Registers a distinct, non-trivial observed state or input."""
        self.keys.add(digest(self.case.get('fam', ''), *parts))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def sample(self, **kw):
        if len(self.samples) < self.MAX_SAMPLES:
            self.samples.append(jsonable(kw))

    # ---- what was refuted
    def fail(self, sig, msg, **detail):
        self.fails.append({'sig': sig, 'msg': str(msg)[:1500], 'detail': jsonable(detail)})
        if len(self.fails) >= self.MAX_FAILS:
            raise StopCase()

    def check(self, cond, sig, msg='', **detail):
        self.evals += 1
        if not cond:
            self.fail(sig, msg() if callable(msg) else msg, **detail)
        return bool(cond)

    def close(self, a, b, sig, msg='', rtol=1e-7, atol=1e-9, **detail):
        """Array/scalar equality up to floating-point noise; shapes must agree; nan == nan."""
        self.evals += 1
        try:
            x = np.asarray(a, dtype=float)
            y = np.asarray(b, dtype=float)
            good = x.shape == y.shape and bool(np.allclose(x, y, rtol=rtol, atol=atol,
                                                           equal_nan=True))
        except (TypeError, ValueError):
            good = False
        if not good:
            self.fail(sig, '%s: observed %s, expected %s' % (msg, _short(a), _short(b)), **detail)
        return good

    def same(self, a, b, sig, msg='', **detail):
        """Exact equality (shape and values; nan == nan)."""
        self.evals += 1
        good = equal(a, b)
        if not good:
            self.fail(sig, '%s: observed %s, expected %s' % (msg, _short(a), _short(b)), **detail)
        return good


def _short(a):
    s = repr(a.tolist() if isinstance(a, np.ndarray) else a)
    return s if len(s) < 400 else s[:400] + '...'


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return False
        if x.dtype.kind in 'fc' or y.dtype.kind in 'fc':
            try:
                return bool(np.array_equal(x.astype(float), y.astype(float), equal_nan=True))
            except (TypeError, ValueError):
                pass
        return bool(np.all(x == y)) if x.size else True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return bool(a == b)
