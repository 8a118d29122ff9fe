"""C21: the native kernels compute what they claim, without touching memory they do not own."""
import gc
import json
import os
import subprocess
import sys
import tracemalloc

import numpy as np

from vp import driftload

LEVEL = 'exploration'
RULE = ('an evaluation is one kernel call (or tracker operation) executed under AddressSanitizer '
        'and UBSan with its result compared with numpy; distinct = (shape, operation) digests')
REQUIRED = {'sanitized_calls': 3000, 'rejected_calls': 40, 'sanitized_runs': 6, 'leak_calls': 2000}
ASSUMPTIONS = ['sanitizers see the C++ module and the C code generated from the Cython modules; '
               'Python and numpy themselves are not instrumented (their heap blocks are fenced)']
FLAGS = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
         '-fno-omit-frame-pointer', '-U_FORTIFY_SOURCE']
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cases(tier, seed):
    k = 3 if tier == 'quick' else 24
    out = [{'fam': f, 'i': i, 'seed': seed, 'cost': 20} for f in ('kernels', 'samknn', 'trackers')
           for i in range(k)]
    out += [{'fam': 'invalid', 'i': 0, 'seed': seed, 'cost': 10}, {'fam': 'invalid', 'i': 1, 'seed': seed, 'cost': 10}]
    return out + [{'fam': 'leak', 'i': i, 'seed': seed} for i in range(4)]


def setup(d):
    from vp import build
    sub = os.path.join(d, 'san')
    os.makedirs(sub)
    mods = build.build(sub, sanitize_cpp=FLAGS, sanitize_cython=FLAGS)
    with open(os.path.join(d, 'mods.json'), 'w') as f:
        json.dump(mods, f)
    globals()['SAN'] = os.path.join(d, 'mods.json')


def run(case, rec):
    if case['fam'] == 'leak':
        return leak(case, rec)
    r = driftload.rng(case)
    base = os.path.join(os.path.dirname(SAN), '%s_%d' % (case['fam'], case['i']))
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True,
                         text=True).stdout.strip()
    ub = subprocess.run(['gcc', '-print-file-name=libubsan.so'], capture_output=True,
                        text=True).stdout.strip()
    env = dict(os.environ, LD_PRELOAD=lib + ' ' + ub, PYTHONPATH=HERE, PYTHONMALLOC='malloc',
               PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               ASAN_OPTIONS='detect_leaks=0:log_path=%s.log:exitcode=77:'
                            'allocator_may_return_null=1' % base,
               UBSAN_OPTIONS='print_stacktrace=1:log_path=%s.log:exitcode=77' % base)
    rounds = {'kernels': 400, 'samknn': 6, 'trackers': 12, 'invalid': 1}[case['fam']]
    p = subprocess.run([sys.executable, '-m', 'vp.nativework', SAN, case['fam'],
                        str(r.randint(2 ** 30)), str(rounds), base + '.json'], cwd=HERE, env=env,
                       capture_output=True, text=True, timeout=300)
    logs = ''
    for f in os.listdir(os.path.dirname(base)):
        if f.startswith(os.path.basename(base) + '.log'):
            with open(os.path.join(os.path.dirname(base), f), errors='replace') as g:
                logs += g.read()
    rec.check('ERROR: AddressSanitizer' not in logs, 'native:asan', lambda: logs[:1200])
    rec.check('runtime error' not in logs, 'native:ubsan', lambda: logs[:1200])
    if not os.path.exists(base + '.json'):
        if not rec.fails:
            rec.fail('native:died', 'the sanitized workload ended with status %d: %s'
                     % (p.returncode, p.stderr[-1000:]))
        return
    with open(base + '.json') as f:
        out = json.load(f)
    for sig, msg in out['bad']:
        rec.fail(sig, msg)
    rec.ok(out['calls'])
    rec.count('sanitized_calls', out['calls'])
    rec.count('rejected_calls', out['rejected'])
    rec.count('sanitized_runs')
    for k in out['keys']:
        rec.key(k)
    rec.sample(family=case['fam'], calls=out['calls'], rejected=out['rejected'],
               sanitizer_log_bytes=len(logs))


def leak(case, rec):
    """Repeated calls leave the arguments' reference counts and the heap as they were."""
    from skmultiflow.lazy import libNearestNeighbor as NN
    r = driftload.rng(case)
    a, A, V = r.normal(size=6), r.normal(size=(40, 6)), r.normal(size=(3, 40))
    L = r.randint(0, 3, (3, 40)).astype(np.int32)
    W = np.abs(V)
    calls = [(lambda: NN.get1ToNDistances(a, A)), (lambda: NN.getNToNDistances(A, A)),
             (lambda: NN.nArgMin(5, V)), (lambda: NN.mostCommon(L)),
             (lambda: NN.getLinearWeightedLabels(L, W)),
             (lambda: NN.get1ToNDistances(a.tolist(), A.tolist())),
             (lambda: NN.nArgMin(2, V[:, ::2]))]
    args = (a, A, V, L, W)
    for i, f in enumerate(calls):
        out = f()
        rec.check(sys.getrefcount(out) == 2, 'native:refcount', 'call %d returns an object with '
                  '%d references' % (i, sys.getrefcount(out)))
        del out
        gc.collect()
        before = [sys.getrefcount(x) for x in args]
        tracemalloc.start()
        for _ in range(20):
            f()
        m0 = tracemalloc.get_traced_memory()[0]
        for _ in range(400):
            f()
        m1 = tracemalloc.get_traced_memory()[0]
        tracemalloc.stop()
        rec.count('leak_calls', 420)
        rec.same([sys.getrefcount(x) for x in args], before, 'native:refcount', 'references to the '
                 'arguments after 420 calls of kernel %d' % i)
        rec.check(m1 - m0 < 400 * 20, 'native:leak', '400 calls of kernel %d leave %d bytes '
                  'allocated' % (i, m1 - m0))
        rec.key('leak', i)
    rec.sample(kernels=len(calls))
