#!/usr/bin/env python3
"""Samples small source mutations and runs the checks on each, in scratch copies under /tmp.

mutants.py OUT.jsonl --n N --seed S [--files SUBSTR,...] [--workers W]
One record per mutation: {file, line, op, old, new, result: caught/missed/tests, by}.
A mutation no specific check reports is run against the stable tests, and if those pass against
the learner-wide checks.  What is left is for a human to judge (equivalent or a hole).
"""
import argparse, ast, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import threading, queue

BASE = '/tmp/mut'
WIDE = ['C27', 'C28', 'C29', 'C30', 'C31', 'C32', 'C33', 'C34']
MAP = [
    ('data/concept_drift_stream', 'C05 C01 C03'), ('data/data_stream', 'C02 C03'),
    ('data/file_stream', 'C02 C03'), ('data/temporal', 'C02 C19 C03'), ('data/time_manager', 'C19'),
    ('data/base_stream', 'C02 C03 C01'), ('data/multilabel', 'C04 C02 C03 C01'),
    ('data/regression', 'C04 C02 C03 C01'), ('data/', 'C04 C01 C03 C02'),
    ('drift_detection/adwin', 'C06 C07'), ('drift_detection/ddm', 'C08'), ('drift_detection/eddm', 'C08'),
    ('drift_detection/page', 'C08'), ('drift_detection/hddm', 'C09'), ('drift_detection/kswin', 'C10'),
    ('drift_detection/', 'C08 C06 C30'),
    ('evaluation/evaluate_holdout', 'C18 C17'), ('evaluation/evaluate_prequential_delayed', 'C19 C17'),
    ('evaluation/evaluate_prequential', 'C16 C17'), ('evaluation/', 'C17 C16 C18 C19'),
    ('metrics/_conf', 'C15 C12 C21 C13'), ('metrics/_class', 'C12 C21'), ('metrics/', 'C12 C13 C14 C15'),
    ('lazy/sam', 'C22'), ('lazy/src', 'C21 C22'), ('lazy/', 'C20'), ('bayes/', 'C23'),
    ('trees/extremely', 'C25 C46'), ('trees/_nodes/efdtc', 'C25'), ('trees/hoeffding_adaptive_tree_reg', 'C26 C25'),
    ('trees/_nodes/hatr', 'C26 C25'), ('trees/hoeffding_adaptive', 'C25'), ('trees/_nodes/hatc', 'C25'),
    ('trees/arf_hoeffding_tree_reg', 'C40 C26'), ('trees/arf', 'C40'), ('trees/_nodes/arf_htc', 'C40'), ('trees/_nodes/arf_htr', 'C40'),
    ('trees/isoup', 'C26 C46'), ('trees/_nodes/isoup', 'C26 C46'), ('trees/stacked', 'C26 C46'), ('trees/_nodes/sst', 'C26 C46'),
    ('trees/hoeffding_tree_reg', 'C26 C46'), ('trees/_nodes/htr', 'C26 C46'), ('trees/label', 'C24'),
    ('trees/_nodes/lc', 'C24'), ('trees/', 'C24 C46 C26 C25'),
    ('meta/oza', 'C35 C37'), ('meta/leverage', 'C35 C37'), ('meta/online_smote', 'C35 C37'),
    ('meta/online_under', 'C35 C37'), ('meta/online_', 'C36 C37'), ('meta/additive', 'C38'), ('meta/dynamic', 'C38'),
    ('meta/accuracy', 'C39'), ('meta/batch', 'C39'), ('meta/learn', 'C39'), ('meta/adaptive', 'C40'),
    ('meta/streaming', 'C40'), ('meta/', 'C41'), ('transform/', 'C42'), ('core/pipeline', 'C43'),
    ('rules/', 'C44'), ('prototype/', 'C45'), ('anomaly', 'C45'), ('neural', 'C45'),
    ('utils/data_structures', 'C15 C20'), ('utils/', 'C20 C12 C13 C05 C24 C46'), ('core/', 'C29 C43'),
]
SKIP = ('/_demos', 'visualization', 'options/', 'setup.py', '_version', '__init__', '.c', 'synth.py',
        'evaluate_stream_gen_speed', 'binary_tree', 'instance_header', 'pseudo_random', '_pprint')
SKIPFUN = {'get_info', '_repr_mimebundle_', '_repr_html_', 'params_repr', '__repr__', '__str__', 'get_model_description', '_init_plot', 'evaluation_summary',
           'describe_condition',
           'describe_subtree', 'get_class_type', 'buffer_string', '_update_file_buffer', '_flush_file_buffer'}


def checks_for(f):
    for k, v in MAP:
        if k in f:
            return v.split()
    return []


CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==',
       ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
ARI = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '*', ast.Pow: '*'}


def py_mutants(path):
    """Yields (op, start, end, replacement) on the source bytes."""
    src = open(path).read()
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l) + 1)
    tree = ast.parse(src)
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c.parent = n

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def skipped(n):
        while n is not None:
            if isinstance(n, ast.FunctionDef) and (n.name in SKIPFUN or 'has been renamed' in ast.dump(n)):
                return True
            if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom)):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and \
                    (getattr(n.func, 'id', '') in ('print', 'isinstance') or getattr(n.func, 'attr', '') in ('warn', 'filterwarnings', 'format')):
                return True
            n = getattr(n, 'parent', None)
        return False

    def in_args(n):
        p = n
        while p is not None:
            if isinstance(p, ast.arguments):
                return True
            p = getattr(p, 'parent', None)
        return False
    out = []
    for n in ast.walk(tree):
        if not hasattr(n, 'lineno') or skipped(n):
            continue
        seg = lambda x: src[pos(x)[0]:pos(x)[1]]
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            out.append(('cmp', *pos(n), '%s %s %s' % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0]))))
        elif isinstance(n, ast.BinOp) and type(n.op) in ARI and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            out.append(('arith', *pos(n), '(%s) %s (%s)' % (seg(n.left), ARI[type(n.op)], seg(n.right))))
        elif isinstance(n, ast.AugAssign) and type(n.op) in ARI:
            op = ARI[type(n.op)]
            out.append(('aug', *pos(n), '%s %s= %s' % (seg(n.target), op if op != '/' else '/', seg(n.value))))
            out.append(('aug2', *pos(n), '%s = %s' % (seg(n.target), seg(n.value))))
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            out.append(('bool', *pos(n), '(%s)' % op.join('(%s)' % seg(v) for v in n.values)))
            out.append(('drop', *pos(n), '(%s)' % seg(n.values[0])))
            out.append(('drop', *pos(n), '(%s)' % seg(n.values[-1])))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append(('not', *pos(n), '(%s)' % seg(n.operand)))
        elif isinstance(n, ast.Constant) and not in_args(n):
            if isinstance(n.value, bool):
                out.append(('const', *pos(n), str(not n.value)))
            elif isinstance(n.value, (int, float)):
                out.append(('const', *pos(n), repr(n.value + 1)))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) or \
                isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            fn = n
            while fn is not None and not isinstance(fn, ast.FunctionDef):
                fn = getattr(fn, 'parent', None)
            if fn is not None and fn.name != '__init__':
                out.append(('del', *pos(n), 'pass'))
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            b = getattr(n.parent, 'body', [])
        elif isinstance(n, ast.If):
            out.append(('if1', *pos(n.test), 'True'))
            out.append(('if0', *pos(n.test), 'False'))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('copy',) and not n.args:
            out.append(('nocopy', *pos(n), seg(n.func.value)))
        elif isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', '')) in ('deepcopy', 'abs', 'sqrt', 'clone') and len(n.args) == 1:
            out.append(('nocall', *pos(n), seg(n.args[0])))
        elif isinstance(n, (ast.Break, ast.Continue)):
            out.append(('brk', *pos(n), 'pass'))
        elif isinstance(n, ast.keyword) and n.arg and not isinstance(n.value, ast.Constant):
            out.append(('nokw', *pos(n.value), 'None'))
    return src, out


def text_mutants(path):
    src = open(path).read()
    out = []
    at = 0
    doc = False
    for line in src.split('\n'):
        s = line.strip()
        q = s.count('"""')
        if q == 1:
            doc = not doc
        if not doc and q == 0 and not s.startswith(('#', '//', '*', 'import', 'cimport', 'from', 'cdef class', 'raise', '@')) and 'def ' not in s:
            for pat, rep in ((r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' \+ ', ' - '), (r' - ', ' + '),
                             (r' \* ', ' / '), (r' / ', ' * '), (r' \+= ', ' = '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' and ', ' or '),
                             (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'), (r'\bi\b(?=\])', 'j'), (r'<(?=[a-zA-Z])', '<=')):
                for m in re.finditer(pat, line):
                    out.append(('text', at + m.start(), at + m.end(), rep))
        at += len(line) + 1
    return src, out


def sources(sub):
    root = '/repo/src/skmultiflow'
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), root)
            if not p.endswith(('.py', '.pyx', '.cpp')) or '__pycache__' in p or any(k in p + '' for k in SKIP if k != '.c'):
                continue
            if sub and not any(x in p for x in sub):
                continue
            if checks_for(p):
                yield p


def setup(k):
    d = '%s/w%d' % (BASE, k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    subprocess.run('cd /verif && mkdir %s/verif && cp -a check checks vp known_findings.json %s/verif/' % (d, d), shell=True, check=True)
    p = d + '/verif/vp/build.py'
    s = open(p).read().replace("'/repo'", "'%s/repo'" % d)
    open(p, 'w').write(s)
    for f in ('test.sh', 'native.sh'):
        s = open('/opt/vp/' + f).read().replace('/repo', d + '/repo').replace('/opt/vp/native.', d + '/native.').replace('-n 8', '-n 3')
        open(d + '/' + f, 'w').write(s)
    return d


def run_checks(d, ids, jobs):
    for c in ids:
        try:
            r = subprocess.run(['./check', c, '--jobs', str(jobs)], cwd=d + '/verif', capture_output=True, text=True,
                               timeout=1500, env=dict(os.environ, VERIF_FAIL_FAST='0'))
        except subprocess.TimeoutExpired:
            return c + ':timeout', ''
        if r.returncode == 1:
            m = re.search(r'finding sig=(.*)', r.stdout)
            return c, m.group(1)[:200] if m else ''
        if r.returncode != 0:
            return c + ':rc%d' % r.returncode, r.stdout[-300:]
    return None, ''


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--n', type=int, default=40)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--files', default='')
    ap.add_argument('--ops', default='')
    ap.add_argument('--workers', type=int, default=4)
    ap.add_argument('--jobs', type=int, default=2)
    ap.add_argument('--wide', action='store_true')
    a = ap.parse_args()
    rng = random.Random(a.seed)
    pool = []
    for p in sources([x for x in a.files.split(',') if x]):
        full = '/repo/src/skmultiflow/' + p
        src, ms = (py_mutants if p.endswith('.py') else text_mutants)(full)
        ms = [m for m in ms if not a.ops or m[0] in a.ops.split(',')]
        pool += [(p, m) for m in ms]
    # square-root weighting keeps big files from crowding out small ones
    by = {}
    for p, m in pool:
        by.setdefault(p, []).append(m)
    picks, seen = [], set()
    names = sorted(by)
    while len(picks) < a.n and len(seen) < len(pool):
        p = rng.choices(names, [len(by[x]) ** .5 for x in names])[0]
        m = rng.choice(by[p])
        if (p, m) not in seen:
            seen.add((p, m))
            picks.append((p, m))
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            r = json.loads(l)
            done.add((r['file'], r['span'][0], r['span'][1], r['new']))
    picks = [(p, m) for p, m in picks if (p, m[1], m[2], m[3]) not in done]
    print(len(pool), 'possible', len(picks), 'picked')
    q = queue.Queue()
    for x in picks:
        q.put(x)
    lock = threading.Lock()

    def work(k):
        d = setup(k)
        while True:
            try:
                p, m = q.get_nowait()
            except queue.Empty:
                break
            f = d + '/repo/src/skmultiflow/' + p
            orig = open('/repo/src/skmultiflow/' + p).read()
            src = orig[:m[1]] + m[3] + orig[m[2]:]
            rec = dict(file=p, line=orig[:m[1]].count('\n') + 1, op=m[0], old=orig[m[1]:m[2]], new=m[3], span=[m[1], m[2]])
            try:
                if p.endswith('.py'):
                    compile(src, p, 'exec')
                open(f, 'w').write(src)
                by, sig = run_checks(d, checks_for(p), a.jobs)
                res = 'caught' if by and ':' not in by else ('odd' if by else 'missed')
                if not by:
                    o = d + '/out.json'
                    subprocess.run(['bash', d + '/test.sh', o], capture_output=True, timeout=900)
                    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
                    ok = set(json.load(open(o)).get('passed', []))
                    if stable - ok:
                        res = 'tests'
                    elif a.wide and p.split('/')[0] in ('lazy', 'bayes', 'meta', 'trees', 'rules', 'prototype', 'anomaly_detection', 'neural_networks', 'utils', 'core', 'drift_detection'):
                        by, sig = run_checks(d, WIDE, a.jobs)
                        res = 'caught' if by and ':' not in by else ('odd' if by else 'missed')
                rec.update(result=res, by=by, sig=sig)
            except SyntaxError:
                rec.update(result='syntax', by=None)
            except Exception as e:
                rec.update(result='error', by=repr(e)[:200])
            finally:
                open(f, 'w').write(orig)
            with lock:
                open(a.out, 'a').write(json.dumps(rec) + '\n')
        shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(work, range(a.workers)))


if __name__ == '__main__':
    main()
