#!/usr/bin/env python3
"""trybugs.py BUGS.py [--tests]: runs hand-written changes against the check of their property, in scratch copies.

BUGS.py defines BUGS = [(property, file below src/skmultiflow, old text, new text), ...]; old text occurs once, or is (text, n): its occurrence n.
--tests also runs the stable tests on what was missed."""
import json, os, queue, runpy, shutil, subprocess, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutants as M

M.BASE = '/tmp/bugs'
bugs = runpy.run_path(sys.argv[1])['BUGS']
bad = 0
for k, b in enumerate(bugs):
    s = open('/repo/src/skmultiflow/' + b[1], newline='').read()
    o = b[2][0] if isinstance(b[2], tuple) else b[2]
    if s.count(o) != 1 and not (isinstance(b[2], tuple) and s.count(o) > b[2][1]):
        print('bug %d (%s %s): old text occurs %d times' % (k, b[0], b[1], s.count(o)))
        bad = 1
if bad:
    sys.exit(1)
q = queue.Queue()
for k, b in enumerate(bugs):
    q.put((k, b))
lock = threading.Lock()


def sub(s, old, new):
    if not isinstance(old, tuple):
        return s.replace(old, new)
    parts = s.split(old[0])
    return old[0].join(parts[:old[1] + 1]) + new + old[0].join(parts[old[1] + 1:])


def work(w):
    d = M.setup(w)
    while True:
        try:
            k, (props, f, old, new) = q.get_nowait()
        except queue.Empty:
            break
        p = d + '/repo/src/skmultiflow/' + f
        s = open(p, newline='').read()
        open(p, 'w', newline='').write(sub(s, old, new))
        by, sig = M.run_checks(d, props.split(), 2)
        t = ''
        if not by and '--tests' in sys.argv:
            o = d + '/out.json'
            subprocess.run(['bash', d + '/test.sh', o], capture_output=True, timeout=900)
            lost = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(json.load(open(o)).get('passed', []))
            t = 'tests lost: %s' % sorted(lost)[:3] if lost else 'stable tests pass'
        open(p, 'w', newline='').write(s)
        with lock:
            print('%3d %-8s %s %s %s %s' % (k, 'caught' if by else 'MISSED', by or props, f, sig[:100], t), flush=True)
    shutil.rmtree(d, ignore_errors=True)


ts = [threading.Thread(target=work, args=(w,)) for w in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
