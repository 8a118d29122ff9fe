"""Runs one property's monitors over its workloads and reports a three-valued verdict.

exit 0  the property held on everything observed
exit 1  refuted, with `VIOLATION property=<id> replay=<path>`
exit 2  inconclusive (build failed, a case timed out, or the deciding monitor was never reached)
"""
import argparse
import faulthandler
import importlib
import json
import os
import pickle
import random
import signal
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = {'quick': 300, 'thorough': 3000}
FAIL_FAST_S = float(os.environ.get('VERIF_FAIL_FAST', '240'))   # with a finding, start no more cases after this


def modules():
    out = {}
    for f in sorted(os.listdir(os.path.join(VERIF, 'checks'))):
        if f.endswith('.py') and f[0] == 'c' and f[1:3].isdigit():
            out[f.split('_')[0].upper()] = 'checks.' + f[:-3]
    return out


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get('findings', []) if k['property'] == pid]


def seed_case(case):
    import numpy as np
    s = zlib.crc32(repr(sorted(case.items(), key=lambda t: t[0])).encode()) & 0x7fffffff
    random.seed(s)
    np.random.seed(s)
    return s


def run_one(mod, case):
    """Executes a case in this process and returns the recorder."""
    from vp.rec import Rec, StopCase
    rec = Rec(case)
    seed_case(case)
    try:
        mod.run(case, rec)
    except StopCase:
        pass
    except Exception as e:   # the code under test (or its malformed output) broke the workload
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if 'skmultiflow' in f.filename]
        loc = where[-1].name if where else 'harness:' + tb[-1].name
        sig = 'exception:%s:%s:%s' % (case.get('fam', ''), type(e).__name__, loc)
        try:
            rec.fail(sig, 'unexpected %s: %s' % (type(e).__name__, e),
                     traceback=traceback.format_exc()[-3000:])
        except StopCase:
            pass
    return rec


def _child(mod, chunk, path):
    faulthandler.enable(open(path + '.crash', 'w'))
    res = []
    for i, case in chunk:
        with open(path + '.cur', 'w') as f:
            f.write(str(i))
        t0 = time.time()
        rec = run_one(mod, case)
        res.append((i, dict(evals=rec.evals, keys=rec.keys, counters=rec.counters,
                            samples=rec.samples, fails=rec.fails, wall=time.time() - t0)))
    with open(path + '.tmp', 'wb') as f:
        pickle.dump(res, f)
    os.rename(path + '.tmp', path)


def cpu_seconds(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            t = f.read().rsplit(')', 1)[1].split()
        return (int(t[11]) + int(t[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return 0.


def run_cases(mod, cases, tier, jobs, verbose=False, known=()):
    """Forked workers, one per case: crashes and hangs are confined and attributed."""
    tmp = tempfile.mkdtemp(prefix='vpskmfrun', dir='/tmp')
    results = {}
    dead = []
    timeouts = []
    hung = []
    started = time.time()
    found = stopped = False
    todo = list(enumerate(cases))
    limit = getattr(mod, 'CASE_TIMEOUT', CASE_TIMEOUT)[tier]
    live = {}
    devnull = os.open(os.devnull, os.O_WRONLY)
    try:
        n = 0
        while todo or live:
            if todo and (hung or (found and time.time() - started > FAIL_FAST_S)):
                todo = []
                stopped = True
                if hung or FAIL_FAST_S == 0:
                    for p in live:
                        os.kill(p, signal.SIGKILL)
                        os.waitpid(p, 0)
                    live = {}
                    continue
            while todo and len(live) < jobs:
                item = todo.pop(0)
                path = os.path.join(tmp, 'r%d' % n)
                n += 1
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 70
                    try:
                        wd = path + '.wd'
                        os.mkdir(wd)
                        os.chdir(wd)
                        os.dup2(devnull, 1)
                        if not verbose:
                            os.dup2(devnull, 2)
                        _child(mod, [item], path)
                        code = 0
                    except BaseException:
                        with open(path + '.err', 'w') as f:
                            f.write(traceback.format_exc())
                    finally:
                        os._exit(code)
                live[pid] = (item, path, time.time())
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                now = time.time()
                for p, (item, path, t0) in list(live.items()):
                    if now - t0 > limit:
                        used = cpu_seconds(p)
                        os.kill(p, signal.SIGKILL)
                        os.waitpid(p, 0)
                        # a case takes seconds; one that burns CPU all this time does not end
                        (hung if used > .6 * limit else timeouts).append(item)
                        del live[p]
                time.sleep(0.004)
                continue
            if pid not in live:
                continue
            item, path, t0 = live.pop(pid)
            if os.path.exists(path):
                with open(path, 'rb') as f:
                    for i, r in pickle.load(f):
                        results[i] = r
                        found = found or any(f['sig'] not in known for f in r['fails'])
            else:
                err = ''
                for s in ('.err', '.crash'):
                    if os.path.exists(path + s):
                        err += open(path + s).read()[-3000:]
                dead.append((item, status, err))
                found = True
    finally:
        os.close(devnull)
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return results, dead, timeouts, hung, stopped


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--case', help='only cases whose repr contains this text')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    mods = modules()
    pid = a.property
    if pid not in mods:
        print('unknown property', pid)
        return 2
    t0 = time.time()
    from vp import build
    d = build.scratch()
    try:
        try:
            mod_src = importlib.import_module(mods[pid])
            san = getattr(mod_src, 'SANITIZE', None)
            native = build.build(d)
            build.activate(native)
            mod_src.NATIVE = native
            mod_src.SCRATCH = d
            import skmultiflow  # noqa
            if hasattr(mod_src, 'setup'):
                mod_src.setup(d)
        except build.BuildError as e:
            print('INCONCLUSIVE property=%s build failed: %s' % (pid, e))
            return 2
        if a.replay:
            with open(a.replay) as f:
                rp = json.load(f)
            rec = run_one(mod_src, rp['case'])
            for x in rec.fails:
                print(json.dumps(x, indent=1))
            print('replay: %d findings' % len(rec.fails))
            return 1 if rec.fails else 0
        return _run(pid, mod_src, a, t0)
    finally:
        build.cleanup(d)


def _run(pid, mod, a, t0):
    cases = mod.cases(a.tier, a.seed)
    if a.case:
        cases = [c for c in cases if a.case in repr(c)]
    if not cases:
        print('INCONCLUSIVE property=%s: no cases' % pid)
        return 2
    order = sorted(range(len(cases)), key=lambda i: -cases[i].get('cost', 1))
    cases = [cases[i] for i in order]
    known = load_known(pid)
    results, dead, timeouts, hung, stopped = run_cases(
        mod, cases, a.tier, a.jobs, a.v, {k['signature'] for k in known})
    evals = 0
    keys = set()
    counters = {}
    samples = []
    fails = []
    for i in sorted(results):
        r = results[i]
        evals += r['evals']
        keys |= r['keys']
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        if r['samples'] and len(samples) < 12:
            samples.append({'case': cases[i], 'observed': r['samples'][:2]})
        for f in r['fails']:
            fails.append((cases[i], f))
    for (i, case), status, err in dead:
        sig = 'exception:%s:died:%s' % (case.get('fam', ''),
                                        os.WTERMSIG(status) if os.WIFSIGNALED(status)
                                        else os.WEXITSTATUS(status))
        fails.append((case, {'sig': sig, 'msg': 'the process running this case died (status %d)'
                             % status, 'detail': {'log': err}}))
    for i, case in hung:
        fails.append((case, {'sig': 'hang:%s' % case.get('fam', ''), 'msg': 'this case did not end '
                             'although it used the processor all the time', 'detail': {}}))
    new, hits = [], {}
    for case, f in fails:
        k = next((k for k in known if k['signature'] == f['sig']), None)
        if k is None:
            new.append((case, f))
        else:
            hits.setdefault(k['signature'], (k, f))
    if not samples:
        samples = [{'case': c} for c in cases[:3]]
    from vp.rec import jsonable
    ev = {
        'property': pid, 'tier': a.tier, 'seed': a.seed, 'level': mod.LEVEL,
        'coverage': {
            'evaluations': int(evals), 'distinct_nontrivial': len(keys), 'rule': mod.RULE,
            'samples': jsonable(samples)[:12], 'cases_run': len(results), 'observed': counters,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(p + '.tmp', p)
    print('property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d wall=%.1fs' %
          (pid, a.tier, a.seed, len(results), evals, len(keys), time.time() - t0))
    print('observed: ' + json.dumps(counters, sort_keys=True))
    if a.v:
        slow = sorted(((r['wall'], i) for i, r in results.items()), reverse=True)[:6]
        for w, i in slow:
            print('slow %.1fs %r' % (w, cases[i]))
    for s, (k, f) in sorted(hits.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if new:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        seen = set()
        for case, f in new:
            if f['sig'] in seen:
                continue
            seen.add(f['sig'])
            if len(seen) > 12:
                break
            rp = os.path.join(VERIF, 'replays', '%s-%08x.json' % (
                pid, zlib.crc32((f['sig'] + repr(case)).encode())))
            with open(rp, 'w') as fh:
                json.dump({'property': pid, 'case': case, 'finding': f, 'seed': a.seed,
                           'tier': a.tier}, fh, indent=1)
            print('finding sig=%s: %s' % (f['sig'], f['msg'][:600]))
            if a.v and 'traceback' in f.get('detail', {}):
                print(f['detail']['traceback'])
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if timeouts:
        print('INCONCLUSIVE property=%s: %d case(s) timed out: %r' % (pid, len(timeouts),
                                                                   timeouts[:3]))
        return 2
    if len(results) + len(dead) < len(cases):
        print('INCONCLUSIVE property=%s: only %d of %d cases ran' % (pid, len(results), len(cases)))
        return 2
    if not a.case:
        for k, v in getattr(mod, 'REQUIRED', {}).items():
            if counters.get(k, 0) < v:
                print('INCONCLUSIVE property=%s: monitor %s reached only %d times (need %d)' %
                      (pid, k, counters.get(k, 0), v))
                return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
