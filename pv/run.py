"""Discharge the deductive obligations of one property: python -m pv.run PROP BUDGET OUT.json"""
import json
import sys
import time
import os
import ctypes
import signal
import shutil
import tempfile
import traceback
import importlib
import z3
from . import prove as P
from .core import STATS, Ctx


def load():
    import contracts
    for m in contracts.PF_MODULES:
        importlib.import_module('contracts.' + m)


def one(prop, label, target, fn, deadline, verbose):
    t1 = time.time()
    o, f, tr, np_ = P.run_contract(prop, label, target, fn, deadline)
    if verbose:
        print('%s: %d paths, %.1f s' % (label, np_, time.time() - t1), file=sys.stderr)
    return {'obl': o, 'fns': sorted(f), 'trusted': sorted(tr), 'time': STATS.time, 'queries': STATS.queries}


def each(prop, todo, deadline, verbose):
    """Every contract in a process of its own, started from the same state; some of them at a time."""
    jobs = int(os.environ.get('PV_JOBS', '3'))
    tmp = tempfile.mkdtemp(prefix='pv-')
    out, running, k = [None] * len(todo), {}, 0
    try:
        while k < len(todo) or running:
            while k < len(todo) and len(running) < jobs:
                if deadline - time.time() < 2:
                    k = len(todo)
                    break
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        ctypes.CDLL(None).prctl(1, signal.SIGKILL)        # ends with its parent
                        label, target, fn, _ = todo[k]
                        r = one(prop, label, target, fn, deadline, verbose)
                        with open(os.path.join(tmp, '%d.json' % k), 'w') as fp:
                            json.dump(r, fp)
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        sys.stdout.flush()
                        sys.stderr.flush()
                        os._exit(code)
                running[pid] = k
                k += 1
            if not running:
                break
            pid, status = os.wait()
            i = running.pop(pid, None)
            if i is not None and status == 0:
                with open(os.path.join(tmp, '%d.json' % i)) as fp:
                    out[i] = json.load(fp)
            elif i is not None:
                label, target = todo[i][:2]
                out[i] = {'obl': [{'name': label + ': (all obligations)', 'function': target, 'status': 'unsupported',
                                   'why': 'the verifier ended with status %d' % status, 'paths': 0, 'backend': '-', 's': 0}],
                          'fns': [], 'trusted': [], 'time': 0.0, 'queries': 0}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def main():
    prop, budget, out = sys.argv[1], float(sys.argv[2]), sys.argv[3]
    only = sys.argv[4] if len(sys.argv) > 4 else None
    P.DEBUG = bool(os.environ.get('PV_DEBUG'))
    sys.setrecursionlimit(20000)
    z3.set_param('smt.random_seed', 1)
    t0 = time.time()
    load()
    todo = [x for x in P.CONTRACTS.get(prop, []) if not only or only in x[0]]
    parts = each(prop, todo, t0 + budget, bool(only or os.environ.get('PV_VERBOSE')))
    obl, fns, trusted, done = [], set(), set(), True
    for (label, target, fn, bounded), r in zip(todo, parts):
        if r is None:
            obl.append({'name': label + ': (all obligations)', 'function': target, 'status': 'budget', 'why': 'time budget',
                        'paths': 0, 'backend': '-', 's': 0})
            done = False
            continue
        for x in r['obl']:
            if bounded:
                x['bounded'] = bounded
        obl += r['obl']
        fns |= set(r['fns'])
        trusted |= set(r['trusted'])
        STATS.time += r['time']
        STATS.queries += r['queries']
    res = {'property': prop, 'obligations': obl, 'done': done, 'functions': sorted(fns), 'trusted': sorted(trusted),
           'assumptions': [], 'backends': sorted({b for x in obl for b in x['backend'].split(', ') if b != '-'}),
           'solver_s': round(STATS.time, 2), 'queries': STATS.queries, 'z3': z3.get_version_string(),
           'vacuity': 'each obligation reached on a feasible path'}
    with open(out, 'w') as f:
        json.dump(res, f, indent=1)
    for x in obl:
        print('%-10s %s [%s, %.2fs, %d paths] %s' % (x['status'], x['name'], x['backend'], x['s'], x['paths'], x['why'][:600] if x['status'] != 'proved' else ''))


if __name__ == '__main__':
    main()
