"""Bounded stand-in: evaluates contracts on the real code for generated inputs.

Each runtime contract is a function f(t) registered with @rt(property, n): it
draws an input from t.rng, calls the functions of /repo and states what must
hold of the result (t.eq, t.true, t.raises).  An evaluation is reproducible
from (property, contract name, seed, index), which is what a replay file
stores.  Everything here is labelled bounded and never counted as proved."""
import contextlib
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

import numpy as np

CONTRACTS = {}


class Skip(Exception):
    pass


class Violated(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def rt(prop, n=100, deep=10):
    def deco(f):
        CONTRACTS.setdefault(prop, []).append((f.__name__, f, n, n * deep))
        return f
    return deco


def short(v, k=400):
    s = repr(v)
    return s if len(s) <= k else s[:k] + '...'


class T:
    """One evaluation of a runtime contract."""

    def __init__(self, prop, name, seed, index):
        self.key = (prop, name, seed, index)
        self.rng = np.random.default_rng([seed, zlib.crc32(('%s.%s' % (prop, name)).encode()), index])
        self.index = index
        self.notes = {}
        self.checked = 0
        self._tmp = None

    # -- inputs
    def int(self, lo, hi):
        return int(self.rng.integers(lo, hi + 1))

    def real(self, lo=-5., hi=5.):
        return float(self.rng.uniform(lo, hi))

    def choice(self, xs):
        return xs[int(self.rng.integers(0, len(xs)))]

    def flip(self, p=0.5):
        return bool(self.rng.random() < p)

    def note(self, **kw):
        self.notes.update(kw)

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='pvrt_')
        return self._tmp

    def close(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)

    # -- code under test
    def fn(self, module, attr):
        try:
            m = importlib.import_module(module)
            return getattr(m, attr)
        except (ImportError, AttributeError):
            raise Skip('%s.%s does not exist' % (module, attr))

    # -- contract clauses
    def fail(self, msg):
        raise Violated(msg)

    def true(self, what, cond):
        self.checked += 1
        if not bool(np.all(cond)):
            raise Violated(what)

    def eq(self, what, got, want, rtol=1e-7, atol=1e-9):
        self.checked += 1
        if isinstance(want, (str, bytes, bool, type(None))):
            if not (type(got) == type(want) or isinstance(got, np.bool_)) or got != want:
                raise Violated('%s: got %s, contract says %s' % (what, short(got), short(want)))
            return
        try:
            g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        except (TypeError, ValueError):
            raise Violated('%s: got %s, contract says %s' % (what, short(got), short(want)))
        if g.shape != w.shape or not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True):
            raise Violated('%s: got %s, contract says %s' % (what, short(g.tolist()), short(w.tolist())))

    def same(self, what, got, want):
        self.checked += 1
        if got != want:
            raise Violated('%s: got %s, contract says %s' % (what, short(got), short(want)))

    def raises(self, what, exc, f, *a, **kw):
        self.checked += 1
        try:
            r = f(*a, **kw)
        except exc:
            return
        raise Violated('%s: expected %s, but it returned %s' % (what, getattr(exc, '__name__', exc), short(r)))


def load(prop):
    """Import the modules with runtime contracts."""
    import contracts
    for m in contracts.RT_MODULES:
        importlib.import_module('contracts.' + m)
    return CONTRACTS.get(prop, [])


def _alarm(*a):
    raise CaseTimeout()


def run_case(prop, name, f, seed, index, limit=30):
    """-> (status, message, notes): status ok|skip|violation."""
    t = T(prop, name, seed, index)
    old = os.getcwd()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                f(t)
        signal.alarm(0)
        return ('ok' if t.checked else 'skip'), '', t.notes
    except Skip as e:
        return 'skip', str(e), t.notes
    except Violated as e:
        return 'violation', str(e), t.notes
    except CaseTimeout:
        return 'violation', 'no result within %d s' % limit, t.notes
    except (KeyboardInterrupt,):
        raise
    except BaseException as e:
        tb = traceback.format_exc()
        return 'violation', 'unexpected %s: %s\n%s' % (type(e).__name__, short(str(e)), tb[-1500:]), t.notes
    finally:
        signal.alarm(0)
        os.chdir(old)
        t.close()
        try:
            import matplotlib.pyplot as plt
            plt.close('all')
        except Exception:
            pass


def worker(prop, seed, budget, deep, out):
    cs = load(prop)
    t0 = time.time()
    res = {'evaluations': 0, 'skipped': 0, 'contracts': {}, 'violation': None, 'done': False, 'samples': []}
    idx = {c[0]: 0 for c in cs}
    live = list(cs)
    last = 0

    def save():
        tmp = out + '.tmp'
        with open(tmp, 'w') as fp:
            json.dump(res, fp, default=repr)
        os.replace(tmp, out)
    while live and time.time() - t0 < budget:
        for c in list(live):
            name, f, n, dn = c
            i = idx[name]
            if i >= (dn if deep else n):
                live.remove(c)
                continue
            idx[name] += 1
            res['current'] = [name, i]
            if time.time() - last > 0.5 or i == 0:
                save()
                last = time.time()
            st, msg, notes = run_case(prop, name, f, seed, i)
            e = res['contracts'].setdefault(name, {'ok': 0, 'skip': 0})
            if st == 'violation':
                res['violation'] = {'contract': name, 'index': i, 'seed': seed, 'message': msg,
                                    'input': {k: short(v, 4000) for k, v in notes.items()}}
                save()
                return
            e[st] += 1
            if st == 'ok':
                res['evaluations'] += 1
                if i == 0:
                    res['samples'].append({'contract': name, 'input': {k: short(v, 300) for k, v in notes.items()}})
            else:
                res['skipped'] += 1
                e['why'] = msg
            if time.time() - t0 > budget:
                break
    res['done'] = True
    save()


def replay(path):
    with open(path) as fp:
        d = json.load(fp)
    for name, f, _, _ in load(d['property']):
        if name == d['contract']:
            st, msg, notes = run_case(d['property'], name, f, d['seed'], d['index'])
            print(st, msg)
            for k, v in notes.items():
                print('  %s = %s' % (k, short(v, 2000)))
            return 1 if st == 'violation' else 0
    print('no such runtime contract')
    return 2


def main(argv):
    if argv[0] == 'replay':
        return replay(argv[1])
    prop, seed, budget, deep, out = argv[0], int(argv[1]), float(argv[2]), argv[3] == '1', argv[4]
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 1)
    if not os.environ.get('PV_DEBUG'):
        os.dup2(dn, 2)
    os.dup2(dn, 0)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (200 << 20, 200 << 20))
    d = tempfile.mkdtemp(prefix='pvcwd_')
    os.chdir(d)
    try:
        worker(prop, seed, budget, deep, out)
    finally:
        os.chdir('/')
        shutil.rmtree(d, ignore_errors=True)
    return 0


if __name__ == '__main__':
    from pv import rt as _rt
    sys.exit(_rt.main(sys.argv[1:]))
