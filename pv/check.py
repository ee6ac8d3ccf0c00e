"""The check of one property: python -m pv.check C07 [--tier quick|thorough].

Runs the deductive verifier (pv.run) and the runtime contracts (pv.rt) on the
current tree of /repo in separate processes, writes evidence/<id>.json and, for
a violation, a replay file, and decides the exit code:

  exit 1  a runtime contract fails on a concrete input (replay file holds the
          input and the obligations that are not discharged), or the solver
          answers an obligation with a counterexample (candidate) and the
          search for a failing input, which then runs longer, finds none
          (no-failing-input-found)
  exit 0  otherwise; obligations that are merely undecided (the verifier does
          not support a construct, or the solver gave up) are reported as such
  exit 2  neither engine produced a result"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FINDINGS = os.path.join(VERIF, 'known_findings.txt')

COMMON_ASSUMPTIONS = [
    'floating-point arithmetic is treated as exact real arithmetic and integers as unbounded in every deductive obligation; the runtime contracts execute the real machine arithmetic',
    'the numpy, os and library models in /verif/pv/npmodel.py are trusted contracts on dependencies',
    'termination is not proved: obligations are partial correctness',
    'single-threaded execution; no other process changes the files in use',
]


def env():
    e = dict(os.environ)
    e.update(MPLBACKEND='Agg', MPLCONFIGDIR='/opt/mplconfig', PYTHONDONTWRITEBYTECODE='1',
             PYTHONHASHSEED='0', PYTHONPATH=VERIF, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    return e


def known(prop):
    out = []
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as fp:
            for line in fp:
                line = line.strip()
                if line.startswith('known: property=%s ' % prop):
                    out.append(line[len('known: property=%s ' % prop):])
    return out


def finish(proc, deadline):
    try:
        proc.wait(max(0.1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        proc.kill()
        proc.wait()
        return False
    return True


def read(path):
    try:
        with open(path) as fp:
            return json.load(fp)
    except (OSError, ValueError):
        return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args(argv)
    prop, tier = a.prop, ('thorough' if a.tier == 'thorough' else 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    quick = tier == 'quick'
    p_budget, r_budget = (240, 45) if quick else (700, 500)
    tmp = tempfile.mkdtemp(prefix='pvcheck_')
    sys.path.insert(0, VERIF)
    from contracts import levels
    info = levels.LEVELS[prop]
    try:
        pout, rout = os.path.join(tmp, 'p.json'), os.path.join(tmp, 'r.json')
        plog = open(os.path.join(tmp, 'p.log'), 'wb')
        dn = subprocess.DEVNULL
        pp = subprocess.Popen([PY, '-W', 'ignore', '-m', 'pv.run', prop, str(p_budget), pout], cwd=tmp, env=env(),
                              stdin=dn, stdout=plog, stderr=plog) if info.get('proof') else None
        rp = subprocess.Popen([PY, '-W', 'ignore', '-m', 'pv.rt', prop, str(seed), str(r_budget), '0' if quick else '1', rout],
                              cwd=tmp, env=env(), stdin=dn, stdout=dn, stderr=dn) if info.get('rt', True) else None
        if rp:
            finish(rp, t0 + r_budget + 60)
        if pp:
            finish(pp, t0 + p_budget + 60)
        r = read(rout) if rp else None
        p = read(pout) if pp else None
        if rp and r and not r.get('violation') and any(o['status'] != 'proved' for o in (p or {}).get('obligations', [])):
            # an obligation is not discharged: search longer for a failing input
            x_budget = max(20, min(300 if quick else 150, t0 + 780 - time.time() - 60))
            rout2 = os.path.join(tmp, 'r2.json')
            rp2 = subprocess.Popen([PY, '-W', 'ignore', '-m', 'pv.rt', prop, str(seed + 1000003), str(x_budget), '1', rout2],
                                   cwd=tmp, env=env(), stdin=dn, stdout=dn, stderr=dn)
            finish(rp2, time.time() + x_budget + 40)
            r2 = read(rout2)
            if r2 and r2.get('evaluations'):
                r2['evaluations'] += r.get('evaluations', 0)
                r = r2
        return report(prop, tier, seed, t0, info, p, r, bool(pp), bool(rp), os.path.join(tmp, 'p.log'))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def failed(o):
    """The solver answered the obligation with a counterexample."""
    return o['status'] == 'refuted' or o['status'] == 'unknown' and '; candidate ' in o.get('why', '')


def report(prop, tier, seed, t0, info, p, r, had_p, had_r, plog):
    obs = (p or {}).get('obligations', [])
    proved = [o for o in obs if o['status'] == 'proved']
    refuted = [o for o in obs if failed(o)]
    open_ = [o for o in obs if o['status'] != 'proved' and not failed(o)]
    log = ''
    if had_p and (p is None or not p.get('done')):
        with open(plog, errors='replace') as fp:
            log = fp.read()[-1500:]
    viol = None
    if r and r.get('violation'):
        viol = dict(r['violation'], property=prop)
    elif r and not r.get('done') and r.get('current') and r.get('evaluations', 0) == 0 and not obs:
        viol = None
    cov = {
        'obligations': len(obs), 'discharged': len(proved),
        'checker_cmd': '%s -m pv.run %s 240 OUT.json (from /verif, PYTHONPATH=/verif)' % (PY, prop),
        'trusted_base': ['pv (/verif/pv: interpreter, numpy models, loop and sum rules)', 'z3 %s' % (p or {}).get('z3', '5.x'),
                         'CPython ast'] + (p or {}).get('trusted', []),
        'refuted': [o['name'] for o in refuted],
        'undecided': [{'name': o['name'], 'why': o.get('why', '')[:300]} for o in open_],
        'obligations_by_backend': (p or {}).get('backends', {}),
        'solver_seconds': (p or {}).get('solver_s', 0.0),
        'functions_under_contract': (p or {}).get('functions', []),
        'obligation_list': [{'name': o['name'], 'function': o.get('function'), 'status': o['status'],
                             'backend': o.get('backend'), 's': round(o.get('s', 0), 3), 'paths': o.get('paths', 1)} for o in obs],
        'vacuity': (p or {}).get('vacuity', {}),
        'proof_completed': bool(p and p.get('done')),
        'bounded': info.get('bounded', []),
        'evaluations': (r or {}).get('evaluations', 0),
        'distinct_nontrivial': (r or {}).get('evaluations', 0),
        'rule': 'bounded stand-in, never counted as proved: runtime contracts evaluated on the real functions for inputs drawn '
                'from (seed, contract, index), every index distinct; an evaluation is non-trivial if it reached at least one '
                'contract clause (skipped draws are not counted)',
        'samples': (r or {}).get('samples', [])[:6],
        'runtime_contracts': (r or {}).get('contracts', {}),
        'explanation': info['note'],
    }
    if log:
        cov['verifier_log_tail'] = log
    nviol = 0
    lines = []
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', 'replay', prop + '.json')
    if os.path.exists(path):
        os.remove(path)
    findings = known(prop)
    if viol or refuted:
        d = {'property': prop, 'failed_obligations': [{k: o.get(k) for k in ('name', 'function', 'status', 'why', 'model')}
                                                      for o in refuted + open_]}
        tail = ''
        if viol:
            d.update(viol)
            d['replay_with'] = 'PYTHONPATH=/verif %s -m pv.rt replay %s' % (PY, path)
        else:
            d['verifier_output'] = [o.get('why', '') for o in refuted]
            tail = ' no-failing-input-found'
        with open(path, 'w') as fp:
            json.dump(d, fp, indent=1, default=repr)
        key = (viol or {}).get('contract', ''), (viol or {}).get('message', '')
        listed = [f for f in findings if viol and f.split(' ')[0] == 'contract=' + key[0] and f.split('message=')[-1] in key[1]]
        if not listed:
            nviol = 1
            if viol:
                lines.append('runtime contract %s fails: %s' % (viol['contract'], viol['message'][:600]))
            for o in refuted + open_:
                lines.append('obligation %s: %s %s' % (o['name'], o['status'], o.get('why', '')[:300]))
            lines.append('VIOLATION property=%s replay=%s%s' % (prop, path, tail))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': info['level'], 'coverage': cov,
          'assumptions': COMMON_ASSUMPTIONS + info.get('assumptions', []) + (p or {}).get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1, default=repr)
    for f in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, f))
    for l in lines:
        print(l)
    if nviol:
        return 1
    if had_p:
        print('%s: %d obligations, %d discharged, %d undecided%s; functions: %s' % (
            prop, len(obs), len(proved), len(open_), '' if p and p.get('done') else ' (verifier did not finish)',
            ', '.join((p or {}).get('functions', []))))
        for o in open_:
            print('  undecided %s: %s' % (o['name'], o.get('why', '')[:200]))
    if had_r:
        print('%s: bounded stand-in: %d evaluations of %d runtime contracts%s' % (
            prop, cov['evaluations'], len(cov['runtime_contracts']), '' if r and r.get('done') else ' (stopped at its time limit)'))
    if (had_r and not cov['evaluations'] or not had_r) and not proved:
        print('%s: no result' % prop)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
