#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough]   decide one property on /repo's current working tree.

The deciding step is hvc: every obligation generated from the current source of the functions under contract has to be
discharged. The harness replays / searches for a concrete failing input against the real code, and stands in (bounded, labelled)
for functions the verifier cannot read."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from hvc import build  # noqa: E402
from registry import PROPS, TRUSTED  # noqa: E402

HSECS = {'quick': 25, 'thorough': 150}


def run_modules(b, p, tier, tmp):
    def one(i_m):
        i, (mod, only) = i_m
        out = os.path.join(tmp, 'm%d.json' % i)
        import importlib
        m = importlib.import_module('contracts.' + mod)
        cmd = [sys.executable, '-m', 'hvc.modrun', mod, b.src(m.SRC), out] + (['-f', ','.join(only)] if only else []) + ['--'] + b.flags
        env = dict(os.environ, HVC_LIMIT='10' if tier == 'quick' else '40', PYTHONDONTWRITEBYTECODE='1')
        try:
            r = subprocess.run(cmd, cwd=VERIF, env=env, capture_output=True, text=True, timeout=600 if tier == 'quick' else 1500)
            return json.load(open(out))
        except subprocess.TimeoutExpired:
            return {'module': mod, 'source': m.SRC, 'functions': [], 'error': 'time limit'}
        except Exception as e:
            return {'module': mod, 'source': m.SRC, 'functions': [], 'error': '%s %s' % (e, r.stderr[-1500:])}
    with ThreadPoolExecutor(3) as tp:
        return list(tp.map(one, enumerate(p.get('modules', []))))


def run_harness(b, p, seed, tier, replay=None):
    res = {'built': False, 'fails': [], 'cases': 0, 'groups': {}, 'log': ''}
    try:
        exe = b.harness(p['harness'], p.get('only'), p.get('extra', ()), p.get('exclude', ()), opt=p.get('opt', '-O1'))
    except Exception as e:
        res['log'] = str(e)[-3000:]
        return res
    res['built'] = True
    secs = p.get('secs', {}).get(tier, HSECS[tier])
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1')
    cmd = [exe, str(seed), str(secs)] + ([str(x) for x in replay] if replay else [])
    errf = open(os.path.join(b.tmp, 'stderr'), 'wb')
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=errf, timeout=secs * 6 + 200, env=env, cwd=b.tmp)
        out = r.stdout.decode('latin1')
        res['rc'] = r.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode('latin1')
        res['rc'] = 'timeout'
    errf.close()
    with open(os.path.join(b.tmp, 'stderr'), 'rb') as f:
        f.seek(0, 2)
        f.seek(max(0, f.tell() - 6000))
        res['log'] = f.read().decode('latin1')
    done = False
    for l in out.split('\n'):
        if l.startswith('FAIL '):
            res['fails'].append(l)
        elif l.startswith('GROUP '):
            w = l.split()
            res['groups'][w[1]] = int(w[3])
        elif l.startswith('SAMPLE '):
            res.setdefault('samples', []).append(l[7:])
        elif l.startswith('DONE '):
            done = True
            res['cases'] = int(l.split()[2])
    res['done'] = done
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay', nargs=2, metavar=('GROUP', 'INDEX'))
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('--no-harness', action='store_true')
    a = ap.parse_args()
    if a.setup:                      # nothing is prebuilt: every check rebuilds from /repo; only look that the tools are there
        import z3
        r = subprocess.run([build.CXX, '--version'], capture_output=True, text=True)
        print('z3 %s; %s' % (z3.get_version_string(), r.stdout.split('\n')[0]))
        return r.returncode
    pid, tier = a.id, a.tier
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    p = PROPS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='hvc_%s_' % pid)
    try:
        b = build.Build(tmp)
        b.prepare()
        with ThreadPoolExecutor(2) as tp:
            fm = tp.submit(run_modules, b, p, tier, tmp) if not a.no_proof else None
            fh = tp.submit(run_harness, b, p, seed, tier, a.replay) if p.get('harness') and not a.no_harness else None
            mods = fm.result() if fm else []
            har = fh.result() if fh else None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return report(pid, p, tier, seed, mods, har, t0)


def baseline():
    """fingerprints of the functions whose every obligation was discharged (tools/baseline.py); a time-out in one of these is the machine's"""
    try:
        return json.load(open(os.path.join(VERIF, 'contracts', 'baseline.json')))
    except FileNotFoundError:
        return {}


def known(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')):
            l = l.strip()
            if l:
                e = json.loads(l)
                if e.get('property') == pid and e.get('status') == 'known':
                    out.append(e)
    except FileNotFoundError:
        pass
    return out


def report(pid, p, tier, seed, mods, har, t0):
    fns = [dict(f, module=m['module'], source=m['source']) for m in mods for f in m['functions']]
    errors = ['%s: %s' % (m['module'], m['error']) for m in mods if m.get('error')]
    obl = sum(f['obligations'] for f in fns)
    dis = sum(f['discharged'] for f in fns)
    failed = [dict(x, fn=f['name'], module=f['module'], source=f['source']) for f in fns for x in f['failed']]
    unsup = [(f['name'], f['unsupported']) for f in fns if f['unsupported']]
    hfail = list(har['fails']) if har else []
    kf = known(pid)
    shown = set()
    left = []
    for l in hfail:
        hit = [e for e in kf if e['match'] in l]
        if hit:
            shown.add(hit[0]['what'])
        else:
            left.append(l)
    for e in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
    hfail = left
    # an obligation that a solver refutes or gives up on at once is a violation; a time-out leaves the function unproved
    hard = [x for x in failed if x['kind'] != 'vacuity' and
            (x['status'] == 'refuted' or any('unknown' in s for s in x['log']) and not all('timeout' in s for s in x['log']))]
    # ... unless the function is not the one that was proved when the contracts were written: then the proof no longer goes through
    base = baseline()
    changed = {(f['module'], f['name']) for f in fns if f['fingerprint'] != base.get(f['module'], {}).get(f['name'])}
    hard += [x for x in failed if x not in hard and x['kind'] != 'vacuity' and (x['module'], x['fn']) in changed]
    soft = [x for x in failed if x not in hard]
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    proved = [f for f in fns if not f['unsupported'] and not f['failed']]
    notproved = [f['name'] for f in fns if f['unsupported'] or f['failed']]
    allproved = bool(fns) and not notproved and not errors
    if har and har['built'] and not har.get('done') and not hfail and har.get('rc') not in (0, 1):
        # died without a report: count as failing input only if it repeats the crash text
        hfail = ['FAIL harness %s 0 | | stopped with %s' % (seed, har.get('rc'))] if har.get('rc') != 'timeout' else []
    violation = bool(hfail or hard)
    backends = {}
    for f in fns:
        for k, v in f['backends'].items():
            backends[k] = backends.get(k, 0) + v
    assumed = sorted({x for f in fns for x in f.get('assumed', [])})
    assumptions = list(p.get('assumptions', [])) + sorted({x for f in fns for x in f.get('assumptions', [])}) + \
        ['assumed contract: ' + x for x in assumed]
    if har:
        assumptions.append('the replay harness explored %d cases (seed %d, bounded, never counted as proved): %s' %
                           (har['cases'], seed, p.get('bound', '')))
    cov = {'obligations': obl, 'discharged': dis,
           'checker_cmd': './check.py %s --tier %s' % (pid, tier),
           'trusted_base': TRUSTED + ['assumed contract: ' + x for x in assumed],
           'functions_under_contract': [{'function': f['name'], 'module': f['module'], 'fingerprint': f['fingerprint'], 'file': f['source'], 'line': f['line'], 'obligations': f['obligations'],
                                         'discharged': f['discharged'], 'kinds': f['kinds'], 'backends': f['backends'], 'solver_s': f['solver_s'],
                                         'read_in_place': f['inlined'], 'callees_by_contract': f.get('callees', []),
                                         'not_proved': f['unsupported'] or [x['id'] for x in f['failed']] or None} for f in fns],
           'backends': backends, 'solver_s': round(sum(f['solver_s'] for f in fns), 2),
           'bounded_only': p.get('bounded', []),
           'bounded_harness': None if not har else {'cases': har['cases'], 'groups': har['groups'], 'built': har['built'], 'failures': len(hfail)}}
    if not allproved:
        cov['explanation'] = 'not every function under contract was proved on this tree: %s; those rest on the bounded harness' % (notproved + errors)
        if har:
            cov['evaluations'] = har['cases']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof' if allproved else 'other', 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0}
    json.dump(ev, open(os.path.join(evd, pid + '.json'), 'w'), indent=1)
    print('%s: %d functions under contract, %d of %d obligations discharged; harness %s cases; %.0f s' %
          (pid, len(fns), dis, obl, har['cases'] if har else 'none', time.time() - t0))
    for n, u in unsup:
        print('  outside the verifier on this tree: %s (%s)' % (n, str(u).replace('\n', ' ')[:300]))
    for e in errors:
        print('  ' + e.replace('\n', ' ')[:500])
    for x in soft:
        print('  not decided: %s line %s %s' % (x['id'], x['line'], x['log']))
    if har and not har['built']:
        print('  harness does not build on this tree: ' + har['log'][-600:].replace('\n', ' '))
    if not violation:
        return 0
    rp = os.path.join(evd, 'replay_%s.txt' % pid)
    with open(rp, 'w') as f:
        for l in hfail:
            f.write(l + '\n')
            w = l.split()
            f.write('  replay: VERIF_SEED=%s ./check.py %s --no-proof --replay %s %s\n' % (w[2] if len(w) > 3 else seed, pid, w[1], w[3] if len(w) > 3 else 0))
        if har and hfail:
            f.write('\nstderr of the run:\n' + har['log'] + '\n')
        for x in hard + soft:
            f.write('\nfailed obligation %s\n  %s line %s (%s) %s %s\n  path %s\n  goal %s\n  %s\n' %
                    (x['id'], x['source'], x['line'], x['kind'], x['status'], x['log'], x['path'], x['goal'], x['model']))
    for l in hfail[:3]:
        print('  ' + l[:600])
    for x in hard[:6]:
        print('  failed obligation: %s (%s line %s) %s' % (x['id'], x['source'], x['line'], x['log']))
    print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if hfail else ' no-failing-input-found'))
    return 1


if __name__ == '__main__':
    sys.exit(main())
