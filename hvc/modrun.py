"""python3-vt -m hvc.modrun MODULE SRCPATH OUT.json [-f name[,name]] -- FLAGS: verify the contracts of one module."""
import importlib
import json
import sys
import time
from concurrent.futures import ThreadPoolExecutor

import z3

from . import cast, contract, solve


def main():
    a = sys.argv[1:]
    i = a.index('--')
    flags = a[i + 1:]
    mod, src, out = a[:3]
    only = a[4].split(',') if len(a[:i]) > 4 and a[3] == '-f' else None
    limit = int(__import__('os').environ.get('HVC_LIMIT', '10'))
    m = importlib.import_module('contracts.' + mod)
    t0 = time.time()
    doc = {'module': mod, 'source': m.SRC, 'functions': []}
    try:
        tu = cast.load_tu(src, flags, getattr(m, 'FILTER', 'hgdb'))
    except Exception as e:
        doc['error'] = 'front end: %s' % str(e)[-800:]
        json.dump(doc, open(out, 'w'))
        return
    doc['ast_s'] = round(time.time() - t0, 2)
    specs = {}
    for c in list(m.CONTRACTS) + list(m.SPECS):
        specs[c.name] = c
    specs.update(getattr(m, 'HOOKS', {}))
    spare = 150
    for c in m.CONTRACTS:
        if only and not any(o in c.name for o in only):
            continue
        t = time.time()
        r = contract.verify(tu, c, specs, getattr(c, 'mode', m.MODE), getattr(m, 'OPAQUE', ()))
        f = {'name': c.name, 'line': r.line, 'unsupported': r.unsupported, 'obligations': 0, 'discharged': 0, 'failed': [],
             'backends': {}, 'solver_s': 0.0, 'inlined': sorted(r.inlined), 'kinds': {}, 'fingerprint': r.fingerprint}
        doc['functions'].append(f)
        if r.unsupported:
            continue
        ex = r.ex
        cache = {}
        todo = [o for o in r.obls if not o.status]
        for o in todo:
            o.txt = solve.smt2(ex.axioms, o.hyps, o.goal)
            cache.setdefault(o.txt, None)
        ks = list(cache)
        with ThreadPoolExecutor(8) as tp:
            for k, v in zip(ks, tp.map(lambda x: solve.discharge(x, limit), ks)):
                cache[k] = v
            # a slow machine is no verdict: what ran into the limit gets more time, while the module has any left
            late = [k for k in ks if cache[k][0] == 'undecided' and any('timeout' in x for x in cache[k][3])]
            if late and len(late) <= 16 and spare > 0:
                t1 = time.time()
                for k, v in zip(late, tp.map(lambda x: solve.discharge(x, 4 * limit, 2), late)):
                    if v[0] != 'undecided':
                        cache[k] = v
                spare -= time.time() - t1
        f['obligations'] = len(r.obls)
        for o in r.obls:
            f['kinds'][o.kind] = f['kinds'].get(o.kind, 0) + 1
            if o.status == 'discharged':
                f['discharged'] += 1
                f['backends']['simplifier'] = f['backends'].get('simplifier', 0) + 1
                continue
            if not o.status:
                o.status, o.backend, o.time, o.log = cache[o.txt]
            if o.status == 'discharged':
                f['discharged'] += 1
                f['backends'][o.backend] = f['backends'].get(o.backend, 0) + 1
            else:
                model = solve.model_text(o.txt, 10)[:6000] if o.status == 'refuted' and len(f['failed']) < 3 else ''
                f['failed'].append({'id': o.id, 'line': o.line, 'kind': o.kind, 'status': o.status,
                                    'log': getattr(o, 'log', []), 'path': [str(x) for x in o.path[-12:]], 'model': model,
                                    'goal': str(o.goal)[:1500]})
        f['solver_s'] = round(sum(v[2] for v in cache.values()), 2)
        # vacuity: some exit of the function is reachable under its precondition
        live = 0
        for pc in r.covers[:40]:
            s = z3.Solver()
            s.set('timeout', 1000)
            s.add(*ex.axioms)
            s.add(*pc)
            if s.check() != z3.unsat:
                live += 1
                if live > 3:
                    break
        f['live_exits'] = live
        if not live or not r.obls:
            f['failed'].append({'id': c.name + '/vacuous', 'line': r.line, 'kind': 'vacuity', 'status': 'undecided', 'log': [],
                                'path': [], 'model': '', 'goal': 'some exit is reachable'})
        f['assumed'] = sorted('%s (%s)' % (u, specs[u].kind) for u in r.used if u in specs and getattr(specs[u], 'kind', '') == 'assumed')
        f['callees'] = sorted(u for u in r.used if u in specs and getattr(specs[u], 'kind', '') == 'verified')
        f['assumptions'] = sorted(str(x) for x in r.assumptions)
        f['wall_s'] = round(time.time() - t, 2)
    json.dump(doc, open(out, 'w'))


if __name__ == '__main__':
    main()
