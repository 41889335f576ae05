"""Discharging: z3 (new), cvc5, z3 4.8 on the SMT-LIB text of each obligation."""
import os, subprocess, tempfile, time, z3, re
from concurrent.futures import ThreadPoolExecutor

BACK = [('z3-5.3', ['z3-new', '-T:%d']), ('cvc5-1.1.2', ['cvc5', '--tlimit=%d000', '--lang=smt2']),
        ('z3-4.8.12', ['z3', '-T:%d'])]


def smt2(axioms, hyps, goal, want_model=False):
    s = z3.Solver()
    for a in axioms:
        s.add(a)
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    txt = s.to_smt2()
    return txt


def run(cmd, txt, limit):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        p = f.name
    t = time.time()
    try:
        c = [x % limit if '%d' in x else x for x in cmd]
        r = subprocess.run(c + [p], capture_output=True, text=True, timeout=limit + 5)
        out = r.stdout.strip()
    except subprocess.TimeoutExpired:
        out = 'timeout'
    finally:
        os.unlink(p)
    first = out.split('\n')[0].strip() if out else 'none'
    if first not in ('sat', 'unsat', 'unknown', 'timeout'):
        first = 'error' if 'error' in out else ('timeout' if 'timeout' in out or 'interrupted' in out else 'unknown')
    t = time.time() - t
    if first == 'unknown' and t > 0.9 * limit:
        first = 'timeout'
    return first, t, out


def discharge(txt, limit=10, n=3):
    """-> (status, backend, seconds, log)   status: discharged | refuted | undecided"""
    log = []
    refuted = None
    total = 0
    for name, cmd in BACK[:n]:
        st, t, out = run(cmd, txt, limit)
        total += t
        log.append('%s: %s (%.2fs)' % (name, st, t))
        if st == 'unsat':
            return 'discharged', name, total, log
        if st == 'sat':
            refuted = name
            return 'refuted', name, total, log
    return 'undecided', None, total, log


def model_text(txt, limit=10):
    t = txt.replace('(check-sat)', '(check-sat)\n(get-model)')
    st, tm, out = run(BACK[0][1], t, limit)
    return out if st == 'sat' else ''
