#!/usr/bin/env python3
"""fills the generated tables of DESIGN.md (functions per property, seeds) from contracts/baseline.json and seeded/; run by hand"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import registry
base = json.load(open(os.path.join(V, 'contracts/baseline.json')))
caught = json.load(open(os.path.join(V, 'tools/caught.json')))


def functions():
    out = ['| property | functions under contract | bounded only |', '|---|---|---|']
    for pid, p in registry.PROPS.items():
        n = 0
        for m, filt in p['modules']:
            n += sum(1 for f in base.get(m, {}) if filt is None or any(x in f for x in filt))
        out.append('| %s | %d (%s) | %s |' % (pid, n, ', '.join(m for m, _ in p['modules']), '; '.join(p['bounded']) or 'none'))
    return '\n'.join(out)


def seeds():
    out = ['| seed | property | what breaks | needs | caught by |', '|---|---|---|---|---|']
    for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
        m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
        out.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'].replace('|', '\\|'), m['needs'].replace('|', '\\|'), caught.get(s, 'not run')))
    return '\n'.join(out)


p = os.path.join(V, 'DESIGN.md')
t = open(p).read()
for k, f in (('FUNCTIONS', functions), ('SEEDS', seeds)):
    t = re.sub(r'(<!-- %s -->\n).*?(\n<!-- /%s -->)' % (k, k), lambda m: m.group(1) + f() + m.group(2), t, flags=re.S)
open(p, 'w').write(t)
