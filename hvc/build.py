"""Scratch build of /repo's current working tree (never inside /repo): overlay without sqlite_orm, generated header,
library objects and harness with sanitizers. Everything is rebuilt on every run."""
import glob
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('HVC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HDRS = 'algorithm functional iomanip map memory optional set sstream string tuple unordered_map unordered_set vector'.split()
CXX = 'clang++-18'
SLOW = ('src/db.cc', 'src/server.cc', 'src/symbol.cc')   # optimising these takes longer than it saves


class Build:
    def __init__(self, tmp):
        self.tmp = tmp
        self.ov = os.path.join(tmp, 'overlay')
        self.err = None

    def prepare(self):
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'tools', 'overlay.py'), REPO, self.ov],
                           capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError('overlay: ' + (p.stderr or p.stdout))
        g = os.path.join(self.tmp, 'gen')
        os.makedirs(g, exist_ok=True)
        js = open(os.path.join(REPO, 'include', 'schema.json')).read()
        t = open(os.path.join(REPO, 'src', 'jschema.hh.in')).read()
        t = re.sub(r'\$\{JSON_SCHEMA\}|@JSON_SCHEMA@', lambda m: js, t)
        open(os.path.join(g, 'jschema.hh'), 'w').write(t)
        self.flags = ['-std=c++20', '-DFMT_CONSTEVAL=', '-DPERF_COUNT', '-DASIO_STANDALONE',
                      '-I' + os.path.join(self.ov, 'include'), '-I' + os.path.join(self.ov, 'src'),
                      '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'tools'),
                      '-I/usr/share/verilator/include/vltstd', '-I' + g]
        for h in HDRS:
            self.flags += ['-include', h]

    def src(self, rel):
        p = os.path.join(self.ov, rel)
        return p if os.path.exists(p) else os.path.join(REPO, rel)

    def sources(self):
        """the library's own list of sources"""
        t = open(os.path.join(REPO, 'src', 'CMakeLists.txt')).read()
        m = re.search(r'add_library\(hgdb SHARED([^)]*)\)', t)
        names = m.group(1).split() if m else [os.path.basename(f) for f in glob.glob(REPO + '/src/*.cc')]
        return ['src/' + n for n in names]

    def harness(self, main, only=None, extra=(), exclude=(), san='address,undefined', opt='-O1'):
        """-> path of the binary, or raises"""
        obj = os.path.join(self.tmp, 'obj')
        os.makedirs(obj, exist_ok=True)
        srcs = [(self.src(s), s) for s in (only or self.sources()) if s not in exclude] + [(self.src(s), s) for s in extra]
        srcs.append((os.path.join(VERIF, 'harness', main), 'harness/' + main))
        f = self.flags + ['-I' + os.path.join(VERIF, 'harness'), '-g1', '-fno-omit-frame-pointer', '-w']
        if san:
            f += ['-fsanitize=' + san, '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,function,alignment,pointer-overflow']

        def cc(a):
            o = os.path.join(obj, a[1].replace('/', '_') + '.o')
            o0 = '-O0' if a[1] in SLOW and not only else opt
            p = subprocess.run([CXX] + f + [o0, '-fno-access-control' if a[1].startswith('harness') else '-faccess-control', '-c', a[0], '-o', o], capture_output=True, text=True)
            return o, p
        srcs.sort(key=lambda a: -os.path.getsize(a[0]))
        with ThreadPoolExecutor(8) as tp:
            res = list(tp.map(cc, srcs))
        for o, p in res:
            if p.returncode:
                raise RuntimeError('compile: ' + p.stderr[-3000:])
        out = os.path.join(self.tmp, 'harness')
        p = subprocess.run([CXX] + (['-fsanitize=' + san] if san else []) + [o for o, _ in res] + ['-lfmt', '-lpthread', '-o', out],
                           capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError('link: ' + p.stderr[-3000:])
        return out
