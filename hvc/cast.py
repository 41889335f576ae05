"""Clang AST (JSON) loading: the verified text is /repo's current source as clang
parses it with the project's own flags.  Nothing is copied by hand."""
import json, os, subprocess, re

WRAP = ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'ParenExpr', 'CXXBindTemporaryExpr',
        'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'FullExpr')


def parse_docs(s):
    d = json.JSONDecoder()
    i = 0
    out = []
    n = len(s)
    while True:
        while i < n and s[i] in ' \n\r\t':
            i += 1
        if i >= n:
            break
        if s[i] != '{':
            j = s.find('\n{', i)
            if j < 0:
                break
            i = j + 1
            continue
        o, i = d.raw_decode(s, i)
        out.append(o)
    return out


class TU:
    """One translation unit.  funcs: qualified name -> list of definitions."""

    def __init__(self, docs):
        self.byid = {}
        self.qname = {}       # decl id -> qualified name
        self.funcs = {}       # qname -> [nodes with bodies]
        self.records = {}     # qname -> node (complete definition)
        self.enums = {}       # enumerator decl id -> (value)
        self.enumty = {}      # enum qname -> {name: value}
        self.defof = {}       # decl id -> definition node
        self.typedefs = {}
        self.tmpldefaults = {}    # class template -> default values of its value parameters
        for d in docs:
            self._ids(d)
        for d in docs:
            self._walk(d, '')
        self._link()

    def _ids(self, n):
        stack = [n]
        while stack:
            n = stack.pop()
            if 'id' in n and 'kind' in n:
                k = n['kind']
                if k.endswith('Decl') or k.endswith('Specialization') or 'Decl' in k:
                    self.byid.setdefault(n['id'], n)
            for c in n.get('inner', ()):
                if isinstance(c, dict):
                    stack.append(c)

    def _walk(self, n, pre):
        k = n.get('kind')
        nm = n.get('name')
        if k == 'NamespaceDecl':
            q = pre + (nm + '::' if nm else '')
            for c in n.get('inner', ()):
                self._walk(c, q)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            q = pre + (nm or '(anon)')
            if k == 'ClassTemplateSpecializationDecl':
                ta = [c.get('value') for c in n.get('inner', ()) if c.get('kind') == 'TemplateArgument']
                if ta and all(isinstance(v, int) for v in ta):     # a class per set of values
                    q += '<%s>' % ', '.join(str(abs(v)) for v in ta)
            self.qname[n['id']] = q
            if n.get('completeDefinition') or any(c.get('kind') == 'FieldDecl' for c in n.get('inner', ())):
                self.records.setdefault(q, n)
                self.records[q] = n
            for c in n.get('inner', ()):
                self._walk(c, q + '::')
        elif k == 'ClassTemplateDecl':
            ds = [self._constval(c) for c in n.get('inner', ()) if c.get('kind') == 'NonTypeTemplateParmDecl']
            self.tmpldefaults[pre + (nm or '')] = ds
            for c in n.get('inner', ()):
                if c.get('kind') in ('ClassTemplateSpecializationDecl',):
                    self._walk(c, pre)
        elif k == 'EnumDecl':
            q = pre + (nm or '(anon)')
            self.qname[n['id']] = q
            val = -1
            tab = {}
            for c in n.get('inner', ()):
                if c.get('kind') == 'EnumConstantDecl':
                    v = None
                    for e in c.get('inner', ()):
                        v = self._constval(e)
                    val = v if v is not None else val + 1
                    self.enums[c['id']] = val
                    tab[c['name']] = val
                    self.qname[c['id']] = q + '::' + c['name']
            if tab:
                self.enumty[q] = tab
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl',
                   'CXXConversionDecl'):
            self._func(n, pre)
        elif k == 'FunctionTemplateDecl':
            for c in n.get('inner', ()):
                if c.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                    self._func(c, pre, tmpl=True)
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            self.typedefs[pre + (nm or '')] = n.get('type', {})
        elif k == 'LinkageSpecDecl':
            for c in n.get('inner', ()):
                self._walk(c, pre)

    def _constval(self, e):
        if e.get('kind') == 'ConstantExpr' and 'value' in e:
            return int(e['value'])
        if e.get('kind') == 'IntegerLiteral':
            return int(e['value'])
        if e.get('kind') == 'CXXBoolLiteralExpr':
            return int(e['value'])
        for c in e.get('inner', ()):
            v = self._constval(c)
            if v is not None:
                return v
        return None

    def _func(self, n, pre, tmpl=False):
        p = n.get('parentDeclContextId')
        if p and p in self.byid:
            par = self.byid[p]
            q = self.qname.get(p)
            if q:
                pre = q + '::'
        q = pre + n.get('name', '(anon)')
        self.qname[n['id']] = q
        if any(c.get('kind') == 'CompoundStmt' or c.get('kind') == 'CXXTryStmt' for c in n.get('inner', ())):
            self.funcs.setdefault(q, []).append(n)

    def _link(self):
        for q, fs in self.funcs.items():
            for f in fs:
                cur = f
                seen = 0
                self.defof[f['id']] = f
                while cur is not None and 'previousDecl' in cur and seen < 20:
                    pid = cur['previousDecl']
                    self.defof[pid] = f
                    self.qname.setdefault(pid, q)
                    cur = self.byid.get(pid)
                    seen += 1

    def supers(self, rec):
        """base classes of rec, nearest first (of class templates: the specialisation)"""
        out = []
        for b in (self.records.get(rec) or {}).get('bases', ()):
            t = b['type'].get('desugaredQualType', b['type'].get('qualType', ''))
            m = re.match(r'^(?:class |struct )?([\w:]+)(?:<(.*)>)?$', t.strip())
            if not m:
                continue
            name, ta = m.group(1), m.group(2)
            if ta is None:
                c = [q for q in self.records if q == name or q.endswith('::' + name)]
            else:
                v = [{'true': 1, 'false': 0}.get(x.strip(), x.strip()) for x in ta.split(',') if x.strip()]
                c = []
                for q, ds in self.tmpldefaults.items():
                    if q == name or q.endswith('::' + name):
                        k = '%s<%s>' % (q, ', '.join(str(x) for x in v + ds[len(v):]))
                        c += [k] if k in self.records else []
            for q in c[:1]:
                out += [q] + self.supers(q)
        return out

    def override(self, cls, f):
        """the function a virtual call of f on an object of class cls runs"""
        norm = lambda t: re.sub(r'\w+::', '', t.get('desugaredQualType', t.get('qualType', ''))).replace(' ', '')
        sig = [norm(p['type']) for p in self.params(f)]
        for c in [cls] + self.supers(cls):
            for g in self.funcs.get(c + '::' + f['name'], []):
                if [norm(p['type']) for p in self.params(g)] == sig and self.body(g) is not None:
                    return c + '::' + f['name'], g
        return None

    def body(self, f):
        for c in f.get('inner', ()):
            if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                return c
        return None

    def params(self, f):
        return [c for c in f.get('inner', ()) if c.get('kind') == 'ParmVarDecl']

    def find(self, qname, nparams=None, sig=None):
        """Definition of qname; sig is a substring of its function type."""
        c = []
        for f in self.funcs.get(qname, []):
            if nparams is not None and len(self.params(f)) != nparams:
                continue
            if sig is not None and sig not in f['type']['qualType']:
                continue
            c.append(f)
        return c


def unwrap(n):
    while n.get('kind') in WRAP and n.get('inner'):
        n = n['inner'][0]
    return n


def line_of(n):
    for key in ('range', 'loc'):
        r = n.get(key)
        if not r:
            continue
        b = r.get('begin', r)
        for k in ('expansionLoc', 'spellingLoc'):
            if k in b and 'line' in b[k]:
                return b[k]['line']
        if 'line' in b:
            return b['line']
    return None


def fill_lines(doc):
    """clang omits 'line'/'file' when unchanged; restore them (document order)."""
    cur = {'line': None, 'file': None}

    def go(o):
        if isinstance(o, dict):
            if 'offset' in o:
                if 'file' in o:
                    cur['file'] = o['file']
                if 'line' in o:
                    cur['line'] = o['line']
                else:
                    o['line'] = cur['line']
                o.setdefault('file', cur['file'])
            for k, v in list(o.items()):
                if isinstance(v, (dict, list)):
                    go(v)
        elif isinstance(o, list):
            for v in o:
                go(v)
    import sys
    sys.setrecursionlimit(100000)
    go(doc)


def load_tu(src, flags, filt='hgdb'):
    cmd = ['clang++-18'] + flags + ['-fsyntax-only', '-w', '-Xclang', '-ast-dump=json',
                                    '-Xclang', '-ast-dump-filter=' + filt, src]
    p = subprocess.run(cmd, capture_output=True, text=True)
    docs = parse_docs(p.stdout)
    if not docs:
        raise RuntimeError('clang produced no AST for %s: %s' % (src, p.stderr[-2000:]))
    for d in docs:
        fill_lines(d)
    tu = TU(docs)
    tu.src = src
    return tu
