"""Contracts and their verification / application."""
import hashlib
import re

import z3
from . import types as T
from .sym import *
from .sym import PairView
from .interp import Interp, Out
from .cast import line_of


class Cx:
    """view of one call: .st current state, .old entry state, .this, .args, .ret"""

    def __init__(self, ex, st, old, this, args, ret=None, names=()):
        self.ex, self.st, self.old, self.this, self.args, self.ret = ex, st, old, this, args, ret
        self.names = names

    def at_old(self):
        return Cx(self.ex, self.old, self.old, self.this, self.args, self.ret, self.names)

    @property
    def thisref(self):
        if isinstance(self.this, HeapObj):
            return self.this.ref
        raise Unsupported('this is not a heap object')

    def fld(self, ref, own, f, st=None):
        ex = self.ex
        ty = ex.fieldty(own, f)
        for o, nme, t in ex.fields(own):
            if nme == f:
                own = o
        return z3.Select(ex.heap(st or self.st, own + '.' + f, ty), ref)

    def my(self, f, st=None):
        return self.fld(self.thisref, self.this.ty[1], f, st)

    def arg(self, i, st=None):
        a = self.args[i]
        if isinstance(a, Val):
            return a.t
        if isinstance(a, Place):
            return a.get(self.ex, st or self.st)
        r = self.ex.rv(st or self.st, a)
        if isinstance(r, Val):
            return r.t
        raise Unsupported('argument %d' % i)

    # containers
    def len(self, v):
        return self.ex.acc(v, 0)

    def el(self, v, i):
        return z3.Select(self.ex.acc(v, 1), i)

    def has(self, v, k=None):
        """optional has value / map, set contains key"""
        a = self.ex.acc(v, 0)
        return a if k is None else z3.Select(a, k)

    def val(self, v, k=None):
        a = self.ex.acc(v, 1)
        return a if k is None else z3.Select(a, k)


class Loop:
    def __init__(self, inv, decr=None, hint=None, finite=False):
        self.inv = inv
        self.finite = finite
        if decr:
            self.decr = decr
        if hint:
            self.hint = hint


class Contract:
    """subclass or instantiate; kind: verified | assumed"""
    kind = 'verified'
    name = None            # qualified C++ name, optional @signature substring
    loops = ()
    may_throw = False
    nparams = None
    retty = None
    sig = None
    dyn = None             # exact class of the object, for functions inherited from a base class
    notes = ()             # what this contract leaves to its callers unchecked

    def mkarg(self, ex, st, name, ty, i):
        """value of a parameter that is not a term (an iterator), or None"""
        return None

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def pre(self, cx):
        return []

    def post(self, cx):
        return []

    def modifies(self, cx):
        return []

    # -- call site: the callee is its contract
    def apply(self, ex, st, this, args, n):
        short = self.name.split('::')[-1]
        cx = Cx(ex, st, st, this, args)
        for nm, p in self.pre(cx):
            ex.oblige(st, 'precondition-of-%s:%s' % (short, nm), p, n, 'call')
        old = st.copy()
        self.frame_havoc(Cx(ex, st, old, this, args))
        ty, isref = self.ret_type(ex, n)
        ret = None
        if ty is not None and ty[0] != 'void':
            ret = Val(ex.newval(st, 'ret_' + short, ty), ty)
        cx = Cx(ex, st, old, this, args, ret)
        for nm, p in self.post(cx):
            ex.assume(st, p)
        return [(st, ret if ret is not None else Val(z3.BoolVal(True), ('void',)))]

    def ret_type(self, ex, n):
        if self.retty is not None:
            return self.retty, False
        t, r = ex.tc.ty(n['type'])
        return t, r

    def frame_havoc(self, cx):
        ex, st = cx.ex, cx.st
        for m in self.modifies(cx):
            if m[0] == 'heap':            # whole field map
                k, ty = m[1], m[2]
                st.heap[k] = ex.fresh('mod_H[%s]' % k, ex.heap(st, k, ty).sort())
            elif m[0] == 'field':         # one field of one object
                ref, own, f = m[1], m[2], m[3]
                ty = ex.fieldty(own, f)
                HeapField(ref, own, f, ty).set(ex, st, ex.newval(st, 'mod_' + f, ty))
            elif m[0] == 'place':
                pl = m[1]
                pl.set(ex, st, ex.newval(st, 'mod', pl.ty))
            elif m[0] != 'alloc':
                raise ValueError('modifies clause %r' % (m,))
            else:
                old = ex.allocd(st)
                new = ex.fresh('mod_alloc', old.sort())
                st.heap['#alloc'] = new
                x = z3.Int('x')
                st.pc.append(z3.ForAll([x], z3.Implies(z3.Select(old, x), z3.Select(new, x)), patterns=[z3.Select(new, x)]))

    def frame_check(self, cx):
        """everything outside the modifies clause is unchanged"""
        ex, st, old = cx.ex, cx.st, cx.old
        whole, fields, out = set(), {}, []
        for m in self.modifies(Cx(ex, old, old, cx.this, cx.args)):
            if m[0] == 'heap':
                whole.add(m[1])
            elif m[0] == 'field':
                own = m[2]
                for o, nme, t in ex.fields(own):
                    if nme == m[3]:
                        own = o
                fields.setdefault(own + '.' + m[3], []).append(m[1])
            elif m[0] == 'alloc':
                whole.add('#alloc')
        al = ex.allocd(old)
        for k in sorted(set(st.heap)):
            if k in whole or k == '#alloc':
                continue
            a, b = st.heap[k], old.heap.get(k, ex.heap0.get(k))
            if b is None or a.eq(b):
                continue
            r = ex.fresh('fr', z3.IntSort())
            ne = [r != x for x in fields.get(k, [])]
            out.append(('frame:%s' % k, z3.Implies(z3.And(z3.Select(al, r), *ne), z3.Select(a, r) == z3.Select(b, r))))
        return out


class Assumed(Contract):
    kind = 'assumed'


class Pure(Assumed):
    """deterministic external query: the result is an uninterpreted function of receiver and arguments"""
    facts = None

    def apply(self, ex, st, this, args, n):
        ty, isref = self.ret_type(ex, n)
        ts = []
        if this is not None:
            if isinstance(this, HeapObj):
                ts.append(this.ref)
            else:
                ts.append(ex.term(st, this))
        for a in args:
            ts.append(ex.term(st, a))
        f = ex.uf('pure:' + self.name.split('@')[0], *([t.sort() for t in ts] + [ex.sort(ty)]))
        r = f(*ts) if ts else z3.Const('pure:' + self.name, ex.sort(ty))
        ex.know(st, r, ty)
        v = Val(r, ty)
        if self.facts:
            for p in self.facts(Cx(ex, st, st, this, args, v)):
                ex.assume(st, p)
        if isref or (n.get('valueCategory') == 'lvalue'):
            return [(st, Temp(r, ty))]
        return [(st, v)]


class NoEffect(Assumed):
    """logging and the like: no effect on the verified state"""

    def apply(self, ex, st, this, args, n):
        ty, _ = ex.tc.ty(n['type'])
        if ty[0] == 'void':
            return [(st, Val(z3.BoolVal(True), ('void',)))]
        return [(st, Val(ex.newval(st, 'noeff', ty), ty))]


class Havoc(Assumed):
    """external call with an unconstrained result"""
    facts = None

    def apply(self, ex, st, this, args, n):
        ty, isref = self.ret_type(ex, n)
        if ty[0] == 'void':
            return [(st, Val(z3.BoolVal(True), ('void',)))]
        v = Val(ex.newval(st, 'ext_' + self.name.split('::')[-1], ty), ty)
        if self.facts:
            for p in self.facts(Cx(ex, st, st, this, args, v)):
                ex.assume(st, p)
        return [(st, v)]


def canonical(n, out):
    """what of a syntax tree has a meaning: no places, no comments, no addresses"""
    k = n.get('kind', '')
    if k.endswith('Comment'):
        return
    out.append(k)
    for a in ('name', 'opcode', 'value', 'castKind', 'storageClass', 'isArrow', 'isPostfix'):
        if a in n:
            out.append('%s=%s' % (a, n[a]))
    out.append(re.sub(r' at [^)]*', '', n.get('type', {}).get('qualType', '')))
    if 'referencedDecl' in n:
        out.append(n['referencedDecl'].get('kind', '') + ' ' + n['referencedDecl'].get('name', ''))
    out.append('(')
    for c in n.get('inner', ()):
        canonical(c, out)
    out.append(')')


def fingerprint(fs):
    """of the function and everything read in place"""
    hs = []
    for f in fs:
        out = []
        canonical(f, out)
        hs.append(hashlib.sha256('\n'.join(out).encode()).hexdigest())
    return hashlib.sha256(' '.join(sorted(set(hs))).encode()).hexdigest()[:16]


class Result:
    def __init__(self, fn):
        self.fn = fn
        self.obls = []
        self.unsupported = None
        self.covers = []
        self.inlined = set()
        self.used = set()
        self.assumptions = set()
        self.line = None
        self.fingerprint = None
        self.npaths = 0


def verify(tu, c, specs, mode='int', opaque=(), devirt=False):
    """generate every obligation of the definition of c.name in tu"""
    qn = c.name.split('@')[0].split('/')[0]
    res = Result(c.name)
    try:
        defs = tu.find(qn, c.nparams, c.sig or (c.name.split('@')[1] if '@' in c.name else None))
        if c.dyn is not None:             # the function as the objects of class c.dyn run it
            cls, short = qn.rsplit('::', 1)
            for q in tu.supers(cls):
                if not defs:
                    defs = tu.find(q + '::' + short, c.nparams, c.sig or (c.name.split('@')[1] if '@' in c.name else None))
        if len(defs) != 1:
            raise Unsupported('%d definitions of %s' % (len(defs), c.name))
        f = defs[0]
        res.line = line_of(f)
        sp = dict(specs)
        if devirt:
            sp['#devirtualise'] = True
        ex = Interp(tu, mode, sp, opaque)
        ex.fn = c.name
        ex.loopspecs = list(c.loops)
        st = St()
        this = None
        isstatic = f.get('storageClass') == 'static'
        if f['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl') and not isstatic:
            rec = qn.rsplit('::', 1)[0]
            t = z3.Int('this')
            st.pc.append(t > 0)
            st.pc.append(z3.Select(ex.allocd(st), t))
            this = HeapObj(t, rec)
            this.dyn = c.dyn
            st.env['this'] = this
            if f['kind'] == 'CXXConstructorDecl':
                from . import stl
                stl.default_fields(ex, st, this, skip=stl.init_names(f))
        args = []
        for p in tu.params(f):
            ty, isref = ex.tc.ty(p['type'])
            if p['type'].get('qualType', '').rstrip().endswith('&'):
                isref = True
            nm = p.get('name', 'arg')
            if ty == ('ptr', ('int', 8, True)) and 'const' in p['type'].get('qualType', ''):
                ty = ('str',)          # C string, by its text
            ex.declname[p['id']] = nm
            mk = c.mkarg(ex, st, nm, ty, len(args))
            if isinstance(mk, Place):
                st.pc.append(mk.ref > 0)
                st.pc.append(z3.Select(ex.allocd(st), mk.ref))
                pl = mk
            elif mk is not None:
                st.vars['arg:' + nm] = mk
                pl = Local('arg:' + nm, ty)
            elif isref and ty[0] == 'rec':
                r = z3.Int('arg_' + nm)
                st.pc.append(r > 0)
                st.pc.append(z3.Select(ex.allocd(st), r))
                pl = HeapObj(r, ty[1])
            elif ty[0] == 'opaque' and ty[1] == 'function':
                pl = Temp(PyObj('fnarg', name=nm), ty)
            else:
                t = z3.Const('arg_' + nm, ex.sort(ty))
                ex.know(st, t, ty)
                if ty[0] == 'ptr':
                    st.pc.append(z3.Or(t == 0, z3.Select(ex.allocd(st), t)))
                key = 'arg:' + nm
                st.vars[key] = t
                pl = Local(key, ty)
            st.env[p['id']] = pl
            args.append(pl)
        # by-value parameters keep their entry value in the contract
        old0 = st.copy()
        cx0 = Cx(ex, st, old0, this, args)
        for nm, p in c.pre(cx0):
            ex.assume(st, p)
        entry = st.copy()
        ex.entry = entry
        ex.args = args
        outs = ex.run(f, st)
        ex.depth = 0
        for o in outs:
            o.st.env = dict(entry.env)
            if o.kind == 'throw':
                if not c.may_throw:
                    ex.oblige(o.st, 'no-exception', z3.BoolVal(False), f, 'safety')
                continue
            cargs = []
            for a, p in zip(args, tu.params(f)):
                ty, isref = ex.tc.ty(p['type'])
                if isinstance(a, Local) and not p['type'].get('qualType', '').rstrip().endswith('&'):
                    e = entry.vars[a.k]
                    cargs.append(Val(e, a.ty) if z3.is_expr(e) else e)
                else:
                    cargs.append(a)
            ret = o.val
            rt = ex.fn_ret(f)[0]
            if ret is not None:
                ret = ex.rv(o.st, ret)
            cx = Cx(ex, o.st, entry, this, cargs, ret)
            res.covers.append(list(o.st.pc))
            for nm, p in c.post(cx):
                ex.oblige(o.st, 'post:' + nm, p, f, 'post')
            for nm, p in c.frame_check(cx):
                ex.oblige(o.st, nm, p, f, 'frame')
        res.npaths = len(outs)
        res.obls = ex.obls
        res.ex = ex
        res.inlined = ex.inlined
        res.fingerprint = fingerprint([f] + list(ex.bodies.values()))
        res.used = ex.used_specs
        res.assumptions = ex.assumptions | set(c.notes)
        if c.loops and len(ex.loopbind) < len([l for l in c.loops if l]):
            # fewer loops than invariants: the code changed shape; obligations are still complete
            pass
    except Unsupported as e:
        if __import__("os").environ.get("HVC_TB"): __import__("traceback").print_exc()
        res.unsupported = str(e)
    except z3.Z3Exception as e:
        if __import__("os").environ.get("HVC_TB"): __import__("traceback").print_exc()
        res.unsupported = 'z3: %s' % str(e)[:200]
    except (AttributeError, KeyError, IndexError, TypeError, AssertionError, ValueError, RecursionError) as e:
        import traceback
        res.unsupported = 'executor: %s %s' % (type(e).__name__, traceback.format_exc()[-600:])
    return res
