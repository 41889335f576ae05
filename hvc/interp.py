"""Statements, expressions, calls and loops."""
import z3
from . import types as T
from .cast import unwrap, line_of, WRAP
from .sym import *
from .sym import PairView
from . import stl


class Out:
    """outcome of a statement: kind in fall|return|break|continue|throw"""
    __slots__ = ('st', 'kind', 'val')

    def __init__(self, st, kind, val=None):
        self.st, self.kind, self.val = st, kind, val


def position(v):
    """where a loop over a sequence is: its index, or that of its iterator"""
    return v.idx if isinstance(v, Iter) and v.idx is not None else v


class LoopCtx:
    """what a loop invariant may talk about"""
    depth = 0

    def __init__(self, ex, st, entry, old, idx=None, visited=None, rng=None, nodeinfo=None, this=None):
        self.ex, self.st, self.entry, self.old = ex, st, entry, old
        self.idx, self.visited, self.rng, self.this = idx, visited, rng, this
        self.decls = nodeinfo or {}
        self.args = getattr(ex, 'args', [])

    def var(self, name=None, ty=None, st=None):
        """local by name; if the name is gone, the only local of that type"""
        st = st or self.st
        c = [(k, p) for k, p in st.env.items() if isinstance(p, Local) and name and self.ex.declname.get(k) == name]
        if not c and ty is not None:
            c = [(k, p) for k, p in st.env.items() if isinstance(p, Local) and p.ty == ty and p.k in st.vars
                 and not isinstance(st.vars[p.k], (Iter, Closure, PtrTo, PyObj))
                 and k in self.ex.localdecls]
            if len(c) != 1:
                raise Unsupported('loop invariant: cannot identify local %s' % name)
        if not c:
            raise Unsupported('loop invariant: no local %s' % name)
        p = c[-1][1]
        return st.vars[p.k]

    def caller(self, name, first=False):
        """local of a function that called the one with the loop (or of that one), by name"""
        c = sorted((int(k.rsplit('#', 1)[1]), k) for k in self.st.vars if isinstance(k, str) and k.rsplit('#', 1)[0] == name and k.rsplit('#', 1)[-1].isdigit())
        if not c:
            raise Unsupported('loop invariant: no local %s of a caller' % name)
        return self.st.vars[c[0 if first else -1][1]]

    @property
    def outer(self):
        """the enclosing loop"""
        k = self.depth + 1
        if len(self.ex.loopstack) <= k:
            raise Unsupported('loop invariant: no enclosing loop')
        L = LoopCtx(self.ex, self.st, self.entry, self.old, this=self.this, **self.ex.loopstack[-1 - k](self.st))
        L.depth = k
        return L

    def at(self, st):
        return LoopCtx(self.ex, st, self.entry, self.old, self.idx, self.visited, self.rng, self.decls, self.this)


class Interp(Executor):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.declname = {}
        self.localdecls = set()
        self.frame = 0
        self.retty = None
        self.entry = None
        self.loopspecs = []
        self.loopstack = []
        self.bodies = {}       # every function body read
        self.loopcount = 0
        self.loopbind = {}
        self.thisplace = None
        self.dry = 0
        self.statics = {}

    # ------------------------------------------------------------ expression lists
    def evs(self, nodes, st):
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in res:
                if s.thrown:
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def ty(self, node):
        return self.tc.ty(node['type'])[0]

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        k = n['kind']
        if k in WRAP:
            return self.ev(n['inner'][0], st)
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression %s at line %s' % (k, line_of(n)))
        return m(n, st)

    def ev1(self, n, st):
        """single-outcome evaluation"""
        r = self.ev(n, st)
        if len(r) != 1:
            raise Unsupported('forking expression where one outcome is needed (line %s)' % line_of(n))
        return r[0]

    def e_IntegerLiteral(self, n, st):
        ty = self.ty(n)
        return [(st, Val(self.num(int(n['value']), ty), ty))]

    def e_CharacterLiteral(self, n, st):
        ty = self.ty(n)
        return [(st, Val(self.num(int(n['value']), ty), ty))]

    def e_CXXBoolLiteralExpr(self, n, st):
        return [(st, Val(z3.BoolVal(bool(n['value'])), ('bool',)))]

    def e_CXXNullPtrLiteralExpr(self, n, st):
        return [(st, Val(z3.IntVal(0), ('ptr', ('void',))))]

    def e_GNUNullExpr(self, n, st):
        return [(st, Val(z3.IntVal(0), ('ptr', ('void',))))]

    def e_StringLiteral(self, n, st):
        v = n.get('value', '""')
        try:
            import ast
            s = ast.literal_eval(v)
        except Exception:
            s = v[1:-1]
        return [(st, Val(self.lit(s), ('str',)))]

    def e_CXXThisExpr(self, n, st):
        p = st.env.get('this')
        if p is None:
            raise Unsupported('no this')
        return [(st, PtrTo(p))]

    def e_CXXDefaultArgExpr(self, n, st):
        if n.get('inner'):
            return self.ev(n['inner'][0], st)
        return [(st, PyObj('defaultarg', ty=self.ty(n)))]

    def e_CXXDefaultInitExpr(self, n, st):
        return self.ev(n['inner'][0], st)

    def e_CXXScalarValueInitExpr(self, n, st):
        ty = self.ty(n)
        return [(st, Val(self.emptyval(ty), ty))]

    def e_ImplicitValueInitExpr(self, n, st):
        ty = self.ty(n)
        return [(st, Val(self.emptyval(ty), ty))]

    def e_CXXRewrittenBinaryOperator(self, n, st):
        return self.ev(n['inner'][0], st)

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        raise Unsupported('sizeof')

    def e_DeclRefExpr(self, n, st):
        d = n['referencedDecl']
        i = d['id']
        if i in st.env:
            p = st.env[i]
            return [(st, p)]
        if d['kind'] == 'EnumConstantDecl':
            if i in self.tu.enums:
                ty = self.ty(n)
                return [(st, Val(self.num(self.tu.enums[i], ty), ty))]
            hook = self.specs.get('#enumerator')
            r = hook(self, n, d) if hook else None
            if r is not None:
                return [(st, r)]
            raise Unsupported('enumerator %s' % d.get('name'))
        if d.get('name') == 'nullopt':
            return [(st, Val(None, ('nullopt',)))]
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return [(st, PyObj('func', decl=d))]
        if d['kind'] == 'VarDecl':
            return self.globalvar(n, d, st)
        raise Unsupported('reference to %s %s' % (d['kind'], d.get('name')))

    def globalvar(self, n, d, st):
        ty = self.ty(n)
        name = d.get('name')
        if name == 'npos':
            return [(st, Val(self.num((1 << 64) - 1, ty), ty))]
        decl = self.tu.byid.get(d['id'])
        key = ('global', d['id'])
        if key in self.statics:
            return [(st, self.statics[key])]
        # constants with an initialiser (constexpr / const static)
        q = (decl or {}).get('type', d.get('type', {})).get('qualType', '')
        if decl and decl.get('inner') and ('const' in q or decl.get('constexpr')):
            init = [c for c in decl['inner'] if 'kind' in c and not c['kind'].endswith('Attr')]
            if init:
                outs = self.ev(init[-1], st)
                if len(outs) == 1:
                    p = self.as_place(outs[0][0], outs[0][1], ty)
                    self.statics[key] = p
                    return [(st, p)]
        if name == 'max' or ty[0] in ('int', 'bool', 'str'):
            raise Unsupported('global variable %s' % name)
        raise Unsupported('global variable %s' % name)

    def as_place(self, st, v, ty):
        r = self.rv(st, v)
        if isinstance(r, Val):
            return Temp(r.t, r.ty)
        return Temp(r, ty)

    def e_MemberExpr(self, n, st):
        out = []
        base = n['inner'][0]
        for s, b in self.ev(base, st):
            if s.thrown:
                out.append((s, None))
                continue
            out.append((s, self.member(n, s, b)))
        return out

    def member(self, n, st, b):
        name = n.get('name')
        mid = n.get('referencedMemberDecl')
        if mid in self.tu.enums:
            ty = self.ty(n)
            return Val(self.num(self.tu.enums[mid], ty), ty)
        if n.get('isArrow'):
            pl = self.deref(st, b, n)
        else:
            pl = b if isinstance(b, Place) else self.rv(st, b)
            if isinstance(pl, Val):
                pl = Temp(pl.t, pl.ty)
        if pl is None:
            raise Unsupported('member of optional')
        info = self.fieldinfo.get(mid)
        if isinstance(pl, PairView):
            if name == 'first':
                return Temp(pl.key, pl.ty[1])
            if name == 'second':
                return MapVal(pl.base, pl.key, pl.ty[2])
        if isinstance(pl, Place) and pl.ty and pl.ty[0] == 'tup' and name in ('first', 'second', 'name', 'value'):
            i = 0 if name in ('first', 'name') else 1
            return Sub(pl, i, pl.ty[1 + i])
        if isinstance(pl, Temp) and isinstance(pl.v, PyObj):
            pl = pl.v
        elif isinstance(pl, Local) and isinstance(st.vars.get(pl.k), PyObj):
            pl = st.vars[pl.k]
        if isinstance(pl, PyObj):
            h = stl.pyobj_member(self, st, pl, name, n)
            if h is not None:
                return h
        if info is None:
            # static data member
            d = self.tu.byid.get(mid)
            if d is not None and d.get('kind') == 'VarDecl':
                return self.globalvar(n, {'id': mid, 'name': name, 'kind': 'VarDecl'}, st)[0][1]
            raise Unsupported('member %s' % name)
        own, f, decl = info
        fty, isref = self.tc.ty(decl['type'])
        if isinstance(pl, HeapObj):
            r = HeapField(pl.ref, own, f, ('ptr', fty) if isref else fty)
        elif isinstance(pl, (Local, Temp, Sub, VecElem, MapVal, HeapField, HeapCell)):
            if pl.ty[0] != 'rec':
                raise Unsupported('member %s of %s' % (name, pl.ty))
            i, t = self.fieldidx(pl.ty[1], own, f)
            r = Sub(pl, i, t)
        else:
            raise Unsupported('member %s of %s' % (name, type(pl).__name__))
        if isref:
            t = r.get(self, st)
            self.know(st, t, ('ptr', fty))
            st.pc.append(t != 0)      # a reference member is bound at construction
            return HeapObj(t, fty[1]) if fty[0] == 'rec' else HeapCell(t, fty)
        return r

    def e_ImplicitCastExpr(self, n, st):
        return self.cast(n, st)

    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXReinterpretCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr

    def e_CXXDynamicCastExpr(self, n, st):
        raise Unsupported('dynamic_cast')

    def cast(self, n, st):
        ck = n.get('castKind')
        sub = n['inner'][-1] if n['kind'] == 'CXXFunctionalCastExpr' else n['inner'][0]
        res = []
        for s, v in self.ev(sub, st):
            if s.thrown:
                res.append((s, None))
                continue
            res.append((s, self.cast1(n, ck, s, v)))
        return res

    def cast1(self, n, ck, s, v):
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion',
                  'UserDefinedConversion', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr',
                  'ArrayToPointerDecay', 'LValueBitCast'):
            if ck in ('UncheckedDerivedToBase', 'DerivedToBase') and isinstance(v, HeapObj):
                if v.dyn is not None:
                    return v              # its class is known: a base is a part of it
                t = self.ty(n)
                if t[0] == 'rec':
                    return HeapObj(v.ref, t[1])
            if ck in ('UncheckedDerivedToBase', 'DerivedToBase') and isinstance(v, Val) and v.ty[0] == 'ptr':
                t = self.ty(n)
                return Val(v.t, t) if t[0] == 'ptr' else v        # a base of the smart pointer class itself
            return v
        if ck == 'LValueToRValue':
            return self.rv(s, v)
        if ck == 'ToVoid':
            return Val(z3.BoolVal(True), ('void',))
        ty = self.ty(n)
        r = self.rv(s, v)
        if ck == 'NullToPointer':
            return Val(z3.IntVal(0), ty)
        if ck in ('BitCast', 'BaseToDerived'):
            if isinstance(r, Val) and r.ty[0] == 'ptr':
                return Val(r.t, ty)
            if isinstance(v, HeapObj) and ty[0] == 'rec':
                return HeapObj(v.ref, ty[1])
            return r
        if isinstance(r, (Iter, Closure, PyObj, InitList)):
            return r
        if ck == 'PointerToBoolean':
            return Val(self.truth(s, r), ('bool',))
        if ck == 'IntegralToPointer':
            return Val(z3.BV2Int(r.t) if self.mode == 'bv' else r.t, ty)
        if ck == 'IntegralToBoolean':
            return Val(r.t != 0, ('bool',))
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            return self.convert(s, r, ty)
        raise Unsupported('cast %s' % ck)

    def e_UnaryOperator(self, n, st):
        op = n['opcode']
        out = []
        for s, v in self.ev(n['inner'][0], st):
            if s.thrown:
                out.append((s, None))
                continue
            ty = self.ty(n)
            if op == '!':
                out.append((s, Val(z3.Not(self.truth(s, v)), ('bool',))))
            elif op == '*':
                p = self.deref(s, v, n)
                if p is None:
                    p = Sub(self.place(s, v), 1, self.rv(s, v).ty[1])
                out.append((s, p))
            elif op == '&':
                if not isinstance(v, Place):
                    raise Unsupported('address of rvalue')
                out.append((s, PtrTo(v)))
            elif op == '-':
                r = self.rv(s, v)
                out.append((s, Val(self.arith(s, '-', self.num(0, ty), r.t, ty, n), ty)))
            elif op == '+':
                out.append((s, self.rv(s, v)))
            elif op == '~':
                r = self.rv(s, v)
                if self.mode == 'bv':
                    out.append((s, Val(~r.t, ty)))
                else:
                    t = -1 - r.t if ty[2] else (1 << ty[1]) - 1 - r.t
                    out.append((s, Val(t, ty)))
            elif op in ('++', '--'):
                r = self.rv(s, v)
                if isinstance(r, Iter):
                    new = stl.iter_step(self, s, r, 1 if op == '++' else -1, n)
                    v.set(self, s, new)
                    out.append((s, r if n.get('isPostfix') else v))
                    continue
                if r.ty[0] == 'ptr' and r.ty[1][0] == 'int':
                    w = r.ty[1][1] // 8
                    v.set(self, s, r.t + (w if op == '++' else -w))
                    out.append((s, r if n.get('isPostfix') else v))
                    continue
                one = self.num(1, r.ty)
                t = self.arith(s, op[0], r.t, one, r.ty, n)
                v.set(self, s, t)
                out.append((s, r if n.get('isPostfix') else v))
            else:
                raise Unsupported('unary ' + op)
        return out

    def same_state(self, a, b):
        for k, v in a.vars.items():        # variables b has in addition are locals of what was called
            w = b.vars.get(k)
            if v is not w and not (z3.is_expr(v) and z3.is_expr(w) and v.eq(w)):
                return False
        for k in set(a.heap) | set(b.heap):
            v, w = a.heap.get(k, self.heap0.get(k)), b.heap.get(k, self.heap0.get(k))
            if v is None or w is None or not v.eq(w):
                return False
        return True

    def shortcircuit(self, n, st, op):
        out = []
        for s, l in self.ev(n['inner'][0], st):
            if s.thrown:
                out.append((s, None))
                continue
            lt = z3.simplify(self.truth(s, l))
            if z3.is_true(lt) if op == '||' else z3.is_false(lt):
                out.append((s, Val(lt, ('bool',))))
                continue
            if z3.is_true(lt) or z3.is_false(lt):
                for s2, r in self.ev(n['inner'][1], s):
                    out.append((s2, None if s2.thrown else Val(self.truth(s2, r), ('bool',))))
                continue
            guard = lt if op == '&&' else z3.Not(lt)
            before = s.copy()
            s2 = s.copy()
            s2.pc.append(guard)
            npc = len(s2.pc)
            nobl = len(self.obls)
            if not self.feasible(s, guard):
                out.append((s, Val(lt, ('bool',))))
                continue
            rs = self.ev(n['inner'][1], s2)
            if len(rs) == 1 and not rs[0][0].thrown and self.same_state(before, rs[0][0]):
                s3, r = rs[0]
                rt = self.truth(s3, r)
                for f in s3.pc[npc:]:
                    s.pc.append(z3.Implies(guard, f))
                t = z3.And(lt, rt) if op == '&&' else z3.Or(lt, rt)
                out.append((s, Val(t, ('bool',))))
            else:
                for s3, r in rs:
                    if s3.thrown:
                        out.append((s3, None))
                    else:
                        out.append((s3, Val(self.truth(s3, r), ('bool',))))
                s.pc.append(z3.Not(guard))
                if self.feasible(s, z3.BoolVal(True)):
                    out.append((s, Val(z3.BoolVal(op == '||'), ('bool',))))
        return out

    def e_BinaryOperator(self, n, st):
        op = n['opcode']
        if op in ('&&', '||'):
            return self.shortcircuit(n, st, op)
        if op == ',':
            out = []
            for s, _ in self.ev(n['inner'][0], st):
                out += self.ev(n['inner'][1], s) if not s.thrown else [(s, None)]
            return out
        if op == '=':
            out = []
            # C++17: the right operand is sequenced before the left
            for s, r in self.ev(n['inner'][1], st):
                if s.thrown:
                    out.append((s, None))
                    continue
                r = self.rv(s, r)
                for s2, l in self.ev(n['inner'][0], s):
                    if not s2.thrown:
                        self.assign(s2, l, r)
                    out.append((s2, l))
            return out
        out = []
        for s, vs in self.evs(n['inner'], st):
            if s.thrown:
                out.append((s, None))
                continue
            out.append((s, self.binop(n, op, s, vs[0], vs[1])))
        return out

    def binop(self, n, op, s, l, r):
        l, r = self.rv(s, l), self.rv(s, r)
        ty = self.ty(n)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if isinstance(l, PtrTo) or isinstance(r, PtrTo):
                raise Unsupported('pointer comparison')
            if isinstance(l, Iter) or isinstance(r, Iter):
                return stl.iter_cmp(self, s, op, l, r, n)
            if l.ty[0] == 'bool' and r.ty[0] == 'bool':
                if op in ('==', '!='):
                    return Val(l.t == r.t if op == '==' else l.t != r.t, ('bool',))
                l, r = self.convert(s, l, ('int', 32, True)), self.convert(s, r, ('int', 32, True))
            signed = not (l.ty[0] == 'int' and not l.ty[2])
            return Val(self.compare(op, l.t, r.t, signed), ('bool',))
        if not isinstance(l, Val) or not isinstance(r, Val):
            if isinstance(l, Iter) and isinstance(r, Val):
                return stl.iter_add(self, s, op, l, r, n)
            if isinstance(l, Iter) and isinstance(r, Iter) and op == '-':
                return stl.iter_diff(self, s, l, r, n)
            raise Unsupported('binary %s' % op)
        if l.ty[0] == 'ptr' or r.ty[0] == 'ptr':
            raise Unsupported('pointer arithmetic')
        if l.ty[0] == 'bool':
            l = self.convert(s, l, ty)
        if r.ty[0] == 'bool':
            r = self.convert(s, r, ty)
        return Val(self.arith(s, op, l.t, r.t, ty, n, r.ty), ty)

    def e_CompoundAssignOperator(self, n, st):
        op = n['opcode'][:-1]
        out = []
        for s, vs in self.evs(n['inner'], st):
            if s.thrown:
                out.append((s, None))
                continue
            pl, r = vs
            l = self.rv(s, pl)
            r = self.rv(s, r)
            lty = l.ty
            cty = self.tc.ty(n.get('computeResultType', n['type']))[0]
            if l.ty[0] == 'bool' and op in ('|', '&', '^'):
                b = self.tobool(r)
                t = {'|': z3.Or(l.t, b), '&': z3.And(l.t, b), '^': z3.Xor(l.t, b)}[op]
                pl.set(self, s, t)
                out.append((s, pl))
                continue
            a = self.convert(s, l, cty)
            if op in ('<<', '>>'):
                t = self.arith(s, op, a.t, r.t, cty, n, r.ty)
            else:
                b = self.convert(s, r, cty)
                t = self.arith(s, op, a.t, b.t, cty, n)
            pl.set(self, s, self.convert(s, Val(t, cty), lty).t)
            out.append((s, pl))
        return out

    def e_ConditionalOperator(self, n, st):
        c, a, b = n['inner'][0], n['inner'][1], n['inner'][2]
        out = []
        for s, v in self.ev(c, st):
            if s.thrown:
                out.append((s, None))
                continue
            t = z3.simplify(self.truth(s, v))
            if z3.is_true(t):
                out += self.ev(a, s)
                continue
            if z3.is_false(t):
                out += self.ev(b, s)
                continue
            # try a merge of two pure alternatives
            ca, cb = s.copy(), s.copy()
            ca.pc.append(t)
            cb.pc.append(z3.Not(t))
            la, lb = len(ca.pc), len(cb.pc)
            fa, fb = self.feasible(s, t), self.feasible(s, z3.Not(t))
            ra = self.ev(a, ca) if fa else []
            rb = self.ev(b, cb) if fb else []
            if len(ra) == 1 and len(rb) == 1 and not ra[0][0].thrown and not rb[0][0].thrown and \
                    self.same_state(s, ra[0][0]) and self.same_state(s, rb[0][0]):
                va, vb = self.rv(ra[0][0], ra[0][1]), self.rv(rb[0][0], rb[0][1])
                if isinstance(va, Val) and isinstance(vb, Val) and va.t is not None and vb.t is not None \
                        and va.t.sort() == vb.t.sort():
                    for f in ra[0][0].pc[la:]:
                        s.pc.append(z3.Implies(t, f))
                    for f in rb[0][0].pc[lb:]:
                        s.pc.append(z3.Implies(z3.Not(t), f))
                    out.append((s, Val(z3.If(t, va.t, vb.t), va.ty)))
                    continue
            out += ra + rb
        return out

    def assign(self, st, l, r):
        if not isinstance(l, Place):
            raise Unsupported('assignment to non-lvalue')
        if isinstance(r, Val):
            if r.ty[0] == 'nullopt':
                l.set(self, st, self.none(l.ty))
                return
            l.set(self, st, self.coerce(st, r, l.ty).t)
        else:
            r2 = self.rv(st, r)
            if isinstance(r2, Val):
                l.set(self, st, r2.t)
            elif isinstance(l, (Local, Temp)):
                l.set(self, st, r2)
            elif isinstance(r2, PtrTo) and l.ty[0] == 'ptr' and isinstance(r2.place, VecElem):
                # where the element of a container lives: an object of its own, of which nothing is known
                self.assumptions.add('objects are not changed through a stored address of a container element')
                x = self.newval(st, 'elementptr', l.ty)
                st.pc.append(z3.And(x > 0, z3.Select(self.allocd(st), x)))
                l.set(self, st, x)
            else:
                raise Unsupported('store of %s' % type(r2).__name__)

    def coerce(self, st, r, ty):
        """implicit class conversions (T -> optional<T>, ...)"""
        if not isinstance(r, Val):
            if isinstance(r, InitList):
                return stl.construct(self, st, ty, [r], None, {})[0][1]
            raise Unsupported('coerce %s to %s' % (type(r).__name__, ty))
        if r.ty[0] == 'nullopt' and ty[0] == 'opt':
            return Val(self.none(ty), ty)
        if r.t.sort() == self.sort(ty):
            if ty[0] in ('int', 'enum', 'bool') and r.ty[0] in ('int', 'enum', 'bool') and r.ty != ty:
                return self.convert(st, r, ty)
            return Val(r.t, ty)
        if ty[0] == 'opt' and r.ty[0] != 'opt':
            return Val(self.some(ty, self.coerce(st, r, ty[1]).t), ty)
        if ty[0] == 'opt' and r.ty[0] == 'opt':
            inner = self.coerce(st, Val(self.acc(r.t, 1), r.ty[1]), ty[1])
            return Val(z3.If(self.acc(r.t, 0), self.some(ty, inner.t), self.none(ty)), ty)
        if ty[0] == 'tup' and r.ty[0] == 'tup' and len(ty) == len(r.ty):
            es = [self.coerce(st, Val(self.acc(r.t, i), r.ty[1 + i]), ty[1 + i]).t for i in range(len(ty) - 1)]
            return Val(self.sort(ty).constructor(0)(*es), ty)
        if ty[0] in ('int', 'bool', 'enum'):
            return self.convert(st, r, ty)
        if ty[0] == 'opaque':
            return Val(self.fresh('op', self.sort(ty)), ty)
        raise Unsupported('coerce %s to %s' % (r.ty, ty))

    def e_LambdaExpr(self, n, st):
        env = dict(st.env)
        # by-copy captures get their value frozen
        return [(st, Closure(n, self.capture(n, st), st.env.get('this')))]

    def capture(self, n, st):
        env = dict(st.env)
        # clang lists the closure class first; its FieldDecls mirror the captures in order
        rec = n['inner'][0]
        fields = [c for c in rec.get('inner', ()) if c.get('kind') == 'FieldDecl']
        caps = [c for c in n['inner'][1:] if c.get('kind') not in ('CompoundStmt',)]
        for f, c in zip(fields, caps):
            u = c
            copy = not f['type'].get('qualType', '').rstrip().endswith('&')
            while u.get('kind') in WRAP + ('ImplicitCastExpr', 'CXXConstructExpr') and u.get('inner'):
                u = u['inner'][0]
            if u.get('kind') == 'DeclRefExpr':
                i = u['referencedDecl']['id']
                if copy and i in st.env and isinstance(st.env[i], Place):
                    v = st.env[i].get(self, st)
                    env[i] = Temp(v, st.env[i].ty)
        return env

    def lambda_op(self, clo, nargs=None):
        rec = clo.node['inner'][0]
        cands = []
        for c in rec.get('inner', ()):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                cands.append(c)
            if c.get('kind') == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                inst = [x for x in c.get('inner', ()) if x.get('kind') == 'CXXMethodDecl' and self.tu.body(x)]
                inst = [x for x in inst if not any('auto' in p['type']['qualType'] for p in self.tu.params(x))]
                cands += inst
        cands = [c for c in cands if self.tu.body(c)]
        if not cands:
            raise Unsupported('lambda without instantiated call operator')
        return cands[0]

    def call_closure(self, clo, args, st, node):
        f = self.lambda_op(clo)
        env = dict(clo.env)
        return self.run_body(f, args, st, env, clo.this, node)

    def e_CXXConstructExpr(self, n, st):
        ty = self.ty(n)
        args = [a for a in n.get('inner', ()) if a.get('kind')]
        out = []
        for s, vs in self.evs(args, st):
            if s.thrown:
                out.append((s, None))
                continue
            out += stl.construct(self, s, ty, vs, n, n)
        return out

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_InitListExpr(self, n, st):
        ty = self.ty(n)
        args = [a for a in n.get('inner', ()) if a.get('kind')]
        out = []
        for s, vs in self.evs(args, st):
            if s.thrown:
                out.append((s, None))
                continue
            if ty[0] in ('int', 'bool', 'enum', 'ptr') and len(vs) <= 1:
                out.append((s, vs[0] if vs else Val(self.emptyval(ty), ty)))
            elif ty[0] == 'rec':
                fs = self.fields(ty[1])
                ts = []
                for i, (o, f, ft) in enumerate(fs):
                    if i < len(vs):
                        ts.append(self.coerce(s, self.rv(s, vs[i]), ft).t)
                    else:
                        ts.append(self.emptyval(ft))
                out.append((s, Val(self.sort(ty).constructor(0)(*ts), ty)))
            else:
                out.append((s, InitList(vs, ty)))
        return out

    def e_CXXStdInitializerListExpr(self, n, st):
        return self.ev(n['inner'][0], st)

    def e_CXXNewExpr(self, n, st):
        raise Unsupported('new')

    def e_CXXThrowExpr(self, n, st):
        st.thrown = 'throw'
        return [(st, None)]

    # ------------------------------------------------------------ calls
    def e_CallExpr(self, n, st):
        callee = unwrap(n['inner'][0])
        while callee.get('kind') == 'ImplicitCastExpr':
            callee = unwrap(callee['inner'][0])
        args = n['inner'][1:]
        if callee.get('kind') == 'DeclRefExpr':
            d = callee['referencedDecl']
            return self.call_named(n, d['id'], d.get('name'), None, args, st, d)
        if callee.get('kind') == 'MemberExpr' :
            return self.e_CXXMemberCallExpr(n, st)
        # call through a value (std::function, function pointer)
        out = []
        for s, f in self.ev(n['inner'][0], st):
            for s2, vs in self.evs(args, s):
                f2 = self.rv(s2, f)
                if isinstance(f2, Closure):
                    out += self.call_closure(f2, vs, s2, n)
                else:
                    raise Unsupported('call through value')
        return out

    def e_CXXMemberCallExpr(self, n, st):
        me = unwrap(n['inner'][0])
        if me.get('kind') != 'MemberExpr':
            raise Unsupported('member call through pointer')
        args = n['inner'][1:]
        base = me['inner'][0]
        out = []
        for s, b in self.ev(base, st):
            if s.thrown:
                out.append((s, None))
                continue
            out += self.call_method(n, me, s, b, args)
        return out

    def call_method(self, n, me, s, b, args):
        mid = me.get('referencedMemberDecl')
        name = me.get('name')
        if mid in self.tu.qname and not (isinstance(b, Place) and isinstance(self._peek(s, b), PyObj)):
            return self.call_named(n, mid, name, (b, me), args, s, self.tu.byid.get(mid))
        # standard-library (or other external) object
        if me.get('isArrow'):
            r = self.rv(s, b)
            if isinstance(r, Iter) or isinstance(r, PtrTo) or (isinstance(r, Val) and r.ty[0] in ('ptr',)):
                obj = self.deref(s, r, n)
            else:
                obj = b
        else:
            obj = b
        return stl.method(self, n, me, name, s, obj, args)

    def _peek(self, s, b):
        try:
            return b.get(self, s) if isinstance(b, (Local, Temp)) else None
        except Unsupported:
            return None

    def e_CXXOperatorCallExpr(self, n, st):
        callee = n['inner'][0]
        while callee.get('kind') in WRAP + ('ImplicitCastExpr',):
            callee = callee['inner'][0]
        d = callee.get('referencedDecl', {})
        name = d.get('name', '')
        args = n['inner'][1:]
        if name == 'operator()':
            out = []
            for s, f in self.ev(args[0], st):
                fv = self.rv(s, f)
                for s2, vs in self.evs(args[1:], s):
                    if s2.thrown:
                        out.append((s2, None))
                    elif isinstance(fv, Closure):
                        out += self.call_closure(fv, vs, s2, n)
                    else:
                        out += stl.call_function_object(self, n, s2, f, vs)
            return out
        fd = self.tu.byid.get(d.get('id'), {})
        if d.get('id') in self.tu.qname and not (name == 'operator=' and (fd.get('isImplicit') or fd.get('explicitlyDefaulted'))
                                                 and args[1].get('kind') == 'MaterializeTemporaryExpr'):
            meth = self.tu.byid.get(d['id'], {}).get('kind') == 'CXXMethodDecl'
            if meth:
                out = []
                for s, b in self.ev(args[0], st):
                    out += self.call_named(n, d['id'], name, (b, {'isArrow': False}), args[1:], s, d)
                return out
            return self.call_named(n, d['id'], name, None, args, st, d)
        if name == 'operator=':
            # the right operand is sequenced first
            out = []
            for s, r in self.ev(args[1], st):
                if s.thrown:
                    out.append((s, None))
                    continue
                for s2, l in self.ev(args[0], s):
                    if s2.thrown:
                        out.append((s2, None))
                        continue
                    out += stl.assign(self, n, s2, l, r, d)
            return out
        out = []
        for s, vs in self.evs(args, st):
            if s.thrown:
                out.append((s, None))
                continue
            out += stl.operator(self, n, name, s, vs)
        return out

    def spec_for(self, q, f, nargs):
        """contract registered for qualified name q (optionally with arity)"""
        for k in ('%s/%d' % (q, nargs), q):
            if k in self.specs:
                return self.specs[k]
        if f is not None:
            t = f.get('type', {}).get('qualType', '')
            for k, s in self.specs.items():
                if '@' in k and k.split('@')[0] == q and k.split('@')[1] in t:
                    return s
        return None

    def call_named(self, n, did, name, obj, args, st, decl):
        q = self.tu.qname.get(did)
        if q is None:
            return stl.function(self, n, name, args, st, decl)
        f = self.tu.defof.get(did)
        spec = self.spec_for(q, f or self.tu.byid.get(did), len(args))
        out = []
        for s, vs in self.evs(args, st):
            if s.thrown:
                out.append((s, None))
                continue
            vs = [self.defaultarg(s, v, did, i) for i, v in enumerate(vs)]
            this = None
            if obj is not None:
                b, me = obj
                if me.get('isArrow'):
                    this = b.place if isinstance(b, PtrTo) else self.deref(s, b, n)
                else:
                    this = b if isinstance(b, Place) else self.place(s, b)
            dispatched = False
            if isinstance(this, HeapObj) and this.dyn is not None:
                d0 = self.tu.byid.get(did) or {}
                if d0.get('virtual'):
                    g = self.tu.override(this.dyn, d0)
                    if g is None:
                        raise Unsupported('virtual call of %s on %s' % (q, this.dyn))
                    q, f = g
                    dispatched = True
                    spec = self.spec_for(q, f, len(args))
                spec = self.spec_for(this.dyn + '::' + name, f or d0, len(args)) or spec
            if spec is not None:
                self.used_specs.add(spec.name)
                out += spec.apply(self, s, this, vs, n)
                continue
            d0 = self.tu.byid.get(did) or {}
            if d0.get('virtual') and not dispatched and not self.specs.get('#devirtualise'):
                raise Unsupported('virtual call %s without a contract' % q)
            if f is None:
                raise Unsupported('call of %s: no body and no contract' % q)
            self.inlined.add(q)
            out += self.run_body(f, vs, s, {}, this, n)
        return out

    def defaultarg(self, st, v, did, i):
        if isinstance(v, PyObj) and v.kind == 'defaultarg':
            # the default is written on some declaration of the function
            cur = self.tu.byid.get(did)
            cands = [cur] + [d for d in self.tu.byid.values() if d.get('kind', '').startswith(('CXXMethod', 'Function'))
                             and self.tu.qname.get(d['id']) == self.tu.qname.get(did)]
            for d in cands:
                ps = self.tu.params(d) if d else []
                if i < len(ps) and ps[i].get('inner'):
                    return self.ev1(ps[i]['inner'][0], st)[1]
            raise Unsupported('default argument')
        return v

    def run_body(self, f, args, st, env, this, node):
        if self.depth >= self.MAXDEPTH:
            raise Unsupported('call depth')
        self.depth += 1
        self.bodies[f['id']] = f
        try:
            saved_env = st.env
            st.env = dict(env)
            if this is not None:
                st.env['this'] = this
            self.bind_params(f, args, st)
            outs = self.run(f, st)
            res = []
            for o in outs:
                o.st.env = dict(saved_env)
                if o.kind == 'throw':
                    o.st.thrown = o.st.thrown or 'throw'
                    res.append((o.st, None))
                elif o.kind in ('return', 'fall'):
                    res.append((o.st, o.val if o.val is not None else Val(z3.BoolVal(True), ('void',))))
                else:
                    raise Unsupported('stray ' + o.kind)
            return res
        finally:
            self.depth -= 1

    def run(self, f, st):
        """execute the body (constructor initialisers first)"""
        saved = self.retty
        fsaved, self.curf = getattr(self, 'curf', None), f
        rt = f['type'].get('qualType', '')
        self.retty = self.fn_ret(f)
        self.retref = rt.split('(')[0].strip().endswith('&')
        try:
            if f['kind'] == 'CXXConstructorDecl':
                sts = self.ctor_inits(f, st)
            else:
                sts = [st]
            outs = []
            for s in sts:
                if s.thrown:
                    outs.append(Out(s, 'throw'))
                    continue
                outs += self.exec(self.tu.body(f), s)
            return outs
        finally:
            self.retty = saved
            self.curf = fsaved

    def only_read(self, d):
        """a local that the function never hands out for writing"""
        todo = [(None, self.curf)]
        while todo:
            up, x = todo.pop()
            if x.get('kind') == 'DeclRefExpr' and x.get('referencedDecl', {}).get('id') == d['id']:
                if not (up and up.get('kind') == 'ImplicitCastExpr' and (up.get('castKind') == 'LValueToRValue' or up['type'].get('qualType', '').startswith('const '))):
                    return False
            todo += [(x, c) for c in x.get('inner', ()) if isinstance(c, dict)]
        return True

    def fn_ret(self, f):
        q = f['type'].get('desugaredQualType') or f['type']['qualType']
        # 'R (args) const'
        d = 0
        for i, ch in enumerate(q):
            if ch == '<':
                d += 1
            elif ch == '>':
                d -= 1
            elif ch == '(' and d == 0:
                r = q[:i].strip()
                if r == 'auto':
                    j = q.rfind('->')
                    if j >= 0:
                        r = q[j + 2:].strip()
                    else:
                        return (None, False)
                if r.endswith(')'):
                    return (None, False)
                return self.tc.ty(r)
        return (None, False)

    def ctor_inits(self, f, st):
        this = st.env.get('this')
        rec = this.ty[1]
        inits = [c for c in f.get('inner', ()) if c.get('kind') == 'CXXCtorInitializer']
        sts = [st]
        for c in inits:
            nxt = []
            for s in sts:
                if 'anyInit' in c:
                    fid = c['anyInit']['id']
                    if fid not in self.fieldinfo:
                        raise Unsupported('ctor initialiser')
                    own, fn, decl = self.fieldinfo[fid]
                    fty, isref = self.tc.ty(decl['type'])
                    if c['inner'][0].get('kind') == 'CXXDefaultInitExpr':
                        nxt.append(s)        # done by default_fields
                        continue
                    for s2, v in self.ev(c['inner'][0], s):
                        pl = this.field(self, own, fn, ('ptr', fty) if isref else fty) if isinstance(this, HeapObj) else None
                        if pl is None:
                            i, t = self.fieldidx(rec, own, fn)
                            pl = Sub(this, i, t)
                        if isref:
                            v = self.rv(s2, PtrTo(v))
                        r = self.rv(s2, v)
                        if isinstance(r, InitList):
                            r = stl.construct(self, s2, fty, r.items, None, {})[0][1]
                        pl.set(self, s2, self.coerce(s2, r, pl.ty).t)
                        nxt.append(s2)
                else:
                    if c.get('inner'):
                        base = unwrap(c['inner'][0])
                        bt = self.ty(base)
                        if bt[0] == 'rec':
                            args = [a for a in base.get('inner', ()) if a.get('kind')]
                            for s2, vs in self.evs(args, s):
                                nxt += [x[0] for x in self.run_ctor(bt[1], HeapObj(this.ref, bt[1]), vs, s2, base)]
                            continue
                    nxt.append(s)
            sts = nxt
        return sts

    def find_ctor(self, rec, n, nargs=None):
        ct = n.get('ctorType', {}).get('qualType')
        short = rec.split('::')[-1]
        c = self.tu.funcs.get(rec + '::' + short, [])
        norm = lambda t: t.replace('hgdb::', '').replace(' ', '')
        m = [f for f in c if ct is None or norm(f['type']['qualType']) == norm(ct) or norm(f['type'].get('desugaredQualType', '')) == norm(ct)]
        if nargs is not None:
            m = [f for f in m if len(self.tu.params(f)) == nargs] or m
        m = [f for f in m if self.tu.body(f) is not None] or m
        if len(m) >= 1:
            return m[0]
        return None

    def run_ctor(self, rec, this, args, st, n):
        f = self.find_ctor(rec, n, len(args))
        if f is None:
            raise Unsupported('constructor of %s' % rec)
        return self.run_body(f, args, st, {}, this, n)

    def bind_params(self, f, args, st):
        ps = self.tu.params(f)
        if len(ps) != len(args):
            if len(args) < len(ps):
                for p in ps[len(args):]:
                    if not p.get('inner'):
                        raise Unsupported('arity')
                    args = list(args) + [self.ev1(p['inner'][0], st)[1]]
            else:
                raise Unsupported('arity')
        for p, a in zip(ps, args):
            ty, isref = self.tc.ty(p['type'])
            if p['type'].get('qualType', '').rstrip().endswith('&'):
                isref = True
            self.declname[p['id']] = p.get('name')
            if isref and isinstance(a, Place):
                st.env[p['id']] = a
            else:
                r = self.rv(st, a)
                key = self.newkey(p)
                if isinstance(r, Val) and r.ty[0] == 'nullopt':
                    r = Val(self.none(ty), ty)
                if isinstance(r, Val):
                    if r.ty[0] == 'str' and ty == ('ptr', ('int', 8, True)):     # C string, by its text
                        ty = r.ty
                    if ty[0] not in ('opaque', 'iter') or r.ty[0] == 'opaque':
                        r = self.coerce(st, r, ty)
                    else:
                        ty = r.ty
                    st.vars[key] = r.t
                    st.env[p['id']] = Local(key, ty)
                else:
                    if isinstance(r, InitList):
                        r = stl.construct(self, st, ty, [r], None, {})[0][1]
                        st.vars[key] = r.t
                    else:
                        st.vars[key] = r
                    st.env[p['id']] = Local(key, ty)

    def newkey(self, decl):
        self.frame += 1
        return '%s#%d' % (decl.get('name', 'v'), self.frame)

    # ------------------------------------------------------------ statements
    def exec(self, n, st):
        k = n['kind']
        self.paths += 1
        if self.paths > 400000:
            raise Unsupported('path budget')
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n, st)
        # expression statement
        out = []
        for s, v in self.ev(n, st):
            out.append(Out(s, 'throw' if s.thrown else 'fall'))
        return out

    def s_CompoundStmt(self, n, st):
        outs = [Out(st, 'fall')]
        for c in n.get('inner', ()):
            nxt = []
            for o in outs:
                if o.kind != 'fall':
                    nxt.append(o)
                else:
                    nxt += self.exec(c, o.st)
            outs = nxt
            if len(outs) > self.MAXPATH:
                raise Unsupported('too many paths')
        return outs

    def s_NullStmt(self, n, st):
        return [Out(st, 'fall')]

    def s_AttributedStmt(self, n, st):
        return self.exec(n['inner'][-1], st)

    def s_DeclStmt(self, n, st):
        outs = [Out(st, 'fall')]
        for d in n.get('inner', ()):
            nxt = []
            for o in outs:
                if o.kind != 'fall':
                    nxt.append(o)
                else:
                    nxt += self.decl(d, o.st)
            outs = nxt
        return outs

    def decl(self, d, st):
        k = d['kind']
        if k in ('UsingDecl', 'UsingDirectiveDecl', 'TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl',
                 'CXXRecordDecl', 'EnumDecl', 'NamespaceAliasDecl', 'EmptyDecl'):
            return [Out(st, 'fall')]
        if k == 'DecompositionDecl':
            return self.decompose(d, st)
        if k != 'VarDecl':
            raise Unsupported('declaration ' + k)
        ty, isref = self.tc.ty(d['type'])
        self.declname[d['id']] = d.get('name')
        self.localdecls.add(d['id'])
        if ty == ('opaque', 'lock'):
            return [Out(st, 'fall')]
        init = [c for c in d.get('inner', ()) if c.get('kind') and not c['kind'].endswith('Attr')]
        if d.get('storageClass') == 'static':
            return self.static_local(d, ty, init, st)
        if ty[0] == 'opaque' and 'vpi_' in ty[1] and init and init[0]['kind'] == 'CXXConstructExpr' and not init[0].get('inner'):
            init = []
        if not init:
            v = self.uninit(st, ty, d)
            key = self.newkey(d)
            st.vars[key] = v
            st.env[d['id']] = Local(key, ty)
            return [Out(st, 'fall')]
        out = []
        for s, v in self.ev(init[0], st):
            if s.thrown:
                out.append(Out(s, 'throw'))
                continue
            self.bind_local(d, ty, isref, v, s)
            out.append(Out(s, 'fall'))
        return out

    def uninit(self, st, ty, d):
        if ty[0] in ('vec', 'map', 'set', 'opt', 'str'):
            return self.emptyval(ty)
        if ty[0] == 'rec':
            raise Unsupported('uninitialised record local')
        if ty[0] == 'opaque' and 'vpi_' in ty[1]:
            return PyObj('aggr', key=self.newkey(d), items=None)
        return self.newval(st, 'uninit_' + d.get('name', ''), ty)

    def bind_local(self, d, ty, isref, v, s):
        if isref and isinstance(v, Place):
            s.env[d['id']] = v
            return
        if isinstance(v, HeapObj) and v.fresh:      # just constructed here: no copy
            s.env[d['id']] = v
            return
        r = self.rv(s, v)
        key = self.newkey(d)
        if isinstance(r, Val):
            if r.ty[0] == 'void':
                raise Unsupported('void value')
            if ty == ('ptr', ('opaque', 'element_type')) and r.ty[0] == 'ptr':        # shared_ptr<T>::get(): T is known from the pointer
                ty = r.ty
            cstr = r.ty[0] == 'str' and ty in (('ptr', ('int', 8, True)), ('ptr', ('opaque', 'Ch')))     # text.c_str()
            if ty[0] not in ('opaque', 'iter') and not cstr:
                r = self.coerce(s, r, ty)
            s.vars[key] = r.t
            s.env[d['id']] = Local(key, r.ty if ty[0] in ('opaque', 'iter') or cstr else ty)
        else:
            if isinstance(r, InitList) and ty[0] == 'opaque':
                s.vars[key] = PyObj('aggr', key=str(key) + '#', items=[self.rv(s, x) for x in r.items])
            elif isinstance(r, InitList):
                r = stl.construct(self, s, ty, [r], None, {})[0][1]
                s.vars[key] = r.t
            else:
                s.vars[key] = r
            s.env[d['id']] = Local(key, ty)

    def static_local(self, d, ty, init, st):
        q = d['type'].get('qualType', '')
        if not init:
            # mutable function-local static: unknown value at entry
            key = ('static', d['id'])
            if key not in st.vars:
                st.vars[key] = self.newval(st, 'static_' + d.get('name', ''), ty)
            st.env[d['id']] = Local(key, ty)
            return [Out(st, 'fall')]
        if 'const' not in q and not d.get('constexpr') and not (ty[0] == 'opaque' and 'vpi_' in ty[1]) and not self.only_read(d):
            raise Unsupported('mutable static local')
        out = []
        for s, v in self.ev(init[0], st):
            r = self.rv(s, v)
            if isinstance(r, Val) and ty[0] in ('int', 'bool') and not z3.is_const(z3.simplify(r.t)):
                v = Val(self.newval(s, 'static_' + d.get('name', ''), ty), ty)      # computed once, some time ago
            self.bind_local(d, ty, False, v, s)
            out.append(Out(s, 'fall'))
        return out

    def decompose(self, d, st):
        init = [c for c in d.get('inner', ()) if c.get('kind') and c['kind'] != 'BindingDecl']
        binds = [c for c in d.get('inner', ()) if c.get('kind') == 'BindingDecl']
        isref = '&' in d['type'].get('qualType', '')
        out = []
        for s, v in self.ev(init[0], st):
            if s.thrown:
                out.append(Out(s, 'throw'))
                continue
            self.bind_decomp(binds, v, s, isref)
            out.append(Out(s, 'fall'))
        return out

    def bind_decomp(self, binds, v, s, isref):
        r = v if isinstance(v, PairView) else None
        if r is None:
            if isref and isinstance(v, Place):
                pl = v
            else:
                val = self.rv(s, v)
                if isinstance(val, PyObj):
                    for i, b in enumerate(binds):
                        self.declname[b['id']] = b.get('name')
                        s.env[b['id']] = val.items[i]
                    return
                if isinstance(val, InitList):
                    raise Unsupported('decomposition of init list')
                key = self.newkey({'name': 'decomp'})
                s.vars[key] = val.t
                pl = Local(key, val.ty)
        for i, b in enumerate(binds):
            self.declname[b['id']] = b.get('name')
            if r is not None:
                s.env[b['id']] = Temp(r.key, r.ty[1]) if i == 0 else MapVal(r.base, r.key, r.ty[2])
            elif pl.ty[0] in ('tup',):
                s.env[b['id']] = Sub(pl, i, pl.ty[1 + i])
            elif pl.ty[0] == 'rec':
                own, f, ft = self.fields(pl.ty[1])[i]
                s.env[b['id']] = pl.field(self, own, f, ft) if isinstance(pl, HeapObj) else Sub(pl, i, ft)
            else:
                raise Unsupported('decomposition of %s' % (pl.ty,))

    def s_IfStmt(self, n, st):
        inner = [c for c in n['inner']]
        outs0 = [Out(st, 'fall')]
        i = 0
        if n.get('hasInit'):
            outs0 = self.exec(inner[0], st)
            i = 1
        if n.get('hasVar'):
            nxt = []
            for o in outs0:
                nxt += self.exec(inner[i], o.st) if o.kind == 'fall' else [o]
            outs0 = nxt
            i += 1
        cond = inner[i]
        then = inner[i + 1]
        els = inner[i + 2] if n.get('hasElse') else None
        out = []
        if n.get('isConstexpr') and cond.get('kind') == 'ConstantExpr' and cond.get('value') in ('true', 'false'):
            take = then if cond['value'] == 'true' else els
            for o in outs0:
                out += self.exec(take, o.st) if o.kind == 'fall' and take is not None else [o]
            return out
        for o in outs0:
            if o.kind != 'fall':
                out.append(o)
                continue
            for s, v in self.ev(cond, o.st):
                if s.thrown:
                    out.append(Out(s, 'throw'))
                    continue
                for s2, b in self.split(s, self.truth(s, v), n):
                    if b:
                        out += self.exec(then, s2)
                    elif els is not None:
                        out += self.exec(els, s2)
                    else:
                        out.append(Out(s2, 'fall'))
        return out

    def s_ReturnStmt(self, n, st):
        inner = [c for c in n.get('inner', ()) if c.get('kind')]
        if not inner:
            return [Out(st, 'return')]
        out = []
        rty, isref = self.retty
        for s, v in self.ev(inner[0], st):
            if s.thrown:
                out.append(Out(s, 'throw'))
                continue
            if rty is not None and isref and isinstance(v, Place):
                out.append(Out(s, 'return', v))
                continue
            r = self.rv(s, v)
            if isinstance(r, InitList) and rty is not None:
                r = stl.construct(self, s, rty, [r], None, {})[0][1]
            if isinstance(r, Val) and rty is not None and rty[0] not in ('void', 'opaque', 'iter'):
                r = self.coerce(s, r, rty)
            out.append(Out(s, 'return', r))
        return out

    def s_BreakStmt(self, n, st):
        return [Out(st, 'break')]

    def s_ContinueStmt(self, n, st):
        return [Out(st, 'continue')]

    def s_SwitchStmt(self, n, st):
        inner = [c for c in n['inner'] if c.get('kind')]
        cond, body = inner[-2], inner[-1]
        if n.get('hasInit') or n.get('hasVar'):
            raise Unsupported('switch with init')
        # flatten body: list of (labels, stmt)
        items = []

        def flat(s):
            if s['kind'] == 'CaseStmt':
                sub = [c for c in s['inner'] if c.get('kind')]
                items.append(('case', sub[0]))
                flat(sub[-1])
            elif s['kind'] == 'DefaultStmt':
                items.append(('default', None))
                flat(s['inner'][-1])
            else:
                items.append(('stmt', s))
        for c in body.get('inner', ()):
            flat(c)
        out = []
        for s, v in self.ev(cond, st):
            if s.thrown:
                out.append(Out(s, 'throw'))
                continue
            r = self.rv(s, v)
            cases = []
            for i, (k, e) in enumerate(items):
                if k == 'case':
                    s2, cv = self.ev1(e, s)
                    cvr = self.rv(s, cv)
                    if cvr.ty != r.ty and cvr.t.sort() != r.t.sort():
                        cvr = self.convert(s, cvr, r.ty)
                    cases.append((i, r.t == cvr.t))
            default = [i for i, (k, e) in enumerate(items) if k == 'default']
            starts = []
            rest = s
            for i, c in cases:
                got = self.split(rest, c, n)
                rest = None
                for s2, b in got:
                    if b:
                        starts.append((s2, i))
                    else:
                        rest = s2
                if rest is None:
                    break
            if rest is not None:
                starts.append((rest, default[0] if default else len(items)))
            for s2, i in starts:
                outs = [Out(s2, 'fall')]
                for k, e in items[i:]:
                    if k != 'stmt':
                        continue
                    nxt = []
                    for o in outs:
                        nxt += self.exec(e, o.st) if o.kind == 'fall' else [o]
                    outs = nxt
                for o in outs:
                    if o.kind == 'break':
                        o.kind = 'fall'
                    out.append(o)
        return out

    def s_CXXTryStmt(self, n, st):
        body = n['inner'][0]
        handlers = n['inner'][1:]
        out = []
        for o in self.exec(body, st):
            if o.kind == 'throw':
                o.st.thrown = None
                if len(handlers) != 1:
                    raise Unsupported('several handlers')
                h = [c for c in handlers[0].get('inner', ()) if c.get('kind') == 'CompoundStmt'][0]
                for c in handlers[0].get('inner', ()):
                    if c.get('kind') == 'VarDecl':
                        o.st.env[c['id']] = PyObj('exception')
                out += self.exec(h, o.st)
            else:
                out.append(o)
        return out

    # ------------------------------------------------------------ loops
    def loop_spec(self, node):
        i = self.loopcount
        self.loopcount += 1
        return i

    def get_loop_spec(self, node):
        """loop contracts are bound in the order the loops are first reached (dry runs included)"""
        key = node.get('id')
        if key not in self.loopbind:
            i = len(self.loopbind)
            self.loopbind[key] = i
        i = self.loopbind[key]
        if i >= len(self.loopspecs) or self.loopspecs[i] is None:
            raise Unsupported('loop at line %s has no invariant' % line_of(node))
        return self.loopspecs[i]

    def s_WhileStmt(self, n, st):
        inner = [c for c in n['inner'] if c.get('kind')]
        if n.get('hasVar'):
            return self.general_loop(n, st, inner[1], None, inner[2], first=inner[0])
        return self.general_loop(n, st, inner[0], None, inner[1])

    def s_DoStmt(self, n, st):
        raise Unsupported('do loop')

    def s_ForStmt(self, n, st):
        init, var, cond, inc, body = n['inner'][:5]
        outs = [Out(st, 'fall')]
        if init.get('kind'):
            outs = self.exec(init, st)
        res = []
        for o in outs:
            if o.kind != 'fall':
                res.append(o)
            else:
                lv = None
                if init.get('kind') == 'DeclStmt':
                    for d in init.get('inner', []):
                        p = o.st.env.get(d.get('id'))
                        if isinstance(p, Local) and lv is None and (p.ty[0] == 'int' or isinstance(o.st.vars.get(p.k), Iter)):
                            lv = p.k
                res += self.general_loop(n, o.st, cond if cond.get('kind') else None,
                                         inc if inc.get('kind') else None, body, lv)
        return res

    def diff(self, a, b):
        """which variables / heap keys differ between states a (before) and b (after)"""
        vs = {k for k in a.vars if k in b.vars and a.vars[k] is not b.vars[k] and
              not (z3.is_expr(a.vars[k]) and z3.is_expr(b.vars[k]) and a.vars[k].eq(b.vars[k]))}
        hs = set()
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None:
                x = self.heap0.get(k)
            if y is None:
                y = self.heap0.get(k)
            if x is None or y is None or not x.eq(y):
                hs.add(k)
        return vs, hs

    def stable(self, t, n0):
        """term built only from constants that existed before the loop"""
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                return False
            if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if '!' in nm:
                    try:
                        if int(nm.rsplit('!', 1)[1]) > n0:
                            return False
                    except ValueError:
                        return False
            todo.extend(x.children())
        return True

    def write_refs(self, base, finals, n0):
        """references one iteration stores to, as (stable refs, only-otherwise-fresh-objects) or None if unknown"""
        refs = []
        for a in finals:
            while not a.eq(base):
                if z3.is_store(a):
                    r = a.arg(1)
                    if self.stable(r, n0):
                        if not any(x.eq(r) for x in refs):
                            refs.append(r)
                    elif not (z3.is_const(r) and r.decl().name().startswith('new_')):
                        return None
                    a = a.arg(0)
                else:
                    return None
        return refs

    def havoc(self, st, vs, hs, only=None):
        for k in sorted(vs, key=str):
            v = st.vars[k]
            if isinstance(v, Iter) and v.kind == 'vec':
                st.vars[k] = Iter('vec', v.place, idx=self.fresh('it', self.size), rev=v.rev)
                if self.mode == 'int':
                    st.pc.append(st.vars[k].idx >= (-1 if v.rev else 0))
                continue
            if isinstance(v, PtrTo):
                raise Unsupported('loop changes a pointer to a local')
            if not z3.is_expr(v):
                raise Unsupported('loop changes a non-term local')
            ty = self.varty(st, k)
            nv = self.fresh('hv_' + str(k), v.sort())
            if ty is not None:
                self.know(st, nv, ty)
            st.vars[k] = nv
        for k in sorted(hs):
            cur = st.heap.get(k)
            if cur is None:
                cur = self.heap0[k]
            new = st.heap[k] = self.fresh('hv_H[%s]' % k, cur.sort())
            r = z3.Int('fr')
            if k == '#alloc':
                st.pc.append(z3.ForAll([r], z3.Implies(z3.Select(cur, r), z3.Select(new, r)), patterns=[z3.Select(new, r)]))
            elif only and only.get(k) is not None:
                al = self.allocd(st) if '#alloc' not in hs else only['#alloc0']
                st.pc.append(z3.ForAll([r], z3.Implies(z3.And(z3.Select(al, r), *[r != x for x in only[k]]),
                                                       z3.Select(new, r) == z3.Select(cur, r)), patterns=[z3.Select(new, r)]))

    def varty(self, st, k):
        for p in st.env.values():
            if isinstance(p, Local) and p.k == k:
                return p.ty
        return None

    def general_loop(self, n, st, cond, inc, body, lv=None, first=None):
        spec = self.get_loop_spec(n)

        def step(s0):
            """one guarded iteration from s0: -> (exits [state], continues [state], outs)"""
            exits, cont, outs = [], [], []
            starts = [s0]
            if first is not None:         # while (T x = ...)
                starts = []
                for o in self.exec(first, s0):
                    if o.kind == 'fall':
                        starts.append(o.st)
                    else:
                        outs.append(o)
            conds = []
            for s in starts:
                conds += self.ev(cond, s) if cond is not None else [(s, Val(z3.BoolVal(True), ('bool',)))]
            for s, v in conds:
                if s.thrown:
                    outs.append(Out(s, 'throw'))
                    continue
                for s2, b in self.split(s, self.truth(s, v), n):
                    if not b:
                        exits.append(s2)
                        continue
                    for o in self.exec(body, s2):
                        if o.kind in ('fall', 'continue'):
                            if inc is not None:
                                for s3, _ in self.ev(inc, o.st):
                                    cont.append(s3)
                            else:
                                cont.append(o.st)
                        elif o.kind == 'break':
                            exits.append(o.st)
                        else:
                            outs.append(o)
            return exits, cont, outs
        return self.cut_loop(n, st, spec, step, lambda s: {'idx': position(s.vars[lv])} if lv in s.vars else {})

    def cut_loop(self, n, st, spec, step, mkghost, ghostkeys=()):
        self.loopstack.append(mkghost)
        try:
            return self.cut_loop_(n, st, spec, step, mkghost, ghostkeys)
        finally:
            self.loopstack.pop()

    def cut_loop_(self, n, st, spec, step, mkghost, ghostkeys):
        line = line_of(n)
        idx = self.loopbind[n.get('id')]
        entry = st.copy()
        outer_env = dict(st.env)
        outer_vars = set(st.vars)
        # fixpoint of the modified set by dry runs
        vs, hs = set(ghostkeys), set()
        n0 = self.n
        for _ in range(8):
            s = st.copy()
            self.havoc(s, vs, hs)
            rec, self.record = self.record, False
            try:
                ex, cont, outs = step(s.copy())
            finally:
                self.record = rec
            nv, nh = set(vs), set(hs)
            for c in cont + ex:
                a, b = self.diff(s, c)
                nv |= a & outer_vars
                nh |= b
            if nv == vs and nh == hs:
                break
            vs, hs = nv, nh
        else:
            raise Unsupported('loop modified set')
        # frame of the loop: objects one iteration cannot write keep their fields
        only = {'#alloc0': self.allocd(st)}
        for k in hs:
            if k != '#alloc':
                base = s.heap.get(k, self.heap0.get(k))
                only[k] = self.write_refs(base, [c.heap.get(k, self.heap0.get(k)) for c in cont + ex], n0)

        def ctx(s):
            g = mkghost(s)
            return LoopCtx(self, s, entry, self.entry, this=st.env.get('this'), **g)
        for nm, inv in spec.inv(ctx(st)):
            self.oblige(st, 'loop%d-invariant-on-entry:%s' % (idx, nm), inv, n, 'loop')
        s = st.copy()
        self.havoc(s, vs, hs, only)
        for nm, inv in spec.inv(ctx(s)):
            self.assume(s, inv)
        if getattr(spec, 'hint', None):
            for f in spec.hint(ctx(s)):
                self.assume(s, f)
        var0 = spec.decr(ctx(s)) if getattr(spec, 'decr', None) else None
        head = s.copy()
        exits, cont, outs = step(s)
        for c in cont:
            c.env = dict(outer_env)
            cx = ctx(c)
            for nm, inv in spec.inv(cx):
                self.oblige(c, 'loop%d-invariant-preserved:%s' % (idx, nm), inv, n, 'loop')
            if var0 is not None:
                v1 = spec.decr(cx)
                self.oblige(c, 'loop%d-variant-decreases' % idx, z3.ULT(v1, var0) if z3.is_bv(v1) else z3.And(v1 < var0, var0 >= 0), n, 'loop')
        if var0 is None and not getattr(spec, 'finite', False):
            self.assumptions.add('termination of the loop at %s:%s not proved' % (self.fn, line))
        res = []
        for e in exits:
            e.env = dict(outer_env)
            res.append(Out(e, 'fall'))
        return res + outs

    def s_CXXForRangeStmt(self, n, st):
        # clang: [init?] range-decl begin-decl end-decl cond inc loopvar body
        inner = n['inner']
        rngdecl = None
        for c in inner:
            if c.get('kind') == 'DeclStmt' and c['inner'][0].get('name', '').startswith('__range'):
                rngdecl = c['inner'][0]
        body = inner[-1]
        loopvar = inner[-2]['inner'][0]
        if inner[0].get('kind'):
            raise Unsupported('range-for with init')
        rexpr = [c for c in rngdecl['inner'] if c.get('kind')][0]
        res = []
        for s, v in self.ev(rexpr, st):
            if s.thrown:
                res.append(Out(s, 'throw'))
                continue
            if isinstance(v, Place) and v.ty and v.ty[0] == 'rec':
                # a class with begin() and end() of its own: it is the container these are of
                w = self.range_of(n, s, v)
                if w is not None:
                    v = w
            r = self.rv(s, v)
            if isinstance(r, InitList):
                raise Unsupported('range-for over init list')
            if isinstance(r, PyObj):
                raise Unsupported('range-for over %s' % r.kind)
            pl = v if isinstance(v, Place) else Temp(r.t, r.ty)
            if isinstance(pl, Temp):
                key = self.newkey({'name': '__range'})
                s.vars[key] = pl.v
                pl = Local(key, pl.ty)
            if r.ty[0] == 'vec':
                res += self.range_vec(n, s, pl, loopvar, body)
            elif r.ty[0] in ('map', 'set'):
                res += self.range_assoc(n, s, pl, r.ty, loopvar, body)
            elif r.ty[0] == 'str':
                res += self.range_vec(n, s, pl, loopvar, body, string=True)
            else:
                raise Unsupported('range-for over %s' % (r.ty,))
        return res

    def range_of(self, n, st, pl):
        its = {}
        for which in ('begin', 'end'):
            d = next((c['inner'][0] for c in n['inner'] if c.get('kind') == 'DeclStmt' and c['inner'][0].get('name', '').startswith('__' + which)), None)
            call = d and [c for c in d['inner'] if c.get('kind')][0]
            while call and call.get('kind') != 'CXXMemberCallExpr':
                call = call['inner'][0] if call.get('inner') else None
            if not call:
                return None
            me = unwrap(call['inner'][0])
            outs = self.call_method(call, me, st, pl, [])
            if len(outs) != 1 or outs[0][0] is not st or not isinstance(self.rv(st, outs[0][1]), Iter):
                return None
            its[which] = self.rv(st, outs[0][1])
        a, b = its['begin'], its['end']
        if a.kind != 'vec' or a.rev or b.rev or type(a.place) is not type(b.place):
            return None
        ln = stl.vec_parts(self, st, a.place)[0]
        if not (z3.is_true(z3.simplify(a.idx == 0)) and z3.is_true(z3.simplify(b.idx == ln)) and self.rv(st, a.place).t.eq(self.rv(st, b.place).t)):
            return None
        return a.place

    def bind_loopvar(self, lv, pl, s):
        self.declname[lv['id']] = lv.get('name')
        if lv['kind'] == 'DecompositionDecl':
            binds = [c for c in lv.get('inner', ()) if c.get('kind') == 'BindingDecl']
            isref = '&' in lv['type'].get('qualType', '') or True
            self.bind_decomp(binds, pl, s, isref)
            return
        ty, isref = self.tc.ty(lv['type'])
        if lv['type'].get('qualType', '').rstrip().endswith('&'):
            isref = True
        if isinstance(pl, PairView):
            s.env[lv['id']] = pl
            return
        if isref:
            s.env[lv['id']] = pl
        else:
            r = self.rv(s, pl)
            key = self.newkey(lv)
            s.vars[key] = r.t
            s.env[lv['id']] = Local(key, r.ty)

    def range_vec(self, n, st, pl, loopvar, body, string=False):
        spec = self.get_loop_spec(n)
        gk = '#idx%s' % n['id']
        st.vars[gk] = self.I(0)

        def length(s):
            t = pl.get(self, s)
            self.know(s, t, pl.ty)
            return self.slen(t) if string else self.acc(t, 0)

        def step(s0):
            exits, cont, outs = [], [], []
            i = s0.vars[gk]
            for s, b in self.split(s0, self.lt(i, length(s0), False), n):
                if not b:
                    exits.append(s)
                    continue
                if string:
                    ch = self.sat(pl.get(self, s), i)
                    e = Temp(ch, ('int', 8, True))
                    self.know(s, ch, e.ty)
                else:
                    e = VecElem(pl, i, pl.ty[1])
                self.bind_loopvar(loopvar, e, s)
                for o in self.exec(body, s):
                    if o.kind in ('fall', 'continue'):
                        o.st.vars[gk] = i + 1
                        cont.append(o.st)
                    elif o.kind == 'break':
                        exits.append(o.st)
                    else:
                        outs.append(o)
            return exits, cont, outs

        class S2:
            finite = True
            hint = getattr(spec, 'hint', None)

            @staticmethod
            def inv(cx):
                ln = length(cx.st)
                base = [('range', z3.And(self.le(self.I(0), cx.idx, False), self.le(cx.idx, ln, False)))]
                return base + spec.inv(cx)
        if self.mode == 'int':
            pass
        return self.cut_loop(n, st, S2, step, lambda s: {'idx': s.vars[gk], 'rng': Val(pl.get(self, s), pl.ty)}, (gk,))

    def range_assoc(self, n, st, pl, ty, loopvar, body):
        spec = self.get_loop_spec(n)
        ks = self.sort(ty[1])
        gk = '#visited%s' % n['id']
        st.vars[gk] = z3.K(ks, z3.BoolVal(False))
        dom0 = self.acc(pl.get(self, st), 0)

        def step(s0):
            exits, cont, outs = [], [], []
            vis = s0.vars[gk]
            s1 = s0.copy()
            # exit: every key visited
            x = z3.Const('vk', ks)
            s1.pc.append(z3.ForAll([x], z3.Implies(z3.Select(dom0, x), z3.Select(vis, x))))
            s1.pc.append(vis == dom0)
            exits.append(s1)
            key = self.fresh('key', ks)
            self.know(s0, key, ty[1])
            s0.pc.append(z3.And(z3.Select(dom0, key), z3.Not(z3.Select(vis, key))))
            if ty[0] == 'map':
                e = PairView(pl, key, ('tup', ty[1], ty[2]))
            else:
                e = Temp(key, ty[1])
            self.bind_loopvar(loopvar, e, s0)
            for o in self.exec(body, s0):
                if o.kind in ('fall', 'continue'):
                    o.st.vars[gk] = z3.Store(vis, key, z3.BoolVal(True))
                    cont.append(o.st)
                elif o.kind == 'break':
                    exits.append(o.st)
                else:
                    outs.append(o)
            return exits, cont, outs

        class S2:
            finite = True
            hint = getattr(spec, 'hint', None)

            @staticmethod
            def inv(cx):
                x = z3.Const('vk', ks)
                d = self.acc(pl.get(self, cx.st), 0)
                return [('visited', z3.ForAll([x], z3.Implies(z3.Select(cx.visited, x), z3.Select(dom0, x)))),
                        ('keys-unchanged', d == dom0)] + spec.inv(cx)
        return self.cut_loop(n, st, S2, step, lambda s: {'visited': s.vars[gk], 'rng': Val(pl.get(self, s), pl.ty)}, (gk,))
