"""Symbolic executor / verification-condition generator over the clang AST.

Every function is executed for symbolic arguments and a symbolic heap; callees with a
contract are replaced by that contract, other callees whose body is in the translation
unit are executed in place (so an extracted helper needs no annotation), loops are cut
by their invariant.  Anything the executor does not model raises Unsupported: the
function is then *not* proved (never silently skipped)."""
import z3

_forall = z3.ForAll


def _safe_forall(vs, body, *a, **k):
    """patterns are hints: one the solver refuses (it met an if in it) is dropped"""
    try:
        return _forall(vs, body, *a, **k)
    except z3.Z3Exception:
        if not k.get('patterns'):
            raise
        return _forall(vs, body)


z3.ForAll = _safe_forall

from . import types as T
from .cast import unwrap, line_of


class Unsupported(Exception):
    pass


class Val:
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty):
        self.t = t
        self.ty = ty

    def __repr__(self):
        return 'Val(%s)' % self.t


class PtrTo:
    """address of an lvalue"""

    def __init__(self, place):
        self.place = place


class Iter:
    """iterator: kind vec (idx) | map/set (key, ok)"""

    def __init__(self, kind, place, idx=None, key=None, ok=None, rev=False):
        self.kind, self.place, self.idx, self.key, self.ok, self.rev = kind, place, idx, key, ok, rev


class Closure:
    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class InitList:
    def __init__(self, items, ty=None):
        self.items = items
        self.ty = ty


class PyObj:
    """opaque python-level value used by trusted models"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


# ---------------------------------------------------------------- places
class Place:
    ty = None


class Local(Place):
    def __init__(self, k, ty):
        self.k, self.ty = k, ty

    def get(self, ex, st):
        if self.k not in st.vars:
            raise Unsupported('read of unset local %s' % (self.k,))
        return st.vars[self.k]

    def set(self, ex, st, v):
        st.vars[self.k] = v


class Temp(Place):
    def __init__(self, v, ty):
        self.v, self.ty = v, ty

    def get(self, ex, st):
        return self.v

    def set(self, ex, st, v):
        self.v = v


class HeapObj(Place):
    """object of record type at ref"""
    fresh = False       # constructed by the expression itself
    dyn = None          # its class, where it is known exactly

    def __init__(self, ref, rec):
        self.ref, self.rec = ref, rec
        self.ty = ('rec', rec)

    def get(self, ex, st):
        s = ex.sort(self.ty)
        fs = ex.fields(self.rec)
        return s.constructor(0)(*[z3.Select(ex.heap(st, own + '.' + f, fty), self.ref)
                                  for own, f, fty in fs])

    def set(self, ex, st, v):
        s = ex.sort(self.ty)
        for i, (own, f, fty) in enumerate(ex.fields(self.rec)):
            k = own + '.' + f
            st.heap[k] = z3.Store(ex.heap(st, k, fty), self.ref, z3.simplify(s.accessor(0, i)(v)))

    def field(self, ex, own, f, fty):
        return HeapField(self.ref, own, f, fty)


class HeapField(Place):
    def __init__(self, ref, own, f, ty):
        self.ref, self.k, self.ty = ref, own + '.' + f, ty

    def get(self, ex, st):
        return z3.Select(ex.heap(st, self.k, self.ty), self.ref)

    def set(self, ex, st, v):
        st.heap[self.k] = z3.Store(ex.heap(st, self.k, self.ty), self.ref, v)


class HeapCell(Place):
    def __init__(self, ref, ty):
        self.ref, self.ty = ref, ty
        self.k = 'cell:' + T.key(ty)

    def get(self, ex, st):
        return z3.Select(ex.heap(st, self.k, self.ty), self.ref)

    def set(self, ex, st, v):
        st.heap[self.k] = z3.Store(ex.heap(st, self.k, self.ty), self.ref, v)


class Sub(Place):
    """component of a datatype-valued place (record field, optional value, pair element)"""

    def __init__(self, base, con_idx, ty, tagset=None):
        self.base, self.i, self.ty, self.tagset = base, con_idx, ty, tagset

    def get(self, ex, st):
        b = self.base.get(ex, st)
        return ex.acc(b, self.i)

    def set(self, ex, st, v):
        b = self.base.get(ex, st)
        s = b.sort()
        n = s.constructor(0).arity()
        a = [ex.acc(b, j) if j != self.i else v for j in range(n)]
        self.base.set(ex, st, s.constructor(0)(*a))


class VecElem(Place):
    def __init__(self, base, idx, ty):
        self.base, self.idx, self.ty = base, idx, ty

    def get(self, ex, st):
        b = self.base.get(ex, st)
        return z3.Select(ex.acc(b, 1), self.idx)

    def set(self, ex, st, v):
        b = self.base.get(ex, st)
        s = b.sort()
        self.base.set(ex, st, s.constructor(0)(ex.acc(b, 0), z3.Store(ex.acc(b, 1), self.idx, v)))


class MapVal(Place):
    def __init__(self, base, key, ty):
        self.base, self.key, self.ty = base, key, ty

    def get(self, ex, st):
        return z3.Select(ex.acc(self.base.get(ex, st), 1), self.key)

    def set(self, ex, st, v):
        b = self.base.get(ex, st)
        s = b.sort()
        self.base.set(ex, st, s.constructor(0)(ex.acc(b, 0), z3.Store(ex.acc(b, 1), self.key, v), ex.acc(b, 2)))


class St:
    def __init__(self):
        self.vars = {}
        self.env = {}      # decl id -> Place | value
        self.heap = {}
        self.pc = []
        self.thrown = None
        self.path = []
        self.facts = set()
        self.note = {}

    def copy(self):
        s = St()
        s.vars = dict(self.vars)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.thrown = self.thrown
        s.path = list(self.path)
        s.facts = set(self.facts)
        s.note = dict(self.note)
        return s


class Obl:
    def __init__(self, fn, name, hyps, goal, line, path, kind):
        self.fn, self.name, self.hyps, self.goal, self.line, self.path, self.kind = \
            fn, name, hyps, goal, line, path, kind
        self.status = None
        self.backend = None
        self.time = 0
        self.model = None

    @property
    def id(self):
        return '%s/%s' % (self.fn, self.name)


class Executor:
    MAXPATH = 4000
    MAXDEPTH = 14

    def __init__(self, tu, mode='int', specs=None, opaque=()):
        self.tu = tu
        self.mode = mode
        self.tc = T.TypeCtx(tu, opaque)
        self.specs = specs or {}
        self.sorts = {}
        self.heap0 = {}
        self.obls = []
        self.record = True
        self.n = 0
        self.axioms = []
        self.lits = {}
        self.Str = z3.DeclareSort('Str')
        self.EMPTY = z3.Const('str_empty', self.Str)
        self.size = z3.IntSort() if mode == 'int' else z3.BitVecSort(64)
        self.slen = z3.Function('slen', self.Str, self.size)
        self.sat = z3.Function('sat', self.Str, self.size, z3.IntSort() if mode == 'int' else z3.BitVecSort(8))
        self.cat = z3.Function('cat', self.Str, self.Str, self.Str)
        self.axioms.append(self.slen(self.EMPTY) == self.I(0))
        self.lits[''] = self.EMPTY
        self.fieldinfo = {}
        self.recfields = {}
        self._index_fields()
        self.fn = '?'
        self.depth = 0
        self.paths = 0
        self.loops = []
        self.looppos = 0
        self.inlined = set()
        self.used_specs = set()
        self.assumptions = set()
        self.ufs = {}
        self.pruner = z3.Solver()
        self.pruner.set('timeout', 60)
        self.alloc_on = False

    # ------------------------------------------------------------ basics
    def fresh(self, pre, sort):
        self.n += 1
        return z3.Const('%s!%d' % (pre, self.n), sort)

    def I(self, v):
        return z3.IntVal(v) if self.mode == 'int' else z3.BitVecVal(v, 64)

    def num(self, v, ty):
        if ty[0] == 'bool':
            return z3.BoolVal(bool(v))
        if ty[0] == 'ptr':
            return z3.IntVal(v)
        if self.mode == 'int':
            return z3.IntVal(v)
        return z3.BitVecVal(v, ty[1] if ty[0] == 'int' else 32)

    def lit(self, s):
        if s not in self.lits:
            c = z3.Const('lit!%d' % len(self.lits), self.Str)
            self.axioms.append(self.slen(c) == self.I(len(s)))
            for o in self.lits.values():
                self.axioms.append(c != o)
            for i, ch in enumerate(s[:24]):
                self.axioms.append(self.sat(c, self.I(i)) == self.num(ord(ch) if ord(ch) < 128 else ord(ch) - 256, ('int', 8, True)))
            self.lits[s] = c
        return self.lits[s]

    def litof(self, t):
        for s, c in self.lits.items():
            if c.eq(t):
                return s
        return None

    def concat(self, parts):
        flat = []

        def add(t):
            if z3.is_app(t) and t.decl().eq(self.cat):
                add(t.arg(0))
                add(t.arg(1))
                return
            l = self.litof(t)
            if l == '':
                return
            if l is not None and flat and isinstance(flat[-1], str):
                flat[-1] += l
            elif l is not None:
                flat.append(l)
            else:
                flat.append(t)
        for p in parts:
            add(p)
        ts = [self.lit(x) if isinstance(x, str) else x for x in flat]
        if not ts:
            return self.EMPTY
        r = ts[-1]
        for x in reversed(ts[:-1]):
            c = self.cat(x, r)
            self.axioms.append(self.slen(c) == self.slen(x) + self.slen(r))
            if self.mode == 'int':
                self.axioms.append(self.slen(x) >= 0)
                self.axioms.append(self.slen(r) >= 0)
                self.axioms.append(z3.Implies(self.slen(c) > 0, c != self.EMPTY))
            r = c
        return r

    def uf(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.ufs:
            self.ufs[k] = z3.Function(name, *sorts)
        return self.ufs[k]

    def acc(self, term, i):
        """datatype accessor with local simplification"""
        s = term.sort()
        if z3.is_app(term) and term.decl().eq(s.constructor(0)):
            return term.arg(i)
        if z3.is_app(term) and term.decl().kind() == z3.Z3_OP_ITE:
            a, b = term.arg(1), term.arg(2)
            if z3.is_app(a) and a.decl().eq(s.constructor(0)) and z3.is_app(b) and b.decl().eq(s.constructor(0)):
                return z3.If(term.arg(0), a.arg(i), b.arg(i))
        return s.accessor(0, i)(term)

    # ------------------------------------------------------------ sorts
    def sort(self, ty):
        k = T.key(ty)
        if k in self.sorts:
            return self.sorts[k]
        h = ty[0]
        if h == 'int':
            s = z3.IntSort() if self.mode == 'int' else z3.BitVecSort(ty[1])
        elif h == 'bool':
            s = z3.BoolSort()
        elif h == 'enum':
            s = z3.IntSort() if self.mode == 'int' else z3.BitVecSort(32)
        elif h == 'ptr':
            s = z3.IntSort()
        elif h == 'str':
            s = self.Str
        elif h == 'vec':
            d = z3.Datatype('Vec_' + k)
            d.declare('mk_' + k, ('len_' + k, self.size), ('arr_' + k, z3.ArraySort(self.size, self.sort(ty[1]))))
            s = d.create()
        elif h == 'map':
            d = z3.Datatype('Map_' + k)
            d.declare('mk_' + k, ('dom_' + k, z3.ArraySort(self.sort(ty[1]), z3.BoolSort())),
                      ('val_' + k, z3.ArraySort(self.sort(ty[1]), self.sort(ty[2]))), ('cnt_' + k, self.size))
            s = d.create()
        elif h == 'set':
            d = z3.Datatype('Set_' + k)
            d.declare('mk_' + k, ('dom_' + k, z3.ArraySort(self.sort(ty[1]), z3.BoolSort())), ('cnt_' + k, self.size))
            s = d.create()
        elif h == 'opt':
            d = z3.Datatype('Opt_' + k)
            d.declare('mk_' + k, ('has_' + k, z3.BoolSort()), ('val_' + k, self.sort(ty[1])))
            s = d.create()
        elif h == 'tup':
            d = z3.Datatype('Tup_' + k)
            d.declare('mk_' + k, *[('e%d_%s' % (i, k), self.sort(a)) for i, a in enumerate(ty[1:])])
            s = d.create()
        elif h == 'rec':
            fs = self.fields(ty[1])
            d = z3.Datatype('Rec_' + k)
            if not fs:
                d.declare('mk_' + k, ('dummy_' + k, z3.IntSort()))
            else:
                d.declare('mk_' + k, *[('%s_%s' % (f, k), self.sort(ft)) for own, f, ft in fs])
            s = d.create()
        elif h == 'opaque':
            s = z3.DeclareSort('Op_' + k)
        else:
            raise Unsupported('sort of %s' % (ty,))
        self.sorts[k] = s
        return s

    def _index_fields(self):
        for q, r in self.tu.records.items():
            for c in r.get('inner', ()):
                if c.get('kind') == 'FieldDecl':
                    self.fieldinfo[c['id']] = (q, c.get('name', '_anon'), c)

    def fields(self, q):
        if q in self.recfields:
            return self.recfields[q]
        r = self.tu.records.get(q)
        if r is None:
            raise Unsupported('record %s has no definition' % q)
        out = []
        for b in r.get('bases', ()):
            bt, _ = self.tc.ty(b['type'])
            if bt[0] == 'rec':
                out += self.fields(bt[1])
        for c in r.get('inner', ()):
            if c.get('kind') == 'FieldDecl':
                ft, isref = self.tc.ty(c['type'])
                if isref:
                    ft = ('ptr', ft)
                out.append((q, c.get('name', '_anon'), ft))
        self.recfields[q] = out
        return out

    def fieldidx(self, rec, own, f):
        for i, (o, n, t) in enumerate(self.fields(rec)):
            if o == own and n == f:
                return i, t
        raise Unsupported('field %s of %s' % (f, rec))

    def fieldty(self, own, f):
        for o, n, t in self.fields(own):
            if n == f:
                return t
        raise Unsupported('no field %s in %s' % (f, own))

    def heap(self, st, k, ty):
        if k in st.heap:
            return st.heap[k]
        if k not in self.heap0:
            self.heap0[k] = z3.Const('H0[%s]' % k, z3.ArraySort(z3.IntSort(), self.sort(ty)))
        return self.heap0[k]

    # ------------------------------------------------------------ facts & obligations
    def isint(self, ty):
        return ty[0] in ('int', 'enum')

    def irange(self, ty):
        if ty[0] == 'enum':
            return (-(1 << 31), (1 << 31) - 1)
        w, s = ty[1], ty[2]
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)

    def rngfact(self, t, ty):
        lo, hi = self.irange(ty)
        return z3.And(t >= lo, t <= hi)

    def know(self, st, t, ty):
        """type-invariant facts about a term read from memory or freshly introduced"""
        if self.mode == 'int' and self.isint(ty):
            if z3.is_int_value(t):
                return
            k = (t.get_id(), T.key(ty))
            if k not in st.facts:
                st.facts.add(k)
                st.pc.append(self.rngfact(t, ty))
                self._keep.append(t)
        elif ty[0] in ('vec', 'map', 'set') and self.mode == 'int':
            i = {'vec': 0, 'map': 2, 'set': 1}[ty[0]]
            n = self.acc(t, i)
            if z3.is_int_value(n):
                return
            k = (n.get_id(), 'len')
            if k not in st.facts:
                st.facts.add(k)
                self._keep.append(n)
                st.pc.append(z3.And(n >= 0, n < (1 << 60)))
        elif ty[0] == 'str' and self.mode == 'int':
            k = (t.get_id(), 'slen')
            if k not in st.facts:
                st.facts.add(k)
                self._keep.append(t)
                st.pc.append(z3.And(self.slen(t) >= 0, self.slen(t) < (1 << 60)))
        elif ty[0] == 'str':
            k = (t.get_id(), 'slen')
            if k not in st.facts:
                st.facts.add(k)
                self._keep.append(t)
                st.pc.append(z3.ULT(self.slen(t), 1 << 60))
        elif ty[0] == 'ptr':
            k = (t.get_id(), 'ref')
            if not z3.is_int_value(t) and k not in st.facts:
                st.facts.add(k)
                self._keep.append(t)
                st.pc.append(t >= 0)

    _keep = []

    def assume(self, st, f):
        if z3.is_true(f):
            return
        st.pc.append(f)

    def oblige(self, st, name, goal, node=None, kind='safety'):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        if z3.is_true(g):
            if self.record:
                o = Obl(self.fn, name, [], g, line_of(node) if node else None, list(st.path), kind)
                o.status, o.backend = 'discharged', 'simplifier'
                self.obls.append(o)
            return
        if self.record:
            self.obls.append(Obl(self.fn, name, list(st.pc), goal, line_of(node) if node else None,
                                 list(st.path), kind))
        st.pc.append(goal)

    def feasible(self, st, c):
        c = z3.simplify(c)
        if z3.is_false(c):
            return False
        if z3.is_true(c):
            return True
        s = self.pruner
        s.push()
        for p in st.pc:
            if not self._hasq(p):
                s.add(p)
        s.add(c)
        r = s.check()
        s.pop()
        return r != z3.unsat

    _qcache = {}

    def _hasq(self, t):
        k = t.get_id()
        if k in self._qcache:
            return self._qcache[k]
        seen = set()
        stack = [t]
        r = False
        while stack:
            x = stack.pop()
            if z3.is_quantifier(x):
                r = True
                break
            for c in x.children():
                if c.get_id() not in seen:
                    seen.add(c.get_id())
                    stack.append(c)
        self._qcache[k] = r
        self._keep.append(t)
        return r

    def split(self, st, c, node=None):
        """-> [(state, bool)]"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        ft = self.feasible(st, c)
        ff = self.feasible(st, z3.Not(c))
        if ft and ff:
            s2 = st.copy()
            st.pc.append(c)
            s2.pc.append(z3.Not(c))
            ln = line_of(node) if node else None
            st.path.append('%s:T' % ln)
            s2.path.append('%s:F' % ln)
            return [(st, True), (s2, False)]
        if ft:
            st.pc.append(c)
            return [(st, True)]
        if ff:
            st.pc.append(z3.Not(c))
            return [(st, False)]
        return []

    # ------------------------------------------------------------ value helpers
    def rv(self, st, v):
        """-> Val (rvalue)"""
        if isinstance(v, Val):
            return v
        if isinstance(v, Place):
            t = v.get(self, st)
            if isinstance(t, (Iter, Closure, PtrTo, InitList, PyObj)):
                return t
            if v.ty[0] == 'ptr' and z3.is_expr(t) and t.sort() == self.Str:
                return Val(t, ('str',))      # a C string by its text
            self.know(st, t, v.ty)
            return Val(t, v.ty)
        if isinstance(v, PtrTo) and isinstance(v.place, (HeapObj, HeapCell)):
            return Val(v.place.ref, ('ptr', v.place.ty))
        return v

    def term(self, st, v):
        r = self.rv(st, v)
        if isinstance(r, Val):
            return r.t
        raise Unsupported('no term for %s' % type(r).__name__)

    def truth(self, st, v):
        r = self.rv(st, v)
        if isinstance(r, PtrTo):
            return z3.BoolVal(True)
        if not isinstance(r, Val):
            raise Unsupported('truth of %r' % (r,))
        return self.tobool(r)

    def tobool(self, r):
        if r.ty[0] == 'bool':
            return r.t
        if r.ty[0] in ('int', 'enum', 'ptr'):
            return r.t != 0
        if r.ty[0] == 'opt':
            return self.acc(r.t, 0)
        raise Unsupported('truth of %s' % (r.ty,))

    def place(self, st, v, ty=None):
        if isinstance(v, Place):
            return v
        if isinstance(v, Val):
            return Temp(v.t, v.ty)
        return Temp(v, ty)

    def deref(self, st, v, node, ty=None):
        """pointer value -> Place"""
        v = self.rv(st, v)
        if isinstance(v, PtrTo):
            return v.place
        if isinstance(v, Iter):
            return self.iter_deref(st, v, node)
        if not isinstance(v, Val):
            raise Unsupported('deref of %s' % type(v).__name__)
        if v.ty[0] == 'opt':
            self.oblige(st, 'deref-of-empty-optional', self.acc(v.t, 0), node)
            return None
        if v.ty[0] != 'ptr':
            raise Unsupported('deref of %s' % (v.ty,))
        self.oblige(st, 'null-deref', v.t != 0, node)
        to = ty or v.ty[1]
        if to[0] == 'rec':
            return HeapObj(v.t, to[1])
        return HeapCell(v.t, to)

    def iter_deref(self, st, it, node):
        if it.kind == 'vec':
            c = self.rv(st, it.place)
            n = self.acc(c.t, 0)
            self.oblige(st, 'iterator-deref-in-range', self.inrange(it.idx, n), node)
            return VecElem(it.place, it.idx, c.ty[1])
        self.oblige(st, 'iterator-deref-valid', it.ok, node)
        c = self.rv(st, it.place)
        if it.kind == 'map':
            pt = ('tup', c.ty[1], c.ty[2])
            return PairView(it.place, it.key, pt)
        return Temp(it.key, c.ty[1])

    def inrange(self, i, n):
        if self.mode == 'int':
            return z3.And(i >= 0, i < n)
        return z3.ULT(i, n)

    def lt(self, a, b, signed=True):
        if z3.is_bv(a):
            return a < b if signed else z3.ULT(a, b)
        return a < b

    def le(self, a, b, signed=True):
        if z3.is_bv(a):
            return a <= b if signed else z3.ULE(a, b)
        return a <= b

    def none(self, ty):
        s = self.sort(ty)
        return s.constructor(0)(z3.BoolVal(False), self.anyval(ty[1]))

    def some(self, ty, t):
        s = self.sort(ty)
        return s.constructor(0)(z3.BoolVal(True), t)

    def anyval(self, ty):
        """a fixed default element (used for the value slot of an empty optional etc.)"""
        return z3.Const('dflt_' + T.key(ty), self.sort(ty))

    def anyarr(self, ix, ty):
        """a fixed array, for the elements outside a container"""
        return z3.Const('dflt_arr_%s_%s' % (str(ix).replace(' ', ''), T.key(ty)), z3.ArraySort(ix, self.sort(ty)))

    def emptyval(self, ty):
        s = self.sort(ty)
        h = ty[0]
        if h == 'vec':
            return s.constructor(0)(self.I(0), self.anyarr(self.size, ty[1]))
        if h == 'map':
            return s.constructor(0)(z3.K(self.sort(ty[1]), False), self.anyarr(self.sort(ty[1]), ty[2]), self.I(0))
        if h == 'set':
            return s.constructor(0)(z3.K(self.sort(ty[1]), False), self.I(0))
        if h == 'opt':
            return self.none(ty)
        if h == 'str':
            return self.EMPTY
        if h == 'ptr':
            return z3.IntVal(0)
        if h == 'bool':
            return z3.BoolVal(False)
        if h in ('int', 'enum'):
            return self.num(0, ty)
        if h == 'tup':
            return s.constructor(0)(*[self.emptyval(a) for a in ty[1:]])
        return None

    def newval(self, st, pre, ty):
        t = self.fresh(pre, self.sort(ty))
        self.know(st, t, ty)
        return t

    def alloc(self, st, pre='obj'):
        """fresh object reference: different from every reference the state can already hold"""
        r = self.fresh('new_' + pre, z3.IntSort())
        st.pc.append(r > 0)
        al = self.allocd(st)
        st.pc.append(z3.Not(z3.Select(al, r)))
        st.heap['#alloc'] = z3.Store(al, r, z3.BoolVal(True))
        return r

    def allocd(self, st):
        if '#alloc' in st.heap:
            return st.heap['#alloc']
        if '#alloc' not in self.heap0:
            self.heap0['#alloc'] = z3.Const('H0[#alloc]', z3.ArraySort(z3.IntSort(), z3.BoolSort()))
        return self.heap0['#alloc']

    # ------------------------------------------------------------ arithmetic
    def wrap(self, t, ty):
        lo, hi = self.irange(ty)
        if z3.is_int_value(t):
            v = t.as_long()
            m = 1 << (hi - lo + 1).bit_length() - 1
            v = (v - lo) % (hi - lo + 1) + lo
            return z3.IntVal(v)
        m = hi - lo + 1
        if ty[2] if ty[0] == 'int' else True:
            return z3.If(t > hi, t - m, z3.If(t < lo, t + m, t))
        return z3.If(t > hi, t - m, z3.If(t < lo, t + m, t))

    def arith(self, st, op, a, b, ty, node, bty=None):
        if self.mode == 'bv':
            return self.arith_bv(st, op, a, b, ty, node, bty)
        signed = ty[0] == 'int' and ty[2]
        lo, hi = self.irange(ty)
        if op in ('+', '-', '*'):
            r = a + b if op == '+' else a - b if op == '-' else a * b
            r = z3.simplify(r)
            if signed:
                self.oblige(st, 'signed-overflow', z3.And(r >= lo, r <= hi), node)
                return r
            if op == '*':
                if z3.is_int_value(r):
                    return self.wrap(r, ty)
                return r % (hi + 1)
            return self.wrap(r, ty)
        if op in ('/', '%'):
            self.oblige(st, 'division-by-zero', b != 0, node)
            if not signed:
                return a / b if op == '/' else a % b
            self.oblige(st, 'signed-overflow', z3.Not(z3.And(a == lo, b == -1)), node)
            q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -(-a / b), (-a) / (-b)))
            return q if op == '/' else a - b * q
        if op in ('&', '|', '^'):
            return self.bitop(st, op, a, b, node)
        if op == '<<' and z3.is_int_value(a) and z3.is_int_value(b):
            return z3.IntVal(a.as_long() << b.as_long())
        if op == '>>' and z3.is_int_value(b):
            return a / z3.IntVal(1 << b.as_long())
        raise Unsupported('integer operator %s in int mode' % op)

    def bitop(self, st, op, a, b, node, bits=8):
        small = z3.Or if op == '&' else z3.And          # & with one small operand only keeps its bits
        self.oblige(st, 'flag-operand-range', z3.And(a >= 0, b >= 0, small(a < (1 << bits), b < (1 << bits))), node)
        r = []
        for i in range(bits):
            x = (a / (1 << i)) % 2 == 1
            y = (b / (1 << i)) % 2 == 1
            c = {'&': z3.And(x, y), '|': z3.Or(x, y), '^': z3.Xor(x, y)}[op]
            r.append(z3.If(c, z3.IntVal(1 << i), z3.IntVal(0)))
        return z3.simplify(z3.Sum(r))

    def arith_bv(self, st, op, a, b, ty, node, bty=None):
        signed = ty[0] == 'int' and ty[2]
        if op in ('+', '-', '*'):
            if signed:
                if op == '+':
                    ok = z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))
                elif op == '-':
                    ok = z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))
                else:
                    ok = z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))
                self.oblige(st, 'signed-overflow', ok, node)
            return a + b if op == '+' else a - b if op == '-' else a * b
        if op in ('/', '%'):
            self.oblige(st, 'division-by-zero', b != 0, node)
            if signed:
                self.oblige(st, 'signed-overflow',
                            z3.Not(z3.And(a == z3.BitVecVal(1 << (a.size() - 1), a.size()), b == -1)), node)
                return a / b if op == '/' else z3.SRem(a, b)
            return z3.UDiv(a, b) if op == '/' else z3.URem(a, b)
        if op == '&':
            return a & b
        if op == '|':
            return a | b
        if op == '^':
            return a ^ b
        if op in ('<<', '>>'):
            w = a.size()
            bs = bty is not None and bty[0] == 'int' and bty[2]
            if b.size() < w:
                bb = z3.SignExt(w - b.size(), b) if bs else z3.ZeroExt(w - b.size(), b)
            elif b.size() > w:
                self.oblige(st, 'shift-amount-in-range', z3.ULT(b, w), node)
                bb = z3.Extract(w - 1, 0, b)
            else:
                bb = b
            self.oblige(st, 'shift-amount-in-range', z3.ULT(bb, w), node)
            if op == '<<':
                return a << bb
            return (a >> bb) if signed else z3.LShR(a, bb)
        raise Unsupported('bv operator ' + op)

    def compare(self, op, a, b, signed):
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        if z3.is_bv(a) and not signed:
            return {'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[op](a, b)
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]

    def convert(self, st, v, ty):
        """integral/bool/enum conversion of Val v to ty"""
        if ty[0] == 'bool':
            return Val(self.tobool(v), ty)
        if v.ty[0] == 'bool':
            return Val(z3.If(v.t, self.num(1, ty), self.num(0, ty)), ty)
        if ty[0] not in ('int', 'enum'):
            return Val(v.t, ty) if v.t.sort() == self.sort(ty) else v
        if v.ty[0] not in ('int', 'enum'):
            raise Unsupported('conversion %s -> %s' % (v.ty, ty))
        if self.mode == 'bv':
            fw = v.t.size()
            tw = ty[1] if ty[0] == 'int' else 32
            if fw == tw:
                return Val(v.t, ty)
            if fw > tw:
                return Val(z3.Extract(tw - 1, 0, v.t), ty)
            s = v.ty[0] == 'enum' or v.ty[2]
            return Val(z3.SignExt(tw - fw, v.t) if s else z3.ZeroExt(tw - fw, v.t), ty)
        lo1, hi1 = self.irange(v.ty)
        lo2, hi2 = self.irange(ty)
        if lo2 <= lo1 and hi1 <= hi2:
            return Val(v.t, ty)
        if z3.is_int_value(v.t):
            x = v.t.as_long()
            return Val(z3.IntVal((x - lo2) % (hi2 - lo2 + 1) + lo2), ty)
        m = hi2 - lo2 + 1
        if hi1 - lo1 == hi2 - lo2:
            return Val(z3.If(v.t > hi2, v.t - m, z3.If(v.t < lo2, v.t + m, v.t)), ty)
        if hi1 - lo1 < m:   # widening, sign change
            return Val(z3.If(v.t < lo2, v.t + m, v.t), ty)
        if lo2 == 0:
            return Val(z3.If(z3.And(v.t >= 0, v.t < m), v.t, v.t % m), ty)
        return Val(z3.If(z3.And(v.t >= lo2, v.t <= hi2), v.t, (v.t - lo2) % m + lo2), ty)


class PairView(Place):
    """*map_iterator: (key, value lvalue)"""

    def __init__(self, base, key, ty):
        self.base, self.key, self.ty = base, key, ty

    def get(self, ex, st):
        m = self.base.get(ex, st)
        return ex.sort(self.ty).constructor(0)(self.key, z3.Select(ex.acc(m, 1), self.key))

    def set(self, ex, st, v):
        raise Unsupported('assignment to map element pair')
