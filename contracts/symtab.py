"""src/db.cc: the JSON symbol table - places, files, conditions, and what a query finds"""
import z3
from hvc.contract import Contract, Assumed, Pure, Havoc, NoEffect, Loop, Cx
from hvc.sym import Val, Iter, PtrTo, PyObj, Temp, Local, HeapField, HeapObj, St, Unsupported
from .common import *

SRC = 'src/db.cc'
MODE = 'int'
FILTER = 'hgdb'
J = 'hgdb::db::json::'
E, BE, MD, DE, AE, IN, VD = (J + x for x in ('ScopeEntry', 'BlockEntry', 'ModuleDef', 'VarDeclEntry', 'AssignEntry', 'Instance', 'VarDef'))
V = 'hgdb::BreakPointVisitor'
P = 'hgdb::JSONSymbolTableProvider'
Z = z3.IntSort


def kind(ex):
    return ex.tu.enumty[J + 'ScopeEntryType']


def f0(ex, r, own, f):
    """a field as it was when the verified function was entered"""
    return Cx(ex, St(), St(), None, []).fld(r, own, f)


def ghosts(ex):
    """definitions over the tree of entries, which no function here changes: what a chain of parents says"""
    if getattr(ex, '_symtab', None):
        return ex._symtab
    S = ex.Str
    g = {}
    s, t, p = z3.Const('s', S), z3.Const('t', S), I('p')
    j = I('j')
    g['oror'] = o = ex.uf('ghost:oror', S, z3.BoolSort())
    ex.axioms.append(fa([s], o(s) == z3.Exists([j], AND(j >= 0, j + 2 <= ex.slen(s), ex.sat(s, j) == 124, ex.sat(s, j + 1) == 124)), o(s)))
    ex.axioms.append(fa([s], IMP(ex.slen(s) == 0, s == ex.EMPTY), ex.slen(s)))
    g['rank'] = ex.uf('ghost:rank', Z(), Z())
    par = lambda c: z3.If(o(c), ex.concat([ex.lit('('), c, ex.lit(')')]), c)
    g['merge'] = m = ex.uf('ghost:merge', S, S, S)
    ex.axioms.append(fa([s, t], m(s, t) == z3.If(ex.slen(s) == 0, t, z3.If(ex.slen(t) == 0, s, ex.concat([par(s), ex.lit(' && '), par(t)]))), m(s, t)))
    par_of = lambda p: f0(ex, p, E, 'parent')
    g['cond'] = c = ex.uf('ghost:cond', S, Z(), S)
    ex.axioms.append(fa([s], c(s, z3.IntVal(0)) == s, c(s, z3.IntVal(0))))
    ex.axioms.append(fa([s, p], IMP(p != 0, c(s, p) == c(m(s, f0(ex, p, E, 'condition')), par_of(p))), c(s, p)))
    g['file'] = f = ex.uf('ghost:file', Z(), S)
    ex.axioms.append(ex.slen(f(z3.IntVal(0))) == 0)
    ex.axioms.append(fa([p], IMP(p != 0, f(p) == z3.If(AND(f0(ex, p, E, 'type') == kind(ex)['Block'], ex.slen(f0(ex, p, BE, 'filename')) > 0),
                                                      f0(ex, p, BE, 'filename'), f(par_of(p)))), f(p)))
    g['near'] = n = ex.uf('ghost:near', ex.sort(('set', ('ptr', ('rec', BE)))), Z(), Z())
    b = z3.Const('b', ex.sort(('set', ('ptr', ('rec', BE)))))
    ex.axioms.append(fa([b], n(b, z3.IntVal(0)) == 0, n(b, z3.IntVal(0))))
    ex.axioms.append(fa([b, p], IMP(p != 0, n(b, p) == z3.If(AND(f0(ex, p, E, 'type') == kind(ex)['Block'], SEL(ex.acc(b, 0), p)), p, n(b, par_of(p)))), n(b, p)))
    ex._symtab = g
    return g


def node(ex, p):
    """p is an entry of the table"""
    return ex.uf('ghost:node', Z(), z3.BoolSort())(p)


def chain(cx):
    """the entries form a tree: from every entry the way up ends"""
    p = I('p')
    rank = ghosts(cx.ex)['rank']
    q = cx.fld(p, E, 'parent')
    return fa([p], IMP(node(cx.ex, p), AND(p > 0, SEL(cx.ex.allocd(cx.st), p), q >= 0, rank(p) >= 1, OR(q == 0, AND(node(cx.ex, q), rank(q) < rank(p))))), node(cx.ex, p))


def ends(name):
    def decr(L):
        p = L.var(name)
        return z3.If(p == 0, z3.IntVal(0), ghosts(L.ex)['rank'](p))
    return decr


class MergeCondition(Contract):
    name = J + 'merge_condition'

    def post(self, cx):
        g = ghosts(cx.ex)
        return [('both', cx.ret.t == g['merge'](cx.arg(0), cx.arg(1)))]


class GetCondition(Contract):
    """own condition and those of all enclosing entries"""
    name = E + '::get_condition'

    def pre(self, cx):
        return [('tree', chain(cx)), ('entry', node(cx.ex, cx.thisref))]

    def post(self, cx):
        g = ghosts(cx.ex)
        return [('all-enclosing', cx.ret.t == g['cond'](cx.my('condition'), cx.my('parent')))]

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, [])
        g = ghosts(L.ex)
        p = L.var('p')
        return [('rest', g['cond'](L.var('cond'), p) == g['cond'](cx.my('condition'), cx.my('parent'))),
                ('entry', OR(p == 0, node(L.ex, p)))]
    loops = [Loop(_inv, decr=ends('p'))]


class GetFilename(Contract):
    """the file of the nearest enclosing block that names one"""
    name = E + '::get_filename'

    def pre(self, cx):
        return [('tree', chain(cx)), ('entry', node(cx.ex, cx.thisref))]

    def post(self, cx):
        g = ghosts(cx.ex)
        return [('nearest', cx.ret.t == g['file'](cx.thisref))]

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, [])
        g = ghosts(L.ex)
        p = L.var('block')
        return [('rest', g['file'](p) == g['file'](cx.thisref)),
                ('entry', OR(p == 0, node(L.ex, p)))]
    loops = [Loop(_inv, decr=ends('block'))]


class GetBpId(Contract):
    """the id under which an instance knows a place"""
    name = IN + '::get_bp_id'

    def post(self, cx):
        k = I('k')
        m = cx.my('bps')
        r = cx.ret.t
        return [('the-place', IMP(cx.has(r), AND(cx.has(m, cx.val(r)), cx.val(m, cx.val(r)) == cx.arg(0)))),
                ('none-if-unknown', IMP(NOT(cx.has(r)), fa([k], IMP(cx.has(m, k), cx.val(m, k) != cx.arg(0)), cx.has(m, k))))]

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        k = I('k')
        m = cx.my('bps')
        return [('not-yet', fa([k], IMP(AND(SEL(L.visited, k), cx.has(m, k)), cx.val(m, k) != cx.arg(0)), SEL(L.visited, k)))]
    loops = [Loop(_inv)]


class IsRelative(Pure):
    name = V + '::is_relative'


class BaseName(Pure):
    name = V + '::base_name'


def equivalent(cx, q, r):
    ex = cx.ex
    rel = ex.uf('pure:' + V + '::is_relative', ex.Str, z3.BoolSort())
    base = ex.uf('pure:' + V + '::base_name', ex.Str, ex.Str)
    return AND(ex.slen(r) > 0, OR(q == r, AND(rel(r), base(q) == r)))


class Equivalent(Contract):
    """the file asked for is the file of the table, which may be known by its base name only"""
    name = V + '::is_filename_equivalent'

    def post(self, cx):
        return [('same-file', cx.ret.t == equivalent(cx, cx.arg(0), cx.arg(1)))]


class FilenameMatch(Contract):
    name = V + '::filename_match'

    def pre(self, cx):
        e = cx.arg(1)
        return [('tree', chain(cx)), ('entry', node(cx.ex, e))]

    @staticmethod
    def found(cx, blocks, e, filename):
        g = ghosts(cx.ex)
        b = g['near'](blocks, cx.fld(e, E, 'parent'))
        return z3.If(AND(b != 0, equivalent(cx, filename, cx.fld(b, BE, 'filename'))), b, z3.IntVal(0))

    def post(self, cx):
        return [('nearest-named-block', cx.ret.t == self.found(cx, cx.arg(0), cx.arg(1), cx.my('filename_')))]

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        g = ghosts(L.ex)
        p = L.var('p')
        b = cx.arg(0)
        return [('rest', g['near'](b, p) == g['near'](b, cx.fld(cx.arg(1), E, 'parent'))),
                ('entry', OR(p == 0, node(L.ex, p)))]
    loops = [Loop(_inv, decr=ends('p'))]


BPR = ('rec', 'hgdb::BreakPoint')


U32 = ('int', 32, False)


def bpf(cx, r, f):
    for i, (o, n, t) in enumerate(cx.ex.fields('hgdb::BreakPoint')):
        if n == f:
            return cx.ex.acc(r, i)
    raise Unsupported('no field ' + f)


class HandleFilename(Contract):
    """all places of the instance in that file (and line, and column), each once"""
    name = V + '::handle_filename'
    by_id = False

    def pre(self, cx):
        r, raw = cx.my('results'), cx.my('raw_results')
        return [('tree', chain(cx)), ('in-step', AND(cx.len(r) == cx.len(raw), cx.len(r) >= 0))] + places(cx, cx.args[0].ref)

    def modifies(self, cx):
        return [('field', cx.thisref, V, 'results'), ('field', cx.thisref, V, 'raw_results'), ('heap', 'cell:u32', U32), ('alloc',)]

    @classmethod
    def match(cls, cx, k, asked=None):
        """the place with that id is asked for"""
        st, inst = cx.old, cx.args[0].ref
        m = cx.fld(inst, IN, 'bps', st)
        e = cx.val(m, k)
        sc = cx.fld(cx.fld(inst, IN, 'definition', st), MD, 'filename_blocks', st)
        my = asked or (lambda f: cx.fld(cx.thisref, V, f, st))
        if cls.by_id:
            here = AND(k == my('id_'), cx.ex.slen(ghosts(cx.ex)['file'](e)) > 0)
        else:
            here = AND(OR(my('line_num_') == 0, AND(my('line_num_') == cx.fld(e, E, 'line', st), OR(my('col_num_') == 0, my('col_num_') == cx.fld(e, E, 'column', st)))),
                       FilenameMatch.found(cx, sc, e, my('filename_')) != 0)
        return AND(cx.has(m, k), cx.ex.acc(sc, 1) > 0, here)

    @classmethod
    def described(cls, cx, b, k, asked=None):
        st, inst = cx.old, cx.args[0].ref
        my = asked or (lambda f: cx.fld(cx.thisref, V, f, st))
        e = cx.val(cx.fld(inst, IN, 'bps', st), k)
        g = ghosts(cx.ex)
        sc = cx.fld(cx.fld(inst, IN, 'definition', st), MD, 'filename_blocks', st)
        fn = g['file'](e) if cls.by_id else cx.fld(FilenameMatch.found(cx, sc, e, my('filename_')), BE, 'filename', st)
        return AND(bpf(cx, b, 'id') == k, bpf(cx, b, 'filename') == fn,
                   bpf(cx, b, 'line_num') == cx.fld(e, E, 'line', st), bpf(cx, b, 'column_num') == cx.fld(e, E, 'column', st),
                   bpf(cx, b, 'condition') == g['cond'](cx.fld(e, E, 'condition', st), cx.fld(e, E, 'parent', st)),
                   SEL(cx.ex.heap(cx.st, 'cell:u32', U32), bpf(cx, b, 'instance_id')) == cx.fld(inst, IN, 'id', st),
                   bpf(cx, b, 'instance_id') != 0)

    @classmethod
    def collected(cls, cx, seen):
        """the matching ids for which seen holds have been added, and nothing else"""
        me, inst = cx.thisref, cx.args[0].ref
        r0, r1 = cx.my('results', cx.old), cx.my('results')
        w0, w1 = cx.my('raw_results', cx.old), cx.my('raw_results')
        m = cx.fld(inst, IN, 'bps', cx.old)
        n0, n1 = cx.len(r0), cx.len(r1)
        i, j, k = I('i'), I('j'), I('k')
        id_ = lambda i: bpf(cx, cx.el(r1, i), 'id')
        new = lambda i: AND(i >= n0, i < n1)
        c0, c1 = cx.ex.heap(cx.old, 'cell:u32', U32), cx.ex.heap(cx.st, 'cell:u32', U32)
        a0, a1 = cx.ex.allocd(cx.old), cx.ex.allocd(cx.st)
        x = I('x')
        return [('in-step', AND(n1 >= n0, cx.len(w1) == n1)),
                ('earlier-results-kept', fa([i], IMP(AND(i >= 0, i < n0), AND(cx.el(r1, i) == cx.el(r0, i), cx.el(w1, i) == cx.el(w0, i))), cx.el(r1, i))),
                ('earlier-instances-kept', fa([x], IMP(SEL(a0, x), AND(SEL(a1, x), SEL(c1, x) == SEL(c0, x))), SEL(a0, x))),
                ('only-matching', fa([i], IMP(new(i), AND(cls.match(cx, id_(i)), seen(id_(i)))), cx.el(r1, i))),
                ('as-described', fa([i], IMP(new(i), AND(cls.described(cx, cx.el(r1, i), id_(i)), SEL(a1, bpf(cx, cx.el(r1, i), 'instance_id')))), cx.el(r1, i))),
                ('the-place-itself', fa([i], IMP(new(i), cx.el(w1, i) == cx.val(m, id_(i))), cx.el(w1, i))),
                ('all-matching', fa([k], IMP(AND(cls.match(cx, k), seen(k)), z3.Exists([i], AND(new(i), id_(i) == k))), cx.has(m, k))),
                ('each-once', fa([i, j], IMP(AND(new(i), new(j), i != j), id_(i) != id_(j)), (cx.el(r1, i), cx.el(r1, j))))]

    def post(self, cx):
        return self.collected(cx, lambda k: z3.BoolVal(True))

    def _inv(L, cls=None):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        return cls.collected(cx, lambda k: SEL(L.visited, k))
    loops = [Loop(lambda L: HandleFilename._inv(L, HandleFilename))]


class HandleId(HandleFilename):
    """the place with that id, if it belongs to a file"""
    name = V + '::handle_id'
    by_id = True
    loops = [Loop(lambda L: HandleFilename._inv(L, HandleId))]


def places(cx, inst, st=None):
    k = I('k')
    m = cx.fld(inst, IN, 'bps', st)
    al = cx.ex.allocd(st or cx.st)
    return [('places', fa([k], IMP(cx.has(m, k), node(cx.ex, cx.val(m, k))), cx.has(m, k))),
            ('definition', AND(cx.fld(inst, IN, 'definition', st) > 0, SEL(al, cx.fld(inst, IN, 'definition', st))))]


class Handle(HandleFilename):
    name = V + '::handle'

    def pre(self, cx):
        t = cx.ex.tu.enumty[V + '::SearchType']
        return HandleFilename.pre(self, cx) + [('kind-of-search', OR(*[cx.my('type_') == v for v in t.values()]))]

    def post(self, cx):
        out = []
        byname = cx.my('type_', cx.old) == cx.ex.tu.enumty[V + '::SearchType']['ByFilename']
        yes = lambda k: z3.BoolVal(True)
        out += [('by-file-' + a, IMP(byname, b)) for a, b in HandleFilename.collected.__func__(HandleFilename, cx, yes)]
        out += [('by-id-' + a, IMP(NOT(byname), b)) for a, b in HandleFilename.collected.__func__(HandleId, cx, yes)]
        return out
    loops = []


class FindInstance(Contract):
    """the first instance with that id"""
    name = 'hgdb::InstanceFromInstIDVisitor::handle'
    C = 'hgdb::InstanceFromInstIDVisitor'

    def modifies(self, cx):
        return [('field', cx.thisref, self.C, 'result')]

    def post(self, cx):
        r0, r1 = cx.my('result', cx.old), cx.my('result')
        inst = cx.args[0].ref
        hit = AND(r0 == 0, self.hit(cx, inst))
        return [('found', IMP(hit, r1 == inst)), ('kept', IMP(NOT(hit), r1 == r0))]

    def hit(self, cx, inst):
        return cx.fld(inst, IN, 'id', cx.old) == cx.my('id_', cx.old)


class FindInstanceOfBp(FindInstance):
    """the instance that has that breakpoint"""
    name = 'hgdb::InstanceByBpIDVisitor::handle'
    C = 'hgdb::InstanceByBpIDVisitor'

    def hit(self, cx, inst):
        return cx.has(cx.fld(inst, IN, 'bps', cx.old), cx.my('bp_id_', cx.old))

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        k = I('k')
        me = FindInstanceOfBp
        return [('not-yet', fa([k], IMP(SEL(L.visited, k), k != cx.my('bp_id_')), SEL(L.visited, k))),
                ('nothing-found', cx.my('result') == cx.my('result', L.old))]
    loops = [Loop(_inv)]


class Number(Contract):
    """a place with a line becomes the next breakpoint of the instance, any other place none"""
    name = J + 'ScopeEntryVisitor::handle_'
    C = J + 'ScopeEntryVisitor'

    def inst(self, cx):
        return cx.fld(cx.thisref, self.C, 'inst_', cx.old)

    def idref(self, cx):
        return cx.my('id_', cx.old)

    def pre(self, cx):
        ex = cx.ex
        i = self.inst(cx)
        k = I('k')
        m = cx.fld(i, IN, 'bps')
        return [('instance', AND(i > 0, SEL(ex.allocd(cx.st), i))), ('counter', AND(self.idref(cx) > 0, SEL(ex.heap(cx.st, 'cell:u32', U32), self.idref(cx)) < 2 ** 32 - 1)),
                ('counter-is-new', fa([k], IMP(cx.has(m, k), k < SEL(ex.heap(cx.st, 'cell:u32', U32), self.idref(cx))), cx.has(m, k)))]

    def modifies(self, cx):
        return [('heap', 'cell:u32', U32), ('field', self.inst(cx), IN, 'bps')]

    def post(self, cx):
        ex = cx.ex
        e = cx.args[0].ref
        line = cx.fld(e, E, 'line', cx.old)
        c0, c1 = SEL(ex.heap(cx.old, 'cell:u32', U32), self.idref(cx)), SEL(ex.heap(cx.st, 'cell:u32', U32), self.idref(cx))
        m0, m1 = cx.fld(self.inst(cx), IN, 'bps', cx.old), cx.fld(self.inst(cx), IN, 'bps')
        k, x = I('k'), I('x')
        C0, C1 = ex.heap(cx.old, 'cell:u32', U32), ex.heap(cx.st, 'cell:u32', U32)
        return [('next-id', IMP(line > 0, AND(c1 == c0 + 1, cx.has(m1, c0), cx.val(m1, c0) == e))),
                ('no-line-no-breakpoint', IMP(NOT(line > 0), AND(c1 == c0, m1 == m0))),
                ('others-kept', fa([k], IMP(OR(k != c0, NOT(line > 0)), AND(cx.has(m1, k) == cx.has(m0, k), cx.val(m1, k) == cx.val(m0, k))), cx.has(m1, k))),
                ('other-counters-kept', fa([x], IMP(x != self.idref(cx), SEL(C1, x) == SEL(C0, x)), SEL(C1, x)))]


class Orders(Contract):
    """0, 1, ... up to the number of breakpoints; nothing when there is no design"""
    name = P + '::execution_bp_orders'

    def post(self, cx):
        i = I('i')
        r = cx.ret.t
        none = cx.len(cx.my('roots_')) == 0
        return [('all', IMP(NOT(none), AND(cx.len(r) == cx.my('num_bps_'), fa([i], IMP(AND(i >= 0, i < cx.len(r)), cx.el(r, i) == i), cx.el(r, i))))),
                ('none', IMP(none, cx.len(r) == 0))]

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        i = I('i')
        r = L.var('result', ('vec', U32))
        return [('so-far', AND(cx.len(r) == L.idx, L.idx >= 0, L.idx <= cx.my('num_bps_'))), ('each', fa([i], IMP(AND(i >= 0, i < cx.len(r)), cx.el(r, i) == i), cx.el(r, i)))]
    loops = [Loop(_inv, decr=lambda L: Cx(L.ex, L.st, L.old, L.this, []).my('num_bps_') - L.idx)]


class Annotations(Contract):
    """the values under that name, in the order of the table"""
    name = P + '::get_annotation_values'

    @staticmethod
    def picked(cx, r, n):
        ex = cx.ex
        a = cx.my('attributes_', cx.old)
        T = ('tup', ('str',), ('str',))
        nm = lambda i: ex.acc(cx.el(a, i), 0)
        vl = lambda i: ex.acc(cx.el(a, i), 1)
        cnt = ex.uf('ghost:count', ex.Str, a.sort(), Z(), Z())
        key = (id(ex), 'count')
        if not getattr(ex, '_cnt', None):
            ex._cnt = True
            s, v, i = z3.Const('s', ex.Str), z3.Const('v', a.sort()), I('i')
            ex.axioms.append(fa([s, v], cnt(s, v, z3.IntVal(0)) == 0, cnt(s, v, z3.IntVal(0))))
            ex.axioms.append(fa([s, v, i], IMP(i > 0, cnt(s, v, i) == cnt(s, v, i - 1) + z3.If(ex.acc(SEL(ex.acc(v, 1), i - 1), 0) == s, 1, 0)), cnt(s, v, i)))
        i = I('i')
        s = cx.arg(0, cx.old)
        return [('count', AND(cx.len(r) == cnt(s, a, n), cnt(s, a, n) >= 0)),
                ('each-in-place', fa([i], IMP(AND(i >= 0, i < n, nm(i) == s), AND(cnt(s, a, i) >= 0, cnt(s, a, i) < cx.len(r), cx.el(r, cnt(s, a, i)) == vl(i))), cx.el(a, i)))]

    def post(self, cx):
        return self.picked(cx, cx.ret.t, cx.len(cx.my('attributes_', cx.old)))

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        return Annotations.picked(cx, L.var('res', ('vec', ('str',))), L.idx)
    loops = [Loop(_inv)]


CONTRACTS = [MergeCondition(), GetCondition(), GetFilename(), GetBpId(), Equivalent(), FilenameMatch(), HandleFilename(), HandleId(), Handle(), FindInstance(), FindInstanceOfBp(), Number(), Orders(), Annotations()]
SPECS = [IsRelative(), BaseName()]
HOOKS = {}
