"""src/db.cc: the walks over instances, modules and statements"""
import z3
from hvc.contract import Contract, Assumed, Pure, Havoc, NoEffect, Loop, Cx
from hvc.sym import Val, Iter, PtrTo, PyObj, Temp, HeapCell, Local, HeapField, HeapObj, St, Unsupported
from .common import *
from . import symtab
from .symtab import J, E, BE, MD, DE, AE, IN, VD, P, Z, U32, f0, kind

SRC = 'src/db.cc'
MODE = 'int'
FILTER = 'hgdb'


def under(ex):
    """under(i, x): x is the instance i or one of those it contains, at any depth (no function here changes what an
    instance contains)"""
    if not hasattr(ex, '_under'):
        u = ex.uf('ghost:under', Z(), Z(), z3.BoolSort())
        sub = ex.uf('ghost:under-by', Z(), Z(), ex.Str)
        i, x, k = I('i'), I('x'), z3.Const('k', ex.Str)
        m = lambda i: f0(ex, i, IN, 'instances')
        has = lambda i, k: SEL(ex.acc(m(i), 0), k)
        val = lambda i, k: SEL(ex.acc(m(i), 1), k)
        ex.axioms.append(fa([i], u(i, i), u(i, i)))
        ex.axioms.append(fa([i], u(i, i), inode(ex, i)))
        ex.axioms.append(fa([i, x, k], IMP(AND(has(i, k), u(val(i, k), x)), u(i, x)), (has(i, k), u(val(i, k), x))))
        ex.axioms.append(fa([i, x], IMP(AND(u(i, x), i != x), AND(has(i, sub(i, x)), u(val(i, sub(i, x)), x))), u(i, x)))
        ex._under = u
    return ex._under


def inode(ex, i):
    """i is an instance of the design"""
    return ex.uf('ghost:instance', Z(), z3.BoolSort())(i)


def design(cx):
    """instances are there, and contain instances"""
    i, k = I('i'), z3.Const('k', cx.ex.Str)
    m = lambda i: cx.fld(i, IN, 'instances')
    return [('instances', fa([i], IMP(inode(cx.ex, i), AND(i > 0, SEL(cx.ex.allocd(cx.st), i))), inode(cx.ex, i))),
            ('instances-in-instances', fa([i, k], IMP(AND(inode(cx.ex, i), cx.has(m(i), k)), inode(cx.ex, cx.val(m(i), k))), (inode(cx.ex, i), cx.has(m(i), k))))]


class FindWalk(Contract):
    """an instance that is asked for, anywhere below; none only if there is none"""

    def __init__(self, of):
        C = of.C
        Contract.__init__(self, name=C + '::visit@Instance', dyn=C, of=of, C=C, loops=[Loop(self._inv)])

    def pre(self, cx):
        return design(cx) + [('instance', inode(cx.ex, cx.args[0].ref))]

    def modifies(self, cx):
        return [('field', cx.thisref, self.C, 'result')]

    def hit(self, cx, x):
        return self.of.hit(cx, x)

    def post(self, cx):
        u = under(cx.ex)
        r0, r1 = cx.my('result', cx.old), cx.my('result')
        i = cx.args[0].ref
        x = I('x')
        return [('kept', IMP(r0 != 0, r1 == r0)),
                ('one-asked-for', IMP(AND(r0 == 0, r1 != 0), AND(u(i, r1), inode(cx.ex, r1), self.hit(cx, r1)))),
                ('none-only-if-none', IMP(AND(r0 == 0, r1 == 0), fa([x], IMP(u(i, x), NOT(self.hit(cx, x))), u(i, x))))]

    def _inv(self, L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        u = under(cx.ex)
        r0, r1 = cx.my('result', L.old), cx.my('result')
        i = cx.args[0].ref
        x, k = I('x'), z3.Const('k', cx.ex.Str)
        m = cx.fld(i, IN, 'instances')
        return [('kept', IMP(r0 != 0, r1 == r0)),
                ('one-asked-for', IMP(AND(r0 == 0, r1 != 0), AND(u(i, r1), inode(cx.ex, r1), self.hit(cx, r1)))),
                ('none-so-far', IMP(AND(r0 == 0, r1 == 0), AND(NOT(self.hit(cx, i)), fa([x, k], IMP(AND(SEL(L.visited, k), u(cx.val(m, k), x)), NOT(self.hit(cx, x))),
                                                                                   (SEL(L.visited, k), u(cx.val(m, k), x))))))]



def roots(cx, v):
    """the tops of the design"""
    i = I('i')
    return [('roots', fa([i], IMP(AND(i >= 0, i < cx.len(v)), inode(cx.ex, cx.el(v, i))), cx.el(v, i)))]


def below(cx, v, x, n=None):
    """x is an instance under one of the (first n) tops"""
    i = I('top')
    u = under(cx.ex)
    return z3.Exists([i], AND(i >= 0, i < (cx.len(v) if n is None else n), u(cx.el(v, i), x)))


def nowhere(cx, v, hit, n=None):
    i, x = I('top'), I('inst')
    u = under(cx.ex)
    return fa([i, x], IMP(AND(i >= 0, i < (cx.len(v) if n is None else n), u(cx.el(v, i), x)), NOT(hit(x))), u(cx.el(v, i), x))


def has_bp(cx, x, b):
    return cx.has(cx.fld(x, IN, 'bps', cx.old), b)


class GetInstance(Contract):
    """an instance that has the breakpoint; none only if there is none"""
    name = 'hgdb::get_instance'

    def pre(self, cx):
        return design(cx) + roots(cx, cx.arg(1))

    def modifies(self, cx):
        return [('alloc',), ('heap', symtab.FindInstanceOfBp.C + '.result', ('ptr', ('rec', IN))), ('heap', symtab.FindInstanceOfBp.C + '.bp_id_', U32)]

    def post(self, cx):
        r, v = cx.ret.t, cx.arg(1)
        hit = lambda x: has_bp(cx, x, cx.arg(0))
        return [('one-that-has-it', IMP(r != 0, AND(hit(r), below(cx, v, r), inode(cx.ex, r)))),
                ('none-only-if-none', IMP(r == 0, OR(nowhere(cx, v, hit), cx.arg(0) >= 2 ** 32)))]

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        return [('none-so-far', nowhere(cx, cx.arg(1), lambda x: has_bp(cx, x, cx.arg(0)), L.idx)), ('id', cx.arg(0) < 2 ** 32)]
    loops = [Loop(_inv)]


class GetInstanceIdOfBp(Contract):
    """the id of an instance that has the breakpoint"""
    name = P + '::get_instance_id@(uint64_t)'

    def pre(self, cx):
        return design(cx) + roots(cx, cx.my('roots_'))

    modifies = GetInstance.modifies

    def post(self, cx):
        r, v, x = cx.ret.t, cx.my('roots_', cx.old), I('x')
        hit = lambda x: has_bp(cx, x, cx.arg(0))
        return [('of-its-instance', IMP(cx.has(r), z3.Exists([x], AND(hit(x), inode(cx.ex, x), below(cx, v, x), cx.fld(x, IN, 'id', cx.old) == cx.val(r))))),
                ('none-only-if-none', IMP(NOT(cx.has(r)), OR(nowhere(cx, v, hit), cx.arg(0) >= 2 ** 32)))]


def irank(ex, i):
    return ex.uf('ghost:instance-depth', Z(), Z())(i)


def parents(cx):
    """the way up from an instance ends"""
    i = I('i')
    p = cx.fld(i, IN, 'parent')
    return [('parents', fa([i], IMP(inode(cx.ex, i), OR(p == 0, AND(inode(cx.ex, p), irank(cx.ex, i) > irank(cx.ex, p), irank(cx.ex, p) >= 1))), inode(cx.ex, i))),
            ('depths', fa([i], IMP(inode(cx.ex, i), irank(cx.ex, i) >= 1), inode(cx.ex, i)))]


def path(ex):
    """path(s, p): the names of p and all instances around it, outermost first, then s"""
    if not hasattr(ex, '_path'):
        S = ex.Str
        f = ex.uf('ghost:path', S, Z(), S)
        s, p = z3.Const('s', S), I('p')
        nm = f0(ex, p, IN, 'name')
        ex.axioms.append(fa([s], f(s, z3.IntVal(0)) == s, f(s, z3.IntVal(0))))
        ex.axioms.append(fa([s, p], IMP(p != 0, f(s, p) == f(z3.If(ex.slen(s) == 0, nm, ex.concat([nm, ex.lit('.'), s])), f0(ex, p, IN, 'parent'))), f(s, p)))
        ex._path = f
    return ex._path


class GetInstanceName(Contract):
    """the path of an instance with that id"""
    name = P + '::get_instance_name'

    def pre(self, cx):
        return design(cx) + roots(cx, cx.my('roots_')) + parents(cx)

    def modifies(self, cx):
        return [('alloc',), ('heap', symtab.FindInstance.C + '.result', ('ptr', ('rec', IN))), ('heap', symtab.FindInstance.C + '.id_', U32)]

    def post(self, cx):
        r, v, x = cx.ret.t, cx.my('roots_', cx.old), I('x')
        hit = lambda x: cx.fld(x, IN, 'id', cx.old) == cx.arg(0)
        f = path(cx.ex)
        return [('its-path', IMP(cx.has(r), z3.Exists([x], AND(hit(x), below(cx, v, x), cx.val(r) == f(cx.ex.EMPTY, x))))),
                ('none-only-if-none', IMP(NOT(cx.has(r)), nowhere(cx, v, hit)))]

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        return [('none-so-far', nowhere(cx, cx.my('roots_', cx.old), lambda x: cx.fld(x, IN, 'id', cx.old) == cx.arg(0), L.idx))]

    def _up(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        f = path(L.ex)
        p, s = L.var('p'), L.var('name')
        return [('rest', f(s, p) == f(L.ex.EMPTY, L.at(L.entry).var('p'))), ('instance', OR(p == 0, inode(L.ex, p)))]
    loops = [Loop(_inv), Loop(_up, decr=lambda L: z3.If(L.var('p') == 0, z3.IntVal(0), irank(L.ex, L.var('p'))))]


def tokens(ex, s):
    return ex.uf('pure:hgdb::util::get_tokens', ex.Str, ex.Str, ex.sort(('vec', ('str',))))(s, ex.lit('.'))


def down(cx):
    """down(p, names, n): the instance reached from p by the names n and on; 0 if there is none"""
    ex = cx.ex
    if not hasattr(ex, '_down'):
        V = ex.sort(('vec', ('str',)))
        f = ex.uf('ghost:down', Z(), V, Z(), Z())
        p, v, n = I('p'), z3.Const('v', V), I('n')
        m = f0(ex, p, IN, 'instances')
        k = cx.el(v, n)
        ex.axioms.append(fa([p, v, n], f(p, v, n) == z3.If(n >= cx.len(v), p, z3.If(SEL(ex.acc(m, 0), k), f(SEL(ex.acc(m, 1), k), v, n + 1), z3.IntVal(0))), f(p, v, n)))
        ex._down = f
    return ex._down


class GetInstanceIdByName(Contract):
    """the id of the instance that the path leads to, from the top it names"""
    name = P + '::get_instance_id@(const std::string &)'

    def pre(self, cx):
        return design(cx) + roots(cx, cx.my('roots_')) + [('no-endless-name', cx.len(tokens(cx.ex, cx.arg(0))) < 2 ** 32)]

    def post(self, cx):
        r, v, i, j = cx.ret.t, cx.my('roots_', cx.old), I('i'), I('j')
        t = tokens(cx.ex, cx.arg(0))
        f = down(cx)
        top = lambda i: AND(i >= 0, i < cx.len(v), cx.fld(cx.el(v, i), IN, 'name') == cx.el(t, 0))
        first = AND(top(i), fa([j], IMP(AND(top(j), j < i), z3.BoolVal(False)), cx.el(v, j)))
        got = f(cx.el(v, i), t, z3.IntVal(1))
        return [('no-name', IMP(cx.len(t) == 0, NOT(cx.has(r)))),
                ('no-such-top', IMP(fa([i], NOT(top(i)), cx.el(v, i)), NOT(cx.has(r)))),
                ('where-the-path-leads', fa([i], IMP(AND(cx.len(t) > 0, first), AND(cx.has(r) == (got != 0), IMP(cx.has(r), cx.val(r) == cx.fld(got, IN, 'id')))), cx.el(v, i)))]

    def _tops(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        v, j = cx.my('roots_', cx.old), I('j')
        t = tokens(L.ex, cx.arg(0))
        return [('not-yet', fa([j], IMP(AND(j >= 0, j < L.idx), cx.fld(cx.el(v, j), IN, 'name') != cx.el(t, 0)), cx.el(v, j))), ('named', cx.len(t) > 0)]

    def _path(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        v, t, f = cx.my('roots_', cx.old), tokens(L.ex, cx.arg(0)), down(cx)
        n, p = L.var('i'), L.var('p')
        top = L.at(L.entry).var('p')
        return [('index', AND(n >= 1, n <= cx.len(t))), ('leads-there', f(p, t, n) == f(top, t, z3.IntVal(1))), ('instance', inode(L.ex, p))]

    def _name(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        k = z3.Const('k', L.ex.Str)
        name = cx.el(tokens(L.ex, cx.arg(0)), L.var('i'))
        return [('not-yet', fa([k], IMP(SEL(L.visited, k), k != name), SEL(L.visited, k))), ('not-found', NOT(L.var('found'))), ('same-instance', L.var('p') == L.at(L.entry).var('p'))]
    loops = [Loop(_tops), Loop(_path, decr=lambda L: Cx(L.ex, L.st, L.old, L.this, L.args).len(tokens(L.ex, Cx(L.ex, L.st, L.old, L.this, L.args).arg(0))) - L.var('i')), Loop(_name)]


def owner(ex, b):
    """the instance that a breakpoint belongs to"""
    return ex.uf('ghost:owner', Z(), Z())(b)


def numbered(cx, st=None):
    """no two instances share a breakpoint; every instance has a definition, and its breakpoints are entries of the table"""
    x, k = I('x'), I('k')
    ex = cx.ex
    m = cx.fld(x, IN, 'bps', st)
    d = cx.fld(x, IN, 'definition', st)
    return [('numbers-unique', fa([x, k], IMP(AND(inode(ex, x), cx.has(m, k)), owner(ex, k) == x), (inode(ex, x), cx.has(m, k)))),
            ('places', fa([x, k], IMP(AND(inode(ex, x), cx.has(m, k)), symtab.node(ex, cx.val(m, k))), (inode(ex, x), cx.has(m, k)))),
            ('definitions', fa([x], IMP(inode(ex, x), AND(d > 0, SEL(ex.allocd(st or cx.st), d))), inode(ex, x)))]


def one_way(cx):
    """instances form a tree: none is reached in two ways"""
    i, x, k, l = I('i'), I('x'), z3.Const('k', cx.ex.Str), z3.Const('l', cx.ex.Str)
    u = under(cx.ex)
    m = cx.fld(i, IN, 'instances')
    return [('one-way-down', fa([i, x, k, l], IMP(AND(cx.has(m, k), u(cx.val(m, k), x), cx.has(m, l), u(cx.val(m, l), x)), k == l), (cx.has(m, k), u(cx.val(m, k), x), cx.has(m, l), u(cx.val(m, l), x)))),
            ('not-below-itself', fa([i, k], IMP(cx.has(m, k), NOT(u(cx.val(m, k), i))), u(cx.val(m, k), i)))]


class BpWalk(Contract):
    """all places asked for in the instances below, each once, and nothing else"""
    name = symtab.V + '::visit@Instance'
    dyn = symtab.V
    V = symtab.V

    def pre(self, cx):
        r, raw = cx.my('results'), cx.my('raw_results')
        t = cx.ex.tu.enumty[self.V + '::SearchType']
        return design(cx) + numbered(cx) + one_way(cx) + [('instance', inode(cx.ex, cx.args[0].ref)), ('tree', symtab.chain(cx)),
                ('in-step', AND(cx.len(r) == cx.len(raw), cx.len(r) >= 0)), ('kind-of-search', OR(*[cx.my('type_') == v for v in t.values()]))]

    def modifies(self, cx):
        return symtab.HandleFilename.modifies(self, cx)

    @classmethod
    def collected(cls, cx, seen):
        ex = cx.ex
        u = under(ex)
        top = cx.args[0].ref
        at = lambda k: Cx(ex, cx.st, cx.old, cx.this, [HeapObj(owner(ex, k), IN)])
        t = ex.tu.enumty[cls.V + '::SearchType']
        byname = cx.my('type_', cx.old) == t['ByFilename']
        F, D = symtab.HandleFilename, symtab.HandleId
        r0, r1 = cx.my('results', cx.old), cx.my('results')
        w0, w1 = cx.my('raw_results', cx.old), cx.my('raw_results')
        n0, n1 = cx.len(r0), cx.len(r1)
        i, j, k, x = I('i'), I('j'), I('k'), I('x')
        id_ = lambda i: symtab.bpf(cx, cx.el(r1, i), 'id')
        new = lambda i: AND(i >= n0, i < n1)
        c0, c1 = ex.heap(cx.old, 'cell:u32', U32), ex.heap(cx.st, 'cell:u32', U32)
        a0, a1 = ex.allocd(cx.old), ex.allocd(cx.st)
        place = lambda k: cx.val(cx.fld(owner(ex, k), IN, 'bps', cx.old), k)
        out = [('in-step', AND(n1 >= n0, cx.len(w1) == n1)),
               ('earlier-results-kept', fa([i], IMP(AND(i >= 0, i < n0), AND(cx.el(r1, i) == cx.el(r0, i), cx.el(w1, i) == cx.el(w0, i))), cx.el(r1, i))),
               ('earlier-instances-kept', fa([x], IMP(SEL(a0, x), AND(SEL(a1, x), SEL(c1, x) == SEL(c0, x))), SEL(a0, x))),
               ('from-here', fa([i], IMP(new(i), AND(seen(owner(ex, id_(i))), inode(ex, owner(ex, id_(i))))), cx.el(r1, i))),
               ('the-place-itself', fa([i], IMP(new(i), cx.el(w1, i) == place(id_(i))), cx.el(w1, i))),
               ('allocated', fa([i], IMP(new(i), SEL(a1, symtab.bpf(cx, cx.el(r1, i), 'instance_id'))), cx.el(r1, i))),
               ('each-once', fa([i, j], IMP(AND(new(i), new(j), i != j), id_(i) != id_(j)), (cx.el(r1, i), cx.el(r1, j))))]
        for n, g, K in (('by-file', byname, F), ('by-id', NOT(byname), D)):
            out += [(n + '-only-matching', fa([i], IMP(AND(g, new(i)), K.match(at(id_(i)), id_(i))), cx.el(r1, i))),
                    (n + '-as-described', fa([i], IMP(AND(g, new(i)), K.described(at(id_(i)), cx.el(r1, i), id_(i))), cx.el(r1, i))),
                    (n + '-all-matching', fa([x, k], IMP(AND(g, seen(x), inode(ex, x), owner(ex, k) == x, K.match(at(k), k)), z3.Exists([i], AND(new(i), id_(i) == k))),
                                             (u(top, x), cx.has(cx.fld(x, IN, 'bps', cx.old), k))))]
        return out

    def post(self, cx):
        u = under(cx.ex)
        return self.collected(cx, lambda x: u(cx.args[0].ref, x))

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        u = under(L.ex)
        i = cx.args[0].ref
        k = z3.Const('k', L.ex.Str)
        m = cx.fld(i, IN, 'instances')
        seen = lambda x: OR(x == i, z3.Exists([k], AND(cx.has(m, k), SEL(L.visited, k), u(cx.val(m, k), x))))
        return BpWalk.collected(cx, seen)
    loops = [Loop(_inv)]


def apart(cx, v):
    """no instance is below two tops"""
    i, j, x = I('i'), I('j'), I('x')
    u = under(cx.ex)
    return [('tops-apart', fa([i, j, x], IMP(AND(i >= 0, i < cx.len(v), j >= 0, j < cx.len(v), u(cx.el(v, i), x), u(cx.el(v, j), x)), i == j), (u(cx.el(v, i), x), u(cx.el(v, j), x))))]


class GetBreakpoints(Contract):
    """all places of the design in that file (and line, and column), each once, and nothing else"""
    name = P + '::get_breakpoints'
    lines = True

    def __init__(self, sig, lines):
        def inv(L):
            cx = Cx(L.ex, L.st, L.old, L.this, L.args)
            return self.collected(cx, L.var('result', ('vec', symtab.BPR)), L.idx)
        Contract.__init__(self, name=P + '::get_breakpoints@' + sig, lines=lines, loops=[Loop(inv), Loop(self._move)])

    def pre(self, cx):
        v = cx.my('roots_')
        return design(cx) + numbered(cx) + one_way(cx) + roots(cx, v) + apart(cx, v) + [('tree', symtab.chain(cx))]

    def modifies(self, cx):
        return [('heap', 'cell:u32', U32), ('alloc',)]

    def asked(self, cx):
        return lambda f: cx.arg({'filename_': 0, 'line_num_': 1, 'col_num_': 2}[f]) if self.lines or f == 'filename_' else z3.IntVal(0)

    def collected(self, cx, r, n=None):
        ex = cx.ex
        u = under(ex)
        v = cx.my('roots_', cx.old)
        K = symtab.HandleFilename
        ask = self.asked(cx)
        at = lambda k: Cx(ex, cx.st, cx.old, cx.this, [HeapObj(owner(ex, k), IN)])
        i, j, k = I('i'), I('j'), I('k')
        id_ = lambda i: symtab.bpf(cx, cx.el(r, i), 'id')
        new = lambda i: AND(i >= 0, i < cx.len(r))
        a1 = ex.allocd(cx.st)
        seen = lambda x: below(cx, v, x, n)
        m = lambda k: cx.fld(owner(ex, k), IN, 'bps', cx.old)
        return [('from-the-design', fa([i], IMP(new(i), AND(seen(owner(ex, id_(i))), inode(ex, owner(ex, id_(i))))), cx.el(r, i))),
                ('only-matching', fa([i], IMP(new(i), K.match(at(id_(i)), id_(i), ask)), cx.el(r, i))),
                ('as-described', fa([i], IMP(new(i), AND(K.described(at(id_(i)), cx.el(r, i), id_(i), ask), SEL(a1, symtab.bpf(cx, cx.el(r, i), 'instance_id')))), cx.el(r, i))),
                ('all-matching', fa([k], IMP(AND(seen(owner(ex, k)), inode(ex, owner(ex, k)), K.match(at(k), k, ask)), z3.Exists([i], AND(new(i), id_(i) == k))), cx.has(m(k), k))),
                ('each-once', fa([i, j], IMP(AND(new(i), new(j), i != j), id_(i) != id_(j)), (cx.el(r, i), cx.el(r, j))))]

    def post(self, cx):
        return self.collected(cx, cx.ret.t)

    def _move(self, L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        E = L.at(L.entry)
        r0, r = E.var('result', ('vec', symtab.BPR)), L.var('result', ('vec', symtab.BPR))
        q = L.rng.t
        i = I('i')
        return [('so-many', cx.len(r) == cx.len(r0) + L.idx),
                ('kept', fa([i], IMP(AND(i >= 0, i < cx.len(r0)), cx.el(r, i) == cx.el(r0, i)), cx.el(r, i))),
                ('only-added', fa([i], IMP(AND(i >= cx.len(r0), i < cx.len(r)), cx.el(r, i) == cx.el(q, i - cx.len(r0))), cx.el(r, i))),
                ('added', fa([i], IMP(AND(i >= 0, i < L.idx), cx.el(r, cx.len(r0) + i) == cx.el(q, i)), cx.el(q, i)))]


class GetBreakpoint(GetBreakpoints):
    """the breakpoint with that id, if it belongs to a file; none only if there is none"""
    def __init__(self):
        Contract.__init__(self, name=P + '::get_breakpoint', loops=[Loop(self._inv)])

    def theone(self, cx, n=None):
        """the breakpoint is in one of the first tops, and belongs to a file"""
        b = cx.arg(0)
        ex = cx.ex
        v = cx.my('roots_', cx.old)
        at = Cx(ex, cx.st, cx.old, cx.this, [HeapObj(owner(ex, b), IN)])
        return AND(below(cx, v, owner(ex, b), n), inode(ex, owner(ex, b)), symtab.HandleId.match(at, b, lambda f: b)), at

    def post(self, cx):
        hit, at = self.theone(cx)
        r = cx.ret.t
        return [('one-with-that-id', IMP(cx.has(r), hit)),
                ('as-described', IMP(cx.has(r), symtab.HandleId.described(at, cx.val(r), cx.arg(0), lambda f: cx.arg(0)))),
                ('none-only-if-none', IMP(NOT(cx.has(r)), NOT(hit)))]

    def _inv(self, L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        return [('not-yet', NOT(self.theone(cx, L.idx)[0]))]


SV = J + 'ScopeEntryVisitor'


def stmts(ex):
    """cnt(e): how many breakpoints a statement makes, with those inside it; at(e, j): the place of the j-th, in source
    order; cntp(e, n): those of its first n parts"""
    if hasattr(ex, '_stmts'):
        return ex._stmts
    g = {}
    g['cnt'] = c = ex.uf('ghost:places', Z(), Z())
    g['cntp'] = cp = ex.uf('ghost:places-so-far', Z(), Z(), Z())
    g['at'] = at = ex.uf('ghost:place', Z(), Z(), Z())
    e, n, j = I('e'), I('n'), I('j')
    t = f0(ex, e, E, 'type')
    K = kind(ex)
    leaf = OR(t == K['Assign'], t == K['Declaration'], t == K['None'])
    cx = Cx(ex, St(), St(), None, [])
    one = z3.If(f0(ex, e, E, 'line') > 0, z3.IntVal(1), z3.IntVal(0))
    ex.axioms.append(fa([e], AND(c(e) >= 0, IMP(leaf, AND(c(e) == one, at(e, z3.IntVal(0)) == e))), c(e)))
    for k, own in (('Module', MD), ('Block', BE)):
        v = f0(ex, e, own, 'scope')
        ex.axioms.append(fa([e], IMP(t == K[k], AND(cp(e, z3.IntVal(0)) == 0, c(e) == cp(e, cx.len(v)))), c(e)))
        ex.axioms.append(fa([e, n], IMP(AND(t == K[k], n >= 0, n < cx.len(v)),
                                        AND(cp(e, n + 1) == cp(e, n) + c(cx.el(v, n)), cp(e, n) >= 0, cp(e, n + 1) <= c(e))), (cp(e, n), c(cx.el(v, n)))))
        ex.axioms.append(fa([e, n, j], IMP(AND(t == K[k], n >= 0, n < cx.len(v), j >= 0, j < c(cx.el(v, n))), at(e, cp(e, n) + j) == at(cx.el(v, n), j)),
                            (cp(e, n), at(cx.el(v, n), j))))
    ex._stmts = g
    return g


def tree(cx):
    """the parts of an entry are entries; every entry is of a kind there is"""
    ex = cx.ex
    e, n = I('e'), I('n')
    K = kind(ex)
    nd = lambda e: symtab.node(ex, e)
    out = [('kinds', fa([e], IMP(nd(e), AND(e > 0, SEL(ex.allocd(cx.st), e), OR(*[cx.fld(e, E, 'type') == v for v in K.values()]))), nd(e)))]
    for k, own in (('Module', MD), ('Block', BE)):
        v = cx.fld(e, own, 'scope')
        out.append(('parts-of-' + k.lower(), fa([e, n], IMP(AND(nd(e), cx.fld(e, E, 'type') == K[k], n >= 0, n < cx.len(v)), nd(cx.el(v, n))), (nd(e), cx.el(v, n)))))
    return out


class StmtWalk(Contract):
    """the places of a statement become the next breakpoints of the instance, in source order, each once"""
    C = SV
    byptr, kindname = False, None

    def __init__(self, what, byptr=False, kindname=None, loops=()):
        Contract.__init__(self, name=SV + '::visit@' + what, dyn=SV, byptr=byptr, kindname=kindname)
        self.loops = [Loop(self._inv)] if loops else []

    def entry(self, cx):
        return cx.arg(0) if self.byptr else cx.args[0].ref

    inst, idref = symtab.Number.inst, symtab.Number.idref

    def pre(self, cx):
        ex = cx.ex
        e = self.entry(cx)
        out = symtab.Number.pre(self, cx)
        out[1] = ('counter', AND(self.idref(cx) > 0, SEL(ex.heap(cx.st, 'cell:u32', U32), self.idref(cx)) + stmts(ex)['cnt'](e) < 2 ** 32 - 1))
        out += tree(cx) + [('entry', symtab.node(ex, e))]
        if self.kindname:
            out.append(('kind', cx.fld(e, E, 'type') == kind(ex)[self.kindname]))
        return out

    modifies = symtab.Number.modifies

    def state(self, cx, n):
        """the first n places are numbered"""
        ex = cx.ex
        e = self.entry(cx)
        C0, C1 = ex.heap(cx.old, 'cell:u32', U32), ex.heap(cx.st, 'cell:u32', U32)
        c0, c1 = SEL(C0, self.idref(cx)), SEL(C1, self.idref(cx))
        m0, m1 = cx.fld(self.inst(cx), IN, 'bps', cx.old), cx.fld(self.inst(cx), IN, 'bps')
        at = stmts(ex)['at']
        k, x = I('k'), I('x')
        new = lambda k: AND(k >= c0, k < c1)
        return [('counted', c1 == c0 + n),
                ('numbered', fa([k], IMP(new(k), AND(cx.has(m1, k), cx.val(m1, k) == at(e, k - c0))), cx.has(m1, k))),
                ('others-kept', fa([k], IMP(NOT(new(k)), AND(cx.has(m1, k) == cx.has(m0, k), cx.val(m1, k) == cx.val(m0, k))), cx.has(m1, k))),
                ('other-counters-kept', fa([x], IMP(x != self.idref(cx), SEL(C1, x) == SEL(C0, x)), SEL(C1, x)))]

    def post(self, cx):
        return self.state(cx, stmts(cx.ex)['cnt'](self.entry(cx)))

    def _inv(self, L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        g = stmts(L.ex)
        e = self.entry(cx)
        return self.state(cx, g['cntp'](e, L.idx)) + [('so-far', AND(g['cntp'](e, L.idx) >= 0, g['cntp'](e, L.idx) <= g['cnt'](e)))]


WALKS = [StmtWalk('shared_ptr', byptr=True), StmtWalk('BlockEntry', kindname='Block', loops=1), StmtWalk('ModuleDef', kindname='Module', loops=1)]


def defn(cx, x, st=None):
    return cx.fld(x, IN, 'definition', st)


def definitions(cx, st=None):
    x = I('x')
    d = defn(cx, x, st)
    return [('definitions', fa([x], IMP(inode(cx.ex, x), AND(d > 0, symtab.node(cx.ex, d), cx.fld(d, E, 'type') == kind(cx.ex)['Module'])), inode(cx.ex, x)))]


class NumberInst(StmtWalk):
    """the places of the module of an instance become its next breakpoints"""

    def __init__(self):
        Contract.__init__(self, name=SV + '::visit@Instance', dyn=SV)

    def entry(self, cx):
        return defn(cx, cx.args[0].ref, cx.old)

    def pre(self, cx):
        return StmtWalk.pre(self, cx) + definitions(cx) + [('an-instance', inode(cx.ex, cx.args[0].ref))]


IV = J + 'InstanceBPVisitor'


class NumberOne(NumberInst):
    def __init__(self):
        Contract.__init__(self, name=IV + '::handle')

    def inst(self, cx):
        return cx.args[0].ref

    def post(self, cx):
        ex = cx.ex
        k = I('k')
        i = self.inst(cx)
        m0, m1 = cx.fld(i, IN, 'bps', cx.old), cx.fld(i, IN, 'bps')
        c0 = SEL(ex.heap(cx.old, 'cell:u32', U32), self.idref(cx))
        return NumberInst.post(self, cx) + [('all-of-them', IMP(fa([k], NOT(cx.has(m0, k)), cx.has(m0, k)), blocks(ex)(m1, self.entry(cx), c0)))]

    def modifies(self, cx):
        return NumberInst.modifies(self, cx) + [('alloc',), ('heap', SV + '.inst_', ('ptr', ('rec', IN))), ('heap', SV + '.id_', ('ptr', U32))]


def blocks(ex):
    """run(m, d, b): the map m holds the places of d, in order, from number b on, and nothing else"""
    if not hasattr(ex, '_run'):
        M = ex.sort(('map', U32, ('ptr', ('rec', E))))
        f = ex.uf('ghost:run', M, Z(), Z(), z3.BoolSort())
        m, d, b, k = z3.Const('m', M), I('d'), I('b'), I('k')
        cx = Cx(ex, St(), St(), None, [])
        g = stmts(ex)
        here = AND(k >= b, k < b + g['cnt'](d))
        ex.axioms.append(fa([m, d, b], f(m, d, b) == fa([k], AND(cx.has(m, k) == here, IMP(here, cx.val(m, k) == g['at'](d, k - b))), cx.has(m, k)), f(m, d, b)))
        ex._run = f
    return ex._run


def totals(ex):
    """tot(i): how many breakpoints an instance has, with those inside it; totv(m, s): those of the instances s of m"""
    if not hasattr(ex, '_tot'):
        m0 = f0(ex, I('i'), IN, 'instances')
        M, S = m0.sort(), ex.acc(m0, 0).sort()
        t, tv = ex.uf('ghost:total', Z(), Z()), ex.uf('ghost:total-so-far', M, S, Z())
        i, m, v, k, l = I('i'), z3.Const('m', M), z3.Const('v', S), z3.Const('k', ex.Str), z3.Const('l', ex.Str)
        dom, val = lambda m: ex.acc(m, 0), lambda m, k: SEL(ex.acc(m, 1), k)
        c = stmts(ex)['cnt']
        none = z3.K(ex.Str, z3.BoolVal(False))
        ex.axioms.append(fa([i], AND(t(i) >= 0, t(i) == c(f0(ex, i, IN, 'definition')) + tv(m0, dom(m0))), t(i)))
        ex.axioms.append(fa([m], tv(m, none) == 0, dom(m)))
        ex.axioms.append(fa([m, v], tv(m, v) >= 0, tv(m, v)))
        ex.axioms.append(fa([m, v, k], IMP(AND(SEL(dom(m), k), NOT(SEL(v, k))), tv(m, z3.Store(v, k, z3.BoolVal(True))) == tv(m, v) + t(val(m, k))), tv(m, z3.Store(v, k, z3.BoolVal(True)))))
        sub = fa([l], IMP(SEL(v, l), SEL(dom(m), l)), SEL(v, l))
        ex.axioms.append(fa([m, v, k], IMP(AND(sub, SEL(dom(m), k), NOT(SEL(v, k))), tv(m, v) + t(val(m, k)) <= tv(m, dom(m))), (tv(m, v), val(m, k))))
        ex._tot = (t, tv)
    return ex._tot


class NumberAll(Contract):
    """every instance below gets breakpoints for all places of its module, no number twice"""
    def __init__(self):
        Contract.__init__(self, name=IV + '::visit@Instance', dyn=IV, loops=[Loop(self._inv)])

    def idref(self, cx):
        return cx.my('id_', cx.old)

    def top(self, cx):
        return cx.args[0].ref

    def pre(self, cx):
        ex = cx.ex
        i, x, k = self.top(cx), I('x'), I('k')
        u = under(ex)
        m = cx.fld(x, IN, 'bps')
        return design(cx) + one_way(cx) + definitions(cx) + tree(cx) + [
            ('instance', inode(ex, i)), ('counter', AND(self.idref(cx) > 0, SEL(ex.heap(cx.st, 'cell:u32', U32), self.idref(cx)) >= 0,
                                                        SEL(ex.heap(cx.st, 'cell:u32', U32), self.idref(cx)) + totals(ex)[0](i) < 2 ** 32 - 1)),
            ('not-yet-numbered', fa([x, k], IMP(u(i, x), NOT(cx.has(m, k))), (u(i, x), cx.has(m, k))))]

    def modifies(self, cx):
        return [('heap', 'cell:u32', U32), ('heap', IN + '.bps', ('map', U32, ('ptr', ('rec', E)))), ('alloc',),
                ('heap', SV + '.inst_', ('ptr', ('rec', IN))), ('heap', SV + '.id_', ('ptr', U32))]

    def state(self, cx, seen, n):
        ex = cx.ex
        i, x, y, k, b = self.top(cx), I('x'), I('y'), I('k'), I('b')
        u = under(ex)
        C0, C1 = ex.heap(cx.old, 'cell:u32', U32), ex.heap(cx.st, 'cell:u32', U32)
        c0, c1 = SEL(C0, self.idref(cx)), SEL(C1, self.idref(cx))
        m0, m1 = lambda x: cx.fld(x, IN, 'bps', cx.old), lambda x: cx.fld(x, IN, 'bps')
        run = blocks(ex)
        d = lambda x: defn(cx, x, cx.old)
        first = z3.Exists([b], AND(b >= c0, b + stmts(ex)['cnt'](d(x)) <= c1, run(m1(x), d(x), b)), patterns=[run(m1(x), d(x), b)])
        return [('counted', c1 == c0 + n),
                ('numbered', fa([x], IMP(AND(u(i, x), seen(x)), first), u(i, x))),
                ('new-numbers', fa([x, k], IMP(AND(u(i, x), seen(x), cx.has(m1(x), k)), AND(k >= c0, k < c1)), (u(i, x), cx.has(m1(x), k)))),
                ('no-number-twice', fa([x, y, k], IMP(AND(u(i, x), seen(x), u(i, y), seen(y), cx.has(m1(x), k), cx.has(m1(y), k)), x == y), (u(i, x), u(i, y), cx.has(m1(x), k), cx.has(m1(y), k)))),
                ('others-kept', fa([x], IMP(OR(NOT(u(i, x)), NOT(seen(x))), m1(x) == m0(x)), m1(x))),
                ('other-counters-kept', fa([x], IMP(AND(x != self.idref(cx), SEL(ex.allocd(cx.old), x)), SEL(C1, x) == SEL(C0, x)), SEL(C1, x)))]

    def post(self, cx):
        return self.state(cx, lambda x: z3.BoolVal(True), totals(cx.ex)[0](self.top(cx)))

    def _inv(self, L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        u = under(L.ex)
        i = self.top(cx)
        k = z3.Const('l', L.ex.Str)
        m = cx.fld(i, IN, 'instances')
        seen = lambda x: OR(x == i, z3.Exists([k], AND(cx.has(m, k), SEL(L.visited, k), u(cx.val(m, k), x))))
        return self.state(cx, seen, stmts(L.ex)['cnt'](defn(cx, i, L.old)) + totals(L.ex)[1](m, L.visited))


class BuildBpIds(NumberAll):
    def __init__(self):
        Contract.__init__(self, name=J + 'build_bp_ids')

    def idref(self, cx):
        return cx.args[1].ref

    def mkarg(self, ex, st, name, ty, i):
        return HeapCell(z3.Int('arg_' + name), U32) if i == 1 else None

    def modifies(self, cx):
        return NumberAll.modifies(self, cx) + [('heap', IV + '.id_', ('ptr', U32))]


WALKS += [BuildBpIds(), NumberInst(), NumberOne(), NumberAll()]


def needs(ex):
    """need(d): how many ids an instance of module d takes at most, with those inside; cntv, needv: of the parts s of m"""
    if not hasattr(ex, '_need'):
        m0 = f0(ex, I('d'), MD, 'instances')
        M, S = m0.sort(), ex.acc(m0, 0).sort()
        nd, cv, nv = ex.uf('ghost:ids', Z(), Z()), ex.uf('ghost:parts-so-far', M, S, Z()), ex.uf('ghost:ids-so-far', M, S, Z())
        d, m, v, k, l = I('d'), z3.Const('m', M), z3.Const('v', S), z3.Const('k', ex.Str), z3.Const('l', ex.Str)
        dom, val = lambda m: ex.acc(m, 0), lambda m, k: SEL(ex.acc(m, 1), k)
        none = z3.K(ex.Str, z3.BoolVal(False))
        ex.axioms.append(fa([d], AND(nd(d) >= 1, nd(d) == 1 + cv(m0, dom(m0)) + nv(m0, dom(m0))), nd(d)))
        ex.axioms.append(fa([m], AND(cv(m, none) == 0, nv(m, none) == 0), dom(m)))
        ex.axioms.append(fa([m, v], cv(m, v) >= 0, cv(m, v)))
        ex.axioms.append(fa([m, v], nv(m, v) >= 0, nv(m, v)))
        more = z3.Store(v, k, z3.BoolVal(True))
        new = AND(SEL(dom(m), k), NOT(SEL(v, k)))
        sub = fa([l], IMP(SEL(v, l), SEL(dom(m), l)), SEL(v, l))
        for f, by in ((cv, lambda m, k: z3.IntVal(1)), (nv, lambda m, k: nd(val(m, k)))):
            ex.axioms.append(fa([m, v, k], IMP(new, f(m, more) == f(m, v) + by(m, k)), f(m, more)))
            ex.axioms.append(fa([m, v, k], IMP(AND(sub, new), f(m, v) + by(m, k) <= f(m, dom(m))), (f(m, v), val(m, k))))
        ex._need = (nd, cv, nv)
    return ex._need


class BuildTree(Contract):
    """an instance contains an instance of each part of its module, by its name, and so do those; no id twice"""
    name = J + 'build_instance_tree'
    FIELDS = [('definition', ('ptr', ('rec', MD))), ('name', ('str',)), ('id', U32), ('parent', ('ptr', ('rec', IN)))]

    def mkarg(self, ex, st, name, ty, i):
        return HeapCell(z3.Int('arg_' + name), U32) if i == 1 else None

    def top(self, cx):
        return cx.args[0].ref

    def counter(self, cx, st):
        return SEL(cx.ex.heap(st, 'cell:u32', U32), cx.args[1].ref)

    def ismod(self, cx, d):
        return cx.ex.uf('ghost:module', Z(), z3.BoolSort())(d)

    def pre(self, cx):
        ex = cx.ex
        d, k = I('d'), z3.Const('k', ex.Str)
        m = cx.fld(d, MD, 'instances')
        i = self.top(cx)
        c = self.counter(cx, cx.st)
        return [('modules', fa([d], IMP(self.ismod(cx, d), AND(d > 0, SEL(ex.allocd(cx.st), d))), self.ismod(cx, d))),
                ('parts-are-modules', fa([d, k], IMP(AND(self.ismod(cx, d), cx.has(m, k)), self.ismod(cx, cx.val(m, k))), (self.ismod(cx, d), cx.has(m, k)))),
                ('of-a-module', self.ismod(cx, cx.fld(i, IN, 'definition'))),
                ('empty', fa([k], NOT(cx.has(cx.fld(i, IN, 'instances'), k)), cx.has(cx.fld(i, IN, 'instances'), k))),
                ('enough-ids', AND(c >= 0, c + needs(ex)[0](cx.fld(i, IN, 'definition')) < 2 ** 32))]

    def modifies(self, cx):
        ex = cx.ex
        out = [('heap', 'cell:u32', U32), ('alloc',)]
        for o, n, t in ex.fields(IN):
            out.append(('heap', o + '.' + n, t))
        return out

    def built(self, cx, x, done=None):
        """x contains an instance of each part of its module, by its name, and knows it is around them"""
        ex = cx.ex
        k = z3.Const('k', ex.Str)
        m, p = cx.fld(x, IN, 'instances'), cx.fld(cx.fld(x, IN, 'definition'), MD, 'instances')
        y = cx.val(m, k)
        there = cx.has(p, k) if done is None else AND(cx.has(p, k), SEL(done, k))
        return AND(cx.has(m, k) == there,
                   IMP(there, AND(y != 0, SEL(ex.allocd(cx.st), y), cx.fld(y, IN, 'name') == k, cx.fld(y, IN, 'definition') == cx.val(p, k), cx.fld(y, IN, 'parent') == x))), k, cx.has(m, k)

    def news(self, cx, x):
        """an instance made here"""
        return AND(SEL(cx.ex.allocd(cx.st), x), NOT(SEL(cx.ex.allocd(cx.old), x)))

    def frame(self, cx):
        ex = cx.ex
        x = I('x')
        i = self.top(cx)
        C0, C1 = ex.heap(cx.old, 'cell:u32', U32), ex.heap(cx.st, 'cell:u32', U32)
        a0, a1 = ex.allocd(cx.old), ex.allocd(cx.st)
        out = [('still-there', fa([x], IMP(SEL(a0, x), SEL(a1, x)), SEL(a0, x))),
               ('other-counters-kept', fa([x], IMP(AND(x != cx.args[1].ref, SEL(a0, x)), SEL(C1, x) == SEL(C0, x)), SEL(C1, x)))]
        for o, n, t in ex.fields(IN):
            same = cx.fld(x, o, n) == cx.fld(x, o, n, cx.old)
            but = x != i if n in ('id', 'instances') else z3.BoolVal(True)
            out.append(('others-' + n, fa([x], IMP(AND(SEL(a0, x), but), same), cx.fld(x, o, n))))
        return out

    def post(self, cx):
        ex = cx.ex
        x, y = I('x'), I('y')
        i = self.top(cx)
        c0, c1 = self.counter(cx, cx.old), self.counter(cx, cx.st)
        mine = lambda x: OR(x == i, self.news(cx, x))
        idof = lambda x: cx.fld(x, IN, 'id')
        b, k, trig = self.built(cx, x)
        out = self.frame(cx)
        out += [('counted', AND(c1 > c0, c1 <= c0 + needs(ex)[0](cx.fld(i, IN, 'definition')))),
                ('complete', fa([x, k], IMP(mine(x), b), trig)),
                ('ids', fa([x], IMP(mine(x), AND(idof(x) >= c0, idof(x) < c1)), idof(x))),
                ('no-id-twice', fa([x, y], IMP(AND(mine(x), mine(y), idof(x) == idof(y)), x == y), (idof(x), idof(y))))]
        return out

    def _rec(self, L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        ex = L.ex
        i = self.top(cx)
        m = cx.fld(i, IN, 'instances')
        d = cx.fld(i, IN, 'definition', L.old)
        p = cx.fld(d, MD, 'instances')
        c0, c1 = self.counter(cx, cx.old), self.counter(cx, cx.st)
        x, y, l = I('x'), I('y'), z3.Const('l', ex.Str)
        nm = lambda x: cx.fld(x, IN, 'name')
        idof = lambda x: cx.fld(x, IN, 'id')
        pending = lambda x: AND(cx.has(m, nm(x)), cx.val(m, nm(x)) == x, NOT(SEL(L.visited, nm(x))))
        mine = lambda x: AND(OR(x == i, self.news(cx, x)), NOT(pending(x)))
        b, k, trig = self.built(cx, x)
        sub = cx.val(m, k)
        _, cv, nv = needs(ex)
        return self.frame(cx) + [
            ('counted', AND(c1 > c0, c1 <= c0 + 1 + cv(p, ex.acc(p, 0)) + nv(p, L.visited))),
            ('parts-made-here', fa([k], IMP(cx.has(m, k), AND(SEL(ex.allocd(cx.st), sub), NOT(SEL(ex.allocd(cx.old), sub)))), cx.has(m, k))),
            ('complete-so-far', fa([x, k], IMP(mine(x), b), trig)),
            ('others-still-empty', fa([x, l], IMP(pending(x), NOT(cx.has(cx.fld(x, IN, 'instances'), l))), cx.has(cx.fld(x, IN, 'instances'), l))),
            ('ids', fa([x], IMP(mine(x), AND(idof(x) >= c0, idof(x) < c1)), idof(x))),
            ('no-id-twice', fa([x, y], IMP(AND(mine(x), mine(y), idof(x) == idof(y)), x == y), (idof(x), idof(y))))]

    def __init__(self):
        Contract.__init__(self, loops=[Loop(self._make), Loop(self._rec)])

    def _make(self, L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        i = self.top(cx)
        d = cx.fld(i, IN, 'definition', L.old)
        c0, c1 = self.counter(cx, cx.old), self.counter(cx, cx.st)
        b, k, trig = self.built(cx, i, L.visited)
        x = I('x')
        ex = L.ex
        y = cx.val(cx.fld(i, IN, 'instances'), k)
        l = z3.Const('l', ex.Str)
        yl = cx.val(cx.fld(i, IN, 'instances'), l)
        return self.frame(cx) + [('made-so-far', fa([k], b, trig)), ('counted', AND(c1 > c0, c1 == c0 + 1 + needs(ex)[1](cx.fld(d, MD, 'instances'), L.visited))),
                ('own-id', cx.fld(i, IN, 'id') == c0),
                ('nothing-else', fa([x], IMP(self.news(cx, x), AND(cx.has(cx.fld(i, IN, 'instances'), cx.fld(x, IN, 'name')), cx.val(cx.fld(i, IN, 'instances'), cx.fld(x, IN, 'name')) == x)), cx.fld(x, IN, 'name'))),
                ('made-here', fa([k], IMP(cx.has(cx.fld(i, IN, 'instances'), k), AND(SEL(ex.allocd(cx.st), y), NOT(SEL(ex.allocd(cx.old), y)))), cx.has(cx.fld(i, IN, 'instances'), k))),
                ('apart', fa([k, l], IMP(AND(cx.has(cx.fld(i, IN, 'instances'), k), cx.has(cx.fld(i, IN, 'instances'), l), y == yl), k == l), (y, yl))),
                ('still-empty', fa([k, l], IMP(cx.has(cx.fld(i, IN, 'instances'), k), NOT(cx.has(cx.fld(y, IN, 'instances'), l))), (cx.has(cx.fld(y, IN, 'instances'), l)))),
                ]


CV, VR, GV = 'hgdb::ContextVariable', 'hgdb::Variable', 'hgdb::GeneratorVariable'
CTX = ('vec', ('tup', ('rec', CV), ('rec', VR)))
GEN = ('vec', ('tup', ('rec', GV), ('rec', VR)))


def rf(cx, rec, v, f):
    for i, (o, n, t) in enumerate(cx.ex.fields(rec)):
        if n == f:
            return cx.ex.acc(v, i)
    raise Unsupported('no field ' + f)


def value_of(cx, r, v):
    """the variable of the answer has the text and kind of the table's"""
    return AND(rf(cx, VR, r, 'value') == cx.fld(v, VD, 'value'), rf(cx, VR, r, 'is_rtl') == cx.fld(v, VD, 'rtl'))


class ToDb(Contract):
    """each variable, under the given name, in that order"""
    name = 'hgdb::convert_to_db_result'

    def pre(self, cx):
        i, v = I('i'), cx.arg(0)
        x = cx.ex.acc(cx.el(v, i), 1)
        return [('variables', fa([i], IMP(AND(i >= 0, i < cx.len(v)), AND(x > 0, SEL(cx.ex.allocd(cx.st), x), cx.fld(x, VD, 'type') >= 0, cx.fld(x, VD, 'type') < 2 ** 31)), cx.el(v, i)))]

    def same(self, cx, r, n):
        ex = cx.ex
        i, v = I('i'), cx.arg(0)
        e = cx.el(r, i)
        c, d, x = ex.acc(e, 0), ex.acc(e, 1), ex.acc(cx.el(v, i), 1)
        return [('so-many', cx.len(r) == n),
                ('each', fa([i], IMP(AND(i >= 0, i < n), AND(rf(cx, CV, c, 'name') == ex.acc(cx.el(v, i), 0), rf(cx, CV, c, 'depth') == cx.fld(x, VD, 'depth'),
                                                             rf(cx, CV, c, 'type') == cx.fld(x, VD, 'type'), value_of(cx, d, x))), cx.el(r, i)))]

    def post(self, cx):
        return self.same(cx, cx.ret.t, cx.len(cx.arg(0)))

    def _inv(self, L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        return self.same(cx, L.var('result', CTX), L.idx)

    def __init__(self):
        Contract.__init__(self, loops=[Loop(self._inv)])


class GetGenerator(Contract):
    """the variables of the module of an instance with that id, in order"""
    name = P + '::get_generator_variable'

    def pre(self, cx):
        x, i = I('x'), I('i')
        d = defn(cx, x)
        v = cx.fld(d, MD, 'vars')
        e = cx.el(v, i)
        al = cx.ex.allocd(cx.st)
        return design(cx) + roots(cx, cx.my('roots_')) + [
            ('definitions', fa([x], IMP(inode(cx.ex, x), AND(d > 0, SEL(al, d))), inode(cx.ex, x))),
            ('variables', fa([x, i], IMP(AND(inode(cx.ex, x), i >= 0, i < cx.len(v)), AND(e > 0, SEL(al, e))), (inode(cx.ex, x), e)))]

    def modifies(self, cx):
        return [('alloc',), ('heap', symtab.FindInstance.C + '.result', ('ptr', ('rec', IN))), ('heap', symtab.FindInstance.C + '.id_', U32)]

    def of(self, cx, r, x, n=None):
        ex = cx.ex
        v = cx.fld(defn(cx, x, cx.old), MD, 'vars', cx.old)
        i = I('i')
        c, d, y = ex.acc(cx.el(r, i), 0), ex.acc(cx.el(r, i), 1), cx.el(v, i)
        n = cx.len(v) if n is None else n
        return AND(cx.len(r) == n, fa([i], IMP(AND(i >= 0, i < n), AND(rf(cx, GV, c, 'name') == cx.fld(y, VD, 'name'), value_of(cx, d, y))), cx.el(r, i)))

    def hit(self, cx, x):
        return cx.fld(x, IN, 'id', cx.old) == cx.arg(0)

    def post(self, cx):
        r, v, x = cx.ret.t, cx.my('roots_', cx.old), I('x')
        hit = lambda x: self.hit(cx, x)
        return [('none-there', IMP(nowhere(cx, v, hit), cx.len(r) == 0)),
                ('its-variables', OR(AND(cx.len(r) == 0, nowhere(cx, v, hit)), z3.Exists([x], AND(hit(x), below(cx, v, x), self.of(cx, r, x)))))]

    def _find(self, L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        return [('not-yet', nowhere(cx, cx.my('roots_', cx.old), lambda x: self.hit(cx, x), L.idx)), ('none', L.var('instance', ('ptr', ('rec', IN))) == 0)]

    def _copy(self, L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        return [('so-far', self.of(cx, L.var('result', GEN), L.var('instance', ('ptr', ('rec', IN))), L.idx))]

    def __init__(self):
        Contract.__init__(self, loops=[Loop(self._find), Loop(self._copy)])


class GetScope(Assumed):
    """the parts of a module or block; nothing else has parts (three one-line functions, chosen by the kind of the entry)"""
    name = J + 'ScopeEntry::get_scope'

    def apply(self, ex, st, this, args, n):
        out = []
        t = SEL(ex.heap(st, E + '.type', ('enum', J + 'ScopeEntryType')), this.ref)
        K = kind(ex)
        for k, own in (('Module', MD), ('Block', BE), (None, None)):
            s = st.copy()
            s.pc.append(t == K[k] if k else AND(t != K['Module'], t != K['Block']))
            f = [(o, nm, ty) for o, nm, ty in ex.fields(own) if nm == 'scope'][0] if k else None
            out.append((s, PtrTo(HeapField(this.ref, *f)) if k else Val(z3.IntVal(0), ('ptr', ('vec', ('ptr', ('rec', E)))))))
        return out


def prev(ex):
    """prev(x): the part before x of what x is a part of; 0 for the first one"""
    if not hasattr(ex, '_prev'):
        f, pos = ex.uf('ghost:previous', Z(), Z()), ex.uf('ghost:position', Z(), Z())
        x = I('x')
        cx = Cx(ex, St(), St(), None, [])
        p = f0(ex, x, E, 'parent')
        for k, own in (('Module', MD), ('Block', BE)):
            v = f0(ex, p, own, 'scope')
            ex.axioms.append(fa([x], IMP(AND(p != 0, f0(ex, p, E, 'type') == kind(ex)[k]), f(x) == z3.If(pos(x) > 0, cx.el(v, pos(x) - 1), z3.IntVal(0))), f(x)))
        ex.axioms.append(fa([x], IMP(p == 0, f(x) == 0), f(x)))
        ex._prev = (f, pos)
    return ex._prev


def linked(cx):
    """an entry is a part of its parent, at one place of it"""
    ex = cx.ex
    x, n = I('x'), I('n')
    pos = prev(ex)[1]
    nd = lambda e: symtab.node(ex, e)
    K = kind(ex)
    p = cx.fld(x, E, 'parent')
    out = [('parents-have-parts', fa([x], IMP(AND(nd(x), p != 0), AND(nd(p), OR(*[cx.fld(p, E, 'type') == K[k] for k in ('Module', 'Block')]))), nd(x)))]
    for k, own in (('Module', MD), ('Block', BE)):
        v, w = cx.fld(x, own, 'scope'), cx.fld(p, own, 'scope')
        out.append(('parts-know-' + k.lower(), fa([x, n], IMP(AND(nd(x), cx.fld(x, E, 'type') == K[k], n >= 0, n < cx.len(v)), AND(cx.fld(cx.el(v, n), E, 'parent') == x, pos(cx.el(v, n)) == n)), (nd(x), cx.el(v, n)))))
        out.append(('few-parts-' + k.lower(), fa([x], IMP(nd(x), cx.len(v) < 2 ** 32), v)))
        out.append(('in-' + k.lower(), fa([x], IMP(AND(nd(x), p != 0, cx.fld(p, E, 'type') == K[k]), AND(pos(x) >= 0, pos(x) < cx.len(w), cx.el(w, pos(x)) == x)), nd(x))))
    return out


class GetPrevious(Contract):
    name = J + 'ScopeEntry::get_previous'

    def pre(self, cx):
        return tree(cx) + linked(cx) + [('entry', symtab.node(cx.ex, cx.thisref))]

    def post(self, cx):
        return [('the-one-before', cx.ret.t == prev(cx.ex)[0](cx.thisref))]

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        return [('not-yet', OR(prev(L.ex)[1](cx.thisref) == 0, prev(L.ex)[1](cx.thisref) >= L.var('i'))), ('index', L.var('i') >= 1)]
    loops = [Loop(_inv, decr=lambda L: 2 ** 32 - L.var('i'))]


PTRE = ('ptr', ('rec', E))


class Scope:
    """the variables of the statements before one, in source order: chosen(x, v) says which of x count.
    cnt(x, i): chosen ones of the first i of x; item(x, j): the j-th chosen of x; before(x): those of all statements
    before x in its and the enclosing blocks; at(x, j): the j-th of them"""

    def __init__(self, cx, name, chosen, parts=None):
        ex = cx.ex
        self.name = name
        self.cnt, self.item = ex.uf('ghost:%s-count' % name, Z(), Z(), Z()), ex.uf('ghost:%s-of' % name, Z(), Z(), Z())
        self.all = ex.uf('ghost:%s-all' % name, Z(), Z())
        self.before, self.at = ex.uf('ghost:%s-before' % name, Z(), Z()), ex.uf('ghost:%s-at' % name, Z(), Z(), Z())
        x, i, j = I('x'), I('i'), I('j')
        t, K = f0(ex, x, E, 'type'), kind(ex)
        A = ex.axioms.append
        A(fa([x, i], AND(self.cnt(x, z3.IntVal(0)) == 0, self.cnt(x, i) >= 0, self.all(x) >= 0), self.cnt(x, i)))
        A(fa([x], IMP(AND(t != K['Declaration'], t != K['Assign']), self.all(x) == 0), self.all(x)))
        for t_, n, y, trig, sel in (parts or self.variables)(Cx(ex, St(), St(), None, []), x, i, chosen):
            A(fa([x], IMP(t_, AND(self.all(x) == self.cnt(x, n))), self.all(x)))
            A(fa([x, i], IMP(AND(t_, i >= 0, i < n), AND(self.cnt(x, i + 1) == self.cnt(x, i) + z3.If(sel, z3.IntVal(1), z3.IntVal(0)),
                                                         self.cnt(x, i + 1) <= self.all(x),
                                                         IMP(sel, self.item(x, self.cnt(x, i)) == y))), (self.cnt(x, i), trig)))
        p, q = f0(ex, x, E, 'parent'), prev(ex)[0](x)
        up = AND(p != 0, f0(ex, p, E, 'type') != K['Module'])
        self.start = lambda x: z3.If(OR(x == 0, f0(ex, x, E, 'type') == K['Module']), z3.IntVal(0), self.before(x))
        A(fa([x], self.before(x) >= 0, self.before(x)))
        A(fa([x], IMP(x != 0, self.before(x) == z3.If(q != 0, self.before(q) + self.all(q), z3.If(up, self.before(p), z3.IntVal(0)))), (self.before(x), q)))
        A(fa([x, j], IMP(AND(x != 0, j >= 0, j < self.before(x)),
                         self.at(x, j) == z3.If(q != 0, z3.If(j < self.before(q), self.at(q, j), self.item(q, j - self.before(q))), self.at(p, j))), (self.at(x, j), q)))


    @staticmethod
    def variables(c0, x, i, chosen):
        """kind of statement, number of its parts, the i-th of them, and whether it counts"""
        out = []
        for k, own in (('Declaration', DE), ('Assign', AE)):
            v = f0(c0.ex, x, own, 'vars')
            y = c0.el(v, i)
            out.append((f0(c0.ex, x, E, 'type') == kind(c0.ex)[k], c0.len(v), y, y, chosen(x, y)))
        return out


def delayed_of(ex):
    """declared or assigned with a delay, or an element of an assignment whose index is delayed"""
    if not hasattr(ex, '_delayed'):
        cx = Cx(ex, St(), St(), None, [])
        delay = ex.tu.enumty['hgdb::SymbolTableProvider::VariableType']['delay']
        isdelay = lambda v: f0(ex, v, VD, 'type') == delay
        j, x = I('j'), I('x')
        ind = f0(ex, x, AE, 'indices')
        adds = ex.uf('ghost:delays', Z(), z3.BoolSort())
        w = ex.acc(cx.el(ind, j), 0)
        ex.axioms.append(fa([x], adds(x) == z3.Exists([j], AND(j >= 0, j < cx.len(ind), f0(ex, w, VD, 'rtl'), isdelay(w))), adds(x)))
        ex._delays = adds
        chosen = lambda x, v: OR(isdelay(v), AND(f0(ex, x, E, 'type') == kind(ex)['Assign'], adds(x)))
        ex._delayed = Scope(cx, 'delayed', chosen)
    return ex._delayed


def variables(cx):
    """the variables of a statement are there"""
    ex = cx.ex
    x, i = I('x'), I('i')
    K = kind(ex)
    out = []
    ok = lambda v: AND(v > 0, SEL(ex.allocd(cx.st), v), cx.fld(v, VD, 'type') >= 0, cx.fld(v, VD, 'type') < 2 ** 31)
    for k, own in (('Declaration', DE), ('Assign', AE)):
        v = cx.el(cx.fld(x, own, 'vars'), i)
        out.append(('variables-of-' + k.lower(), fa([x, i], IMP(AND(symtab.node(ex, x), cx.fld(x, E, 'type') == K[k], i >= 0, i < cx.len(cx.fld(x, own, 'vars'))), ok(v)), (symtab.node(ex, x), v))))
    v = ex.acc(cx.el(cx.fld(x, AE, 'indices'), i), 0)
    out.append(('indices', fa([x, i], IMP(AND(symtab.node(ex, x), cx.fld(x, E, 'type') == K['Assign'], i >= 0, i < cx.len(cx.fld(x, AE, 'indices'))), ok(v)), (symtab.node(ex, x), cx.el(cx.fld(x, AE, 'indices'), i)))))
    return out


VARS = ('vec', ('tup', ('str',), ('ptr', ('rec', VD))))


def ex_delays(ex):
    delayed_of(ex)
    return ex._delays


class GetDelayed(GetBreakpoint):
    """the delayed variables of the statements before the breakpoint, in source order"""
    def __init__(self):
        Contract.__init__(self, name=P + '::get_context_delayed_variables',
                          loops=[Loop(self._find), Loop(self._out, decr=self._up), Loop(self._back, decr=lambda L: prev(L.ex)[1](L.var('node', PTRE))),
                                 Loop(self._decl, decr=lambda L: L.idx + 1), Loop(self._index), Loop(self._assign, decr=lambda L: L.idx + 1)])

    def _up(self, L):
        x = L.var('entry', PTRE)
        return z3.If(x == 0, z3.IntVal(0), symtab.ghosts(L.ex)['rank'](x))

    scope = staticmethod(delayed_of)

    def pre(self, cx):
        return GetBreakpoint.pre(self, cx) + tree(cx) + linked(cx) + variables(cx)

    def modifies(self, cx):
        V = symtab.V
        return [('heap', 'cell:u32', U32), ('alloc',)]

    def place(self, cx):
        b = cx.arg(0)
        return cx.val(cx.fld(owner(cx.ex, b), IN, 'bps', cx.old), b)

    def post(self, cx):
        ex = cx.ex
        S = self.scope(ex)
        hit, at = self.theone(cx)
        r, e = cx.ret.t, self.place(cx)
        j = I('j')
        c, d, x = ex.acc(cx.el(r, j), 0), ex.acc(cx.el(r, j), 1), S.at(e, j)
        o = Cx(ex, cx.old, cx.old, cx.this, cx.args)
        return [('no-such-place', IMP(NOT(hit), cx.len(r) == 0)),
                ('so-many', IMP(hit, cx.len(r) == S.start(e))),
                ('each', IMP(hit, fa([j], IMP(AND(j >= 0, j < cx.len(r)), AND(rf(cx, CV, c, 'name') == o.fld(x, VD, 'name'), rf(cx, CV, c, 'depth') == o.fld(x, VD, 'depth'),
                                                                          rf(cx, CV, c, 'type') == o.fld(x, VD, 'type'), value_of(o, d, x))), cx.el(r, j))))]

    def _find(self, L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        return [('not-yet', NOT(self.theone(cx, L.idx)[0])), ('none', L.var('entry', PTRE) == 0)]

    def sofar(self, L, n):
        """all but the first n variables are there, last one first"""
        ex = L.ex
        cx = Cx(ex, L.st, L.old, L.this, L.args)
        S = self.scope(ex)
        vs, e = L.caller('vars'), self.e0(L)
        j = I('j')
        y = ex.acc(cx.el(vs, j), 1)
        x = S.at(e, S.start(e) - 1 - j)
        ok = AND(y > 0, SEL(ex.allocd(L.st), y), cx.fld(y, VD, 'type') >= 0, cx.fld(y, VD, 'type') < 2 ** 31)
        return [('so-many', cx.len(vs) == S.start(e) - n), ('found', AND(n >= 0, n <= S.start(e))),
                ('each', fa([j], IMP(AND(j >= 0, j < cx.len(vs)), AND(y == x, ok, ex.acc(cx.el(vs, j), 0) == cx.fld(x, VD, 'name'))), cx.el(vs, j)))]

    def e0(self, L):
        """the statement of the breakpoint"""
        return L.caller('entry', first=True)

    def rest(self, L, x, left):
        """what is before x is the rest"""
        S = self.scope(L.ex)
        e, j = self.e0(L), I('j')
        same = IMP(AND(j >= 0, j < left), S.at(e, j) == S.at(x, j))
        return ('rest', AND(fa([j], same, S.at(x, j)), fa([j], same, S.at(e, j))))

    def _out(self, L):
        x = L.var('entry', PTRE)
        S = self.scope(L.ex)
        return self.sofar(L, S.start(x)) + [self.rest(L, x, S.start(x)), ('entry', OR(x == 0, symtab.node(L.ex, x)))]

    def _back(self, L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        x, e = L.var('node', PTRE), L.var('entry', PTRE)
        S = self.scope(L.ex)
        return self.sofar(L, S.before(x)) + [self.rest(L, x, S.before(x)), ('entry', AND(x != 0, symtab.node(L.ex, x), e != 0, symtab.node(L.ex, e), cx.fld(x, E, 'parent') == cx.fld(e, E, 'parent')))]

    def part(self, L, own, it):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        S = self.scope(L.ex)
        x = L.var('pre', PTRE)
        v = cx.fld(x, own, 'vars')
        left = it + 1
        return self.sofar(L, S.before(x) + S.cnt(x, left)) + [('left', AND(left >= 0, left <= cx.len(v)))]

    def _decl(self, L):
        return self.part(L, DE, L.idx)

    def _assign(self, L):
        return self.part(L, AE, L.idx)

    def _index(self, L):
        ex = L.ex
        cx = Cx(ex, L.st, L.old, L.this, L.args)
        ind = cx.fld(L.var('pre', PTRE), AE, 'indices')
        j = I('j')
        w = ex.acc(cx.el(ind, j), 0)
        delay = ex.tu.enumty['hgdb::SymbolTableProvider::VariableType']['delay']
        hit = AND(cx.fld(w, VD, 'rtl'), cx.fld(w, VD, 'type') == delay)
        d = L.var('add_delay', ('bool',))
        return [('not-yet', IMP(NOT(d), fa([j], IMP(AND(j >= 0, j < L.idx), NOT(hit)), cx.el(ind, j)))), ('found', IMP(d, ex_delays(ex)(L.var('pre', PTRE))))]


OPTINT = ('opt', ('int', 64, True))


def now(ex):
    """the value of a signal in the simulator"""
    return ex.uf('ghost:now', ex.Str, ex.sort(OPTINT))


def callfn(ex, n, st, fobj, vs):
    """asking the simulator for the value of a signal"""
    return [(st, Val(now(ex)(ex.term(st, vs[0])), OPTINT))]


class GetContext(GetDelayed):
    """the variables of the statements before the breakpoint, in source order; an assignment to an element stands for the
    elements its indices select now"""
    def __init__(self):
        Contract.__init__(self, name=P + '::get_context_variables',
                          loops=[Loop(self._find), Loop(self._out, decr=self._up), Loop(self._back, decr=lambda L: prev(L.ex)[1](L.var('node', PTRE))),
                                 Loop(self._decl, decr=lambda L: L.idx + 1), Loop(self._index, decr=lambda L: L.idx + 1), Loop(self._assign, decr=lambda L: L.idx + 1)])

    FIELDS = (('name', ('str',)), ('value', ('str',)), ('rtl', ('bool',)), ('type', None), ('depth', U32))

    def pre(self, cx):
        return GetDelayed.pre(self, cx) + assigned(cx)

    def modifies(self, cx):
        return [('heap', 'cell:u32', U32)] + GetInstance.modifies(self, cx)

    def scope(self, ex, cx=None):
        if hasattr(ex, '_context'):
            return ex._context
        cx = cx or self._cx
        g = {}
        c0 = Cx(ex, St(), St(), None, [])
        x, i, v = I('x'), I('i'), I('v')
        el = ex.uf('ghost:element', Z(), Z(), Z())
        ge = {f: ex.uf('ghost:shown-' + f, Z(), f0(ex, v, VD, f).sort()) for f, t in self.FIELDS}
        A = ex.axioms.append
        for f, h in ge.items():
            A(fa([v], IMP(v > 0, h(v) == f0(ex, v, VD, f)), h(v)))
        vs, ix = f0(ex, x, AE, 'vars'), f0(ex, x, AE, 'indices')
        w = ex.acc(c0.el(ix, i), 0)
        v0 = c0.el(vs, z3.IntVal(0))
        S = ex.Str
        res = ex.uf('pure:hgdb::SymbolTableProvider::resolve_scoped_name_instance', Z(), S, Z(), ex.sort(('opt', ('str',))))
        name = res(cx.thisref, f0(ex, w, VD, 'value'), f0(ex, owner(ex, cx.arg(0)), IN, 'id'))
        val = now(ex)(c0.val(name))
        dec = ex.uf('dec', Z(), S)(c0.val(val))
        sel = AND(f0(ex, w, VD, 'rtl'), c0.has(cx.my('get_symbol_value_', cx.old)), c0.has(name), c0.has(val))
        e = el(x, i)
        A(fa([x, i], AND(e < 0, ge['name'](e) == ex.concat([f0(ex, v0, VD, 'name'), ex.lit('.'), dec]), ge['value'](e) == ex.concat([f0(ex, v0, VD, 'value'), ex.lit('['), dec, ex.lit(']')]),
                         ge['rtl'](e), ge['type'](e) == f0(ex, w, VD, 'type'), ge['depth'](e) == 1), e))

        def parts(c0, x, i, chosen):
            t, K = f0(ex, x, E, 'type'), kind(ex)
            dv = f0(ex, x, DE, 'vars')
            return [(t == K['Declaration'], c0.len(dv), c0.el(dv, i), c0.el(dv, i), z3.BoolVal(True)),
                    (AND(t == K['Assign'], c0.len(ix) == 0), c0.len(vs), c0.el(vs, i), c0.el(vs, i), z3.BoolVal(True)),
                    (AND(t == K['Assign'], c0.len(ix) > 0), c0.len(ix), e, c0.el(ix, i), sel)]
        ex._context = Scope(cx, 'context', None, parts)
        ex._context.shown = ge
        return ex._context

    def post(self, cx):
        ex = cx.ex
        S = self.scope(ex, cx)
        hit, at = self.theone(cx)
        r, e = cx.ret.t, self.place(cx)
        j = I('j')
        c, d, x = ex.acc(cx.el(r, j), 0), ex.acc(cx.el(r, j), 1), S.at(e, j)
        return [('no-such-place', IMP(NOT(hit), cx.len(r) == 0)),
                ('so-many', IMP(hit, cx.len(r) == S.start(e))),
                ('each', IMP(hit, fa([j], IMP(AND(j >= 0, j < cx.len(r)), AND(rf(cx, CV, c, 'name') == S.shown['name'](x), rf(cx, CV, c, 'depth') == S.shown['depth'](x),
                                                                          rf(cx, CV, c, 'type') == S.shown['type'](x), rf(cx, VR, d, 'value') == S.shown['value'](x), rf(cx, VR, d, 'is_rtl') == S.shown['rtl'](x))), cx.el(r, j))))]

    def sofar(self, L, n):
        ex = L.ex
        cx = Cx(ex, L.st, L.old, L.this, L.args)
        S = self.scope(ex, cx)
        vs, e = L.caller('vars'), self.e0(L)
        j, v = I('j'), I('v')
        y = ex.acc(cx.el(vs, j), 1)
        x = S.at(e, S.start(e) - 1 - j)
        a0, a1 = ex.allocd(L.old), ex.allocd(L.st)
        ok = AND(y > 0, SEL(a1, y), cx.fld(y, VD, 'type') >= 0, cx.fld(y, VD, 'type') < 2 ** 31)
        out = [('so-many', cx.len(vs) == S.start(e) - n), ('found', AND(n >= 0, n <= S.start(e))),
               ('there', fa([j], IMP(AND(j >= 0, j < cx.len(vs)), ok), cx.el(vs, j))),
               ('name', fa([j], IMP(AND(j >= 0, j < cx.len(vs)), ex.acc(cx.el(vs, j), 0) == S.shown['name'](x)), cx.el(vs, j)))]
        out += [(f, fa([j], IMP(AND(j >= 0, j < cx.len(vs)), cx.fld(y, VD, f) == S.shown[f](x)), cx.el(vs, j))) for f, t in self.FIELDS if f != 'name']
        out += [('memory', fa([v], IMP(SEL(a0, v), SEL(a1, v)), SEL(a0, v)))]
        for f, t in self.FIELDS:
            out.append(('table-kept-' + f, fa([v], IMP(SEL(a0, v), cx.fld(v, VD, f) == cx.fld(v, VD, f, L.old)), cx.fld(v, VD, f))))
        return out

    def _find(self, L):
        self.scope(L.ex, Cx(L.ex, L.st, L.old, L.this, L.args))
        return GetDelayed._find(self, L)

    def _index(self, L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        S = self.scope(L.ex)
        x = L.var('pre', PTRE)
        left = L.idx + 1
        return self.sofar(L, S.before(x) + S.cnt(x, left)) + [('left', AND(left >= 0, left <= cx.len(cx.fld(x, AE, 'indices'))))]


AV = 'hgdb::AssignmentVisitor'
AI = AV + '::Info'


def hits(ex):
    """match(W, e): the assignment e assigns what the pieces W name; text(W, e), when(W, e): RTL text and condition of that;
    cnt(W, e): so many assignments below e match; at(W, e, j): the j-th of them, in source order"""
    if hasattr(ex, '_hits'):
        return ex._hits
    g = {}
    S = ex.sort(('vec', ('str',)))
    g['match'] = m = ex.uf('ghost:assigns', S, Z(), z3.BoolSort())
    g['text'], g['when'] = ex.uf('ghost:assigned-text', S, Z(), ex.Str), ex.uf('ghost:assigned-when', S, Z(), ex.Str)
    g['cnt'] = c = ex.uf('ghost:assignments', S, Z(), Z())
    g['cntp'] = cp = ex.uf('ghost:assignments-so-far', S, Z(), Z(), Z())
    g['at'] = at = ex.uf('ghost:assignment', S, Z(), Z(), Z())
    W, e, n, j = z3.Const('W', S), I('e'), I('n'), I('j')
    t, K = f0(ex, e, E, 'type'), kind(ex)
    cx = Cx(ex, St(), St(), None, [])
    A = ex.axioms.append
    A(fa([W, e], AND(c(W, e) >= 0, IMP(OR(t == K['Declaration'], t == K['None']), c(W, e) == 0),
                     IMP(t == K['Assign'], AND(c(W, e) == z3.If(m(W, e), z3.IntVal(1), z3.IntVal(0)), at(W, e, z3.IntVal(0)) == e))), c(W, e)))
    for k, own in (('Module', MD), ('Block', BE)):
        v = f0(ex, e, own, 'scope')
        A(fa([W, e], IMP(t == K[k], AND(cp(W, e, z3.IntVal(0)) == 0, c(W, e) == cp(W, e, cx.len(v)))), c(W, e)))
        A(fa([W, e, n], IMP(AND(t == K[k], n >= 0, n < cx.len(v)), AND(cp(W, e, n + 1) == cp(W, e, n) + c(W, cx.el(v, n)), cp(W, e, n) >= 0, cp(W, e, n + 1) <= c(W, e))),
             (cp(W, e, n), c(W, cx.el(v, n)))))
        A(fa([W, e, n, j], IMP(AND(t == K[k], n >= 0, n < cx.len(v), j >= 0, j < c(W, cx.el(v, n))), at(W, e, cp(W, e, n) + j) == at(W, cx.el(v, n), j)),
             (cp(W, e, n), at(W, cx.el(v, n), j))))
    ex._hits = g
    return g


def assigns(ex):
    """what an assignment assigns: an element its index may select, under the condition that it does; else the first of its
    variables with these pieces"""
    g = hits(ex)
    if 'same' in g:
        return g
    S = ex.sort(('vec', ('str',)))
    g['same'] = same = ex.uf('ghost:same-pieces', S, S, Z(), z3.BoolSort())
    g['tok'] = tok = lambda t: ex.uf('pure:hgdb::util::get_tokens', ex.Str, ex.Str, S)(t, ex.lit('[].'))
    g['fits'] = fits = ex.uf('ghost:index-fits', S, Z(), Z(), z3.BoolSort())
    g['ind'] = ind = ex.uf('ghost:element-assigned', S, Z(), z3.BoolSort())
    V, W, e, n, j, k = z3.Const('V', S), z3.Const('W', S), I('e'), I('n'), I('j'), I('k')
    cx = Cx(ex, St(), St(), None, [])
    A = ex.axioms.append
    A(fa([V, W, n], same(V, W, n) == fa([j], IMP(AND(j >= 0, j < n), cx.el(V, j) == cx.el(W, j)), cx.el(V, j)), same(V, W, n)))
    vs, ix = f0(ex, e, AE, 'vars'), f0(ex, e, AE, 'indices')
    one = lambda k: ex.acc(cx.el(ix, k), 0)
    num = ex.uf('pure:hgdb::util::stoul', ex.Str, ex.sort(('opt', ('int', 64, False))))(cx.el(W, cx.len(W) - 1))
    t0 = tok(f0(ex, cx.el(vs, z3.IntVal(0)), VD, 'name'))
    dec = ex.uf('dec', Z(), ex.Str)(cx.val(num))
    for at in (fits(W, e, k), (g['match'](W, e), cx.el(ix, k))):
        A(fa([W, e, k], fits(W, e, k) == AND(k >= 0, k < cx.len(ix), ex.acc(cx.el(ix, k), 1) <= cx.val(num), cx.val(num) <= ex.acc(cx.el(ix, k), 2)), at))
    for at in (ind(W, e), g['match'](W, e)):
        A(fa([W, e], ind(W, e) == AND(cx.len(ix) > 0, cx.len(W) > 0, cx.len(t0) == cx.len(W) - 1, same(t0, W, cx.len(W) - 1), cx.has(num), z3.Exists([k], fits(W, e, k))), at))
    A(fa([W, e, k], IMP(AND(ind(W, e), fits(W, e, k), fa([j], IMP(AND(j >= 0, j < k), NOT(fits(W, e, j))), fits(W, e, j))),
                        AND(g['match'](W, e), g['text'](W, e) == ex.concat([f0(ex, cx.el(vs, z3.IntVal(0)), VD, 'value'), ex.lit('['), dec, ex.lit(']')]),
                            g['when'](W, e) == ex.concat([f0(ex, one(k), VD, 'value'), ex.lit(' == '), dec]))), (ind(W, e), fits(W, e, k))))
    g['plain'] = plain = ex.uf('ghost:variable-assigned', S, Z(), Z(), z3.BoolSort())
    v = cx.el(vs, k)
    for at in (plain(W, e, k), (g['match'](W, e), v)):
        A(fa([W, e, k], plain(W, e, k) == AND(k >= 0, k < cx.len(vs), cx.len(tok(f0(ex, v, VD, 'name'))) == cx.len(W), same(tok(f0(ex, v, VD, 'name')), W, cx.len(W))), at))
    A(fa([W, e], IMP(NOT(ind(W, e)), g['match'](W, e) == z3.Exists([k], plain(W, e, k))), (ind(W, e), g['match'](W, e))))
    A(fa([W, e, k], IMP(AND(NOT(ind(W, e)), plain(W, e, k), fa([j], IMP(AND(j >= 0, j < k), NOT(plain(W, e, j))), plain(W, e, j))),
                        AND(g['match'](W, e), g['text'](W, e) == f0(ex, v, VD, 'value'), g['when'](W, e) == ex.EMPTY)), (ind(W, e), plain(W, e, k))))
    return g


def endless(cx):
    """no name has four billion pieces"""
    t = z3.Const('t', cx.ex.Str)
    k = assigns(cx.ex)['tok'](t)
    return [('no-endless-name', fa([t], cx.len(k) < 2 ** 32, k))]


class RtlEquivalent(Contract):
    """the element the assignment assigns, if it is the one named"""
    name = AV + '::rtl_equivalent'

    def pre(self, cx):
        assigns(cx.ex)
        e = cx.args[0].ref
        return variables(cx) + [('entry', AND(symtab.node(cx.ex, e), cx.fld(e, E, 'type') == kind(cx.ex)['Assign'])),
                                ('something-assigned', cx.len(cx.fld(e, AE, 'vars')) > 0)] + endless(cx)

    def post(self, cx):
        g = assigns(cx.ex)
        W, e, r = cx.my('var_names_'), cx.args[0].ref, cx.ret.t
        return [('if-it-is', cx.has(r) == g['match'](W, e)), ('as-it-is', IMP(cx.has(r), self.info(cx, cx.val(r), W, e)))]

    def _cmp(L):
        l, r, a, b = L.var('itl'), L.var('itr'), L.var('lb'), L.var('rb')
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        V, W = L.ex.rv(L.st, l.place).t, L.ex.rv(L.st, r.place).t
        j = I('j')
        return [('in-step', AND(l.idx - a.idx == r.idx - b.idx, l.idx >= a.idx, l.idx <= L.var('le').idx)),
                ('same-so-far', fa([j], IMP(AND(j >= a.idx, j < l.idx), cx.el(V, j) == cx.el(W, j - a.idx + b.idx)), cx.el(V, j)))]

    def _index(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        j, W, e = I('j'), cx.my('var_names_'), cx.args[0].ref
        return [('not-yet', fa([j], IMP(AND(j >= 0, j < L.idx), NOT(assigns(L.ex)['fits'](W, e, j))), assigns(L.ex)['fits'](W, e, j)))]

    def _vars(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        j, W, e = I('j'), cx.my('var_names_'), cx.args[0].ref
        return [('no-element', NOT(assigns(L.ex)['ind'](W, e))), ('not-yet', fa([j], IMP(AND(j >= 0, j < L.idx), NOT(assigns(L.ex)['plain'](W, e, j))), assigns(L.ex)['plain'](W, e, j)))]

    def _eq(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        j, W, V, n = I('j'), cx.my('var_names_'), L.var('var_names', ('vec', ('str',))), L.var('i')
        return [('index', AND(n >= 0, n <= cx.len(V))), ('so-far', L.var('same', ('bool',))),
                ('same-so-far', fa([j], IMP(AND(j >= 0, j < n), cx.el(V, j) == cx.el(W, j)), cx.el(V, j)))]
    loops = [Loop(_cmp, decr=lambda L: L.var('le').idx - L.var('itl').idx), Loop(_index), Loop(_vars),
             Loop(_eq, decr=lambda L: Cx(L.ex, L.st, L.old, L.this, L.args).len(L.var('var_names', ('vec', ('str',)))) - L.var('i'))]

    @staticmethod
    def info(cx, i, W, e):
        g = hits(cx.ex)
        return AND(rf(cx, AI, i, 'assign') == e, rf(cx, AI, i, 'rtl_value') == g['text'](W, e), rf(cx, AI, i, 'condition') == g['when'](W, e))


def assigned(cx):
    """an assignment assigns something"""
    x = I('x')
    return [('something-assigned', fa([x], IMP(AND(symtab.node(cx.ex, x), cx.fld(x, E, 'type') == kind(cx.ex)['Assign']), cx.len(cx.fld(x, AE, 'vars')) > 0), symtab.node(cx.ex, x)))]


class AssignWalk(Contract):
    """the matching assignments below are added, in source order, and nothing else"""
    def __init__(self, what, byptr=False, kindname=None, loops=()):
        Contract.__init__(self, name=AV + '::' + what, dyn=AV, byptr=byptr, kindname=kindname)
        self.loops = [Loop(self._inv)] if loops else []

    def entry(self, cx):
        return cx.arg(0) if self.byptr else cx.args[0].ref

    def pre(self, cx):
        e = self.entry(cx)
        out = tree(cx) + variables(cx) + assigned(cx) + endless(cx) + [('entry', symtab.node(cx.ex, e)), ('room', cx.len(cx.my('result')) >= 0)]
        if self.kindname:
            out.append(('kind', cx.fld(e, E, 'type') == kind(cx.ex)[self.kindname]))
        return out

    def modifies(self, cx):
        return [('field', cx.thisref, AV, 'result')]

    def state(self, cx, n):
        W, e, i = cx.my('var_names_', cx.old), self.entry(cx), I('i')
        r0, r1 = cx.my('result', cx.old), cx.my('result')
        return [('so-many', cx.len(r1) == cx.len(r0) + n),
                ('earlier-kept', fa([i], IMP(AND(i >= 0, i < cx.len(r0)), cx.el(r1, i) == cx.el(r0, i)), cx.el(r1, i))),
                ('in-order', fa([i], IMP(AND(i >= cx.len(r0), i < cx.len(r1)), RtlEquivalent.info(cx, cx.el(r1, i), W, hits(cx.ex)['at'](W, e, i - cx.len(r0)))), cx.el(r1, i)))]

    def post(self, cx):
        return self.state(cx, hits(cx.ex)['cnt'](cx.my('var_names_', cx.old), self.entry(cx)))

    def _inv(self, L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        g = hits(L.ex)
        W, e = cx.my('var_names_', cx.old), self.entry(cx)
        return self.state(cx, g['cntp'](W, e, L.idx)) + [('so-far', AND(g['cntp'](W, e, L.idx) >= 0, g['cntp'](W, e, L.idx) <= g['cnt'](W, e)))]


def module_of(ex):
    """the module an entry is in; 0 if none"""
    if not hasattr(ex, '_module'):
        ex._module = m = ex.uf('ghost:module', Z(), Z())
        e = I('e')
        ex.axioms.append(fa([e], m(e) == z3.If(OR(e == 0, f0(ex, e, E, 'type') == kind(ex)['Module']), e, m(f0(ex, e, E, 'parent'))), m(e)))
    return ex._module


def known(ex):
    """known(x, a): instance x has a breakpoint at a; sofar(W, m, x, n): so many of the first n assignments in m are known"""
    if not hasattr(ex, '_known'):
        S = ex.sort(('vec', ('str',)))
        f = ex.uf('ghost:known-at', Z(), Z(), z3.BoolSort())
        g = ex.uf('ghost:known-assignments', S, Z(), Z(), Z(), Z())
        x, a, k, n, m, W = I('x'), I('a'), I('k'), I('n'), I('m'), z3.Const('W', S)
        bps = f0(ex, x, IN, 'bps')
        cx = Cx(ex, St(), St(), None, [])
        at = hits(ex)['at'](W, m, n)
        ex.axioms.append(fa([x, a], f(x, a) == z3.Exists([k], AND(cx.has(bps, k), cx.val(bps, k) == a)), f(x, a)))
        ex.axioms.append(fa([W, m, x, n], AND(g(W, m, x, z3.IntVal(0)) == 0, IMP(n >= 0, AND(g(W, m, x, n) >= 0, g(W, m, x, n + 1) == g(W, m, x, n) + z3.If(f(x, at), z3.IntVal(1), z3.IntVal(0))))), g(W, m, x, n)))
        ex._known = f, g
    return ex._known


ASG = ('vec', ('tup', U32, ('str',), ('str',)))


class GetAssigned(GetBreakpoint):
    """the assignments to the variable in the module of the breakpoint, in source order, under their ids in its instance"""
    def __init__(self):
        Contract.__init__(self, name=P + '::get_assigned_breakpoints', loops=[Loop(self._find), Loop(self._up, decr=self._left), Loop(self._merge)])

    def pre(self, cx):
        return GetBreakpoint.pre(self, cx) + tree(cx) + variables(cx) + assigned(cx) + endless(cx)

    def theone(self, cx, n=None):
        return GetBreakpoint.theone(self, Cx(cx.ex, cx.st, cx.old, cx.this, [cx.args[1]]), n)

    def modifies(self, cx):
        return [('heap', 'cell:u32', U32)] + GetInstance.modifies(self, cx)

    def place(self, cx):
        b = cx.arg(1)
        return cx.val(cx.fld(owner(cx.ex, b), IN, 'bps', cx.old), b)

    def sofar(self, cx, r, n):
        """those of the first n assignments that the instance knows"""
        ex = cx.ex
        W, m, x = assigns(ex)['tok'](cx.arg(0)), module_of(ex)(self.place(cx)), owner(ex, cx.arg(1))
        o = Cx(ex, cx.old, cx.old, cx.this, cx.args)
        f, g = known(ex)
        j = I('j')
        H = hits(ex)
        a = H['at'](W, m, j)
        bps = o.fld(x, IN, 'bps')
        t = cx.el(r, g(W, m, x, j))
        id_ = ex.acc(t, 0)
        cond = symtab.ghosts(ex)['merge'](symtab.ghosts(ex)['cond'](o.fld(a, E, 'condition'), o.fld(a, E, 'parent')), H['when'](W, a))
        return [('so-many', cx.len(r) == g(W, m, x, n)),
                ('each', fa([j], IMP(AND(j >= 0, j < n, f(x, a)), AND(g(W, m, x, j) < cx.len(r), cx.has(bps, id_), cx.val(bps, id_) == a, ex.acc(t, 1) == H['text'](W, a), ex.acc(t, 2) == cond)), g(W, m, x, j)))]

    def post(self, cx):
        ex = cx.ex
        hit, at = self.theone(cx)
        W, m = assigns(ex)['tok'](cx.arg(0)), module_of(ex)(self.place(cx))
        r = cx.ret.t
        return [('no-such-place', IMP(OR(NOT(hit), m == 0), cx.len(r) == 0))] + [(n, IMP(AND(hit, m != 0), p)) for n, p in self.sofar(cx, r, hits(ex)['cnt'](W, m))]

    def _find(self, L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        return [('not-yet', NOT(self.theone(cx, L.idx)[0])), ('none', L.var('scope_entry', PTRE) == 0)]

    def _up(self, L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        p = L.var('parent')
        m = module_of(L.ex)
        return [('same-module', m(p) == m(L.var('scope_entry', PTRE))), ('entry', OR(p == 0, symtab.node(L.ex, p)))]

    def _left(self, L):
        p = L.var('parent')
        return z3.If(p == 0, z3.IntVal(0), symtab.ghosts(L.ex)['rank'](p))

    def _merge(self, L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        return self.sofar(cx, L.var('result', ASG), L.idx)


AWALKS = [AssignWalk('handle@AssignEntry', kindname='Assign'), AssignWalk('visit@shared_ptr', byptr=True), AssignWalk('visit@BlockEntry', kindname='Block', loops=1),
          AssignWalk('visit@ModuleDef', kindname='Module', loops=1)]


FIND, FINDBP = FindWalk(symtab.FindInstance()), FindWalk(symtab.FindInstanceOfBp())
CONTRACTS = [FIND, FINDBP, GetInstance(), GetInstanceIdOfBp(), GetInstanceName(), GetInstanceIdByName(), BpWalk(), GetBreakpoints('(const std::string &, uint32_t, uint32_t)', True), GetBreakpoints('(const std::string &)', False), GetBreakpoint()] + WALKS + [BuildTree(), ToDb(), GetGenerator(), GetPrevious(), GetDelayed(), GetContext(), RtlEquivalent(), GetAssigned()] + AWALKS
SPECS = [GetScope(), Pure(name='hgdb::SymbolTableProvider::resolve_scoped_name_instance'), Pure(name='hgdb::util::stoul'), symtab.GetBpId(), symtab.GetCondition(), symtab.MergeCondition(), symtab.Handle(), symtab.Number(), symtab.FindInstance(), symtab.FindInstanceOfBp(), Pure(name='hgdb::util::get_tokens')]
HOOKS = {'#callfn': callfn}
