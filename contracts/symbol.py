"""src/symbol.cc: what names, constants and file names mean, over any symbol table"""
import z3
from hvc.contract import Contract, Assumed, Pure, Havoc, NoEffect, Loop, Cx
from hvc.sym import Val, Iter, PtrTo, PyObj, Temp, Local, HeapField, HeapObj, St, Unsupported
from hvc import stl
from .common import *

SRC = 'src/symbol.cc'
MODE = 'int'
FILTER = 'hgdb'
P = 'hgdb::SymbolTableProvider'
Z = z3.IntSort
BPR, CV, VR, GV = 'hgdb::BreakPoint', 'hgdb::ContextVariable', 'hgdb::Variable', 'hgdb::GeneratorVariable'
U32 = ('int', 32, False)
VS = ('vec', ('str',))


def rf(cx, rec, v, f):
    for i, (o, n, t) in enumerate(cx.ex.fields(rec)):
        if n == f:
            return cx.ex.acc(v, i)
    raise Unsupported('no field ' + f)


# ---- the symbol table: one answer per question while a verified function runs
class Query(Pure):
    def __init__(self, name, rt):
        Pure.__init__(self, name=name, retty=rt)


CTX = ('vec', ('tup', ('rec', CV), ('rec', VR)))
GEN = ('vec', ('tup', ('rec', GV), ('rec', VR)))


def ask(cx, f, k, rt):
    """the table's answer"""
    v = cx.ex.uf('pure:' + P + '::' + f, Z(), Z(), cx.ex.sort(rt))(cx.thisref, k)
    return v


class GetBp(Pure):
    name = P + '::get_breakpoint'
    retty = ('opt', ('rec', BPR))

    def facts(self, cx):
        """a breakpoint of the table belongs to an instance"""
        r = cx.ret.t
        i = rf(cx, BPR, cx.val(r), 'instance_id')
        return [IMP(cx.has(r), AND(i > 0, SEL(cx.ex.allocd(cx.st), i)))]


class Tokens(Pure):
    name = 'hgdb::util::get_tokens'


def pieces(ex, s):
    return ex.uf('pure:hgdb::util::get_tokens', ex.Str, ex.Str, ex.sort(VS))(s, ex.lit('[].'))


def same_name(cx, a, b):
    """the same name whichever way its elements are written"""
    ex = cx.ex
    f = ex.uf('ghost:same_name', ex.Str, ex.Str, z3.BoolSort())
    if not getattr(ex, '_same', None):
        ex._same = True
        s, t, i = z3.Const('s', ex.Str), z3.Const('t', ex.Str), I('i')
        ta, tb = pieces(ex, s), pieces(ex, t)
        ex.axioms.append(fa([s, t], f(s, t) == AND(cx.len(ta) == cx.len(tb), fa([i], IMP(AND(i >= 0, i < cx.len(ta)), cx.el(ta, i) == cx.el(tb, i)), cx.el(ta, i))), f(s, t)))
    return f(a, b)


def prefix(cx, s, p):
    stl.prefix_axiom(cx.ex, 'starts_with')
    return cx.ex.uf('starts_with', cx.ex.Str, cx.ex.Str, z3.BoolSort())(s, p)


class InDirectory(Contract):
    """the directory itself, or something under it"""
    name = 'hgdb::in_directory'

    def post(self, cx):
        return [('directory-or-below', cx.ret.t == below(cx, cx.arg(0), cx.arg(1)))]


def below(cx, p, d):
    ex = cx.ex
    n = ex.slen(d)
    return AND(prefix(cx, p, d), OR(n == 0, ex.sat(d, n - 1) == 47, ex.slen(p) == n, ex.sat(p, n) == 47))


class InInstance(Contract):
    """the full name of the instance, or of something in it"""
    name = 'hgdb::in_instance'

    def post(self, cx):
        return [('instance-or-below', cx.ret.t == inside(cx, cx.arg(0), cx.arg(1)))]


def inside(cx, s, n):
    ex = cx.ex
    k = ex.slen(n)
    return AND(prefix(cx, s, n), OR(ex.slen(s) == k, ex.sat(s, k) == 46, ex.sat(s, k) == 91))


class Equiv(Contract):
    """the same pieces in the same order"""
    name = 'hgdb::rtl_equivalent'

    def post(self, cx):
        return [('same-pieces', cx.ret.t == same_name(cx, cx.arg(0), cx.arg(1)))]

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        i = I('i')
        a, b = pieces(L.ex, cx.arg(0)), pieces(L.ex, cx.arg(1))
        n = L.idx
        return [('so-far', AND(n >= 0, n <= cx.len(a), fa([i], IMP(AND(i >= 0, i < n), cx.el(a, i) == cx.el(b, i)), cx.el(a, i))))]
    loops = [Loop(_inv)]


class InstName(Contract):
    """the name of the instance of the breakpoint"""
    name = P + '::get_instance_name_from_bp'

    def post(self, cx):
        ex = cx.ex
        return [('of-its-instance', cx.ret.t == inst_name_of_bp(cx, cx.arg(0)))]


def inst_name(cx, i):
    return ask(cx, 'get_instance_name', i, ('opt', ('str',)))


def inst_name_of_bp(cx, b):
    ex = cx.ex
    bp = ask(cx, 'get_breakpoint', b, ('opt', ('rec', BPR)))
    i = SEL(ex.heap(cx.old, 'cell:u32', U32), rf(cx, BPR, cx.val(bp), 'instance_id'))
    s = ex.sort(('opt', ('str',)))
    some = inst_name(cx, i)
    return z3.If(cx.has(bp), some, ex.none(('opt', ('str',))))


def meaning(cx, var, inst):
    """what the text of a variable refers to, seen from an instance"""
    v = rf(cx, VR, var, 'value')
    return z3.If(AND(rf(cx, VR, var, 'is_rtl'), NOT(inside(cx, v, inst))), cx.ex.concat([inst, cx.ex.lit('.'), v]), v)


class ScopedBp(Contract):
    """the newest variable of that name (or that text)"""
    name = P + '::resolve_scoped_name_breakpoint'
    rec, newest = CV, True

    def vars(self, cx):
        return ask(cx, 'get_context_variables', u32(cx.arg(1)), CTX)

    def inst(self, cx):
        return inst_name_of_bp(cx, u32(cx.arg(1)))

    def is_it(self, cx, i):
        v = self.vars(cx)
        c, r = cx.ex.acc(cx.el(v, i), 0), cx.ex.acc(cx.el(v, i), 1)
        return OR(same_name(cx, rf(cx, self.rec, c, 'name'), cx.arg(0)), rf(cx, VR, r, 'value') == cx.arg(0))

    def post(self, cx):
        r, v, n = cx.ret.t, self.vars(cx), self.inst(cx)
        i, j = I('i'), I('j')
        ok = lambda i: AND(i >= 0, i < cx.len(v), self.is_it(cx, i))
        first = AND(ok(i), fa([j], IMP(AND(ok(j), j > i) if self.newest else AND(ok(j), j < i), z3.BoolVal(False)), cx.el(v, j)))
        big = cx.arg(1) >= 2 ** 32
        return [('no-such-id', IMP(big, NOT(cx.has(r)))),
                ('no-instance', IMP(NOT(cx.has(n)), NOT(cx.has(r)))),
                ('no-such-variable', IMP(fa([i], IMP(AND(i >= 0, i < cx.len(v)), NOT(self.is_it(cx, i))), cx.el(v, i)), NOT(cx.has(r)))),
                ('the-one-that-counts', fa([i], IMP(AND(NOT(big), cx.has(n), first), AND(cx.has(r), cx.val(r) == meaning(cx, cx.ex.acc(cx.el(v, i), 1), cx.val(n)))), cx.el(v, i)))]

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        me = ScopedBp()
        j = I('j')
        v = me.vars(cx)
        return [('later-ones-are-others', fa([j], IMP(AND(j > L.idx, j < cx.len(v)), NOT(me.is_it(cx, j))), cx.el(v, j))), ('in-range', AND(L.idx >= -1, L.idx < cx.len(v)))]
    loops = [Loop(_inv)]


def u32(t):
    return z3.If(AND(t >= 0, t < 2 ** 32), t, t % (2 ** 32))


class ScopedInst(ScopedBp):
    """the first generator variable of that name (or that text)"""
    name = P + '::resolve_scoped_name_instance'
    rec, newest = GV, False

    def vars(self, cx):
        return ask(cx, 'get_generator_variable', u32(cx.arg(1)), GEN)

    def inst(self, cx):
        return inst_name(cx, u32(cx.arg(1)))

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        me = ScopedInst()
        j = I('j')
        v = me.vars(cx)
        return [('earlier-ones-are-others', fa([j], IMP(AND(j >= 0, j < L.idx), NOT(me.is_it(cx, j))), cx.el(v, j)))]
    loops = [Loop(_inv)]


class Stol(Pure):
    name = 'hgdb::util::stol'


def number(ex, s):
    return ex.uf('pure:hgdb::util::stol', ex.Str, ex.sort(('opt', ('int', 64, True))))(s)


def digits(ex, s):
    """every character is a decimal digit"""
    f = ex.uf('ghost:digits', ex.Str, z3.BoolSort())
    if not getattr(ex, '_digits', None):
        ex._digits = True
        t, i = z3.Const('t', ex.Str), I('i')
        ex.axioms.append(fa([t], f(t) == fa([i], IMP(AND(i >= 0, i < ex.slen(t)), AND(ex.sat(t, i) >= 48, ex.sat(t, i) <= 57)), ex.sat(t, i)), f(t)))
    return f(s)


class StaticValues(Contract):
    """the constants in scope: of each name the newest variable, if it is a number"""
    name = P + '::get_context_static_values'

    @staticmethod
    def vars(cx):
        return ask(cx, 'get_context_variables', cx.arg(0), CTX)

    @staticmethod
    def parts(cx, v, i):
        c, r = cx.ex.acc(cx.el(v, i), 0), cx.ex.acc(cx.el(v, i), 1)
        return rf(cx, CV, c, 'name'), rf(cx, VR, r, 'value'), rf(cx, VR, r, 'is_rtl')

    @classmethod
    def newest(cls, cx, v, i):
        j = I('j')
        nm = lambda i: cls.parts(cx, v, i)[0]
        return AND(i >= 0, i < cx.len(v), fa([j], IMP(AND(j > i, j < cx.len(v)), nm(j) != nm(i)), cx.el(v, j)))

    @classmethod
    def said(cls, cx, r, lo):
        """what the variables from lo on give"""
        ex = cx.ex
        v = cls.vars(cx)
        i = I('i')
        s = z3.Const('s', ex.Str)
        nm, val, rtl = cls.parts(cx, v, i)
        ok = AND(NOT(rtl), digits(ex, val), cx.has(number(ex, val)))
        return [('newest-counts', fa([i], IMP(AND(i >= lo, cls.newest(cx, v, i)), AND(cx.has(r, nm) == ok, IMP(ok, cx.val(r, nm) == cx.val(number(ex, val))))), cx.el(v, i))),
                ('no-other-name', fa([s], IMP(cx.has(r, s), z3.Exists([i], AND(i >= lo, i >= 0, i < cx.len(v), nm == s))), cx.has(r, s)))]

    def post(self, cx):
        return self.said(cx, cx.ret.t, z3.IntVal(0))

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        me = StaticValues
        v = me.vars(cx)
        r = L.var('result', ('map', ('str',), ('int', 64, True)))
        nms = L.var('names', ('set', ('str',)))
        i = I('i')
        s = z3.Const('s', L.ex.Str)
        nm = lambda i: me.parts(cx, v, i)[0]
        return [('in-range', AND(L.idx >= -1, L.idx < cx.len(v)))] + me.said(cx, r, L.idx + 1) + [
            ('names-seen', fa([i], IMP(AND(i > L.idx, i < cx.len(v)), cx.has(nms, nm(i))), cx.el(v, i))),
            ('only-names-seen', fa([s], IMP(cx.has(nms, s), z3.Exists([i], AND(i > L.idx, i < cx.len(v), nm(i) == s))), cx.has(nms, s)))]
    loops = [Loop(_inv)]


class Resolve(Pure):
    """path arithmetic of std::filesystem"""
    name = 'hgdb::resolve'


class ToDb(Contract):
    """mapped by an entry whose directory holds the file; otherwise unchanged"""
    name = P + '::resolve_filename_to_db'
    inverse = False

    @classmethod
    def fits(cls, cx, k):
        ex = cx.ex
        m = cx.my('src_remap_')
        f = cx.arg(0)
        d = cx.val(m, k) if cls.inverse else k
        return AND(cx.has(m, k), OR(ex.slen(d) == 0, below(cx, f, d)) if cls.inverse else below(cx, f, d))

    @classmethod
    def mapped(cls, cx, k):
        ex = cx.ex
        f = cx.arg(0)
        r = ex.uf('pure:hgdb::resolve', ex.Str, ex.Str, ex.Str, ex.Str)
        v = cx.val(cx.my('src_remap_'), k)
        return r(v, k, f) if cls.inverse else r(k, v, f)

    def post(self, cx):
        k = z3.Const('k', cx.ex.Str)
        m = cx.my('src_remap_')
        return [('outside-unchanged', IMP(fa([k], NOT(self.fits(cx, k)), cx.has(m, k)), cx.ret.t == cx.arg(0))),
                ('mapped-by-an-entry', OR(AND(cx.ret.t == cx.arg(0), fa([k], NOT(self.fits(cx, k)), cx.has(m, k))),
                                          z3.Exists([k], AND(self.fits(cx, k), cx.ret.t == self.mapped(cx, k)))))]

    def _inv(cls):
        def inv(L):
            cx = Cx(L.ex, L.st, L.old, L.this, L.args)
            k = z3.Const('k', L.ex.Str)
            return [('none-fits-yet', fa([k], IMP(SEL(L.visited, k), NOT(cls.fits(cx, k))), SEL(L.visited, k)))]
        return inv
    loops = [Loop(lambda L: ToDb._inv(ToDb)(L))]


class ToClient(ToDb):
    name = P + '::resolve_filename_to_client'
    inverse = True
    loops = [Loop(lambda L: ToDb._inv(ToClient)(L))]


CONTRACTS = [InDirectory(), InInstance(), Equiv(), InstName(), ScopedBp(), ScopedInst(), StaticValues(), ToDb(), ToClient()]
SPECS = [Tokens(), Stol(), Resolve(), GetBp(), Query(P + '::get_instance_name', ('opt', ('str',))), Query(P + '::get_context_variables', CTX), Query(P + '::get_generator_variable', GEN)]
HOOKS = {}
