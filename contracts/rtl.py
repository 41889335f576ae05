"""src/rtl.cc: names, handles, slices, and callbacks of the simulated design."""
import z3
from hvc.contract import Contract, Assumed, Pure, Havoc, NoEffect, Loop, Cx
from hvc.sym import Val, Iter, PtrTo, PyObj, Temp, Local, Unsupported
from .common import *

SRC = 'src/rtl.cc'
MODE = 'int'
R = 'hgdb::RTLSimulatorClient'
A = 'hgdb::AVPIProvider'
VPI = ('ptr', ('int', 32, False))
Z = z3.IntSort
I32 = 2 ** 31 - 1
# IEEE 1364/1800 constants the properties name
vpiType, vpiSize, vpiFullName, vpiModule, vpiUndefined = 1, 4, 3, 32, -1
SIGNAL = dict(vpiReg=48, vpiNet=36, vpiRegArray=116, vpiRegBit=49, vpiNetArray=114, vpiNetBit=37, vpiPartSelect=42, vpiMemoryWord=30)
vpiPartSelect = 42


# ---- the simulator: one answer per question while a verified function runs
def byname(cx, s):
    return cx.ex.uf('pure:' + A + '::vpi_handle_by_name', Z(), cx.ex.Str, Z(), Z())(cx.my('vpi_'), s, z3.IntVal(0))


def byindex(cx, h, i):
    return cx.ex.uf('pure:' + A + '::vpi_handle_by_index', Z(), Z(), Z(), Z())(cx.my('vpi_'), h, i)


def vpiget(cx, p, h):
    return cx.ex.uf('pure:' + A + '::vpi_get', Z(), Z(), Z(), Z())(cx.my('vpi_'), z3.IntVal(p), h)


class ByName(Pure):
    name = A + '::vpi_handle_by_name'


class ByIndex(Pure):
    name = A + '::vpi_handle_by_index'


class VpiGet(Pure):
    name = A + '::vpi_get'


class VpiStr(Pure):
    name = A + '::vpi_get_str'


class Tokens(Pure):
    name = 'hgdb::util::get_tokens'


class Stol(Pure):
    name = 'hgdb::util::stol'


class Stoul(Pure):
    name = 'hgdb::util::stoul'


def joined(ex, arr, a, b, sep):
    return ex.uf('join', arr.sort(), Z(), Z(), ex.Str, ex.Str)(arr, a, b, sep)


class Join(Assumed):
    """the strings of a range, separated: a function of the elements of the range"""
    name = 'hgdb::util::join'

    def apply(self, ex, st, this, args, n):
        a, b = ex.rv(st, args[0]), ex.rv(st, args[1])
        if not (isinstance(a, Iter) and isinstance(b, Iter) and a.kind == 'vec'):
            raise Unsupported('join of this range')
        v = ex.rv(st, a.place)
        ex.oblige(st, 'iterator-range', AND(a.idx >= 0, a.idx <= b.idx, b.idx <= ex.acc(v.t, 0)), n)
        t = joined(ex, ex.acc(v.t, 1), a.idx, b.idx, ex.term(st, args[2]))
        ex.know(st, t, ('str',))
        return [(st, Val(t, ('str',)))]


# ---- representation
def hmap(cx, st=None):
    return cx.my('handle_map_', st)


def raw(cx, s, st=None):
    """what a plain look-up of s gives: the cached handle, or the simulator's"""
    m = hmap(cx, st)
    return z3.If(cx.has(m, s), cx.val(m, s), byname(cx, s))


def slices(cx, st=None):
    return cx.my('mock_slice_handles_', st)


def types_(cx, st=None):
    return cx.my('cached_vpi_types_', st)


def sizes_(cx, st=None):
    return cx.my('cached_vpi_size_', st)


def inv(cx, st=None):
    x = I('x')
    s = z3.Const('s', cx.ex.Str)
    sl = slices(cx, st)
    e = lambda x, k: cx.ex.acc(cx.val(sl, x), k)
    return [('simulator', AND(cx.my('vpi_', st) > 0, SEL(cx.ex.allocd(st or cx.st), cx.my('vpi_', st)))),
            ('no-null-handle-cached', fa([s], IMP(cx.has(hmap(cx, st), s), cx.val(hmap(cx, st), s) != 0), cx.has(hmap(cx, st), s))),
            ('slices-are-part-selects', fa([x], IMP(cx.has(sl, x), AND(cx.has(types_(cx, st), x), cx.val(types_(cx, st), x) == vpiPartSelect)), cx.has(sl, x))),
            ('slice-widths', fa([x], IMP(cx.has(sl, x), AND(cx.has(sizes_(cx, st), x), cx.val(sizes_(cx, st), x) == e(x, 1) - e(x, 2) + 1,
                                                           e(x, 2) >= 0, e(x, 1) >= e(x, 2), e(x, 1) <= I32)), cx.has(sl, x)))]


def invs(cx):
    return [('inv-' + a, b) for a, b in inv(cx)]


def vtype(cx, h, st=None):
    """the type of a handle as the client knows it"""
    m = types_(cx, st)
    return z3.If(h == 0, z3.IntVal(3), z3.If(cx.has(m, h), cx.val(m, h), vpiget(cx, vpiType, h)))


def vsize(cx, h, st=None):
    m = sizes_(cx, st)
    q = vpiget(cx, vpiSize, h)
    return z3.If(h == 0, z3.IntVal(0), z3.If(cx.has(m, h), cx.val(m, h), z3.If(q == vpiUndefined, z3.IntVal(0), z3.If(q < 0, q + 2 ** 32, q))))


TM, SM = [('field', None, R, 'cached_vpi_types_')], [('field', None, R, 'cached_vpi_size_')]


def mod(cx, *fs):
    return [('field', cx.thisref, R, f) for f in fs]


def same_types(cx, st0):
    x = I('x')
    return fa([x], vtype(cx, x) == vtype(cx, x, st0))


def same_sizes(cx, st0):
    x = I('x')
    return fa([x], vsize(cx, x) == vsize(cx, x, st0))


def same_raw(cx, st0):
    s = z3.Const('s', cx.ex.Str)
    return fa([s], raw(cx, s) == raw(cx, s, st0))


class GetType(Contract):
    name = R + '::get_vpi_type'

    def pre(self, cx):
        return inv(cx)

    def modifies(self, cx):
        return mod(cx, 'cached_vpi_types_')

    def post(self, cx):
        x = I('x')
        return [('type', cx.ret.t == vtype(cx, cx.arg(0), cx.old)), ('types-stay', same_types(cx, cx.old)),
                ('only-that-type-is-cached', fa([x], IMP(x != cx.arg(0), cx.has(types_(cx), x) == cx.has(types_(cx, cx.old), x)), cx.has(types_(cx), x)))] + invs(cx)


class GetSize(Contract):
    name = R + '::get_vpi_size'

    def pre(self, cx):
        return inv(cx)

    def modifies(self, cx):
        return mod(cx, 'cached_vpi_size_')

    def post(self, cx):
        return [('size', cx.ret.t == vsize(cx, cx.arg(0), cx.old)), ('sizes-stay', same_sizes(cx, cx.old))] + invs(cx)


class Width(Contract):
    name = R + '::get_signal_width'
    pre, modifies = GetSize.pre, GetSize.modifies

    def post(self, cx):
        w = vsize(cx, cx.arg(0), cx.old)
        r = cx.ret.t
        return [('width-if-any', AND(cx.has(r) == (w != 0), IMP(cx.has(r), cx.val(r) == w)))] + invs(cx)


class Raw(Contract):
    name = R + '::get_handle_raw'

    def pre(self, cx):
        return inv(cx)

    def modifies(self, cx):
        return mod(cx, 'handle_map_')

    def post(self, cx):
        s = z3.Const('s', cx.ex.Str)
        m0, m1 = hmap(cx, cx.old), hmap(cx)
        return [('cached-or-the-simulator\'s', cx.ret.t == raw(cx, cx.arg(0), cx.old)),
                ('look-ups-stay', same_raw(cx, cx.old)),
                ('only-that-name-is-cached', fa([s], IMP(s != cx.arg(0), cx.has(m1, s) == cx.has(m0, s)), cx.has(m1, s)))] + invs(cx)


# ---- element access
def fold(ex, cx, h, arr, a, b):
    """the element reached from h by the indices arr[a..b), 0 if one of them is not an index of its array"""
    return ex.uf('element', Z(), Z(), arr.sort(), Z(), Z(), Z())(cx.my('vpi_'), h, arr, a, b)


def isnum(ex, s):
    """all characters are digits"""
    j = I('j')
    return z3.ForAll([j], IMP(AND(j >= 0, j < ex.slen(s)), AND(ex.sat(s, j) >= 48, ex.sat(s, j) <= 57)), patterns=[ex.sat(s, j)])


def numof(ex, s):
    return ex.uf('pure:hgdb::util::stol', ex.Str, ex.sort(('opt', ('int', 64, True))))(s)


def unfold(cx, h, arr, a, b):
    """definition of fold at (h, a)"""
    ex = cx.ex
    t = SEL(arr, a)
    v = numof(ex, t)
    ok = AND(isnum(ex, t), cx.has(v), cx.val(v) <= I32)
    nx = byindex(cx, h, cx.val(v))
    return fold(ex, cx, h, arr, a, b) == z3.If(a == b, h, z3.If(AND(ok, nx != 0), fold(ex, cx, nx, arr, a + 1, b), 0))


def stolfact(cx, t):
    """digits give a number that is not negative"""
    v = numof(cx.ex, t)
    return IMP(AND(isnum(cx.ex, t), cx.has(v)), AND(cx.val(v) >= 0, cx.val(v) <= 2 ** 63 - 1))


class Access(Contract):
    """the element that the indices of the range lead to"""
    name = R + '::access_arrays'
    notes = ('the iterators given to access_arrays are of one vector',)

    def mkarg(self, ex, st, name, ty, i):
        if i > 1:
            return None
        k = 'range:tokens'
        if k not in st.vars:
            st.vars[k] = z3.Const('tokens', ex.sort(('vec', ('str',))))
            ex.know(st, st.vars[k], ('vec', ('str',)))
        return Iter('vec', Local(k, ('vec', ('str',))), idx=z3.Int('from' if i == 0 else 'to'))

    def pre(self, cx):
        ex, st = cx.ex, cx.st
        a, b = ex.rv(st, cx.args[0]), ex.rv(st, cx.args[1])
        v = ex.rv(st, a.place)
        out = inv(cx) + [('range', AND(a.idx >= 0, a.idx <= b.idx, b.idx <= ex.acc(v.t, 0))), ('handle', cx.arg(2) != 0)]
        if ex.fn == self.name:
            s = z3.Const('s', ex.Str)
            out.append(('stol', fa([s], stolfact(cx, s), numof(ex, s))))
        return out

    def what(self, cx, st):
        ex = cx.ex
        a, b = ex.rv(st, cx.args[0]), ex.rv(st, cx.args[1])
        return fold(ex, cx, cx.arg(2), ex.acc(ex.rv(st, a.place).t, 1), a.idx, b.idx)

    def post(self, cx):
        return [('the-element', cx.ret.t == self.what(cx, cx.old))] + invs(cx)

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        ex = L.ex
        v0 = lambda i: L.old.vars[L.args[i].k]
        it, h = L.var('it'), L.var('var_handle')
        arr = ex.acc(L.old.vars['range:tokens'], 1)
        a, b, h0 = v0(0).idx, v0(1).idx, v0(2)
        return [('range', AND(it.idx >= a, it.idx <= b)), ('handle', h != 0), ('rest-of-the-way', fold(ex, cx, h0, arr, a, b) == fold(ex, cx, h, arr, it.idx, b))]

    def _hint(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        it, h = L.var('it'), L.var('var_handle')
        arr = L.ex.acc(L.old.vars['range:tokens'], 1)
        return [unfold(cx, h, arr, it.idx, L.old.vars[L.args[1].k].idx)]
    loops = [Loop(_inv, decr=lambda L: L.old.vars[L.args[1].k].idx - L.var('it').idx, hint=_hint)]


class IsSignal(Contract):
    name = R + '::is_valid_signal'

    def pre(self, cx):
        return inv(cx)

    def modifies(self, cx):
        return mod(cx, 'handle_map_', 'cached_vpi_types_', 'cached_vpi_size_', 'mock_slice_handles_', 'mock_slice_handle_counter_')

    def post(self, cx):
        st1 = cx.st
        h = resolved(cx)
        t = vtype(cx, h)
        return [('iff-it-resolves-to-a-signal', cx.ret.t == AND(h != 0, OR(*[t == v for v in SIGNAL.values()])))] + invs(cx)


def resolved(cx):
    return cx.ex.uf('resolved', Z(), cx.ex.Str, Z())(cx.thisref, cx.arg(0))


# ---- names
def pathuf(cx, s):
    ex = cx.ex
    return ex.uf('top_of', ex.Str, ex.Str)(s), ex.uf('rest_of', ex.Str, ex.Str)(s)


class GetPath(Contract):
    name = R + '::get_path'

    def post(self, cx):
        ex = cx.ex
        s = cx.arg(0)
        j, p = I('j'), I('p')
        a, b = ex.acc(cx.ret.t, 0), ex.acc(cx.ret.t, 1)
        n = ex.slen(s)
        dot = lambda i: ex.sat(s, i) == 46
        la = ex.slen(a)
        out = [('top-has-no-dot', fa([j], IMP(AND(j >= 0, j < la), ex.sat(a, j) != 46), ex.sat(a, j))),
               ('top-is-the-start', fa([j], IMP(AND(j >= 0, j < la), ex.sat(a, j) == ex.sat(s, j)), ex.sat(a, j))),
               ('top-ends-at-the-first-dot', AND(la >= 0, la <= n, OR(AND(la == n, a == s, b == ex.EMPTY), AND(la < n, dot(la), ex.slen(b) == n - la - 1)))),
               ('rest-is-the-rest', IMP(la < n, fa([j], IMP(AND(j >= 0, j < n - la - 1), ex.sat(b, j) == ex.sat(s, j + la + 1)), ex.sat(b, j))))]
        if ex.fn != self.name:      # one result per name
            t, r = pathuf(cx, s)
            out += [('function', AND(a == t, b == r))]
        return out


def pieces(cx, s):
    return pathuf(cx, s)


class FullName(Contract):
    name = R + '::get_full_name@const std::string &'
    nparams = 1
    sig = 'const std::string &'

    def post(self, cx):
        ex = cx.ex
        s = cx.arg(0)
        root = '$root.'
        isroot = AND(ex.slen(s) >= 6, *[ex.sat(s, i) == ord(c) for i, c in enumerate(root)])
        top, path = pathuf(cx, s)
        m = cx.my('hierarchy_name_prefix_map_')
        mine = ex.acc(m, 0) == top
        pre = ex.acc(m, 1)
        r = cx.ret.t
        sub = lambda s, a, l: ex.uf('substr', ex.Str, Z(), Z(), ex.Str)(s, a, l)
        return [('absolute-name-without-root', IMP(isroot, r == sub(s, z3.IntVal(6), ex.slen(s) - 6))),
                ('other-tops-unchanged', IMP(AND(NOT(isroot), NOT(mine)), r == s)),
                ('top-itself', IMP(AND(NOT(isroot), mine, path == ex.EMPTY, ex.slen(pre) >= 1), r == sub(pre, z3.IntVal(0), ex.slen(pre) - 1))),
                ('under-the-instance', IMP(AND(NOT(isroot), mine, path != ex.EMPTY), r == ex.concat([pre, path])))]


class IsAbsolute(Contract):
    name = R + '::is_absolute_path'

    def post(self, cx):
        top, path = pathuf(cx, cx.arg(0))
        return [('iff-its-top-is-the-mapped-one', cx.ret.t == (cx.ex.acc(cx.my('hierarchy_name_prefix_map_'), 0) == top))]


class SetMapping(Contract):
    name = R + '::set_mapping'

    def modifies(self, cx):
        return mod(cx, 'hierarchy_name_prefix_map_')

    def post(self, cx):
        m = cx.my('hierarchy_name_prefix_map_')
        return [('mapping', AND(cx.ex.acc(m, 0) == cx.arg(0), cx.ex.acc(m, 1) == cx.arg(1)))]


class ExtractSlice(Contract):
    """two numbers, in either order"""
    name = 'hgdb::extract_slice'

    def post(self, cx):
        ex = cx.ex
        OPTU = ('opt', ('int', 64, False))
        toks = ex.uf('pure:hgdb::util::get_tokens', ex.Str, ex.Str, ex.sort(('vec', ('str',))))(cx.arg(0), ex.lit(':'))
        num = lambda i: ex.uf('pure:hgdb::util::stoul', ex.Str, ex.sort(OPTU))(cx.el(toks, i))
        a, b = num(0), num(1)
        ok = AND(cx.len(toks) == 2, cx.has(a), cx.has(b), cx.val(a) <= I32, cx.val(b) <= I32)
        r = cx.ret.t
        hi, lo = ex.acc(cx.val(r), 0), ex.acc(cx.val(r), 1)
        va, vb = cx.val(a), cx.val(b)
        return [('two-numbers-or-nothing', cx.has(r) == ok),
                ('bounds', IMP(ok, AND(hi == z3.If(va > vb, va, vb), lo == z3.If(va > vb, vb, va))))]

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, None, L.args)
        ex = L.ex
        toks = L.rng.t
        num = lambda i: ex.uf('pure:hgdb::util::stoul', ex.Str, ex.sort(('opt', ('int', 64, False))))(cx.el(toks, i))
        hi, lo = L.var('hi'), L.var('lo')
        a, b = num(0), num(1)
        va, vb = cx.val(a), cx.val(b)
        good = lambda x: AND(cx.has(x), cx.val(x) <= I32)
        return [('none', IMP(L.idx == 0, AND(hi == 0, lo == 2 ** 32 - 1))),
                ('one', IMP(L.idx >= 1, AND(good(a), IMP(L.idx == 1, AND(hi == va, lo == va))))),
                ('two', IMP(L.idx >= 2, AND(good(b), hi == z3.If(va > vb, va, vb), lo == z3.If(va > vb, vb, va))))]
    loops = [Loop(_inv)]


class AddSlice(Contract):
    """a slice is a new handle of its own"""
    name = R + '::add_mock_slice_vpi'

    def pre(self, cx):
        return inv(cx) + [('made-up-handles-are-new', newis(cx))]

    def modifies(self, cx):
        return mod(cx, 'mock_slice_handles_', 'mock_slice_handle_counter_', 'cached_vpi_types_', 'cached_vpi_size_')

    def post(self, cx):
        ex = cx.ex
        st0 = cx.old
        b = ex.uf('bounds', ex.Str, ex.sort(('opt', ('tup', ('int', 32, False), ('int', 32, False)))))(cx.arg(1))
        r = cx.ret.t
        x = I('x')
        sl = slices(cx)
        e = lambda k: ex.acc(cx.val(sl, r), k)
        ok = cx.has(b)
        return [('handle-iff-two-bounds', (r != 0) == ok),
                ('bits-of-the-parent', IMP(ok, AND(cx.has(sl, r), e(0) == cx.arg(0), e(1) == ex.acc(cx.val(b), 0), e(2) == ex.acc(cx.val(b), 1)))),
                ('not-one-of-the-old', IMP(ok, NOT(cx.has(slices(cx, st0), r)))),
                ('width', IMP(ok, vsize(cx, r) == ex.acc(cx.val(b), 0) - ex.acc(cx.val(b), 1) + 1)),
                ('other-slices-stay', fa([x], IMP(OR(NOT(ok), x != r), AND(cx.has(sl, x) == cx.has(slices(cx, st0), x), IMP(cx.has(sl, x), cx.val(sl, x) == cx.val(slices(cx, st0), x)))), cx.has(sl, x))),
                ('other-types-stay', fa([x], IMP(OR(NOT(ok), x != r), vtype(cx, x) == vtype(cx, x, st0)))),
                ('other-sizes-stay', fa([x], IMP(OR(NOT(ok), x != r), vsize(cx, x) == vsize(cx, x, st0))))] + invs(cx)


def newis(cx, st=None):
    nx = newhandle(cx, st)
    return AND(NOT(cx.has(slices(cx, st), nx)), NOT(cx.has(types_(cx, st), nx)), NOT(cx.has(sizes_(cx, st), nx)), nx != 0)


def newhandle(cx, st=None):
    a = cx.my('vpi_allocator_', st)
    c = cx.my('mock_slice_handle_counter_', st)
    return z3.If(cx.has(a), cx.ex.uf('allocator_next', Z(), Z())(cx.thisref), c + 4)


class Bounds(ExtractSlice):
    """extract_slice as seen by its callers: a function of the text"""
    def post(self, cx):
        ex = cx.ex
        if ex.fn == self.name:
            return ExtractSlice.post(self, cx)
        f = ex.uf('bounds', ex.Str, ex.sort(('opt', ('tup', ('int', 32, False), ('int', 32, False)))))(cx.arg(0))
        hi, lo = ex.acc(cx.val(f), 0), ex.acc(cx.val(f), 1)
        return [('function', cx.ret.t == f), ('ordered', IMP(cx.has(f), AND(hi >= lo, lo >= 0, hi <= I32)))]


class Handle(Contract):
    """one handle per name: the one cached, or the simulator's, or what the pieces of the name lead to"""
    name = R + '::get_handle@const std::string &'
    nparams = 1
    sig = 'const std::string &'

    def pre(self, cx):
        return inv(cx)

    def modifies(self, cx):
        return mod(cx, 'handle_map_', 'cached_vpi_types_', 'cached_vpi_size_', 'mock_slice_handles_', 'mock_slice_handle_counter_')

    def post(self, cx):
        ex = cx.ex
        out = []
        if ex.fn == self.name:
            full = fulluf(cx, cx.arg(0), cx.old)
            m0, m1 = hmap(cx, cx.old), hmap(cx)
            r = cx.ret.t
            s = z3.Const('s', ex.Str)
            out = [('cached-handle', IMP(cx.has(m0, full), AND(r == cx.val(m0, full), m1 == m0))),
                   ('the-simulator\'s-handle', IMP(AND(NOT(cx.has(m0, full)), byname(cx, full) != 0), r == byname(cx, full))),
                   ('remembered', IMP(r != 0, AND(cx.has(m1, full), cx.val(m1, full) == r))),
                   ('nothing-is-not-remembered', IMP(r == 0, NOT(cx.has(m1, full)))),
                   ('other-names-stay', fa([s], IMP(AND(s != full, cx.has(m0, s)), AND(cx.has(m1, s), cx.val(m1, s) == cx.val(m0, s))), cx.has(m0, s)))]
        else:
            out = [('function', cx.ret.t == resolved(cx))]
        return out + invs(cx)


def fulluf(cx, s, st=None):
    ex = cx.ex
    return ex.uf('full_name', ex.Str, ex.sort(('tup', ('str',), ('str',))), ex.Str)(s, cx.my('hierarchy_name_prefix_map_', st))


class FullNameC(FullName):
    def post(self, cx):
        out = FullName.post(self, cx)
        if cx.ex.fn != self.name:
            out.append(('function', cx.ret.t == fulluf(cx, cx.arg(0))))
        return out


class HandleTokens(Contract):
    """without a slice: an element of the longest leading part of the name that is not a module; nothing otherwise"""
    name = R + '::get_handle@const std::vector<std::string> &'
    notes = ('the next made-up slice handle is not one of the simulator\'s handles', 'a name has fewer than 2^32 pieces')
    nparams = 1
    sig = 'const std::vector<std::string> &'

    def pre(self, cx):
        if cx.ex.fn != self.name:
            return inv(cx)
        s = z3.Const('s', cx.ex.Str)
        return inv(cx) + [('made-up-handles-are-new', newis(cx)),
                          ('the-simulator-does-not-use-them', fa([s], raw(cx, s) != newhandle(cx), byname(cx, s))), ('fewer-than-2^32-pieces', cx.len(cx.arg(0)) < 2 ** 32)]

    def modifies(self, cx):
        return mod(cx, 'handle_map_', 'cached_vpi_types_', 'cached_vpi_size_', 'mock_slice_handles_', 'mock_slice_handle_counter_')

    @staticmethod
    def at(cx, k, st):
        """the object that the first k pieces name"""
        return raw(cx, joined(cx.ex, cx.ex.acc(cx.arg(0, st), 1), z3.IntVal(0), k, cx.ex.lit('.')), st)

    def post(self, cx):
        ex = cx.ex
        st0 = cx.old
        toks = cx.arg(0, st0)
        arr, n = ex.acc(toks, 1), ex.acc(toks, 0)
        s = z3.Const('s', ex.Str)
        j, k, i = I('j'), I('k'), I('i')
        last = SEL(arr, n - 1)
        slice_ = AND(n > 0, z3.Exists([j], AND(j >= 0, j < ex.slen(last), ex.sat(last, j) == 58)))
        at = lambda k: self.at(cx, k, st0)
        var = lambda k: AND(at(k) != 0, vtype(cx, at(k), st0) != vpiModule)
        r = cx.ret.t
        longest = lambda k, top: AND(k >= 1, k <= top, var(k), fa([i], IMP(AND(i > k, i <= top), NOT(var(i))), at(i)))
        out = [('look-ups-stay', same_raw(cx, st0))] + invs(cx)
        if ex.fn != self.name:
            m0, m1 = hmap(cx, st0), hmap(cx)
            return out + [('cached-names-stay', fa([s], IMP(cx.has(m0, s), AND(cx.has(m1, s), cx.val(m1, s) == cx.val(m0, s))), cx.has(m0, s)))]
        return out + [
            ('no-name-no-object', IMP(n == 0, r == 0)),
            ('an-element-of-a-variable', IMP(AND(n > 0, NOT(slice_), r != 0), z3.Exists([k], AND(longest(k, n - 1), r == fold(ex, cx, at(k), arr, k, n))))),
            ('nothing-only-if-no-element', IMP(AND(n > 0, NOT(slice_), r == 0), fa([k], IMP(longest(k, n - 1), fold(ex, cx, at(k), arr, k, n) == 0), at(k))))]

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        ex = L.ex
        toks = cx.arg(0, L.old)
        i, k = L.idx, I('k')
        end = L.var('array_size_end')
        at = lambda k: HandleTokens.at(cx, k, L.old)
        return inv(cx) + [('range', AND(i <= end)), ('nothing-yet', L.var('ptr') == 0), ('made-up-handles-are-new', newis(cx)), ('look-ups-stay', same_raw(cx, L.old)), ('types-stay', same_types(cx, L.old)),
                          ('no-variable-so-far', fa([k], IMP(AND(k > i, k <= end), OR(at(k) == 0, vtype(cx, at(k), L.old) == vpiModule)), at(k)))]
    loops = [Loop(_inv, decr=lambda L: L.idx)]


class VpiPut(Assumed):
    """counts as one write of that value to that handle"""
    name = A + '::vpi_put_value'

    def apply(self, ex, st, this, args, n):
        ag = args[1].place.get(ex, st)
        k = ag.key
        put = ex.heap(st, '#puts', ('int', 64, True))
        h = ex.term(st, args[0])
        ex.oblige(st, 'integer-format', st.vars[k + '.format'] == 6, n, 'call')
        st.heap['#puts'] = z3.Store(put, h, st.vars[k + '.value.integer'])
        return [(st, Val(ex.newval(st, 'put_result', VPI), VPI))]


class SetValue(Contract):
    """the simulator is told that value for that handle, and never about a slice"""
    name = R + '::set_value@vpiHandle'
    nparams = 2
    sig = 'vpiHandle'

    def pre(self, cx):
        return inv(cx)

    def modifies(self, cx):
        return [('heap', '#puts', ('int', 64, True))]

    def post(self, cx):
        ex = cx.ex
        h, v = cx.arg(0), cx.arg(1)
        p0, p1 = ex.heap(cx.old, '#puts', ('int', 64, True)), ex.heap(cx.st, '#puts', ('int', 64, True))
        no = OR(h == 0, cx.has(slices(cx, cx.old), h))
        x = I('x')
        return [('nothing-to-set', IMP(no, AND(NOT(cx.ret.t), p1 == p0))),
                ('that-value', IMP(AND(NOT(no), v >= -2 ** 31, v < 2 ** 31), SEL(p1, h) == v)),
                ('only-that-signal', fa([x], IMP(x != h, SEL(p1, x) == SEL(p0, x)), SEL(p1, x)))]


# ---- callbacks
def cbs(cx, st=None):
    return cx.my('cb_handles_', st)


class RegisterCb(Assumed):
    """registers one callback; the simulator may refuse"""
    name = A + '::vpi_register_cb'

    def apply(self, ex, st, this, args, n):
        h = ex.newval(st, 'cb', VPI)
        reg = ex.heap(st, '#registered', ('bool',))
        st.pc.append(IMP(h != 0, NOT(SEL(reg, h))))
        st.heap['#registered'] = z3.If(h == 0, reg, z3.Store(reg, h, z3.BoolVal(True)))
        return [(st, Val(h, VPI))]


class RemoveCb(Assumed):
    name = A + '::vpi_remove_cb'

    def apply(self, ex, st, this, args, n):
        h = ex.term(st, args[0])
        reg = ex.heap(st, '#registered', ('bool',))
        st.heap['#registered'] = z3.Store(reg, h, z3.BoolVal(False))
        return [(st, Val(ex.newval(st, 'rm', ('int', 32, True)), ('int', 32, True)))]


class Release(NoEffect):
    name = A + '::vpi_release_handle'


REG = ('heap', '#registered', ('bool',))


def registered(cx, st=None):
    return cx.ex.heap(st or cx.st, '#registered', ('bool',))


def cbinv(cx, st=None):
    """every name has a callback of its own that the simulator has registered"""
    m = cbs(cx, st)
    s, t = z3.Const('s', cx.ex.Str), z3.Const('t', cx.ex.Str)
    return [('simulator', AND(cx.my('vpi_', st) > 0, SEL(cx.ex.allocd(st or cx.st), cx.my('vpi_', st)))),
            ('callbacks-registered', fa([s], IMP(cx.has(m, s), AND(cx.val(m, s) != 0, SEL(registered(cx, st), cx.val(m, s)))), cx.has(m, s))),
            ('own-callback', fa([s, t], IMP(AND(cx.has(m, s), cx.has(m, t), s != t), cx.val(m, s) != cx.val(m, t)), (cx.has(m, s), cx.has(m, t))))]


class AddCb(Contract):
    name = R + '::add_call_back'

    def pre(self, cx):
        return cbinv(cx)

    def modifies(self, cx):
        return mod(cx, 'cb_handles_') + [REG]

    def post(self, cx):
        st0 = cx.old
        m0, m1 = cbs(cx, st0), cbs(cx)
        nm = cx.arg(0)
        s = z3.Const('s', cx.ex.Str)
        x = I('x')
        r = cx.ret.t
        r0, r1 = registered(cx, st0), registered(cx)
        return [('once-per-name', IMP(cx.has(m0, nm), AND(r == cx.val(m0, nm), m1 == m0, r1 == r0))),
                ('named', AND(IMP(r != 0, AND(cx.has(m1, nm), cx.val(m1, nm) == r)), IMP(r == 0, NOT(cx.has(m1, nm))))),
                ('others-stay', fa([s], IMP(s != nm, AND(cx.has(m1, s) == cx.has(m0, s), IMP(cx.has(m0, s), cx.val(m1, s) == cx.val(m0, s)))), cx.has(m1, s))),
                ('registered-stay', fa([x], IMP(x != r, SEL(r1, x) == SEL(r0, x)), SEL(r1, x)))] + [('inv-' + a, b) for a, b in cbinv(cx)]


def removed(cx, gone):
    """exactly the names with that handle are gone, and the simulator has removed it"""
    st0 = cx.old
    m0, m1 = cbs(cx, st0), cbs(cx)
    s = z3.Const('s', cx.ex.Str)
    return fa([s], AND(cx.has(m1, s) == AND(cx.has(m0, s), NOT(gone(s))), IMP(cx.has(m1, s), cx.val(m1, s) == cx.val(m0, s))), cx.has(m1, s))


class RemoveHandle(Contract):
    name = R + '::remove_call_back@vpiHandle'
    nparams = 1
    sig = 'vpiHandle'

    def pre(self, cx):
        return cbinv(cx)

    def modifies(self, cx):
        return mod(cx, 'cb_handles_') + [REG]

    def post(self, cx):
        x = I('x')
        h = cx.arg(0)
        r0, r1 = registered(cx, cx.old), registered(cx)
        return [('exactly-its-name-is-gone', removed(cx, lambda s: cx.val(cbs(cx, cx.old), s) == h)),
                ('unregistered', NOT(SEL(r1, h))), ('others-stay-registered', fa([x], IMP(x != h, SEL(r1, x) == SEL(r0, x)), SEL(r1, x)))] + [('inv-' + a, b) for a, b in cbinv(cx)]

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        m = cbs(cx, L.old)
        s = z3.Const('s', L.ex.Str)
        return [('not-found-yet', fa([s], IMP(SEL(L.visited, s), cx.val(m, s) != cx.arg(0, L.old)), SEL(L.visited, s))), ('untouched', cbs(cx) == m)]
    loops = [Loop(_inv)]


class RemoveName(Contract):
    name = R + '::remove_call_back@const std::string &'
    nparams = 1
    sig = 'const std::string &'
    pre, modifies = RemoveHandle.pre, RemoveHandle.modifies

    def post(self, cx):
        m0 = cbs(cx, cx.old)
        x = I('x')
        r0, r1 = registered(cx, cx.old), registered(cx)
        nm = cx.arg(0)
        return [('exactly-that-name-is-gone', removed(cx, lambda s: s == nm)),
                ('others-stay-registered', fa([x], SEL(r1, x) == AND(SEL(r0, x), NOT(AND(cx.has(m0, nm), x == cx.val(m0, nm)))), SEL(r1, x)))] + [('inv-' + a, b) for a, b in cbinv(cx)]


class Names(Contract):
    """exactly the names that have a callback"""
    name = R + '::callback_names'

    def post(self, cx):
        s = z3.Const('s', cx.ex.Str)
        return [('exactly-the-names', fa([s], cx.has(cx.ret.t, s) == cx.has(cbs(cx, cx.old), s), cx.has(cx.ret.t, s)))]

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        s = z3.Const('s', L.ex.Str)
        r = L.var('result', ('set', ('str',)))
        return [('visited', fa([s], cx.has(r, s) == SEL(L.visited, s), cx.has(r, s)))]
    loops = [Loop(_inv)]


def same_cbs(cx, st0):
    """the same names with the same callbacks, the same of them registered"""
    m0, m1 = cbs(cx, st0), cbs(cx)
    s = z3.Const('s', cx.ex.Str)
    return fa([s], AND(cx.has(m1, s) == cx.has(m0, s), IMP(cx.has(m0, s), cx.val(m1, s) == cx.val(m0, s))), cx.has(m1, s))


def monname(cx, s, st):
    return cx.ex.concat([cx.ex.lit('Monitor '), fulluf(cx, s, st)])


class Monitor(Contract):
    """all of the signals get their callback, or nothing changes"""
    name = R + '::monitor_signals'

    def pre(self, cx):
        return cbinv(cx)

    def modifies(self, cx):
        return mod(cx, 'cb_handles_') + [REG]

    def post(self, cx):
        st0 = cx.old
        i, s = I('i'), z3.Const('s', cx.ex.Str)
        v = cx.arg(0, st0)
        m0, m1 = cbs(cx, st0), cbs(cx)
        nm = lambda i: monname(cx, cx.el(v, i), st0)
        r = cx.ret.t
        return [('every-signal', IMP(r, fa([i], IMP(AND(i >= 0, i < cx.len(v)), cx.has(m1, nm(i))), cx.el(v, i)))),
                ('earlier-callbacks-stay', fa([s], IMP(cx.has(m0, s), AND(cx.has(m1, s), cx.val(m1, s) == cx.val(m0, s))), cx.has(m0, s))),
                ('all-or-nothing', IMP(NOT(r), same_cbs(cx, st0)))] + [('inv-' + a, b) for a, b in cbinv(cx)]

    def _outer(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        m0, m1 = cbs(cx, L.old), cbs(cx)
        a = L.var('added_handles', ('vec', ('str',)))
        i, j, s = I('i'), I('j'), z3.Const('s', L.ex.Str)
        v = L.rng.t
        n = cx.len(a)
        inlist = z3.Exists([j], AND(j >= 0, j < n, cx.el(a, j) == s))
        return cbinv(cx) + [
            ('so-far', fa([i], IMP(AND(i >= 0, i < L.idx), cx.has(m1, monname(cx, cx.el(v, i), L.old))), cx.el(v, i))),
            ('earlier-stay', fa([s], IMP(cx.has(m0, s), AND(cx.has(m1, s), cx.val(m1, s) == cx.val(m0, s))), cx.has(m0, s))),
            ('added-are-new', fa([j], IMP(AND(j >= 0, j < n), NOT(cx.has(m0, cx.el(a, j)))), cx.el(a, j))),
            ('only-added', fa([s], IMP(AND(cx.has(m1, s), NOT(cx.has(m0, s))), inlist), cx.has(m1, s)))]

    def _inner(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        m0, m1 = cbs(cx, L.old), cbs(cx)
        a = L.rng.t
        j, s = I('j'), z3.Const('s', L.ex.Str)
        n = cx.len(a)
        rest = z3.Exists([j], AND(j >= L.idx, j < n, cx.el(a, j) == s))
        return cbinv(cx) + [
            ('earlier-stay', fa([s], IMP(cx.has(m0, s), AND(cx.has(m1, s), cx.val(m1, s) == cx.val(m0, s))), cx.has(m0, s))),
            ('added-are-new', fa([j], IMP(AND(j >= 0, j < n), NOT(cx.has(m0, cx.el(a, j)))), cx.el(a, j))),
            ('only-the-rest', fa([s], IMP(AND(cx.has(m1, s), NOT(cx.has(m0, s))), rest), cx.has(m1, s)))]
    loops = [Loop(_outer), Loop(_inner)]


# ---- values as text
class VpiValue(Assumed):
    """the simulator fills in the text of the value of that handle in the format asked for; it only knows its own handles"""
    name = A + '::vpi_get_value'

    def apply(self, ex, st, this, args, n):
        k = args[1].place.get(ex, st).key
        h = ex.term(st, args[0])
        cx = Cx(ex, st, st, st.env.get('this'), ())
        ex.oblige(st, 'a-handle-of-the-simulator', AND(h != 0, NOT(cx.has(slices(cx), h))), n, 'call')
        t = text(ex, h, st.vars[k + '.format'])
        ex.know(st, t, ('str',))
        st.vars[k + '.value.str'] = t
        return [(st, Val(z3.BoolVal(True), ('void',)))]


def text(ex, h, f):
    return ex.uf('vpi_text_value', Z(), Z(), ex.Str)(h, f)


class SliceText(Pure):
    """the hexadecimal text of some bits of a binary text (bounded: the replay harness checks it)"""
    name = 'hgdb::get_slice'


class StrValue(Contract):
    name = R + '::get_str_value@vpiHandle'
    nparams = 2
    sig = 'vpiHandle'
    notes = ('a slice is of a handle of the simulator, never of another slice',)

    def pre(self, cx):
        x = I('x')
        m = slices(cx)
        e = lambda x: cx.ex.acc(cx.val(m, x), 0)
        return inv(cx) + [('slices-of-signals', fa([x], IMP(cx.has(m, x), AND(e(x) != 0, NOT(cx.has(m, e(x))))), cx.has(m, x))),
                          ('slices-are-signals', OR(cx.arg(1), NOT(cx.has(m, cx.arg(0)))))]

    def modifies(self, cx):
        return mod(cx, 'cached_vpi_types_', 'cached_vpi_size_')

    def post(self, cx):
        ex, st0 = cx.ex, cx.old
        h, sig = cx.arg(0), cx.arg(1)
        m = slices(cx, st0)
        r = cx.ret.t
        none = OR(h == 0, vtype(cx, h, st0) == vpiModule)
        isl = cx.has(m, h)
        e = cx.val(m, h)
        cut = ex.uf('pure:hgdb::get_slice', ex.Str, e.sort(), ex.Str)(text(ex, ex.acc(e, 0), z3.IntVal(1)), e)
        body = z3.If(isl, cut, text(ex, h, z3.IntVal(4)))
        return [('value-unless-none', cx.has(r) == NOT(none)),
                ('not-a-signal-is-text', IMP(AND(NOT(none), NOT(sig)), cx.val(r) == text(ex, h, z3.IntVal(8)))),
                ('hexadecimal-of-its-bits', IMP(AND(NOT(none), sig), cx.val(r) == z3.If(vsize(cx, h, st0) > 1, ex.concat([ex.lit('0x'), body]), body)))] + invs(cx)


class Log(NoEffect):
    name = 'hgdb::log::log'


def callfn(ex, n, st, fobj, vs):
    """the client's own handle allocator"""
    this = st.env.get('this')
    r = ex.uf('allocator_next', Z(), Z())(this.ref)
    ex.know(st, r, VPI)
    return [(st, Val(r, VPI))]


CONTRACTS = [Access(), GetType(), GetSize(), Width(), Raw(), IsSignal(), GetPath(), FullNameC(), IsAbsolute(), SetMapping(), Bounds(), AddSlice(), Handle(), HandleTokens(), SetValue(),
             AddCb(), RemoveHandle(), RemoveName(), Names(), Monitor(), StrValue()]
SPECS = [ByName(), ByIndex(), VpiGet(), VpiStr(), Tokens(), Stol(), Stoul(), Join(), VpiPut(), RegisterCb(), RemoveCb(), Release(), VpiValue(), SliceText(), Log()]
HOOKS = {'#callfn': callfn}
