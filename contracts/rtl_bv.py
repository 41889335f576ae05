"""src/rtl.cc: the integer value of a signal or slice -- exact 64-bit machine arithmetic (bit-vectors)."""
import z3
from hvc.contract import Contract, Assumed, Pure, Havoc, NoEffect, Loop, Cx
from hvc.sym import Val, PyObj, Unsupported
from .common import *

SRC = 'src/rtl.cc'
MODE = 'bv'
R = 'hgdb::RTLSimulatorClient'
A = 'hgdb::AVPIProvider'
B = lambda n, w=64: z3.BitVecVal(n, w)
vpiIntVal, vpiBinStrVal = 6, 1


def bits(v, hi, lo):
    """bits hi..lo of a 64-bit word, the rest zero"""
    n = hi - lo + 1     # all 64-bit
    return z3.If(z3.UGT(lo, 63), B(0), z3.LShR(v, lo) & z3.If(z3.UGE(n, 64), B(-1), (B(1) << n) - 1))


def hilo(cx, i):
    t = cx.arg(i)
    return z3.ZeroExt(32, cx.ex.acc(t, 1)), z3.ZeroExt(32, cx.ex.acc(t, 2))


class Slice(Contract):
    name = 'hgdb::get_slice@int64_t'
    nparams = 2
    sig = 'int64_t'

    def pre(self, cx):
        hi, lo = hilo(cx, 1)
        return [('ordered', z3.ULE(lo, hi))]

    def post(self, cx):
        hi, lo = hilo(cx, 1)
        return [('those-bits', cx.ret.t == bits(cx.arg(0), hi, lo))]


def intval(ex, h):
    return ex.uf('vpi_int_value', z3.IntSort(), z3.BitVecSort(32))(h)


def binval(ex, h):
    return ex.uf('vpi_bin_value', z3.IntSort(), ex.Str)(h)


class GetVpiValue(Assumed):
    """the simulator fills in the value of that handle in the format asked for"""
    name = A + '::vpi_get_value'

    def apply(self, ex, st, this, args, n):
        k = args[1].place.get(ex, st).key
        h = ex.term(st, args[0])
        # a slice is not an object of the simulator
        cx = Cx(ex, st, st, st.env.get('this'), ())
        ex.oblige(st, 'a-handle-of-the-simulator', AND(h != 0, NOT(cx.has(cx.my('mock_slice_handles_'), h))), n, 'call')
        f = st.vars[k + '.format']
        b = binval(ex, h)
        ex.know(st, b, ('str',))
        st.vars[k + '.value.integer'] = z3.If(f == vpiIntVal, intval(ex, h), ex.fresh('unset', z3.BitVecSort(32)))
        st.vars[k + '.value.str'] = b if z3.is_true(z3.simplify(f == vpiBinStrVal)) else ex.fresh('unset', ex.Str)
        return [(st, Val(z3.BoolVal(True), ('void',)))]


class Size(Assumed):
    """proved in rtl.py"""
    name = R + '::get_vpi_size'

    def apply(self, ex, st, this, args, n):
        t = ex.uf('size_of', z3.IntSort(), z3.BitVecSort(32))(ex.term(st, args[0]))
        return [(st, Val(t, ('int', 32, False)))]


class IsVerilator(Pure):
    name = R + '::is_verilator'


class GetStr(Havoc):
    name = A + '::vpi_get_str'


class Log(NoEffect):
    name = 'hgdb::log::log'


K = z3.BitVec('any_bit', 64)       # an arbitrary bit of the result


def bit(v, k):
    return z3.LShR(v, k) & 1


def sl(cx, st=None):
    return cx.my('mock_slice_handles_', st)


class GetValue(Contract):
    name = R + '::get_value@vpiHandle'
    nparams = 2
    sig = 'vpiHandle'

    def pre(self, cx):
        ex = cx.ex
        x = I('x')
        m = sl(cx)
        e = lambda x, k: ex.acc(cx.val(m, x), k)
        h, sig = cx.arg(0), cx.arg(1)
        tm = ex.slen(binval(ex, e(h, 0)))
        return [('simulator', cx.my('vpi_') > 0), ('K', z3.ULT(K, 64)), ('slices-are-signals', OR(sig, NOT(cx.has(m, h)))), ('text-length', z3.ULT(tm, 2 ** 32)),
                ('slices', fa([x], IMP(cx.has(m, x), AND(e(x, 0) != 0, NOT(cx.has(m, e(x, 0))), z3.ULE(e(x, 2), e(x, 1)), z3.ULE(e(x, 1), B(2 ** 31 - 1, 32)))), cx.has(m, x)))]

    def post(self, cx):
        ex = cx.ex
        h, sig = cx.arg(0), cx.arg(1)
        m = sl(cx, cx.old)
        r = cx.ret.t
        isl = AND(sig, cx.has(m, h))
        e = lambda k: ex.acc(cx.val(m, h), k)
        p, hi, lo = e(0), z3.ZeroExt(32, e(1)), z3.ZeroExt(32, e(2))
        verilator = ex.uf('pure:' + R + '::is_verilator', z3.IntSort(), z3.BoolSort())(cx.thisref)
        wide = AND(sig, verilator, z3.UGT(ex.uf('size_of', z3.IntSort(), z3.BitVecSort(32))(h), 64))
        none = OR(h == 0, wide)
        t = binval(ex, p)
        n = ex.slen(t)
        one = lambda k: AND(z3.ULT(lo + k, n), z3.ULE(lo + k, hi), ex.sat(t, n - 1 - (lo + k)) == 49)
        v = cx.val(r)
        small = z3.ULT(hi, 32)
        return [('value-unless-none', cx.has(r) == NOT(none)),
                ('the-signal', IMP(AND(NOT(none), NOT(isl)), v == z3.SignExt(32, intval(ex, h)))),
                ('low-bits-of-the-parent', IMP(AND(NOT(none), isl, small), v == bits(z3.SignExt(32, intval(ex, p)), hi, lo))),
                ('bits-of-the-parent', IMP(AND(NOT(none), isl, NOT(small)), (bit(v, K) == 1) == one(K)))]

    def _inv(L):
        ex = L.ex
        cx = Cx(ex, L.st, L.old, L.this, L.args)
        m = sl(cx, L.old)
        h = L.old.vars[L.args[0].k]
        e = lambda k: ex.acc(cx.val(m, h), k)
        hi, lo = z3.ZeroExt(32, e(1)), z3.ZeroExt(32, e(2))
        t = binval(ex, e(0))
        n = ex.slen(t)
        i = L.idx
        v = L.var('slice')
        one = lambda k: AND(z3.ULT(lo + k, n - i), z3.ULE(lo + k, hi), ex.sat(t, n - 1 - (lo + k)) == 49)
        return [('range', z3.ULE(i, n)), ('untouched', sl(cx) == m), ('any-bit', (bit(v, K) == 1) == one(K))]
    loops = [Loop(_inv, decr=lambda L: L.idx)]


CONTRACTS = [Slice(), GetValue()]
SPECS = [GetVpiValue(), Size(), IsVerilator(), GetStr(), Log()]
HOOKS = {}
