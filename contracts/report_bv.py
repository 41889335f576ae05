"""src/debug.cc: the text of a value"""
import z3
from hvc.contract import Contract
from .common import *

SRC = 'src/debug.cc'
MODE = 'bv'


class ValueText(Contract):
    """unknown values as ERROR, the others in decimal, or as the hexadecimal bits of the signal, zero-padded to its width"""
    name = 'hgdb::value_to_str'

    def post(self, cx):
        ex = cx.ex
        v, hx, w, r = cx.arg(0), cx.arg(1), cx.arg(2, cx.old), cx.ret.t
        x = cx.val(v)
        dec = ex.uf('dec', x.sort(), ex.Str)
        udec = ex.uf('udec', x.sort(), ex.Str)
        fmt = lambda f, a: ex.uf('formatted', ex.Str, a.sort(), ex.Str)(f, a)
        bits = z3.If(AND(z3.UGT(w, 0), z3.ULT(w, 64)), x & ~(z3.BitVecVal(-1, 64) << z3.ZeroExt(32, w)), x)
        digits = z3.UDiv(w + 3, z3.BitVecVal(4, 32))
        hexed = z3.If(w == 0, fmt(ex.lit('0x{0:X}'), x), z3.If(w == 1, udec(bits), fmt(fmt(ex.lit('0x{{0:0{0}X}}'), digits), bits)))
        small = z3.ULT(w, z3.BitVecVal(2 ** 32 - 4, 32))
        return [('unknown', IMP(NOT(cx.has(v)), r == ex.lit('ERROR'))), ('decimal', IMP(AND(cx.has(v), NOT(hx)), r == dec(x))), ('hexadecimal', IMP(AND(cx.has(v), hx, small), r == hexed))]


CONTRACTS = [ValueText()]
SPECS = []
