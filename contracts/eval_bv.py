"""src/eval.cc, Expr::eval -- exact 64-bit machine arithmetic (bit-vectors)."""
import z3
from hvc.contract import Contract, Assumed, Loop, Cx
from hvc.sym import Val

SRC = 'src/eval.cc'
MODE = 'bv'
E = 'hgdb::expr::Expr'
REF = z3.IntSort()
B64 = z3.BitVecSort(64)
sem = z3.Function('sem', REF, B64)          # value denoted by a tree
wf = z3.Function('wf', REF, z3.BoolSort())  # finite, fully linked tree
rank = z3.Function('rank', REF, REF)        # its height

UNARY = ('UAdd', 'UMinus', 'Not', 'Invert')


def ops(ex):
    return ex.tu.enumty['hgdb::expr::Operator']


def b2v(b):
    return z3.If(b, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))


def meaning(name, l, r, u, v):
    """C semantics on 64-bit two's complement; division by zero is defined as 0"""
    z = z3.BitVecVal(0, 64)
    lo = z3.BitVecVal(1 << 63, 64)
    m1 = z3.BitVecVal(-1, 64)
    return {
        'None': v, 'UAdd': u, 'UMinus': -u, 'Add': l + r, 'Minus': l - r, 'Multiply': l * r,
        'Divide': z3.If(r == 0, z, l / r), 'Mod': z3.If(r == 0, z, z3.SRem(l, r)),
        'Eq': b2v(l == r), 'Neq': b2v(l != r), 'Not': b2v(u == 0), 'Invert': ~u,
        'And': b2v(z3.And(l != 0, r != 0)), 'Xor': l ^ r, 'Or': b2v(z3.Or(l != 0, r != 0)),
        'BAnd': l & r, 'BOr': l | r, 'LT': b2v(l < r), 'GT': b2v(l > r), 'LE': b2v(l <= r), 'GE': b2v(l >= r),
    }[name]


class Eval(Contract):
    name = E + '::eval'

    def pre(self, cx):
        ex, t = cx.ex, cx.thisref
        r = z3.Int('r')
        o = ops(ex)
        H = lambda f, x: cx.fld(x, E, f)

        def unfold(x):
            op = H('op', x)
            isun = z3.Or(*[op == o[k] for k in UNARY])
            isbin = z3.And(op != o['None'], z3.Not(isun))
            kid = lambda c: z3.And(c > 0, wf(c), rank(c) < rank(x), rank(c) >= 0)
            return z3.And(op >= 0, op <= max(o.values()), rank(x) >= 0,
                          z3.Implies(isun, kid(H('unary', x))),
                          z3.Implies(isbin, z3.And(kid(H('left', x)), kid(H('right', x)))))
        ax = z3.ForAll([r], z3.Implies(wf(r), unfold(r)), patterns=[wf(r)])
        if ax not in [a for a in ex.axioms if a.eq(ax)]:
            ex.axioms.append(ax)
        return [('well-formed-tree', wf(t))]

    def post(self, cx):
        ex, t = cx.ex, cx.thisref
        if getattr(cx, 'atcall', False):
            return [('sem', cx.ret.t == sem(t))]
        o = ops(ex)
        op = cx.fld(t, E, 'op')
        l, r, u = (sem(cx.fld(t, E, f)) for f in ('left', 'right', 'unary'))
        v = cx.fld(t, E, 'value_')
        return [(k, z3.Implies(op == n, cx.ret.t == meaning(k, l, r, u, v))) for k, n in o.items()]

    def apply(self, ex, st, this, args, n):
        cx = Cx(ex, st, st, this, args)
        for nm, p in self.pre(cx):
            ex.oblige(st, 'precondition-of-eval:' + nm, p, n, 'call')
        if ex.entry is not None and 'this' in ex.entry.env:
            ex.oblige(st, 'recursion-decreases', z3.And(rank(this.ref) < rank(ex.entry.env['this'].ref), rank(this.ref) >= 0), n, 'call')
        return [(st, Val(sem(this.ref), ('int', 64, True)))]


CONTRACTS = [Eval()]
SPECS = []
