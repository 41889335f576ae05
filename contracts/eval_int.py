"""src/eval.cc: symbol binding and the operand stack (heap model, exact machine ranges)."""
import z3
from hvc.contract import Contract, Assumed, Pure, NoEffect, Loop, Cx
from hvc.sym import Val, HeapObj
from .common import *

SRC = 'src/eval.cc'
MODE = 'int'
D = 'hgdb::DebugExpression'
E = 'hgdb::expr::Expr'
SY = 'hgdb::expr::Symbol'
PS = 'hgdb::expr::ParserStack'


def inv(cx, st=None):
    """representation invariant of DebugExpression"""
    ex = cx.ex
    st = st or cx.st
    S = cx.my('symbols_str_', st)
    M = cx.my('symbols_', st)
    SV = cx.my('static_values_', st)
    n, m = z3.Consts('n m', ex.Str)
    al = ex.allocd(st)
    v = cx.val(M)
    return [
        ('names-and-nodes-agree', fa([n], cx.has(S, n) == cx.has(M, n), cx.has(S, n), cx.has(M, n))),
        ('nodes-valid', fa([n], IMP(cx.has(M, n), AND(cx.val(M, n) > 0, SEL(al, cx.val(M, n)))), cx.val(M, n))),
        ('one-node-per-name', fa([n, m], IMP(AND(cx.has(M, n), cx.has(M, m), n != m), cx.val(M, n) != cx.val(M, m)),
                                 (cx.val(M, n), cx.val(M, m)))),
        ('static-names-occur', fa([n], IMP(cx.has(SV, n), cx.has(S, n)), cx.has(SV, n))),
    ]


class AddExpression(Contract):
    name = D + '::add_expression'

    def pre(self, cx):
        return inv(cx)

    def modifies(self, cx):
        ex = cx.ex
        return [('field', cx.thisref, D, 'expressions_'), ('alloc',)] + fresh_fields(cx)

    def post(self, cx):
        ex = cx.ex
        r = cx.ret.t
        return [('fresh-node', AND(r > 0, NOT(SEL(ex.allocd(cx.old), r)), SEL(ex.allocd(cx.st), r))),
                ('operator', cx.fld(r, E, 'op') == cx.arg(0)),
                ('unlinked', AND(cx.fld(r, E, 'left') == 0, cx.fld(r, E, 'right') == 0, cx.fld(r, E, 'unary') == 0)),
                ] + untouched(cx) + [('inv-' + a, b) for a, b in inv(cx)]


NODEF = ('left', 'right', 'unary', 'op', 'value_')


def fresh_fields(cx):
    return [('heap', E + '.' + f, cx.ex.fieldty(E, f)) for f in NODEF]


def untouched(cx, but=()):
    """existing nodes keep every field (except listed refs)"""
    ex = cx.ex
    r = I('r')
    al = ex.allocd(cx.old)
    out = []
    for f in NODEF:
        out.append(('existing-nodes-keep-' + f,
                    fa([r], IMP(AND(SEL(al, r), *[r != b for b in but]), cx.fld(r, E, f) == cx.fld(r, E, f, cx.old)),
                       cx.fld(r, E, f))))
    return out


class AddSymbol(Contract):
    name = D + '::add_symbol'

    def pre(self, cx):
        return inv(cx)

    def modifies(self, cx):
        ex = cx.ex
        return [('field', cx.thisref, D, f) for f in ('expressions_', 'symbols_str_', 'symbols_')] + [('alloc',)] + \
            fresh_fields(cx) + [('heap', SY + '.name', ('str',))]

    def post(self, cx):
        ex = cx.ex
        S0, S1 = cx.my('symbols_str_', cx.old), cx.my('symbols_str_')
        M0, M1 = cx.my('symbols_', cx.old), cx.my('symbols_')
        k = cx.arg(0, cx.old)
        n = z3.Const('n', ex.Str)
        return [('node-of-name', AND(cx.ret.t == cx.val(M1, k), cx.ret.t > 0)),
                ('name-recorded', fa([n], cx.has(S1, n) == OR(cx.has(S0, n), n == k), cx.has(S1, n))),
                ('existing-kept', fa([n], IMP(cx.has(M0, n), AND(cx.has(M1, n), cx.val(M1, n) == cx.val(M0, n))),
                                     cx.val(M1, n))),
                ] + untouched(cx) + [('inv-' + a, b) for a, b in inv(cx)]


evalfn = None


class ExprEval(Pure):
    """value of a tree as a function of the node values (refined in eval_bv)"""
    name = E + '::eval'

    def apply(self, ex, st, this, args, n):
        h = ex.heap(st, E + '.value_', ('int', 64, True))
        f = ex.uf('treeval', z3.IntSort(), h.sort(), z3.IntSort())
        r = f(this.ref, h)
        ex.know(st, r, ('int', 64, True))
        return [(st, Val(r, ('int', 64, True)))]


class EvalAll(Contract):
    name = D + '::eval'

    def pre(self, cx):
        r = cx.my('root_')
        return inv(cx)

    def modifies(self, cx):
        return [('heap', E + '.value_', ('int', 64, True))]

    def post(self, cx):
        ex = cx.ex
        n = z3.Const('n', ex.Str)
        r = I('r')
        V = cx.my('values_')
        M = cx.my('symbols_')
        root = cx.my('root_')
        h1 = ex.heap(cx.st, E + '.value_', ('int', 64, True))
        tv = ex.uf('treeval', z3.IntSort(), h1.sort(), z3.IntSort())
        return [('no-tree-is-zero', IMP(root == 0, cx.ret.t == 0)),
                ('value-of-tree', IMP(root != 0, cx.ret.t == tv(root, h1))),
                ('supplied-values-used', IMP(root != 0, fa([n], IMP(AND(cx.has(V, n), cx.has(M, n)),
                                                                  SEL(h1, cx.val(M, n)) == cx.val(V, n)), cx.val(V, n)))),
                ('others-untouched', fa([r], IMP(SEL(h1, r) != cx.fld(r, E, 'value_', cx.old),
                                                 z3.Exists([n], AND(cx.has(V, n), cx.has(M, n), cx.val(M, n) == r))))),
                ]

    def _inv(L):
        ex = L.ex
        n = z3.Const('n', ex.Str)
        r = I('r')
        cx = Cx(ex, L.st, L.old, L.this, [])
        V, M = cx.my('values_'), cx.my('symbols_')
        h1 = ex.heap(L.st, E + '.value_', ('int', 64, True))
        h0 = ex.heap(L.old, E + '.value_', ('int', 64, True))
        return [('applied', fa([n], IMP(AND(SEL(L.visited, n), cx.has(V, n), cx.has(M, n)),
                                        SEL(h1, cx.val(M, n)) == cx.val(V, n)), cx.val(V, n), SEL(L.visited, n))),
                ('rest', fa([r], IMP(SEL(h1, r) != SEL(h0, r),
                                     z3.Exists([n], AND(SEL(L.visited, n), cx.has(V, n), cx.has(M, n), cx.val(M, n) == r)))))]
    loops = [Loop(_inv)]


class SetStatic(Contract):
    name = D + '::set_static_values'

    def pre(self, cx):
        return inv(cx)

    def modifies(self, cx):
        return [('heap', E + '.value_', ('int', 64, True)), ('field', cx.thisref, D, 'static_values_')]

    def post(self, cx):
        ex = cx.ex
        n = z3.Const('n', ex.Str)
        r = I('r')
        A = cx.arg(0, cx.old)
        M = cx.my('symbols_', cx.old)
        S0, S1 = cx.my('static_values_', cx.old), cx.my('static_values_')
        h1 = ex.heap(cx.st, E + '.value_', ('int', 64, True))
        return [('static-set-exact', fa([n], cx.has(S1, n) == OR(cx.has(S0, n), AND(cx.has(A, n), cx.has(M, n))), cx.has(S1, n))),
                ('static-values-stored', fa([n], IMP(AND(cx.has(A, n), cx.has(M, n)), SEL(h1, cx.val(M, n)) == cx.val(A, n)),
                                            cx.val(M, n))),
                ('others-untouched', fa([r], IMP(SEL(h1, r) != cx.fld(r, E, 'value_', cx.old),
                                                 z3.Exists([n], AND(cx.has(A, n), cx.has(M, n), cx.val(M, n) == r)))))]

    def _inv(L):
        ex = L.ex
        n = z3.Const('n', ex.Str)
        r = I('r')
        cx = Cx(ex, L.st, L.old, L.this, [])
        A = L.rng.t
        M = cx.my('symbols_')
        S0, S1 = cx.my('static_values_', L.old), cx.my('static_values_')
        h1 = ex.heap(L.st, E + '.value_', ('int', 64, True))
        h0 = ex.heap(L.old, E + '.value_', ('int', 64, True))
        return [('set', fa([n], cx.has(S1, n) == OR(cx.has(S0, n), AND(SEL(L.visited, n), cx.has(A, n), cx.has(M, n))), cx.has(S1, n))),
                ('stored', fa([n], IMP(AND(SEL(L.visited, n), cx.has(A, n), cx.has(M, n)), SEL(h1, cx.val(M, n)) == cx.val(A, n)),
                              cx.val(M, n))),
                ('rest', fa([r], IMP(SEL(h1, r) != SEL(h0, r),
                                     z3.Exists([n], AND(SEL(L.visited, n), cx.has(A, n), cx.has(M, n), cx.val(M, n) == r)))))]
    loops = [Loop(_inv)]


class Required(Contract):
    name = D + '::get_required_symbols'

    def pre(self, cx):
        return inv(cx)

    def post(self, cx):
        n = z3.Const('n', cx.ex.Str)
        return [('required-exact', fa([n], cx.has(cx.ret.t, n) == AND(cx.has(cx.my('symbols_str_'), n),
                                                                    NOT(cx.has(cx.my('static_values_'), n))), cx.has(cx.ret.t, n)))]

    def _inv(L):
        n = z3.Const('n', L.ex.Str)
        cx = Cx(L.ex, L.st, L.old, L.this, [])
        r = L.var('result', ('set', ('str',)))
        return [('collected', fa([n], cx.has(r, n) == AND(SEL(L.visited, n), NOT(cx.has(cx.my('static_values_'), n))), cx.has(r, n)))]
    loops = [Loop(_inv)]


class SetHandle(Contract):
    name = D + '::set_resolved_symbol_handle'

    def modifies(self, cx):
        return [('field', cx.thisref, D, f) for f in ('handles_', 'values_')]

    def post(self, cx):
        n = z3.Const('n', cx.ex.Str)
        k, h = cx.arg(0, cx.old), cx.arg(1)
        S = cx.my('symbols_str_')
        H0, H1 = cx.my('handles_', cx.old), cx.my('handles_')
        V0, V1 = cx.my('values_', cx.old), cx.my('values_')
        return [('handle-recorded', fa([n], cx.has(H1, n) == OR(cx.has(H0, n), AND(n == k, cx.has(S, k))), cx.has(H1, n))),
                ('handle-value', IMP(AND(cx.has(S, k), NOT(cx.has(H0, k))), cx.val(H1, k) == h)),
                ('handles-kept', fa([n], IMP(cx.has(H0, n), cx.val(H1, n) == cx.val(H0, n)), cx.val(H1, n))),
                ('value-slot', fa([n], cx.has(V1, n) == OR(cx.has(V0, n), AND(n == k, cx.has(S, k))), cx.has(V1, n))),
                ('values-kept', fa([n], IMP(cx.has(V0, n), cx.val(V1, n) == cx.val(V0, n)), cx.val(V1, n)))]


class SetValue(Contract):
    name = D + '::set_value'

    def modifies(self, cx):
        return [('field', cx.thisref, D, 'values_')]

    def post(self, cx):
        n = z3.Const('n', cx.ex.Str)
        V0, V1 = cx.my('values_', cx.old), cx.my('values_')
        k = cx.arg(0, cx.old)
        return [('latest-value', AND(cx.has(V1, k), cx.val(V1, k) == cx.arg(1))),
                ('others-kept', fa([n], IMP(n != k, AND(cx.has(V1, n) == cx.has(V0, n), cx.val(V1, n) == cx.val(V0, n))),
                                   cx.has(V1, n), cx.val(V1, n)))]


class SetValues(Contract):
    name = D + '::set_values'

    def modifies(self, cx):
        return [('field', cx.thisref, D, 'values_')]

    def post(self, cx):
        n = z3.Const('n', cx.ex.Str)
        V0, V1 = cx.my('values_', cx.old), cx.my('values_')
        A = cx.arg(0, cx.old)
        return [('given', fa([n], IMP(cx.has(A, n), AND(cx.has(V1, n), cx.val(V1, n) == cx.val(A, n))), cx.val(A, n))),
                ('others-kept', fa([n], IMP(NOT(cx.has(A, n)), AND(cx.has(V1, n) == cx.has(V0, n), cx.val(V1, n) == cx.val(V0, n))),
                                   cx.has(V1, n), cx.val(V1, n)))]

    def _inv(L):
        n = z3.Const('n', L.ex.Str)
        cx = Cx(L.ex, L.st, L.old, L.this, [])
        V0, V1 = cx.my('values_', L.old), cx.my('values_')
        A = L.rng.t
        return [('given', fa([n], IMP(SEL(L.visited, n), AND(cx.has(V1, n), cx.val(V1, n) == cx.val(A, n))), cx.val(A, n), SEL(L.visited, n))),
                ('others', fa([n], IMP(NOT(SEL(L.visited, n)), AND(cx.has(V1, n) == cx.has(V0, n), cx.val(V1, n) == cx.val(V0, n))),
                              cx.has(V1, n), cx.val(V1, n)))]
    loops = [Loop(_inv)]


class Clear(Contract):
    name = D + '::clear'

    def modifies(self, cx):
        return [('field', cx.thisref, D, f) for f in ('handles_', 'values_', 'correct_')]

    def post(self, cx):
        n = z3.Const('n', cx.ex.Str)
        return [('nothing-bound', fa([n], AND(NOT(cx.has(cx.my('values_'), n)), NOT(cx.has(cx.my('handles_'), n))))),
                ('no-error', cx.my('correct_'))]


class PushOp(Contract):
    name = PS + '::push@Operator'
    sig = 'Operator'

    def pre(self, cx):
        ex = cx.ex
        s = cx.my('exprs_')
        o = ex.tu.enumty['hgdb::expr::Operator']
        op = cx.arg(0)
        isun = OR(*[op == o[k] for k in ('UAdd', 'UMinus', 'Not', 'Invert')])
        i = I('i')
        d = cx.my('debug_')
        dcx = Cx(ex, cx.st, cx.st, HeapObj(d, D), [])
        return [('enough-operands', cx.len(s) >= z3.If(isun, 1, 2)),
                ('operands-valid', fa([i], IMP(AND(i >= 0, i < cx.len(s)), AND(cx.el(s, i) > 0, SEL(ex.allocd(cx.st), cx.el(s, i)))), cx.el(s, i))),
                ('debug-expression', AND(d > 0, SEL(ex.allocd(cx.st), d)))] + inv(dcx)

    def modifies(self, cx):
        return [('field', cx.thisref, PS, 'exprs_'), ('field', cx.my('debug_', cx.old), D, 'expressions_'), ('alloc',)] + fresh_fields(cx)

    def post(self, cx):
        ex = cx.ex
        o = ex.tu.enumty['hgdb::expr::Operator']
        op = cx.arg(0)
        isun = OR(*[op == o[k] for k in ('UAdd', 'UMinus', 'Not', 'Invert')])
        s0, s1 = cx.my('exprs_', cx.old), cx.my('exprs_')
        n0, n1 = cx.len(s0), cx.len(s1)
        r = cx.el(s1, n1 - 1)
        j = I('j')
        return [('unary-depth', IMP(isun, n1 == n0)), ('binary-depth', IMP(NOT(isun), n1 == n0 - 1)),
                ('node-operator', cx.fld(r, E, 'op') == op),
                ('unary-operand', IMP(isun, cx.fld(r, E, 'unary') == cx.el(s0, n0 - 1))),
                ('left-operand', IMP(NOT(isun), cx.fld(r, E, 'left') == cx.el(s0, n0 - 2))),
                ('right-operand', IMP(NOT(isun), cx.fld(r, E, 'right') == cx.el(s0, n0 - 1))),
                ('rest-of-stack', fa([j], IMP(AND(j >= 0, j < n1 - 1), cx.el(s1, j) == cx.el(s0, j)), cx.el(s1, j)))] + untouched(cx)


CONTRACTS = [AddExpression(), AddSymbol(), EvalAll(), SetStatic(), Required(), SetHandle(), SetValue(), SetValues(), Clear(), PushOp()]
SPECS = [ExprEval()]
