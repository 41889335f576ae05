"""src/scheduler.cc: the breakpoint list, forward / reverse selection, stepping (heap model, exact machine ranges)."""
import z3
from hvc.contract import Contract, Assumed, Pure, NoEffect, Havoc, Loop, Cx
from hvc.sym import Val, HeapObj
from .common import *

SRC = 'src/scheduler.cc'
MODE = 'int'
S = 'hgdb::Scheduler'
B = 'hgdb::DebugBreakPoint'
X = 'hgdb::DebugExpression'
BPS = ('vec', ('ptr', ('rec', B)))
NORMAL, DATA, ASSERT = 1, 2, 4


def lst(cx, st=None):
    return cx.my('breakpoints_', st)


def inv(cx, st=None):
    """the list holds distinct, live breakpoints that carry their conditions"""
    st = st or cx.st
    v = lst(cx, st)
    i, j = I('i'), I('j')
    e = lambda k: cx.el(v, k)
    rng = lambda k: AND(k >= 0, k < cx.len(v))
    al = cx.ex.allocd(st)
    out = [('live', fa([i], IMP(rng(i), AND(e(i) > 0, SEL(al, e(i)))), e(i))),
           ('distinct', fa([i, j], IMP(AND(rng(i), rng(j), i != j), e(i) != e(j)), (e(i), e(j)))),
           ('conditions', fa([i], IMP(rng(i), AND(cx.fld(e(i), B, 'enable_expr', st) > 0, SEL(al, cx.fld(e(i), B, 'enable_expr', st)))), e(i))),
           ('kinds', fa([i], IMP(rng(i), AND(cx.fld(e(i), B, 'type', st) >= 1, cx.fld(e(i), B, 'type', st) <= 7)), e(i)))]
    return out


def invs(cx):
    return [('inv-' + a, b) for a, b in inv(cx)]


def bpf(cx, v, i, f, st=None):
    return cx.fld(cx.el(v, i), B, f, st)


def flag(ty, bit):
    """type & bit for the three type bits"""
    return (ty / bit) % 2 == 1


class GetBreakpoint(Contract):
    name = S + '::get_breakpoint'

    def pre(self, cx):
        return inv(cx)

    def post(self, cx):
        v = lst(cx)
        i, j = I('i'), I('j')
        n = cx.len(v)
        r = cx.ret.t
        idf = lambda k: bpf(cx, v, k, 'id')
        return [('none-only-if-not-inserted', IMP(r == 0, fa([i], IMP(AND(i >= 0, i < n), idf(i) != cx.arg(0)), cx.el(v, i)))),
                ('inserted-with-that-id', IMP(r != 0, z3.Exists([i], AND(i >= 0, i < n, cx.el(v, i) == r, idf(i) == cx.arg(0)))))]


def kept(cx, keep, v0, v1, what):
    """v1 is the subsequence of v0 of the entries that satisfy keep (a predicate of old index)"""
    i, j, k, l = I('i'), I('j'), I('k'), I('l')
    n0, n1 = cx.len(v0), cx.len(v1)
    e0, e1 = (lambda x: cx.el(v0, x)), (lambda x: cx.el(v1, x))
    return [(what + '-nothing-else-remains', fa([k], IMP(AND(k >= 0, k < n1), z3.Exists([i], AND(i >= 0, i < n0, e0(i) == e1(k), keep(i)))), e1(k))),
            (what + '-the-others-remain', fa([i], IMP(AND(i >= 0, i < n0, keep(i)), z3.Exists([k], AND(k >= 0, k < n1, e1(k) == e0(i)))), e0(i))),
            (what + '-order-kept', fa([i, j, k, l], IMP(AND(i >= 0, i < n0, j >= 0, j < n0, k >= 0, k < n1, l >= 0, l < n1, e0(i) == e1(k), e0(j) == e1(l), i < j), k < l),
                                    (e0(i), e0(j), e1(k), e1(l))))]


class RemoveAsserts(Contract):
    name = S + '::remove_assert_breakpoints'

    def pre(self, cx):
        return inv(cx)

    def modifies(self, cx):
        return [('field', cx.thisref, S, 'breakpoints_')]

    def post(self, cx):
        v0, v1 = lst(cx, cx.old), lst(cx)
        keep = lambda i: NOT(AND(bpf(cx, v0, i, 'type', cx.old) == ASSERT, bpf(cx, v0, i, 'evaluated', cx.old)))
        return kept(cx, keep, v0, v1, 'assertions') + invs(cx)


class StartEval(Contract):
    name = S + '::start_breakpoint_evaluation'

    def pre(self, cx):
        return inv(cx)

    def modifies(self, cx):
        return [('field', cx.thisref, S, 'breakpoints_'), ('field', cx.thisref, S, 'current_breakpoint_id_'), ('heap', B + '.evaluated', ('bool',))]

    def post(self, cx):
        v0, v1 = lst(cx, cx.old), lst(cx)
        i = I('i')
        keep = lambda k: NOT(AND(bpf(cx, v0, k, 'type', cx.old) == ASSERT, bpf(cx, v0, k, 'evaluated', cx.old)))
        return kept(cx, keep, v0, v1, 'assertions') + invs(cx) + \
            [('nothing-presented-yet', fa([i], IMP(AND(i >= 0, i < cx.len(v1)), NOT(bpf(cx, v1, i, 'evaluated'))), cx.el(v1, i))),
             ('no-current-position', NOT(cx.has(cx.my('current_breakpoint_id_'))))]


class ClearFlags(Contract):
    name = 'hgdb::clear_breakpoints'

    def pre(self, cx):
        v = cx.arg(0)
        i = I('i')
        return [('live', fa([i], IMP(AND(i >= 0, i < cx.len(v)), AND(cx.el(v, i) > 0, SEL(cx.ex.allocd(cx.st), cx.el(v, i)))), cx.el(v, i)))]

    def modifies(self, cx):
        return [('heap', B + '.evaluated', ('bool',))]

    def post(self, cx):
        v = cx.arg(0)
        i, r = I('i'), I('r')
        return [('flags-cleared', fa([i], IMP(AND(i >= 0, i < cx.len(v)), NOT(bpf(cx, v, i, 'evaluated'))), cx.el(v, i))),
                ('others-kept', fa([r], IMP(cx.fld(r, B, 'evaluated') != cx.fld(r, B, 'evaluated', cx.old),
                                            z3.Exists([i], AND(i >= 0, i < cx.len(v), cx.el(v, i) == r)))))]

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, [])
        v = L.rng.t
        i, r = I('i'), I('r')
        return [('cleared', fa([i], IMP(AND(i >= 0, i < L.idx), NOT(bpf(cx, v, i, 'evaluated'))), cx.el(v, i))),
                ('rest', fa([r], IMP(cx.fld(r, B, 'evaluated') != cx.fld(r, B, 'evaluated', L.old),
                                     z3.Exists([i], AND(i >= 0, i < L.idx, cx.el(v, i) == r)))))]
    loops = [Loop(_inv)]


class SetMode(Contract):
    name = S + '::set_evaluation_mode'

    def pre(self, cx):
        return inv(cx)

    def modifies(self, cx):
        return [('field', cx.thisref, S, 'evaluation_mode_'), ('heap', B + '.evaluated', ('bool',))]

    def post(self, cx):
        v = lst(cx)
        i, r = I('i'), I('r')
        same = cx.my('evaluation_mode_', cx.old) == cx.arg(0)
        return [('mode', cx.my('evaluation_mode_') == cx.arg(0)),
                ('same-mode-keeps-flags', IMP(same, fa([r], cx.fld(r, B, 'evaluated') == cx.fld(r, B, 'evaluated', cx.old)))),
                ('new-mode-clears-flags', IMP(NOT(same), fa([i], IMP(AND(i >= 0, i < cx.len(v)), NOT(bpf(cx, v, i, 'evaluated'))), cx.el(v, i))))] + invs(cx)


class Clear(Contract):
    name = S + '::clear'

    def modifies(self, cx):
        return [('field', cx.thisref, S, 'breakpoints_')]

    def post(self, cx):
        return [('empty', cx.len(lst(cx)) == 0)]


class ClearData(Contract):
    name = S + '::clear_data_breakpoints'

    def pre(self, cx):
        return inv(cx)

    def modifies(self, cx):
        return [('field', cx.thisref, S, 'breakpoints_'), ('heap', B + '.type', ('enum', B + '::Type'))]

    def post(self, cx):
        v0, v1 = lst(cx, cx.old), lst(cx)
        i = I('i')
        keep = lambda k: bpf(cx, v0, k, 'type', cx.old) != DATA
        return kept(cx, keep, v0, v1, 'data') + \
            [('no-data-left', fa([i], IMP(AND(i >= 0, i < cx.len(v1)), NOT(flag(bpf(cx, v1, i, 'type'), DATA))), cx.el(v1, i))),
             ('other-kinds-kept', fa([i], IMP(AND(i >= 0, i < cx.len(v1), NOT(flag(bpf(cx, v1, i, 'type', cx.old), DATA))),
                                              bpf(cx, v1, i, 'type') == bpf(cx, v1, i, 'type', cx.old)), cx.el(v1, i)))] + invs(cx)

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, [])
        v = L.rng.t
        i, r = I('i'), I('r')
        t = lambda x, st=None: cx.fld(x, B, 'type', st)
        return [('cleared', fa([i], IMP(AND(i >= 0, i < L.idx), NOT(flag(bpf(cx, v, i, 'type'), DATA))), cx.el(v, i))),
                ('kinds', fa([i], IMP(AND(i >= 0, i < cx.len(v)), AND(bpf(cx, v, i, 'type') >= 1, bpf(cx, v, i, 'type') <= 7)), cx.el(v, i))),
                ('rest', fa([r], OR(t(r) == t(r, L.old), AND(flag(t(r, L.old), DATA), z3.Exists([i], AND(i >= 0, i < L.idx, cx.el(v, i) == r))))))]
    loops = [Loop(_inv)]


class BreakpointOnly(Contract):
    name = S + '::breakpoint_only'

    def post(self, cx):
        o = cx.ex.tu.enumty[S + '::EvaluationMode']
        m = cx.my('evaluation_mode_')
        return [('modes', cx.ret.t == OR(m == o['BreakPointOnly'], m == o['ReverseBreakpointOnly']))]


class GetCurrent(Contract):
    name = S + '::get_current_breakpoints'

    def pre(self, cx):
        return inv(cx)

    def post(self, cx):
        v, r = lst(cx), cx.ret.t
        i = I('i')
        return [('as-many', cx.len(r) == cx.len(v)), ('all-in-order', fa([i], IMP(AND(i >= 0, i < cx.len(v)), cx.el(r, i) == cx.el(v, i)), cx.el(r, i)))]

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, [])
        v = L.rng.t
        b = L.var('bps', ('vec', ('ptr', ('rec', B))))
        i = I('i')
        return [('n', cx.len(b) == L.idx), ('els', fa([i], IMP(AND(i >= 0, i < L.idx), cx.el(b, i) == cx.el(v, i)), cx.el(b, i)))]
    loops = [Loop(_inv)]


class Reorder(Contract):
    name = S + '::reorder_breakpoints'

    def pre(self, cx):
        v = lst(cx)
        i = I('i')
        T = cx.my('bp_ordering_table_')
        return inv(cx) + [('ids-known', fa([i], IMP(AND(i >= 0, i < cx.len(v)), cx.has(T, bpf(cx, v, i, 'id'))), cx.el(v, i)))]

    def modifies(self, cx):
        return [('field', cx.thisref, S, 'breakpoints_')]

    def post(self, cx):
        v0, v1 = lst(cx, cx.old), lst(cx)
        T = cx.my('bp_ordering_table_')
        i, j, k = I('i'), I('j'), I('k')
        n = cx.len(v1)
        o = lambda x: cx.val(T, bpf(cx, v1, x, 'id'))
        return [('as-many', n == cx.len(v0)),
                ('execution-order', fa([i, j], IMP(AND(i >= 0, i < j, j < n), o(i) <= o(j)), (cx.el(v1, i), cx.el(v1, j)))),
                ('none-lost', fa([i], IMP(AND(i >= 0, i < n), z3.Exists([k], AND(k >= 0, k < n, cx.el(v1, k) == cx.el(v0, i)))), cx.el(v0, i))),
                ('none-invented', fa([k], IMP(AND(k >= 0, k < n), z3.Exists([i], AND(i >= 0, i < n, cx.el(v1, k) == cx.el(v0, i)))), cx.el(v1, k)))] + invs(cx)


def rm(cx, old, i, bid, t, v0):
    """entry i of the old list is matched / dropped by a removal"""
    ty = bpf(cx, v0, i, 'type', old)
    match = AND(bpf(cx, v0, i, 'id', old) == bid, flag3(ty, t))
    return match, AND(match, ty == t)


def flag3(ty, t):
    return OR(*[AND(t == b, flag(ty, b)) for b in (1, 2, 4)])


class RemoveById(Contract):
    name = S + '::remove_breakpoint@uint64_t'
    sig = 'uint64_t'

    def pre(self, cx):
        return inv(cx) + [('one-kind', OR(*[cx.arg(1) == b for b in (1, 2, 4)]))]

    def modifies(self, cx):
        return [('field', cx.thisref, S, 'breakpoints_'), ('heap', B + '.type', ('enum', B + '::Type'))]

    def post(self, cx):
        v0, v1 = lst(cx, cx.old), lst(cx)
        bid, t = cx.arg(0), cx.arg(1)
        i, r = I('i'), I('r')
        ret = cx.ret.t
        rng = AND(i >= 0, i < cx.len(v0))
        m, d = rm(cx, cx.old, i, bid, t, v0)
        ty = lambda x, st=None: cx.fld(x, B, 'type', st)
        return kept(cx, lambda k: NOT(rm(cx, cx.old, k, bid, t, v0)[1]), v0, v1, 'removal') + \
            [('kind-dropped', fa([i], IMP(AND(rng, m, NOT(d)), bpf(cx, v0, i, 'type') == bpf(cx, v0, i, 'type', cx.old) - t), cx.el(v0, i))),
             ('other-entries-keep-kind', fa([i], IMP(AND(rng, NOT(m)), bpf(cx, v0, i, 'type') == bpf(cx, v0, i, 'type', cx.old)), cx.el(v0, i))),
             ('returns-none-if-nothing-removed', IMP(ret == 0, fa([i], IMP(rng, NOT(d)), cx.el(v0, i)))),
             ('returns-removed', IMP(ret != 0, z3.Exists([i], AND(rng, d, cx.el(v0, i) == ret))))] + invs(cx)

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        v0, v = lst(cx, L.old), lst(cx)
        bid, t = cx.arg(0, L.old), cx.arg(1, L.old)
        res = L.var('res', ('ptr', ('rec', B)))
        i, r = I('i'), I('r')
        rng = AND(i >= 0, i < cx.len(v0))
        m, d = rm(cx, L.old, i, bid, t, v0)
        ty = lambda x, st=None: cx.fld(x, B, 'type', st)
        return [('length', cx.len(v) == cx.len(v0)),
                ('dropped', fa([i], IMP(AND(rng, i < L.idx, d), cx.el(v, i) == 0), cx.el(v, i), cx.el(v0, i))),
                ('kept', fa([i], IMP(AND(rng, OR(i >= L.idx, NOT(d))), cx.el(v, i) == cx.el(v0, i)), cx.el(v, i), cx.el(v0, i))),
                ('kind', fa([i], IMP(rng, bpf(cx, v0, i, 'type') == z3.If(AND(i < L.idx, m, NOT(d)), bpf(cx, v0, i, 'type', L.old) - t,
                                                                         bpf(cx, v0, i, 'type', L.old))), cx.el(v0, i))),
                ('none', IMP(res == 0, fa([i], IMP(AND(rng, i < L.idx), NOT(d)), cx.el(v0, i)))),
                ('some', IMP(res != 0, z3.Exists([i], AND(rng, i < L.idx, d, cx.el(v0, i) == res))))]
    loops = [Loop(_inv)]


class RemoveBp(Contract):
    name = S + '::remove_breakpoint@BreakPoint'
    sig = 'const BreakPoint &'

    def pre(self, cx):
        return inv(cx) + [('one-kind', OR(*[cx.arg(1) == b for b in (1, 2, 4)]))]

    modifies = RemoveById.modifies

    def post(self, cx):
        v0, v1 = lst(cx, cx.old), lst(cx)
        bid, t = cx.fld(cx.args[0].ref, 'hgdb::BreakPoint', 'id', cx.old), cx.arg(1)
        i = I('i')
        rng = AND(i >= 0, i < cx.len(v0))
        m, d = rm(cx, cx.old, i, bid, t, v0)
        return kept(cx, lambda k: NOT(rm(cx, cx.old, k, bid, t, v0)[1]), v0, v1, 'removal') + \
            [('kind-dropped', fa([i], IMP(AND(rng, m, NOT(d)), bpf(cx, v0, i, 'type') == bpf(cx, v0, i, 'type', cx.old) - t), cx.el(v0, i))),
             ('other-entries-keep-kind', fa([i], IMP(AND(rng, NOT(m)), bpf(cx, v0, i, 'type') == bpf(cx, v0, i, 'type', cx.old)), cx.el(v0, i)))] + invs(cx)


class RemoveData(Contract):
    name = S + '::remove_data_breakpoint'

    def pre(self, cx):
        return inv(cx)

    modifies = RemoveById.modifies

    def post(self, cx):
        v0, v1 = lst(cx, cx.old), lst(cx)
        bid = cx.arg(0)
        i = I('i')
        rng = AND(i >= 0, i < cx.len(v0))
        m, d = rm(cx, cx.old, i, bid, z3.IntVal(DATA), v0)
        r = cx.ret.t
        return kept(cx, lambda k: NOT(rm(cx, cx.old, k, bid, z3.IntVal(DATA), v0)[1]), v0, v1, 'removal') + \
            [('no-watch-if-nothing-removed', IMP(NOT(cx.has(r)), fa([i], IMP(rng, NOT(d)), cx.el(v0, i)))),
             ('watch-of-removed', IMP(cx.has(r), z3.Exists([i], AND(rng, d, cx.val(r) == bpf(cx, v0, i, 'watch_id')))))] + invs(cx)


# ---------------------------------------------------------------- selection
def sameloc(cx, v, a, b, st):
    return AND(*[bpf(cx, v, a, f, st) == bpf(cx, v, b, f, st) for f in ('filename', 'line_num', 'column_num')])


def text(cx, v, i, st):
    return cx.fld(bpf(cx, v, i, 'enable_expr', st), X, 'expression_', st)


def eligible(cx, v, ref, j, fwd, st):
    """may be presented together with entry ref (given that everything in between shares its location)"""
    return AND(bpf(cx, v, j, 'type', st) != DATA, bpf(cx, v, j, 'instance_id', st) != bpf(cx, v, ref, 'instance_id', st),
               NOT(AND(fwd, bpf(cx, v, j, 'evaluated', st))), text(cx, v, j, st) == text(cx, v, ref, st))


def between(k, ref, j, fwd):
    return z3.If(fwd, AND(k >= ref, k <= j), AND(k >= j, k <= ref))


def member(cx, v, ref, j, fwd, st):
    k = I('bk')
    return AND(z3.If(fwd, AND(j > ref, j < cx.len(v)), AND(j >= 0, j < ref)),
               fa([k], IMP(between(k, ref, j, fwd), sameloc(cx, v, k, ref, st)), cx.el(v, k)),
               eligible(cx, v, ref, j, fwd, st))


def scanned(cx, v, ref, fwd, r0, r1, st):
    """r1 = r0 followed by the members of the group of ref, in scanning order"""
    i, j, k, l = I('i'), I('j'), I('k'), I('l')
    n0, n1 = cx.len(r0), cx.len(r1)
    e, R = (lambda x: cx.el(v, x)), (lambda x: cx.el(r1, x))
    n = cx.len(v)
    return [('presented-so-far-kept', AND(n1 >= n0, fa([k], IMP(AND(k >= 0, k < n0), R(k) == cx.el(r0, k)), R(k)))),
            ('only-members-of-the-group', fa([k], IMP(AND(k >= n0, k < n1), z3.Exists([j], AND(e(j) == R(k), member(cx, v, ref, j, fwd, st)))), R(k))),
            ('every-member-of-the-group', fa([j], IMP(member(cx, v, ref, j, fwd, st), z3.Exists([k], AND(k >= n0, k < n1, R(k) == e(j)))), e(j))),
            ('group-in-order', fa([i, j, k, l], IMP(AND(i >= 0, i < n, j >= 0, j < n, k >= n0, k < l, l < n1, R(k) == e(i), R(l) == e(j)), z3.If(fwd, i < j, i > j)),
                                  (e(i), e(j), R(k), R(l))))]


class Scan(Contract):
    name = S + '::scan_breakpoints'

    def pre(self, cx):
        v = lst(cx)
        return inv(cx) + [('reference-in-list', AND(cx.arg(0) >= 0, cx.arg(0) < cx.len(v)))]

    def modifies(self, cx):
        return [('place', cx.args[2])]

    def post(self, cx):
        v, ref, fwd = lst(cx, cx.old), cx.arg(0), cx.arg(1)
        r0, r1 = cx.arg(2, cx.old), cx.arg(2)
        data = flag(bpf(cx, v, ref, 'type', cx.old), DATA)
        return [('data-alone', IMP(data, AND(cx.len(r1) == cx.len(r0), fa([I('k')], IMP(AND(I('k') >= 0, I('k') < cx.len(r0)), cx.el(r1, I('k')) == cx.el(r0, I('k'))), cx.el(r1, I('k'))))))] + \
            [(a, IMP(NOT(data), b)) for a, b in scanned(cx, v, ref, fwd, r0, r1, cx.old)]

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        v, ref, fwd = lst(cx, L.old), cx.arg(0, L.old), cx.arg(1, L.old)
        r0, r1 = cx.arg(2, L.old), cx.arg(2, L.st)
        x = L.idx
        i, j, k, l = I('i'), I('j'), I('k'), I('l')
        n, n0, n1 = cx.len(v), cx.len(r0), cx.len(r1)
        e, R = (lambda q: cx.el(v, q)), (lambda q: cx.el(r1, q))
        done = lambda q: z3.If(fwd, AND(q >= ref, q < x), AND(q > x, q < ref))
        mem = lambda q: AND(done(q), eligible(cx, v, ref, q, fwd, L.old))
        return [('position', z3.If(fwd, AND(x >= ref, x <= n), AND(x >= -1, x < ref))),
                ('length', n1 >= n0),
                ('kept', fa([k], IMP(AND(k >= 0, k < n0), R(k) == cx.el(r0, k)), R(k))),
                ('run', fa([k], IMP(done(k), sameloc(cx, v, k, ref, L.old)), e(k))),
                ('only', fa([k], IMP(AND(k >= n0, k < n1), z3.Exists([j], AND(e(j) == R(k), mem(j)))), R(k))),
                ('every', fa([j], IMP(mem(j), z3.Exists([k], AND(k >= n0, k < n1, R(k) == e(j)))), e(j))),
                ('order', fa([i, j, k, l], IMP(AND(i >= 0, i < n, j >= 0, j < n, k >= n0, k < l, l < n1, R(k) == e(i), R(l) == e(j)), z3.If(fwd, i < j, i > j)),
                             (e(i), e(j), R(k), R(l))))]
    loops = [Loop(_inv, decr=lambda L: z3.If(Cx(L.ex, L.st, L.old, L.this, L.args).arg(1, L.old), Cx(L.ex, L.st, L.old, L.this, L.args).len(lst(Cx(L.ex, L.st, L.old, L.this, []))) - L.idx, L.idx + 1))] * 2


def isref(cx, v, p, st):
    """p is the position continuing starts from: the presented entry with the current id, else the last presented one"""
    q = I('rq')
    cur = cx.my('current_breakpoint_id_', st)
    ev = lambda x: bpf(cx, v, x, 'evaluated', st)
    n = cx.len(v)
    hit = lambda x: AND(ev(x), cx.has(cur), bpf(cx, v, x, 'id', st) == cx.val(cur))
    rng = lambda x: AND(x >= 0, x < n)
    return AND(rng(p), ev(p), OR(AND(hit(p), fa([q], IMP(AND(q >= 0, q < p), NOT(hit(q))), cx.el(v, q))),
                                AND(fa([q], IMP(rng(q), NOT(hit(q))), cx.el(v, q)), fa([q], IMP(AND(q > p, q < n), NOT(ev(q))), cx.el(v, q)))))


def marked(cx, r1):
    """exactly the presented ones become presented"""
    r, k = I('r'), I('k')
    ev = lambda x, st=None: cx.fld(x, B, 'evaluated', st)
    return [('presented-are-marked', fa([k], IMP(AND(k >= 0, k < cx.len(r1)), ev(cx.el(r1, k))), cx.el(r1, k))),
            ('no-other-is-marked', fa([r], IMP(ev(r) != ev(r, cx.old), z3.Exists([k], AND(k >= 0, k < cx.len(r1), cx.el(r1, k) == r)))))]


def mark_inv(L):
    cx = Cx(L.ex, L.st, L.old, L.this, L.args)
    v = L.var('result', BPS)
    r, k = I('r'), I('k')
    ev = lambda x, st=None: cx.fld(x, B, 'evaluated', st)
    return [('marked', fa([k], IMP(AND(k >= 0, k < L.idx), ev(cx.el(v, k))), cx.el(v, k))),
            ('rest', fa([r], IMP(ev(r) != ev(r, L.old), z3.Exists([k], AND(k >= 0, k < L.idx, cx.el(v, k) == r)))))]


def same_cur(cx):
    a, b = cx.my('current_breakpoint_id_', cx.old), cx.my('current_breakpoint_id_')
    return AND(cx.has(a) == cx.has(b), IMP(cx.has(a), cx.val(a) == cx.val(b)))


def cur_is(cx, t):
    b = cx.my('current_breakpoint_id_')
    return AND(cx.has(b), cx.val(b) == t)


def single_mode(cx):
    return SEL(cx.ex.heap(cx.old, 'cell:bool', ('bool',)), cx.my('single_thread_mode_', cx.old))


class NextNormal(Contract):
    name = S + '::next_normal_breakpoints'

    def pre(self, cx):
        return inv(cx)

    def modifies(self, cx):
        return [('field', cx.thisref, S, 'current_breakpoint_id_'), ('heap', B + '.evaluated', ('bool',))]

    def post(self, cx):
        v, st0 = lst(cx, cx.old), cx.old
        n = cx.len(v)
        r = cx.ret.t
        m = cx.len(r)
        x, p, q = I('x'), I('p'), I('q')
        e = lambda k: cx.el(v, k)
        ev = lambda k: bpf(cx, v, k, 'evaluated', st0)
        single = single_mode(cx)
        first = cx.el(r, 0)
        none = fa([q], IMP(AND(q >= 0, q < n), NOT(ev(q))), e(q))
        one = AND(m == 1)
        grp = [AND(*[b]) for _, b in []]
        alone = lambda k: OR(single, bpf(cx, v, k, 'type', st0) != NORMAL)
        rest = []
        # the group of the first presented one
        ref = lambda k: AND(k >= 0, k < n, e(k) == first)
        j, k, l, i = I('j'), I('k'), I('l'), I('i')
        R = lambda y: cx.el(r, y)
        T = z3.BoolVal(True)
        return [('list-untouched', lst(cx) == v),
                ('stops-only-at-the-end', IMP(m == 0, OR(n == 0, z3.Exists([p], AND(isref(cx, v, p, st0), fa([q], IMP(AND(q > p, q < n), ev(q)), e(q))))))),
                ('next-in-order', IMP(m > 0, z3.Exists([x], AND(ref(x), OR(AND(x == 0, none),
                    AND(NOT(ev(x)), z3.Exists([p], AND(isref(cx, v, p, st0), p < x, fa([q], IMP(AND(q > p, q < x), ev(q)), e(q)))))))))),
                ('never-twice', fa([k], IMP(AND(k >= 0, k < m), NOT(cx.fld(R(k), B, 'evaluated', st0))), R(k))),
                ('one-at-a-time', fa([x], IMP(AND(m > 0, ref(x), alone(x)), m == 1), e(x))),
                ('only-the-group', fa([x, k], IMP(AND(ref(x), k >= 1, k < m), z3.Exists([j], AND(e(j) == R(k), member(cx, v, x, j, T, st0)))), (e(x), R(k)))),
                ('whole-group', fa([x, j], IMP(AND(m > 0, ref(x), NOT(alone(x)), member(cx, v, x, j, T, st0)), z3.Exists([k], AND(k >= 1, k < m, R(k) == e(j)))), (e(x), e(j)))),
                ('group-in-order', fa([i, j, k, l], IMP(AND(i >= 0, i < n, j >= 0, j < n, k >= 0, k < l, l < m, R(k) == e(i), R(l) == e(j)), i < j), (e(i), e(j), R(k), R(l)))),
                ('position-moves-to-the-first', z3.If(m == 0, same_cur(cx), cur_is(cx, cx.fld(first, B, 'id', st0)))),
                ] + marked(cx, r) + invs(cx)

    def _find(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        v = lst(cx, L.old)
        pos = L.var('pos', ('opt', ('int', 64, False)))
        q = I('q')
        cur = cx.my('current_breakpoint_id_', L.old)
        ev = lambda k: bpf(cx, v, k, 'evaluated', L.old)
        p = cx.val(pos)
        return [('position', AND(L.idx >= 0, L.idx <= cx.len(v))),
                ('none', IMP(NOT(cx.has(pos)), fa([q], IMP(AND(q >= 0, q < L.idx), NOT(ev(q))), cx.el(v, q)))),
                ('last', IMP(cx.has(pos), AND(p >= 0, p < L.idx, ev(p), fa([q], IMP(AND(q > p, q < L.idx), NOT(ev(q))), cx.el(v, q))))),
                ('not-current', fa([q], IMP(AND(q >= 0, q < L.idx), NOT(AND(ev(q), cx.has(cur), bpf(cx, v, q, 'id', L.old) == cx.val(cur)))), cx.el(v, q)))]

    def _skip(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        v = lst(cx, L.old)
        pos = L.var('pos', ('opt', ('int', 64, False)))
        x = L.var('index', ('int', 64, False))
        q = I('q')
        ev = lambda k: bpf(cx, v, k, 'evaluated', L.old)
        p = cx.val(pos)
        return [('position', AND(x > p, x <= cx.len(v))), ('skipped', fa([q], IMP(AND(q > p, q < x), ev(q)), cx.el(v, q)))]
    loops = [Loop(_find, decr=lambda L: Cx(L.ex, L.st, L.old, L.this, []).len(lst(Cx(L.ex, L.st, L.old, L.this, []))) - L.idx),
             Loop(_skip, decr=lambda L: Cx(L.ex, L.st, L.old, L.this, []).len(lst(Cx(L.ex, L.st, L.old, L.this, []))) - L.var('index', ('int', 64, False))), Loop(mark_inv)]


# ---------------------------------------------------------------- time
REW = ('int', 64, False)


def rew(cx, st=None):
    """ghost: how often time was reversed, and whether the last attempt worked"""
    return SEL(cx.ex.heap(st or cx.st, 'ghost.rewinds', REW), 0), SEL(cx.ex.heap(st or cx.st, 'ghost.rewound', ('bool',)), 0)


class DefaultRtl(Pure):
    name = 'hgdb::DebuggerNamespaceManager::default_rtl'

    def facts(self, cx):
        return [cx.ret.t > 0, SEL(cx.ex.allocd(cx.st), cx.ret.t)]


class ReverseTime(Assumed):
    """the simulator reverses (or refuses to reverse) to the previous clock edge; the debugger's own state is untouched"""
    name = 'hgdb::RTLSimulatorClient::reverse_last_posedge'

    def apply(self, ex, st, this, args, n):
        h = ex.heap(st, 'ghost.rewinds', REW)
        st.heap['ghost.rewinds'] = z3.Store(h, 0, SEL(h, 0) + 1)
        ok = ex.fresh('rewound', z3.BoolSort())
        st.heap['ghost.rewound'] = z3.Store(ex.heap(st, 'ghost.rewound', ('bool',)), 0, ok)
        return [(st, Val(ok, ('bool',)))]


GHOST = [('heap', 'ghost.rewinds', REW), ('heap', 'ghost.rewound', ('bool',))]


class NextReverse(Contract):
    name = S + '::next_reverse_breakpoints'

    def pre(self, cx):
        return inv(cx)

    def modifies(self, cx):
        return [('field', cx.thisref, S, 'current_breakpoint_id_'), ('heap', B + '.evaluated', ('bool',))] + GHOST

    def post(self, cx):
        v, st0 = lst(cx, cx.old), cx.old
        n = cx.len(v)
        r = cx.ret.t
        m = cx.len(r)
        e = lambda k: cx.el(v, k)
        R = lambda y: cx.el(r, y)
        idf = lambda k: bpf(cx, v, k, 'id', st0)
        cur = cx.my('current_breakpoint_id_', st0)
        cnt0, _ = rew(cx, st0)
        cnt1, ok = rew(cx)
        x, i, j, k, l, q = I('x'), I('i'), I('j'), I('k'), I('l'), I('q')
        first = R(0)
        atfirst = AND(n > 0, cx.has(cur), idf(0) == cx.val(cur))
        known = z3.Exists([q], AND(q >= 1, q < n, idf(q) == cx.val(cur), e(q) == e(q)))
        ref = lambda y: AND(y >= 0, y < n, e(y) == first)
        F = z3.BoolVal(False)
        single = single_mode(cx)
        alone = lambda y: OR(single, flag(bpf(cx, v, y, 'type', st0), DATA))
        return [('list-untouched', lst(cx) == v),
                ('time-reversed-only-at-the-first', cnt1 == z3.If(atfirst, cnt0 + 1, cnt0)),
                ('nothing-inserted', IMP(n == 0, AND(m == 0, same_cur(cx)))),
                ('no-position-starts-at-the-last', IMP(AND(n > 0, NOT(cx.has(cur))), AND(m > 0, first == e(n - 1)))),
                ('after-reversing-starts-at-the-last', IMP(AND(atfirst, ok), AND(m > 0, first == e(n - 1)))),
                ('cannot-reverse-stays-at-the-first', IMP(AND(atfirst, NOT(ok)), AND(m > 0, first == e(0)))),
                ('nearest-earlier', IMP(AND(n > 0, cx.has(cur), NOT(atfirst)), z3.If(m > 0,
                    z3.Exists([x], AND(x >= 1, x < n, idf(x) == cx.val(cur), fa([q], IMP(AND(q > x, q < n), idf(q) != cx.val(cur)), e(q)), first == e(x - 1))),
                    fa([q], IMP(AND(q >= 1, q < n), idf(q) != cx.val(cur)), e(q))))),
                ('one-at-a-time', fa([x], IMP(AND(m > 0, ref(x), alone(x)), m == 1), e(x))),
                ('only-the-group', fa([x, k], IMP(AND(ref(x), k >= 1, k < m), z3.Exists([j], AND(e(j) == R(k), member(cx, v, x, j, F, st0)))), (e(x), R(k)))),
                ('whole-group', fa([x, j], IMP(AND(m > 0, ref(x), NOT(alone(x)), member(cx, v, x, j, F, st0)), z3.Exists([k], AND(k >= 1, k < m, R(k) == e(j)))), (e(x), e(j)))),
                ('group-in-order', fa([i, j, k, l], IMP(AND(i >= 0, i < n, j >= 0, j < n, k >= 0, k < l, l < m, R(k) == e(i), R(l) == e(j)), i > j), (e(i), e(j), R(k), R(l)))),
                ('position-moves-to-the-earliest', IMP(m > 0, cur_is(cx, cx.fld(R(m - 1), B, 'id', st0)))),
                ('position-lost-if-not-found', IMP(AND(m == 0, n > 0), NOT(cx.has(cx.my('current_breakpoint_id_'))))),
                ] + marked(cx, r) + invs(cx)

    def _find(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        v = lst(cx, L.old)
        cur = cx.my('current_breakpoint_id_', L.old)
        t = L.var('target_index', ('opt', ('int', 64, False)))
        q = I('q')
        return [('position', AND(L.idx >= 0, L.idx < cx.len(v))), ('not-yet', NOT(cx.has(t))),
                ('later-ones-differ', fa([q], IMP(AND(q > L.idx, q < cx.len(v)), bpf(cx, v, q, 'id', L.old) != cx.val(cur)), cx.el(v, q)))]
    loops = [Loop(_find, decr=lambda L: L.idx), Loop(mark_inv)]


# ---------------------------------------------------------------- stepping
class DbBreakpoint(Pure):
    """the symbol table answers the same id with the same breakpoint"""
    name = 'hgdb::SymbolTableProvider::get_breakpoint'


class CreateNext(Assumed):
    """temporary breakpoints for a statement: a function of the statement and the current id (bounded: harness s02)"""
    name = S + '::create_next_breakpoints'

    def apply(self, ex, st, this, args, n):
        cx = Cx(ex, st, st, this, args)
        return [(st, Val(stepres(cx, ex.term(st, args[0]), st), BPS))]


def stepres(cx, bp, st):
    ex = cx.ex
    cur = cx.my('current_breakpoint_id_', st)
    f = ex.uf('temporary-breakpoints-of', bp.sort(), z3.IntSort(), ex.sort(BPS))
    return f(bp, cx.val(cur))


def dbget(cx, i):
    ex = cx.ex
    db = cx.my('db_', cx.old)
    ty = ex.sort(('opt', ('rec', 'hgdb::BreakPoint')))
    return ex.uf('pure:hgdb::SymbolTableProvider::get_breakpoint', z3.IntSort(), z3.IntSort(), ty)(db, i)


def order_inv(cx, st=None):
    o = cx.my('bp_ordering_', st)
    i, j = I('i'), I('j')
    n = cx.len(o)
    return [('order-without-duplicates', fa([i, j], IMP(AND(i >= 0, i < j, j < n), cx.el(o, i) != cx.el(o, j)), (cx.el(o, i), cx.el(o, j)))),
            ('symbol-table', AND(cx.my('db_', st) > 0, SEL(cx.ex.allocd(st or cx.st), cx.my('db_', st))))]


def at(cx, o, p, t):
    return AND(p >= 0, p < cx.len(o), cx.el(o, p) == t)


class StepOver(Contract):
    name = S + '::next_step_over_breakpoints'

    def pre(self, cx):
        return order_inv(cx)

    def modifies(self, cx):
        return [('field', cx.thisref, S, 'current_breakpoint_id_')]

    def post(self, cx):
        o = cx.my('bp_ordering_')
        n = cx.len(o)
        c0, c1 = cx.my('current_breakpoint_id_', cx.old), cx.my('current_breakpoint_id_')
        r = cx.ret.t
        p = I('p')
        cur = cx.val(c0)
        stepped = lambda t: AND(cur_is(cx, t), r == stepres(cx, dbget(cx, t), cx.st))
        stay = AND(same_cur(cx), cx.len(r) == 0)
        return [('starts-at-the-first', IMP(AND(NOT(cx.has(c0)), n > 0), stepped(cx.el(o, 0)))),
                ('empty-order', IMP(AND(NOT(cx.has(c0)), n == 0), stay)),
                ('next-in-order', fa([p], IMP(AND(cx.has(c0), at(cx, o, p, cur), p + 1 < n), stepped(cx.el(o, p + 1))), cx.el(o, p))),
                ('nothing-after-the-last', fa([p], IMP(AND(cx.has(c0), at(cx, o, p, cur), p + 1 == n), stay), cx.el(o, p))),
                ('unknown-position', IMP(AND(cx.has(c0), fa([p], IMP(AND(p >= 0, p < n), cx.el(o, p) != cur), cx.el(o, p))), stay))]


class StepBack(Contract):
    name = S + '::next_step_back_breakpoints'

    def pre(self, cx):
        o = cx.my('bp_ordering_')
        c = cx.my('current_breakpoint_id_')
        p = I('p')
        return order_inv(cx) + [('current-is-a-statement', IMP(cx.has(c), z3.Exists([p], at(cx, o, p, cx.val(c)))))]

    def modifies(self, cx):
        return [('field', cx.thisref, S, 'current_breakpoint_id_')] + GHOST

    def post(self, cx):
        o = cx.my('bp_ordering_')
        n = cx.len(o)
        c0, c1 = cx.my('current_breakpoint_id_', cx.old), cx.my('current_breakpoint_id_')
        r = cx.ret.t
        p = I('p')
        cur = cx.val(c0)
        cnt0, _ = rew(cx, cx.old)
        cnt1, ok = rew(cx)
        stepped = lambda t: AND(cur_is(cx, t), r == stepres(cx, dbget(cx, t), cx.st))
        first = AND(cx.has(c0), n > 0, cx.el(o, 0) == cur)
        return [('no-position-no-step', IMP(NOT(cx.has(c0)), AND(same_cur(cx), cx.len(r) == 0))),
                ('previous-in-order', fa([p], IMP(AND(cx.has(c0), at(cx, o, p, cur), p >= 1), stepped(cx.el(o, p - 1))), cx.el(o, p))),
                ('time-reversed-only-at-the-first', cnt1 == z3.If(first, cnt0 + 1, cnt0)),
                ('reversed-continues-at-the-last', IMP(AND(first, ok), stepped(cx.el(o, n - 1)))),
                ('cannot-reverse-stays-at-the-first', IMP(AND(first, NOT(ok)), stepped(cx.el(o, 0))))]


class Next(Contract):
    """each mode is served by its own selection"""
    name = S + '::next_breakpoints'

    def pre(self, cx):
        return inv(cx) + StepBack.pre(self, cx)

    def modifies(self, cx):
        return [('field', cx.thisref, S, 'current_breakpoint_id_'), ('heap', B + '.evaluated', ('bool',))] + GHOST

    def post(self, cx):
        o = cx.ex.tu.enumty[S + '::EvaluationMode']
        m = cx.my('evaluation_mode_', cx.old)
        out = []
        for mode, c in (('BreakPointOnly', NextNormal()), ('StepOver', StepOver()), ('StepBack', StepBack()), ('ReverseBreakpointOnly', NextReverse())):
            out += [('%s:%s' % (mode, a), IMP(m == o[mode], b)) for a, b in c.post(cx)]
        return out + [('None:nothing', IMP(m == o['None'], AND(cx.len(cx.ret.t) == 0, same_cur(cx))))]


CONTRACTS = [GetBreakpoint(), RemoveAsserts(), StartEval(), ClearFlags(), SetMode(), Clear(), ClearData(), BreakpointOnly(), GetCurrent(), Reorder(),
             RemoveById(), RemoveBp(), RemoveData(), Scan(), NextNormal(), NextReverse(), StepOver(), StepBack(), Next()]
SPECS = [DefaultRtl(), ReverseTime(), DbBreakpoint(), CreateNext()]
