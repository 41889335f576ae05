"""src/debug.cc: which breakpoints hit, and what is sent to whom"""
import z3
from hvc.contract import Contract, Assumed, Pure, Havoc, NoEffect, Loop, Cx
from hvc.sym import Val, Iter, PtrTo, PyObj, Temp, Local, Unsupported, HeapObj
from .common import *

SRC = 'src/debug.cc'
MODE = 'int'
G = 'hgdb::Debugger'
B = 'hgdb::DebugBreakPoint'
S = 'hgdb::Scheduler'
N = 'hgdb::DebuggerNamespace'
NM = 'hgdb::DebuggerNamespaceManager'
R = 'hgdb::RTLSimulatorClient'
MON = 'hgdb::Monitor'
X = 'hgdb::DebugExpression'
DB = 'hgdb::SymbolTableProvider'
OPT = ('opt', ('int', 64, True))


def part(ex, t, rec, f):
    """component f of a record value"""
    for i, (own, nm, ty) in enumerate(ex.fields(rec)):
        if nm == f:
            return ex.acc(t, i)
    raise Unsupported('no field %s in %s' % (f, rec))


def spaces(cx, st=None):
    return part(cx.ex, cx.my('namespaces_', st), NM, 'namespaces_')


def live(cx, r, st=None):
    return AND(r > 0, SEL(cx.ex.allocd(st or cx.st), r))


def signal(cx, h):
    """the value the simulator has for a signal now; the same through every client"""
    ex = cx.ex
    return ex.uf('simulator-value', z3.IntSort(), ex.sort(OPT))(h)


def same(cx, a, b):
    return AND(cx.has(a) == cx.has(b), IMP(cx.has(a), cx.val(a) == cx.val(b)))


def ok_spaces(cx, st=None):
    v = spaces(cx, st)
    i = I('i')
    e = lambda i: cx.el(v, i)
    return [('namespaces', fa([i], IMP(AND(i >= 0, i < cx.len(v)), AND(live(cx, e(i), st), live(cx, cx.fld(e(i), N, 'rtl', st), st), live(cx, cx.fld(e(i), N, 'monitor', st), st))), e(i)))]


def cache_ok(cx, st=None):
    """what is cached is what the simulator has"""
    m = cx.my('cached_signal_values_', st)
    h = I('h')
    return [('cache-is-current', fa([h], IMP(cx.has(m, h), AND(cx.has(signal(cx, h)), cx.val(signal(cx, h)) == cx.val(m, h))), cx.has(m, h)))]


class RtlValue(Assumed):
    """the simulator's value of a signal does not change during one evaluation"""
    name = R + '::get_value'

    def post(self, cx):
        if cx.args and isinstance(cx.args[0], object) and cx.ex.sort(('str',)) == cx.arg(0).sort():
            return []
        return [('current', same(cx, cx.ret.t, signal(cx, cx.arg(0))))]


class Log(NoEffect):
    pass


class Flag(Havoc):
    pass


class DefaultRtl(Assumed):
    """proved in namespace"""
    name = NM + '::default_rtl'

    def post(self, cx):
        v = part(cx.ex, cx.ex.term(cx.st, cx.this), NM, 'namespaces_') if not isinstance(cx.this, HeapObj) else cx.my('namespaces_')
        return [('of-the-first', cx.ret.t == z3.If(cx.len(v) == 0, z3.IntVal(0), cx.fld(cx.el(v, z3.IntVal(0)), N, 'rtl')))]


class GetSignal(Contract):
    """the current value of a signal, cached or not"""
    name = G + '::get_signal_value'

    def pre(self, cx):
        return ok_spaces(cx) + cache_ok(cx) + [('namespace', AND(cx.arg(0) >= 0, cx.arg(0) < cx.len(spaces(cx)))), ('signal', cx.arg(1) != 0)]

    def modifies(self, cx):
        return [('field', cx.thisref, G, 'cached_signal_values_')]

    def post(self, cx):
        return [('value-of-the-simulator', same(cx, cx.ret.t, signal(cx, cx.arg(1))))] + cache_ok(cx)


class GetFullName(NoEffect):
    """only used in a log message"""
    name = G + '::get_full_name'


def bpf(cx, r, f, st=None):
    return cx.fld(r, B, f, st)


def ok_bp(cx, b, st=None):
    """a breakpoint of the scheduler: live, in a namespace, with its two conditions, signals resolved"""
    s = z3.Const('s', cx.ex.Str)
    m = bpf(cx, b, 'trigger_symbols', st)
    hs = lambda e: cx.fld(e, X, 'handles_', st)
    out = [('breakpoint', live(cx, b, st)), ('its-namespace', AND(bpf(cx, b, 'ns_id', st) >= 0, bpf(cx, b, 'ns_id', st) < cx.len(spaces(cx, st)))),
           ('trigger-signals', fa([s], IMP(cx.has(m, s), cx.val(m, s) != 0), cx.has(m, s)))]
    for f in ('expr', 'enable_expr'):
        e = bpf(cx, b, f, st)
        out += [(f, live(cx, e, st)),
                (f + '-signals', fa([s], IMP(AND(cx.has(hs(e), s), NOT(special(cx, s))), cx.val(hs(e), s) != 0), cx.has(hs(e), s)))]
    return out


def special(cx, s):
    return OR(s == cx.ex.lit('$instance'), s == cx.ex.lit('$time'))


def changed(cx, m, v, s):
    """signal s of the trigger list m has a value, and not the one seen before"""
    x = signal(cx, cx.val(m, s))
    return AND(cx.has(m, s), cx.has(x), OR(NOT(cx.has(v, s)), cx.val(v, s) != cx.val(x)))


class ShouldTrigger(Contract):
    """no trigger list, or one of its signals is unknown or differs from when it was last looked at"""
    name = G + '::should_trigger'

    def pre(self, cx):
        b = cx.arg(0)
        return ok_spaces(cx) + cache_ok(cx) + ok_bp(cx, b)

    def modifies(self, cx):
        return [('field', cx.thisref, G, 'cached_signal_values_'), ('field', cx.arg(0), B, 'trigger_values')]

    def post(self, cx):
        b = cx.arg(0)
        s = z3.Const('s', cx.ex.Str)
        m, v0, v1 = bpf(cx, b, 'trigger_symbols', cx.old), bpf(cx, b, 'trigger_values', cx.old), bpf(cx, b, 'trigger_values')
        none = fa([s], NOT(cx.has(m, s)))
        unknown = z3.Exists([s], AND(cx.has(m, s), NOT(cx.has(signal(cx, cx.val(m, s))))))
        ch = z3.Exists([s], changed(cx, m, v0, s))
        return [('triggered', cx.ret.t == OR(none, unknown, ch)),
                ('values-seen', IMP(NOT(unknown), fa([s], IMP(cx.has(m, s), AND(cx.has(v1, s), cx.val(v1, s) == cx.val(signal(cx, cx.val(m, s))))), cx.has(m, s))))] + cache_ok(cx)

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        b = cx.arg(0, L.old)
        s = z3.Const('s', cx.ex.Str)
        m, v0, v1 = bpf(cx, b, 'trigger_symbols', L.old), bpf(cx, b, 'trigger_values', L.old), bpf(cx, b, 'trigger_values')
        flag = L.var('should_trigger', ('bool',))
        seen = lambda s: SEL(L.visited, s)
        x, h = I('x'), I('h')
        tv = lambda r, st=None: bpf(cx, r, 'trigger_values', st)
        return [('so-far', flag == z3.Exists([s], AND(seen(s), changed(cx, m, v0, s)))),
                ('seen', fa([s], IMP(seen(s), AND(cx.has(m, s), cx.has(v1, s), cx.has(signal(cx, cx.val(m, s))), cx.val(v1, s) == cx.val(signal(cx, cx.val(m, s))))), seen(s))),
                ('unseen', fa([s], IMP(NOT(seen(s)), AND(cx.has(v1, s) == cx.has(v0, s), cx.val(v1, s) == cx.val(v0, s))), cx.has(v1, s), cx.val(v1, s))),
                ('others', fa([x], IMP(x != b, tv(x) == tv(x, L.old)), tv(x)))] + cache_ok(cx)
    loops = [Loop(_inv)]


class SetExprValues(Contract):
    """every resolved name of the expression gets its current value, or the evaluation fails"""
    name = G + '::set_expr_values'

    def pre(self, cx):
        s = z3.Const('s', cx.ex.Str)
        e = cx.arg(1)
        hs = cx.fld(e, X, 'handles_')
        return ok_spaces(cx) + cache_ok(cx) + [('namespace', AND(cx.arg(0) >= 0, cx.arg(0) < cx.len(spaces(cx)))), ('expression', live(cx, e)),
                                               ('signals', fa([s], IMP(AND(cx.has(hs, s), NOT(special(cx, s))), cx.val(hs, s) != 0), cx.has(hs, s)))]

    def modifies(self, cx):
        return [('field', cx.thisref, G, 'cached_signal_values_'), ('field', cx.arg(1), X, 'values_')]

    @staticmethod
    def supplied(cx, hs, v1, s, inst, rtl):
        ex = cx.ex
        now = ex.uf('simulator-time', z3.IntSort(), z3.IntSort())(rtl)
        now = z3.If(now >= 2 ** 63, now - 2 ** 64, now)
        return z3.If(s == ex.lit('$instance'), cx.val(v1, s) == inst,
                     z3.If(s == ex.lit('$time'), cx.val(v1, s) == now, AND(cx.has(signal(cx, cx.val(hs, s))), cx.val(v1, s) == cx.val(signal(cx, cx.val(hs, s))))))

    def post(self, cx):
        e = cx.arg(1)
        s = z3.Const('s', cx.ex.Str)
        hs, v0, v1 = cx.fld(e, X, 'handles_', cx.old), cx.fld(e, X, 'values_', cx.old), cx.fld(e, X, 'values_')
        rtl = cx.fld(cx.el(spaces(cx, cx.old), cx.arg(0)), N, 'rtl', cx.old)
        known = fa([s], IMP(AND(cx.has(hs, s), NOT(special(cx, s))), cx.has(signal(cx, cx.val(hs, s)))), cx.has(hs, s))
        return [('fails-iff-unknown', cx.ret.t == known),
                ('values', IMP(cx.ret.t, fa([s], IMP(cx.has(hs, s), AND(cx.has(v1, s), self.supplied(cx, hs, v1, s, cx.arg(2), rtl))), cx.has(hs, s)))),
                ('other-names-kept', fa([s], IMP(NOT(cx.has(hs, s)), AND(cx.has(v1, s) == cx.has(v0, s), cx.val(v1, s) == cx.val(v0, s))), cx.has(v1, s), cx.val(v1, s)))] + cache_ok(cx)

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        e = cx.arg(1, L.old)
        s, x = z3.Const('s', cx.ex.Str), I('x')
        hs, v0, v1 = cx.fld(e, X, 'handles_', L.old), cx.fld(e, X, 'values_', L.old), cx.fld(e, X, 'values_')
        rtl = cx.fld(cx.el(spaces(cx, L.old), cx.arg(0, L.old)), N, 'rtl', L.old)
        seen = lambda s: SEL(L.visited, s)
        vv = lambda r, st=None: cx.fld(r, X, 'values_', st)
        return [('given', fa([s], IMP(seen(s), AND(cx.has(hs, s), cx.has(v1, s), SetExprValues.supplied(cx, hs, v1, s, cx.arg(2, L.old), rtl))), seen(s))),
                ('not-yet', fa([s], IMP(NOT(seen(s)), AND(cx.has(v1, s) == cx.has(v0, s), cx.val(v1, s) == cx.val(v0, s))), cx.has(v1, s), cx.val(v1, s))),
                ('others', fa([x], IMP(x != e, vv(x) == vv(x, L.old)), vv(x)))] + cache_ok(cx)
    loops = [Loop(_inv)]


class SimTime(Assumed):
    name = R + '::get_simulation_time'

    def post(self, cx):
        return [('now', cx.ret.t == cx.ex.uf('simulator-time', z3.IntSort(), z3.IntSort())(cx.thisref))]


class ExprSetValue(Assumed):
    """proved in eval_int"""
    name = X + '::set_value'

    def modifies(self, cx):
        return [('field', cx.thisref, X, 'values_')]

    def post(self, cx):
        from .eval_int import SetValue
        return SetValue.post(self, cx)


def expr_value(cx, e, values, st):
    """the value of an expression with these values of its names (what it denotes is E01, which values it uses is E02)"""
    ex = cx.ex
    return ex.uf('expression-value', z3.IntSort(), values.sort(), z3.IntSort())(e, values)


class ExprEval(Assumed):
    name = X + '::eval'

    def post(self, cx):
        return [('value', cx.ret.t == expr_value(cx, cx.thisref, cx.my('values_', cx.old), cx.old))]


class ExprCorrect(Assumed):
    name = X + '::correct'

    def post(self, cx):
        return [('correct', cx.ret.t == cx.my('correct_', cx.old))]


class SchedBreakpointOnly(Assumed):
    """proved in scheduler"""
    name = S + '::breakpoint_only'

    def post(self, cx):
        return [('mode', cx.ret.t == only(cx, cx.thisref, cx.old))]


def only(cx, sched, st):
    o = cx.ex.tu.enumty[S + '::EvaluationMode']
    m = cx.fld(sched, S, 'evaluation_mode_', st)
    return OR(m == o['BreakPointOnly'], m == o['ReverseBreakpointOnly'])


def watch_changed(cx, mon, w):
    return cx.ex.uf('watch-changed', z3.IntSort(), z3.IntSort(), z3.BoolSort())(mon, w)


class VarChanged(Assumed):
    """proved in monitor: the watched signal has a known value other than the remembered one (and that is remembered from now on)"""
    name = MON + '::var_changed'

    def modifies(self, cx):
        return [('heap', 'cell:opt_i64', OPT)]

    def post(self, cx):
        return [('changed', cx.ex.acc(cx.ret.t, 0) == watch_changed(cx, cx.thisref, cx.arg(0)))]


class EvalOne(Contract):
    """a breakpoint hits iff its condition is valid, all its signals are known, it is true with their current values, its triggers
    changed and, for a data breakpoint, its watched variable did"""
    name = G + '::eval_breakpoint/1'
    nparams = 1

    def pre(self, cx):
        return ok_spaces(cx) + cache_ok(cx) + ok_bp(cx, cx.arg(0)) + [('scheduler', live(cx, cx.my('scheduler_')))]

    def modifies(self, cx):
        return [('field', cx.thisref, G, 'cached_signal_values_'), ('heap', X + '.values_', ('map', ('str',), ('int', 64, True))), ('field', cx.arg(0), B, 'trigger_values'), ('heap', 'cell:opt_i64', OPT)] + \
            ([('heap', VERDICT, ('bool',))] if cx.ex.fn != self.name else [])

    def post(self, cx):
        if cx.ex.fn != self.name:       # at a call: the verdict is on record, and the breakpoint stays as it should be
            x, b = I('x'), cx.arg(0)
            tv = lambda r, st=None: bpf(cx, r, 'trigger_values', st)
            return [('verdict', verdict(cx, b) == cx.ret.t), ('other-verdicts', fa([x], IMP(x != b, verdict(cx, x) == verdict(cx, x, cx.old)), verdict(cx, x)))] + cache_ok(cx)
        b, st0 = cx.arg(0), cx.old
        ex = cx.ex
        s, x = z3.Const('s', ex.Str), I('x')
        sched = cx.my('scheduler_', st0)
        e = z3.If(only(cx, sched, st0), bpf(cx, b, 'expr', st0), bpf(cx, b, 'enable_expr', st0))
        hs = cx.fld(e, X, 'handles_', st0)
        v0, v1 = cx.fld(e, X, 'values_', st0), cx.fld(e, X, 'values_')
        ns = cx.el(spaces(cx, st0), bpf(cx, b, 'ns_id', st0))
        rtl = cx.fld(ns, N, 'rtl', st0)
        known = fa([s], IMP(AND(cx.has(hs, s), NOT(special(cx, s))), cx.has(signal(cx, cx.val(hs, s)))), cx.has(hs, s))
        correct = cx.fld(e, X, 'correct_', st0)
        m, tv = bpf(cx, b, 'trigger_symbols', st0), bpf(cx, b, 'trigger_values', st0)
        none = fa([s], NOT(cx.has(m, s)))
        unknown = z3.Exists([s], AND(cx.has(m, s), NOT(cx.has(signal(cx, cx.val(m, s))))))
        trig = OR(none, unknown, z3.Exists([s], changed(cx, m, tv, s)))
        data = IMP(bpf(cx, b, 'type', st0) == DATA, watch_changed(cx, cx.fld(ns, N, 'monitor', st0), bpf(cx, b, 'watch_id', st0)))
        go = AND(correct, known)
        return [('hits', cx.ret.t == AND(go, expr_value(cx, e, v1, cx.st) != 0, trig, data)),
                ('with-current-values', IMP(go, fa([s], IMP(cx.has(hs, s), AND(cx.has(v1, s), SetExprValues.supplied(cx, hs, v1, s, bpf(cx, b, 'instance_id', st0), rtl))), cx.has(hs, s)))),
                ('constants-kept', fa([s], IMP(NOT(cx.has(hs, s)), AND(cx.has(v1, s) == cx.has(v0, s), cx.val(v1, s) == cx.val(v0, s))), cx.has(v1, s), cx.val(v1, s))),
                ('other-expressions-kept', fa([x], IMP(x != e, cx.fld(x, X, 'values_') == cx.fld(x, X, 'values_', st0)), cx.fld(x, X, 'values_'))),
                ('triggers-seen-when-judged', IMP(AND(go, NOT(unknown)), fa([s], IMP(cx.has(m, s), AND(cx.has(bpf(cx, b, 'trigger_values'), s), cx.val(bpf(cx, b, 'trigger_values'), s) == cx.val(signal(cx, cx.val(m, s))))), cx.has(m, s)))),
                ('triggers-kept-otherwise', IMP(NOT(go), bpf(cx, b, 'trigger_values') == tv))] + cache_ok(cx)


VERDICT = 'ghost:verdict'        # what the last evaluation of a breakpoint said


def verdict(cx, b, st=None):
    return SEL(cx.ex.heap(st or cx.st, VERDICT, ('bool',)), b)


def ok_bps(cx, v, st=None):
    """live breakpoints, all different"""
    i, j = I('i'), I('j')
    e = lambda i: cx.el(v, i)
    at = lambda i: AND(i >= 0, i < cx.len(v))
    ok = AND(*[p for _, p in ok_bp(cx, e(i), st)])
    return [('breakpoints', fa([i], IMP(at(i), ok), e(i))), ('different', fa([i, j], IMP(AND(at(i), at(j), i != j), e(i) != e(j)), (e(i), e(j))))]


def frame_eval(cx):
    return [('field', cx.thisref, G, 'cached_signal_values_'), ('heap', X + '.values_', ('map', ('str',), ('int', 64, True))), ('heap', 'cell:opt_i64', OPT),
            ('heap', B + '.trigger_values', ('map', ('str',), ('int', 64, True))), ('heap', VERDICT, ('bool',))]


class EvalRange(Contract):
    """the verdicts of breakpoints start to end, each at its place, nothing else"""
    name = G + '::eval_breakpoint/4'
    nparams = 4

    def pre(self, cx):
        n = cx.len(cx.arg(0))
        return ok_spaces(cx) + cache_ok(cx) + ok_bps(cx, cx.arg(0)) + [('scheduler', live(cx, cx.my('scheduler_'))), ('range', AND(cx.arg(2) >= 0, cx.arg(2) <= cx.arg(3), cx.arg(3) <= n)), ('room', cx.len(cx.arg(1)) == n)]

    def modifies(self, cx):
        return frame_eval(cx) + ([('place', cx.args[1])] if cx.ex.fn != self.name else [])

    @staticmethod
    def upto(cx, bps, r0, r1, lo, hi):
        i, x = I('i'), I('x')
        one = lambda t: t != 0
        return [('verdicts', fa([i], IMP(AND(i >= lo, i < hi), AND(one(cx.el(r1, i)) == verdict(cx, cx.el(bps, i)))), cx.el(r1, i), cx.el(bps, i))),
                ('rest', fa([i], IMP(AND(i >= 0, i < cx.len(bps), OR(i < lo, i >= hi)), AND(cx.el(r1, i) == cx.el(r0, i), verdict(cx, cx.el(bps, i)) == verdict(cx, cx.el(bps, i), cx.old))), cx.el(r1, i), cx.el(bps, i))),
                ('length', cx.len(r1) == cx.len(r0))]

    def post(self, cx):
        return self.upto(cx, cx.arg(0, cx.old), cx.arg(1, cx.old), cx.arg(1), cx.arg(2), cx.arg(3)) + cache_ok(cx)

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        i = L.var('index', ('int', 64, False))
        lo = cx.arg(2, L.old)
        return EvalRange.upto(cx, cx.arg(0, L.old), cx.arg(1, L.old), cx.arg(1), lo, i) + [('place', AND(i >= lo, i <= cx.arg(3, L.old)))] + cache_ok(cx)
    loops = [Loop(_inv, decr=lambda L: Cx(L.ex, L.st, L.old, L.this, L.args).arg(3, L.old) - L.var('index', ('int', 64, False)))]


class EvalAll(Contract):
    """one verdict per breakpoint, in order, however many there are and whether in one thread or two"""
    name = G + '::eval_breakpoints'
    notes = ('the two evaluation threads do not interfere (each writes its own elements)',)

    def pre(self, cx):
        return ok_spaces(cx) + cache_ok(cx) + ok_bps(cx, cx.arg(0)) + [('scheduler', live(cx, cx.my('scheduler_'))), ('a-namespace', cx.len(spaces(cx)) > 0)]

    def modifies(self, cx):
        return frame_eval(cx)

    def post(self, cx):
        i = I('i')
        v, r = cx.arg(0, cx.old), cx.ret.t
        return [('one-each', cx.len(r) == cx.len(v)), ('verdicts', fa([i], IMP(AND(i >= 0, i < cx.len(v)), cx.el(r, i) == verdict(cx, cx.el(v, i))), cx.el(r, i), cx.el(v, i)))] + cache_ok(cx)

    @staticmethod
    def _state(L, done):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        v = cx.arg(0, L.old)
        hits = L.var('hits', ('vec', ('int', 8, False)))
        k = I('k')
        return [('verdicts', fa([k], IMP(AND(k >= 0, k < done(cx.len(v))), (cx.el(hits, k) != 0) == verdict(cx, cx.el(v, k))), cx.el(hits, k), cx.el(v, k))), ('room', cx.len(hits) == cx.len(v))] + cache_ok(cx)

    def _inv(L):
        i = L.var('i', ('int', 32, False))
        return [('turn', AND(i >= 0, i <= 2))] + EvalAll._state(L, lambda n: z3.If(i == 0, z3.IntVal(0), z3.If(i == 1, n / 2, n)))
    loops = [Loop(_inv, decr=lambda L: 2 - L.var('i', ('int', 32, False))), Loop(lambda L: EvalAll._state(L, lambda n: n))]


PENDING, UNREPORTED, WAITS, REPORTS, MONITORED, STARTED = 'ghost:pending', 'ghost:unreported', 'ghost:waits', 'ghost:reports', 'ghost:monitored', 'ghost:started'
BATCH, NTH, OFFERED = 'ghost:batch', 'ghost:nth', 'ghost:offered'         # what was judged together; how many hits come before the i-th
SES = {PENDING: ('bool',), UNREPORTED: ('bool',), WAITS: ('int', 64, False), REPORTS: ('int', 64, False), MONITORED: ('int', 64, False), STARTED: ('bool',), BATCH: ('vec', ('ptr', ('rec', B))), NTH: ('int', 64, False), OFFERED: ('int', 64, False)}


def ses(cx, k, i=0, st=None):
    return SEL(cx.ex.heap(st or cx.st, k, SES[k]), i)


class EvalAllCall(Assumed):
    """eval_breakpoints as its callers see it: its contract, and a record of what was judged"""
    name = G + '::eval_breakpoints'

    def pre(self, cx):
        return EvalAll.pre(self, cx)

    def modifies(self, cx):
        return frame_eval(cx) + [('heap', k, SES[k]) for k in (UNREPORTED, BATCH, NTH)]

    def post(self, cx):
        i, v = I('i'), cx.arg(0, cx.old)
        nth = lambda i: ses(cx, NTH, i)
        return EvalAll.post(self, cx) + [('batch', ses(cx, BATCH) == v), ('count', nth(z3.IntVal(0)) == 0),
                                         ('count-on', fa([i], IMP(AND(i >= 0, i < cx.len(v)), nth(i + 1) == nth(i) + z3.If(verdict(cx, cx.el(v, i)), z3.IntVal(1), z3.IntVal(0))), nth(i), cx.el(v, i))),
                                         ('to-report', ses(cx, UNREPORTED) == (nth(cx.len(v)) > 0))]


def hits_in(cx, r, b, k):
    """r is what hit of the first k of batch b, each once, in order"""
    i = I('i')
    nth = lambda i: ses(cx, NTH, i)
    return [('only-and-all', AND(cx.len(r) == nth(k), nth(k) >= 0)),
            ('each', fa([i], IMP(AND(i >= 0, i < k), AND(nth(i) >= 0, nth(i) <= cx.len(r), IMP(verdict(cx, cx.el(b, i)), AND(nth(i) < cx.len(r), cx.el(r, nth(i)) == cx.el(b, i))))), nth(i), cx.el(b, i)))]


class NextBps(Assumed):
    """proved in scheduler (live, all different); the signals of their conditions and triggers are resolved"""
    name = S + '::next_breakpoints'

    def pre(self, cx):
        return [('started', ses(cx, STARTED)), ('all-reported', NOT(ses(cx, UNREPORTED))), ('paused-at-each-report', NOT(ses(cx, PENDING)))]

    def modifies(self, cx):
        return [('alloc',), ('heap', OFFERED, SES[OFFERED])]

    def post(self, cx):
        g = HeapObj(z3.Int('this'), G)
        c2 = Cx(cx.ex, cx.st, cx.old, g, cx.args, cx.ret)
        return ok_bps(c2, cx.ret.t) + ok_spaces(c2) + [('size', cx.len(cx.ret.t) < 2 ** 32), ('offered', ses(cx, OFFERED) == cx.len(cx.ret.t))] + [('scheduler', live(cx, c2.my('scheduler_')))]


class Report(Assumed):
    """the report of a stop: everything that hit in this batch, nothing else"""
    name = G + '::send_breakpoint_hit'

    def pre(self, cx):
        r, b = cx.arg(0), ses(cx, BATCH)
        return [('something', cx.len(r) > 0)] + hits_in(cx, r, b, cx.len(b)) + [
            ('once', AND(ses(cx, UNREPORTED), NOT(ses(cx, PENDING))))]

    def modifies(self, cx):
        return [('heap', k, SES[k]) for k in (PENDING, UNREPORTED, REPORTS)]

    def post(self, cx):
        return [('', AND(ses(cx, PENDING), NOT(ses(cx, UNREPORTED)), ses(cx, REPORTS) == ses(cx, REPORTS, 0, cx.old) + 1))]


class Wait(Assumed):
    """pauses the simulation until a client lets it go on; meanwhile requests are handled"""
    name = 'hgdb::RuntimeLock::wait'

    def modifies(self, cx):
        g = z3.Int('this')
        return [('heap', k, SES[k]) for k in (PENDING, WAITS)] + [('field', g, G, f) for f in ('db_', 'scheduler_', 'cached_signal_values_', 'namespaces_')] + [('alloc',)] + frame_eval(Cx(cx.ex, cx.st, cx.old, HeapObj(g, G), cx.args))

    def pre(self, cx):
        return [('reported-before', OR(ses(cx, PENDING), NOT(ses(cx, UNREPORTED))))]

    def post(self, cx):
        g = HeapObj(z3.Int('this'), G)
        c2 = Cx(cx.ex, cx.st, cx.old, g, cx.args, cx.ret)
        x = I('x')
        return [('', AND(NOT(ses(cx, PENDING)), ses(cx, WAITS) == ses(cx, WAITS, 0, cx.old) + 1))] + ready(c2)


def ready(cx, st=None):
    return ok_spaces(cx, st) + cache_ok(cx, st) + [('scheduler', OR(cx.my('scheduler_', st) == 0, live(cx, cx.my('scheduler_', st), st))), ('a-namespace', cx.len(spaces(cx, st)) > 0)]


class MonitorValues(Assumed):
    name = G + '::send_monitor_values'

    def modifies(self, cx):
        return [('heap', MONITORED, SES[MONITORED])]

    def post(self, cx):
        x, t = I('x'), cx.arg(0)
        return [('', fa([x], ses(cx, MONITORED, x) == ses(cx, MONITORED, x, cx.old) + z3.If(x == t, z3.IntVal(1), z3.IntVal(0)), ses(cx, MONITORED, x)))]


class Start(Assumed):
    name = G + '::start_breakpoint_evaluation'

    def modifies(self, cx):
        return [('heap', STARTED, SES[STARTED]), ('field', cx.thisref, G, 'cached_signal_values_')]

    def post(self, cx):
        return [('', ses(cx, STARTED))] + cache_ok(cx)


class Eval(Contract):
    """one clock edge: batch after batch is judged; each batch with hits is reported once, completely, and the simulation pauses right after;
    it ends when the scheduler has nothing more; then monitored values are sent once"""
    name = G + '::eval'
    notes = ('requests handled during a pause leave the session as G02 says, and the cached values valid', 'fewer than 2^32 breakpoints in one batch')

    def pre(self, cx):
        return ready(cx) + [('idle', AND(NOT(ses(cx, UNREPORTED)), NOT(ses(cx, PENDING))))]

    def modifies(self, cx):
        return [('heap', k, t) for k, t in SES.items()] + [('alloc',)] + [('field', cx.thisref, G, f) for f in ('db_', 'scheduler_', 'cached_signal_values_', 'namespaces_')] + frame_eval(cx)

    def post(self, cx):
        m = cx.ex.tu.enumty['hgdb::MonitorRequest::MonitorType']
        d = lambda t: ses(cx, MONITORED, m[t]) - ses(cx, MONITORED, m[t], cx.old)
        return [('until-nothing-is-left', OR(cx.my('scheduler_') == 0, ses(cx, OFFERED) == 0)), ('all-reported-and-paused', AND(NOT(ses(cx, UNREPORTED)), NOT(ses(cx, PENDING)))), ('pauses', ses(cx, WAITS) - ses(cx, WAITS, 0, cx.old) >= ses(cx, REPORTS) - ses(cx, REPORTS, 0, cx.old)),
                ('edge-values-once', AND(d('clock_edge') == 1, d('changed') == 1)), ('values-at-every-stop', d('breakpoint') == ses(cx, REPORTS) - ses(cx, REPORTS, 0, cx.old))]

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        m = cx.ex.tu.enumty['hgdb::MonitorRequest::MonitorType']
        d = lambda t: ses(cx, MONITORED, m[t]) - ses(cx, MONITORED, m[t], cx.old)
        n = ses(cx, REPORTS) - ses(cx, REPORTS, 0, cx.old)
        return ready(cx) + [('idle', AND(ses(cx, STARTED), NOT(ses(cx, UNREPORTED)), NOT(ses(cx, PENDING)))), ('pauses', ses(cx, WAITS) - ses(cx, WAITS, 0, cx.old) >= n), ('values', AND(d('breakpoint') == n, d('clock_edge') == 0, d('changed') == 0, n >= 0))]

    def _hits(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        b, k = ses(cx, BATCH), L.var('i', ('int', 32, False))
        r = L.var('result', ('vec', ('ptr', ('rec', B))))
        return [('turn', AND(k >= 0, k <= cx.len(b)))] + hits_in(cx, r, b, k)

    loops = [Loop(_inv), Loop(_hits), Loop(lambda L: [])]


DATA = 2
CONTRACTS = [GetSignal(), ShouldTrigger(), SetExprValues(), EvalOne(), EvalRange(), EvalAll(), Eval()]
SPECS = [Flag(name=R + '::is_vcs'), Flag(name=R + '::is_xcelium'), DefaultRtl(), RtlValue(), SimTime(), ExprSetValue(), ExprEval(), ExprCorrect(), SchedBreakpointOnly(), VarChanged(), GetFullName(), EvalAllCall(), NextBps(), Report(), Wait(), MonitorValues(), Start(), Log(name=G + '::log_info'), Log(name=G + '::log_error')]
OPAQUE = ('hgdb::perf::PerfCount',)      # time measurement
HOOKS = {}
