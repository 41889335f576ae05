"""src/debug.cc: what is shown to the clients is what the simulator has"""
import z3
from hvc.contract import Contract, Assumed, Pure, Havoc, NoEffect, Loop, Cx
from hvc.sym import Val, Iter, PtrTo, PyObj, Temp, Local, Unsupported, HeapObj, HeapField
from .common import *
from .debug import G, B, S, N, NM, R, MON, X, DB, OPT, part, spaces, live, ok_spaces, OPAQUE, Log, DefaultRtl, signal, same, cache_ok, only
from .session import ns_ids, Made

SRC = 'src/debug.cc'
MODE = 'int'
SRV = 'hgdb::DebugServer'
U64 = ('int', 64, False)
U32 = ('int', 32, False)
DV = G + '::DelayedVariable'
TEXTS, NTEXTS = 'ghost:texts', 'ghost:ntexts'       # what was sent to all clients, in order


def text(cx, i, st=None):
    return SEL(cx.ex.heap(st or cx.st, TEXTS, ('str',)), i)


def ntexts(cx, st=None):
    return SEL(cx.ex.heap(st or cx.st, NTEXTS, U64), 0)


def shown(cx, v, hx, w):
    """the text of a value (report_bv)"""
    ex = cx.ex
    return z3.If(cx.has(v), ex.uf('shown-value', z3.IntSort(), z3.BoolSort(), z3.IntSort(), ex.Str)(cx.val(v), hx, z3.If(hx, w, z3.IntVal(0))), ex.lit('ERROR'))


class ValueText(Assumed):
    """proved in report_bv"""
    name = 'hgdb::value_to_str'

    def post(self, cx):
        return [('text', cx.ret.t == shown(cx, cx.arg(0), cx.arg(1), cx.arg(2)))]


def puref(cx, f, *args):
    """the answer of a function of the symbol table or the simulator that does not change during a report"""
    sorts = [a.sort() for a in args]
    return lambda ret: cx.ex.uf('pure:' + f, *(sorts + [ret]))(*args)


def handle(cx, rtl, name):
    return puref(cx, R + '::get_handle', rtl, name)(z3.IntSort())


class RtlName(Contract):
    """a constant, an absolute name or a name of the instance stays; any other is a name below the instance"""
    name = 'hgdb::get_rtl_name'

    def pre(self, cx):
        return [('client', live(cx, cx.arg(3)))]

    @staticmethod
    def of(cx, v, is_rtl, inst, rtl):
        ex = cx.ex
        ab = puref(cx, R + '::is_absolute_path', rtl, v)(z3.BoolSort())
        ins = puref(cx, 'hgdb::in_instance', v, cx.val(inst))(z3.BoolSort())
        return z3.If(OR(NOT(is_rtl), NOT(cx.has(inst)), ab, ins), v, ex.concat([cx.val(inst), ex.lit('.'), v]))

    def post(self, cx):
        a = [cx.arg(i, cx.old) for i in range(4)]
        return [('name', cx.ret.t == self.of(cx, *a))]


class ShowVar(Contract):
    """the text of a constant, or the current (or delayed) value of the signal with that name"""
    name = G + '::get_value_str'

    def pre(self, cx):
        return ok_spaces(cx) + [('namespace', AND(cx.arg(0) >= 0, cx.arg(0) < cx.len(spaces(cx))))]

    def of(self, cx, ns, name, is_rtl, delay, st):
        ex = cx.ex
        rtl = cx.fld(cx.el(spaces(cx, st), ns), N, 'rtl', st)
        h = handle(cx, rtl, name)
        hx = cx.my('use_hex_str_', st)
        wo = puref(cx, R + '::get_signal_width', rtl, h)(ex.sort(('opt', U32)))
        w = z3.If(cx.has(wo), cx.val(wo), z3.IntVal(0))
        d = cx.my('delayed_variables_', st)
        k = d.sort().constructor(0).domain(0).domain().constructor(0)(h, cx.val(delay))
        late = z3.If(cx.has(d, k), shown(cx, part(ex, cx.val(d, k), DV, 'value'), hx, w), ex.lit('ERROR'))
        return z3.If(is_rtl, z3.If(cx.has(delay), late, shown(cx, signal(cx, h), hx, w)), name)

    def post(self, cx):
        return [('value', cx.ret.t == self.of(cx, *[cx.arg(i, cx.old) for i in range(4)], cx.old))]


class RtlValue(Assumed):
    """the simulator's value of a signal does not change during one report"""
    name = R + '::get_value'

    def post(self, cx):
        if cx.arg(0).sort() == cx.ex.Str:
            return [('current', same(cx, cx.ret.t, signal(cx, handle(cx, cx.thisref, cx.arg(0)))))]
        return [('current', same(cx, cx.ret.t, signal(cx, cx.arg(0))))]


POLLED = 'ghost:polled'       # how often a monitor was asked for its values
WATCHED = ('vec', ('tup', U64, OPT))


def polled(cx, m, st=None):
    return SEL(cx.ex.heap(st or cx.st, POLLED, U64), m)


def due(cx, m, t, st):
    """what the monitor reports for this event when it is asked next (M01)"""
    return cx.ex.uf('due', z3.IntSort(), z3.IntSort(), z3.IntSort(), cx.ex.sort(WATCHED))(m, t, polled(cx, m, st))


def well(cx, v):
    return cx.len(v) >= 0


class Watched(Assumed):
    """proved in monitor"""
    name = MON + '::get_watched_values'

    def modifies(self, cx):
        return [('heap', POLLED, U64)]

    def post(self, cx):
        x, m = I('x'), cx.thisref
        return [('due', cx.ret.t == due(cx, m, cx.arg(0), cx.old)), ('asked', fa([x], polled(cx, x) == polled(cx, x, cx.old) + z3.If(x == m, z3.IntVal(1), z3.IntVal(0)), polled(cx, x)))]


class NoWatches(Assumed):
    """without watches there is nothing to report"""
    name = MON + '::empty'

    def post(self, cx):
        t = I('t')
        return [('', IMP(cx.ret.t, fa([t], cx.len(due(cx, cx.thisref, t, cx.st)) == 0, due(cx, cx.thisref, t, cx.st))))]


class Broadcast(Assumed):
    """one message to everybody"""
    name = SRV + '::send/1'

    def modifies(self, cx):
        return [('heap', TEXTS, ('str',)), ('heap', NTEXTS, U64)]

    def post(self, cx):
        i, n = I('i'), ntexts(cx, cx.old)
        return [('one-more', ntexts(cx) == n + 1), ('this', text(cx, n) == cx.arg(0)), ('before', fa([i], IMP(i != n, text(cx, i) == text(cx, i, cx.old)), text(cx, i)))]


class MadeWith(Made):
    """the response object holds what it was made from (proved in proto)"""

    def __init__(self, cls, fs):
        Assumed.__init__(self, name='hgdb::%s::%s' % (cls, cls), cls='hgdb::' + cls, fs=fs)

    def apply(self, ex, st, this, args, n):
        out = Made.apply(self, ex, st, this, args, n)
        cx = Cx(ex, st, st, out[0][1], args)
        for own, f, ty in ex.fields(self.cls):
            if ty[0] in ('vec', 'map', 'set', 'opt') and f not in self.fs:
                HeapField(out[0][1].ref, own, f, ty).set(ex, st, ex.emptyval(ty))
        for i, f in enumerate(self.fs):
            if i < len(args):
                HeapField(out[0][1].ref, self.cls, f, ex.fieldty(self.cls, f)).set(ex, st, cx.arg(i))
        return out


def mtext(cx, i, ns, v):
    return cx.ex.uf('monitor-text', z3.IntSort(), z3.IntSort(), cx.ex.Str, cx.ex.Str)(i, ns, v)


class MonitorText(Assumed):
    """proved in proto"""
    name = 'hgdb::MonitorResponse::str'

    def post(self, cx):
        c = 'hgdb::MonitorResponse'
        return [('', cx.ret.t == mtext(cx, *[cx.fld(cx.thisref, c, f) for f in ('track_id_', 'namespace_id_', 'value_')]))]


class SendAll(Contract):
    name = G + '::send_message/1'
    nparams = 1

    def pre(self, cx):
        return [('server', live(cx, cx.my('server_')))]

    def modifies(self, cx):
        return [('heap', TEXTS, ('str',)), ('heap', NTEXTS, U64)]

    def post(self, cx):
        return Broadcast.post(self, cx)


def own_monitors(cx, v):
    i, j = I('i'), I('j')
    at = lambda i: AND(i >= 0, i < cx.len(v))
    m = lambda i: cx.fld(cx.el(v, i), N, 'monitor')
    return [('own-monitors', fa([i, j], IMP(AND(at(i), at(j), i != j), m(i) != m(j)), (cx.el(v, i), cx.el(v, j))))]


def responses(cx, c):
    """response objects are made here"""
    return [('heap', own + '.' + f, t) for own, f, t in cx.ex.fields(c)]


class MonitorValues(Contract):
    """every value that is due in any namespace is sent to everybody, once, in order, as its current text; every monitor is asked once"""
    name = G + '::send_monitor_values'
    notes = ('the number of values reported so far (ghost function) is defined by its recursion',)

    def before(self, cx, i):
        """how many values the first i namespaces report"""
        return cx.ex.uf('values-before', z3.IntSort(), z3.IntSort())(i)

    def m(self, cx, i, st=None):
        return cx.fld(cx.el(spaces(cx, cx.old), i), N, 'monitor', cx.old)

    def d(self, cx, i):
        return due(cx, self.m(cx, i), cx.arg(0, cx.old), cx.old)

    def pre(self, cx):
        v, i = spaces(cx), I('i')
        return ok_spaces(cx) + ns_ids(cx, v) + own_monitors(cx, v) + [('server', live(cx, cx.my('server_'))), ('count', AND(ntexts(cx) >= 0, self.before(cx, z3.IntVal(0)) == 0)),
                ('values', fa([i], IMP(AND(i >= 0, i < cx.len(v)), cx.len(self.d(cx, i)) >= 0), self.d(cx, i))),
                ('definition', fa([i], IMP(AND(i >= 0, i < cx.len(v)), self.before(cx, i + 1) == self.before(cx, i) + cx.len(self.d(cx, i))), self.before(cx, i), cx.el(v, i)))]

    def modifies(self, cx):
        return [('heap', TEXTS, ('str',)), ('heap', NTEXTS, U64), ('heap', POLLED, U64), ('alloc',)] + responses(cx, 'hgdb::MonitorResponse')

    def told(self, cx, i, j):
        e = cx.el(self.d(cx, i), j)
        return text(cx, ntexts(cx, cx.old) + self.before(cx, i) + j) == mtext(cx, cx.ex.acc(e, 0), i, shown(cx, cx.ex.acc(e, 1), cx.my('use_hex_str_', cx.old), z3.IntVal(0)))

    def upto(self, cx, n):
        i, j, x = I('i'), I('j'), I('x')
        v = spaces(cx, cx.old)
        return [('all-values', fa([i, j], IMP(AND(i >= 0, i < n, j >= 0, j < cx.len(self.d(cx, i))), self.told(cx, i, j)), cx.el(self.d(cx, i), j))),
                ('each-place', fa([i], IMP(AND(i >= 0, i < n), AND(self.before(cx, i) >= 0, self.before(cx, i) + cx.len(self.d(cx, i)) <= self.before(cx, n))), self.before(cx, i), cx.el(v, i))),
                ('earlier-messages', fa([x], IMP(x < ntexts(cx, cx.old), text(cx, x) == text(cx, x, cx.old)), text(cx, x)))]

    def post(self, cx):
        n = cx.len(spaces(cx, cx.old))
        return [('nothing-else', ntexts(cx) == ntexts(cx, cx.old) + self.before(cx, n))] + self.upto(cx, n)

    def _outer(L):
        self = MonitorValues()
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        x = I('x')
        v = spaces(cx, L.old)
        return [('sent', AND(ntexts(cx) == ntexts(cx, L.old) + self.before(cx, L.idx), self.before(cx, L.idx) >= 0)),
                ('later-unasked', fa([x], IMP(AND(x >= L.idx, x < cx.len(v)), polled(cx, self.m(cx, x)) == polled(cx, self.m(cx, x), L.old)), cx.el(v, x)))] + self.upto(cx, L.idx)

    loops = [Loop(_outer), Loop(lambda L: MonitorValues._inner(L))]

    @staticmethod
    def _inner(L):
        self = MonitorValues()
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        j, k, x = I('j'), z3.IntVal(0), I('x')
        v = spaces(cx, L.old)
        i = L.outer.idx
        return [('sent', AND(ntexts(cx) == ntexts(cx, L.old) + self.before(cx, i) + L.idx, self.before(cx, i) >= 0)),
                ('these', fa([j], IMP(AND(j >= 0, j < L.idx), self.told(cx, i, j)), cx.el(self.d(cx, i), j)))] + self.upto(cx, i)


class Delayed(Contract):
    """every delayed variable gets the value its own watch in its own namespace reports now, if it reports one; each monitor is asked once"""
    name = G + '::update_delayed_values'

    def pre(self, cx):
        v, i, j, k = spaces(cx), I('i'), I('j'), I('k')
        d = lambda i: due(cx, cx.fld(cx.el(v, i), N, 'monitor'), self.kind(cx), cx.st)
        first = lambda i, j: cx.ex.acc(cx.el(d(i), j), 0)
        at = lambda i, j: AND(j >= 0, j < cx.len(d(i)))
        return ok_spaces(cx) + ns_ids(cx, v) + own_monitors(cx, v) + cache_ok(cx) + [('values', fa([i], IMP(AND(i >= 0, i < cx.len(v)), cx.len(d(i)) >= 0), d(i))),
            ('each-watch-once', fa([i, j, k], IMP(AND(i >= 0, i < cx.len(v), at(i, j), at(i, k), j != k), first(i, j) != first(i, k)), (cx.el(d(i), j), cx.el(d(i), k))))]

    def kind(self, cx):
        return z3.IntVal(cx.ex.tu.enumty['hgdb::MonitorRequest::MonitorType']['delay_clock_edge'])

    def modifies(self, cx):
        return [('heap', G + '.delayed_variables_', cx.ex.fieldty(G, 'delayed_variables_')), ('heap', POLLED, U64)]

    def key(self, cx):
        m = cx.my('delayed_variables_', cx.old)
        return z3.Const('k', m.sort().constructor(0).domain(0).domain())

    def updated(self, cx, k, n, done=None):
        """the delayed variable k after the first n namespaces"""
        ex = cx.ex
        m0, m1 = cx.my('delayed_variables_', cx.old), cx.my('delayed_variables_')
        a, b = cx.val(m0, k), cx.val(m1, k)
        ns, w = part(ex, a, DV, 'ns_id'), part(ex, a, DV, 'watch_id')
        v = spaces(cx, cx.old)
        d = due(cx, cx.fld(cx.el(v, ns), N, 'monitor', cx.old), self.kind(cx), cx.old)
        j = I('j')
        turn = AND(ns >= 0, ns < n)
        same_but = AND(*[part(ex, b, DV, f) == part(ex, a, DV, f) for f in ('rtl_name', 'watch_id', 'ns_id')])
        val = lambda x: part(ex, x, DV, 'value')
        hit = lambda j: AND(j >= 0, j < cx.len(d), ex.acc(cx.el(d, j), 0) == w)
        return AND(same_but, fa([j], IMP(AND(turn, hit(j)), val(b) == ex.acc(cx.el(d, j), 1)), cx.el(d, j)), IMP(NOT(AND(turn, z3.Exists([j], hit(j)))), val(b) == val(a)))

    def post(self, cx):
        k = self.key(cx)
        m0, m1 = cx.my('delayed_variables_', cx.old), cx.my('delayed_variables_')
        return [('same-variables', fa([k], cx.has(m1, k) == cx.has(m0, k), cx.has(m1, k))),
                ('values', fa([k], IMP(cx.has(m0, k), self.updated(cx, k, cx.len(spaces(cx, cx.old)))), cx.val(m1, k)))]

    @staticmethod
    def _outer(L):
        self = Delayed()
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        x, k = I('x'), self.key(cx)
        v = spaces(cx, L.old)
        m0, m1 = cx.my('delayed_variables_', cx.old), cx.my('delayed_variables_')
        mon = lambda x: cx.fld(cx.el(v, x), N, 'monitor', L.old)
        return [('same-variables', fa([k], cx.has(m1, k) == cx.has(m0, k), cx.has(m1, k))),
                ('so-far', fa([k], IMP(cx.has(m0, k), self.updated(cx, k, L.idx)), cx.val(m1, k))),
                ('later-unasked', fa([x], IMP(AND(x >= L.idx, x < cx.len(v)), polled(cx, mon(x)) == polled(cx, mon(x), L.old)), cx.el(v, x)))]

    @staticmethod
    def _inner(L):
        self = Delayed()
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        k = self.key(cx)
        m0, m1 = cx.my('delayed_variables_', cx.old), cx.my('delayed_variables_')
        i = L.outer.idx
        return [('same-variables', fa([k], cx.has(m1, k) == cx.has(m0, k), cx.has(m1, k))),
                ('done', fa([k], IMP(AND(cx.has(m0, k), SEL(L.visited, k)), self.updated(cx, k, i + 1)), cx.val(m1, k))),
                ('not-yet', fa([k], IMP(AND(cx.has(m0, k), NOT(SEL(L.visited, k))), self.updated(cx, k, i)), cx.val(m1, k)))]
    loops = [Loop(_outer), Loop(_inner)]


class SchedStart(Assumed):
    """proved in scheduler"""
    name = S + '::start_breakpoint_evaluation'

    def modifies(self, cx):
        return [('heap', STARTS, U64)]

    def post(self, cx):
        return [('', starts(cx) == starts(cx, cx.old) + 1)]


STARTS = 'ghost:starts'


def starts(cx, st=None):
    return SEL(cx.ex.heap(st or cx.st, STARTS, U64), 0)


class Start(Contract):
    """a clock edge begins: the scheduler starts over, nothing cached survives, and delayed variables move on by one edge"""
    name = G + '::start_breakpoint_evaluation'

    def pre(self, cx):
        return [p for p in Delayed().pre(cx) if p[0] != 'cache-is-current'] + [('scheduler', OR(cx.my('scheduler_') == 0, live(cx, cx.my('scheduler_'))))]

    def modifies(self, cx):
        return Delayed().modifies(cx) + [('field', cx.thisref, G, 'cached_signal_values_'), ('heap', STARTS, U64)]

    def post(self, cx):
        h = I('h')
        m = cx.my('cached_signal_values_')
        return [('starts-over', starts(cx) == starts(cx, cx.old) + z3.If(cx.my('scheduler_', cx.old) != 0, z3.IntVal(1), z3.IntVal(0))), ('nothing-cached', fa([h], NOT(cx.has(m, h)), cx.has(m, h)))] + Delayed().post(cx)


BR = 'hgdb::BreakPointResponse'
SC = BR + '::Scope'
SCOPES = 'ghost:scopes'        # the scopes of the report
SCTY = ('vec', ('rec', SC))


def scopes(cx, st=None):
    return SEL(cx.ex.heap(st or cx.st, SCOPES, SCTY), 0)


def stop_text(cx, t, f, l, c, s):
    return cx.ex.uf('stop-text', z3.IntSort(), cx.ex.Str, z3.IntSort(), z3.IntSort(), s.sort(), cx.ex.Str)(t, f, l, c, s)


class StopText(Assumed):
    """proved in proto"""
    name = BR + '::str'

    def modifies(self, cx):
        return [('heap', SCOPES, SCTY)]

    def post(self, cx):
        return [('', AND(scopes(cx) == cx.my('scopes_'), cx.ret.t == stop_text(cx, cx.my('time_'), cx.my('filename_'), cx.my('line_num_'), cx.my('column_num_'), cx.my('scopes_'))))]


class MadeScope(Assumed):
    """proved in proto: what it was made from, and no variables"""
    name = SC + '::Scope'

    def apply(self, ex, st, this, args, n):
        from hvc import types as T
        pl = HeapObj(ex.alloc(st, T.key(('rec', SC))), SC)
        pl.fresh = True
        cx = Cx(ex, st, st, pl, args)
        given = dict(zip(('instance_id', 'instance_name', 'breakpoint_id', 'namespace_id'), range(4)))
        for own, f, ty in ex.fields(SC):
            HeapField(pl.ref, own, f, ty).set(ex, st, (cx.arg(given[f]) if given[f] < len(args) else z3.IntVal(0)) if f in given else ex.emptyval(ty))
        return [(st, pl)]


class AddVar(Assumed):
    """proved in proto: that variable has that value from now on"""

    def __init__(self, what):
        Assumed.__init__(self, name=SC + '::add_%s_value' % what, f=what + '_values')

    def modifies(self, cx):
        return [('field', cx.thisref, SC, self.f)]

    def post(self, cx):
        s = z3.Const('s', cx.ex.Str)
        m0, m1, k = cx.my(self.f, cx.old), cx.my(self.f), cx.arg(0)
        return [('', fa([s], AND(cx.has(m1, s) == OR(s == k, cx.has(m0, s)), cx.val(m1, s) == z3.If(s == k, cx.arg(1), cx.val(m0, s))), cx.has(m1, s), cx.val(m1, s)))]


def local_obj(L, rec):
    """the local object of that class"""
    c = [p for p in L.st.env.values() if isinstance(p, HeapObj) and p.rec == rec]
    if len(c) != 1:
        raise Unsupported('loop invariant: no local %s' % rec)
    return c[0]


class Vars:
    """the variables of one kind at a breakpoint: their names, signals and values, from the symbol table"""

    def __init__(self, cx, kind):
        self.cx, self.kind, self.ex, self.st0 = cx, kind, cx.ex, cx.old
        self.rec = {'gen': 'hgdb::GeneratorVariable', 'ctx': 'hgdb::ContextVariable'}[kind]
        self.ty = ('vec', ('tup', ('rec', self.rec), ('rec', 'hgdb::Variable')))

    def bf(self, b, f):
        return self.cx.fld(b, B, f, self.st0)

    def all(self, b):
        f, a = {'gen': ('get_generator_variable', 'instance_id'), 'ctx': ('get_context_variables', 'id')}[self.kind]
        return puref(self.cx, DB + '::' + f, self.cx.my('db_', self.st0), self.bf(b, a))(self.ex.sort(self.ty))

    def rtl(self, b):
        return self.cx.fld(self.cx.el(spaces(self.cx, self.st0), self.bf(b, 'ns_id')), N, 'rtl', self.st0)

    def inst(self, b):
        f, a = {'gen': ('get_instance_name', 'instance_id'), 'ctx': ('get_instance_name_from_bp', 'id')}[self.kind]
        return puref(self.cx, DB + '::' + f, self.cx.my('db_', self.st0), self.bf(b, a))(self.ex.sort(('opt', ('str',))))

    def one(self, b, i, k, f):
        t = self.ex.acc(self.cx.el(self.all(b), i), k)
        return part(self.ex, t, self.rec if k == 0 else 'hgdb::Variable', f)

    def names(self, b, i):
        """what the variable is shown as: name and RTL name of each of its parts"""
        n = RtlName.of(self.cx, self.one(b, i, 1, 'value'), self.one(b, i, 1, 'is_rtl'), self.inst(b), self.rtl(b))
        return puref(self.cx, R + '::resolve_rtl_variable', self.rtl(b), self.one(b, i, 0, 'name'), n)(self.ex.sort(('vec', ('tup', ('str',), ('str',)))))

    def front(self, b, i, j):
        return self.ex.acc(self.cx.el(self.names(b, i), j), 0)

    def value(self, b, i, j):
        ex, o = self.ex, ('opt', U32)
        late = z3.BoolVal(False)
        d = ex.none(o)
        if self.kind == 'ctx':
            late = self.one(b, i, 0, 'type') == ex.tu.enumty[DB + '::VariableType']['delay']
            d = z3.If(late, ex.some(o, self.one(b, i, 0, 'depth')), d)
        return ShowVar.of(ShowVar(), self.cx, self.bf(b, 'ns_id'), ex.acc(self.cx.el(self.names(b, i), j), 1), self.one(b, i, 1, 'is_rtl'), d, self.st0)

    def has(self, b, i, j, s):
        return self.ex.uf('listed-' + self.kind, z3.IntSort(), z3.IntSort(), z3.IntSort(), self.ex.Str, z3.BoolSort())(b, i, j, s)

    def val(self, b, i, j, s):
        return self.ex.uf('shown-' + self.kind, z3.IntSort(), z3.IntSort(), z3.IntSort(), self.ex.Str, self.ex.Str)(b, i, j, s)

    def definition(self):
        """what is listed after the first j names of the i-th variable (a later one of the same name replaces an earlier one)"""
        b, i, j, s = I('b'), I('i'), I('j'), z3.Const('s', self.ex.Str)
        n = lambda b, i: self.cx.len(self.names(b, i))
        H, V, O = self.has, self.val, z3.IntVal(0)
        new = s == self.front(b, i, j)
        return [('definition-%s-none' % self.kind, fa([b, s], NOT(H(b, O, O, s)), H(b, O, O, s))),
                ('definition-%s-name' % self.kind, fa([b, i, j, s], IMP(AND(i >= 0, j >= 0, j < n(b, i)), AND(H(b, i, j + 1, s) == OR(new, H(b, i, j, s)), V(b, i, j + 1, s) == z3.If(new, self.value(b, i, j), V(b, i, j, s)))),
                                                       H(b, i, j, s), V(b, i, j, s))),
                ('definition-%s-next' % self.kind, fa([b, i, s], AND(H(b, i + 1, O, s) == H(b, i, n(b, i), s), V(b, i + 1, O, s) == V(b, i, n(b, i), s)), H(b, i, n(b, i), s), V(b, i, n(b, i), s)))]

    def same(self, m, b, i, j):
        """a map holds exactly these"""
        cx, s = self.cx, z3.Const('s', self.ex.Str)
        return fa([s], AND(cx.has(m, s) == self.has(b, i, j, s), IMP(cx.has(m, s), cx.val(m, s) == self.val(b, i, j, s))), cx.has(m, s), cx.val(m, s))


class SimTime(Assumed):
    name = R + '::get_simulation_time'

    def post(self, cx):
        return [('now', cx.ret.t == cx.ex.uf('simulator-time', z3.IntSort(), z3.IntSort())(cx.thisref))]


class Stop(Contract):
    """the report of a stop goes to everybody, once: time and place, and a scope for every breakpoint that hit, in order, with exactly the
    variables the symbol table lists, each with the value of its own signal"""
    name = G + '::send_breakpoint_hit'
    notes = ('the variables of a scope (ghost functions) are defined by recursion over the list of the symbol table',)

    def pre(self, cx):
        v, i = cx.arg(0), I('i')
        sp = spaces(cx)
        defs = Vars(cx, 'gen').definition() + Vars(cx, 'ctx').definition()
        ns = lambda b: cx.fld(b, B, 'ns_id')
        return ok_spaces(cx) + ns_ids(cx, sp) + [('server', live(cx, cx.my('server_'))), ('table', live(cx, cx.my('db_'))), ('something', cx.len(v) > 0), ('a-namespace', cx.len(sp) > 0),
                ('breakpoints', fa([i], IMP(AND(i >= 0, i < cx.len(v)), AND(live(cx, cx.el(v, i)), ns(cx.el(v, i)) >= 0, ns(cx.el(v, i)) < cx.len(sp))), cx.el(v, i)))] + defs

    def modifies(self, cx):
        return [('heap', TEXTS, ('str',)), ('heap', NTEXTS, U64), ('heap', SCOPES, SCTY), ('alloc',)] + responses(cx, BR) + responses(cx, SC)

    def scope(self, cx, sc, b):
        st0 = cx.old
        bf = lambda f: cx.fld(b, B, f, st0)
        return AND(part(cx.ex, sc, SC, 'instance_id') == bf('instance_id'), part(cx.ex, sc, SC, 'breakpoint_id') == bf('id'), part(cx.ex, sc, SC, 'namespace_id') == bf('ns_id'),
                   part(cx.ex, sc, SC, 'bp_type') == z3.If(bf('type') == 2, cx.ex.lit('data'), cx.ex.lit('normal')),
                   part(cx.ex, sc, SC, 'instance_name') == self.name_(cx, b), *self.maps(cx, lambda f: part(cx.ex, sc, SC, f), b))

    def post(self, cx):
        v, i, b0 = cx.arg(0, cx.old), I('i'), cx.el(cx.arg(0, cx.old), z3.IntVal(0))
        rtl = cx.fld(cx.el(spaces(cx, cx.old), z3.IntVal(0)), N, 'rtl', cx.old)
        now = cx.ex.uf('simulator-time', z3.IntSort(), z3.IntSort())(rtl)
        bf = lambda f: cx.fld(b0, B, f, cx.old)
        n, x = ntexts(cx, cx.old), I('x')
        return [('once', ntexts(cx) == n + 1), ('text', text(cx, n) == stop_text(cx, now, bf('filename'), bf('line_num'), bf('column_num'), scopes(cx))),
                ('earlier-messages', fa([x], IMP(x != n, text(cx, x) == text(cx, x, cx.old)), text(cx, x))),
                ('all-scopes', cx.len(scopes(cx)) == cx.len(v)), ('scopes', fa([i], IMP(AND(i >= 0, i < cx.len(v)), self.scope(cx, cx.el(scopes(cx), i), cx.el(v, i))), cx.el(scopes(cx), i)))]

    def name_(self, cx, b):
        n = Vars(cx, 'ctx').inst(b)
        return puref(cx, R + '::get_full_name', Vars(cx, 'ctx').rtl(b), z3.If(cx.has(n), cx.val(n), cx.ex.lit('')))(cx.ex.Str)

    def maps(self, cx, get, b):
        out = []
        for k, f in (('gen', 'generator_values'), ('ctx', 'local_values')):
            v = Vars(cx, k)
            out.append(v.same(get(f), b, cx.len(v.all(b)), z3.IntVal(0)))
        return out

    @staticmethod
    def _bps(L):
        self = Stop()
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        i, v = I('i'), cx.arg(0, L.old)
        sc = cx.fld(local_obj(L, BR).ref, BR, 'scopes_')
        return [('count', cx.len(sc) == L.idx), ('scopes', fa([i], IMP(AND(i >= 0, i < L.idx), self.scope(cx, cx.el(sc, i), cx.el(v, i))), cx.el(sc, i)))]

    @staticmethod
    def _vars(kind, f, names):
        def inv(L):
            cx = Cx(L.ex, L.st, L.old, L.this, L.args)
            b = cx.el(cx.arg(0, L.old), (L.outer.outer if names else L.outer).idx)
            m = cx.fld(local_obj(L, SC).ref, SC, f)
            return [('so-far', Vars(cx, kind).same(m, b, *((L.outer.idx, L.idx) if names else (L.idx, z3.IntVal(0)))))]
        return Loop(inv)

    @property
    def loops(self):
        return [Loop(self._bps), self._vars('gen', 'generator_values', False), self._vars('gen', 'generator_values', True), self._vars('ctx', 'local_values', False), self._vars('ctx', 'local_values', True)]


CONTRACTS = [RtlName(), ShowVar(), SendAll(), MonitorValues(), Delayed(), Start(), Stop()]
SPECS = [MadeScope(), AddVar('local'), AddVar('generator'), SchedStart(), StopText(), SimTime(), MadeWith('BreakPointResponse', ['time_', 'filename_', 'line_num_', 'column_num_']), Pure(name=R + '::get_full_name'), Pure(name=R + '::resolve_rtl_variable')] + [Pure(name=DB + '::' + f) for f in ('get_generator_variable', 'get_context_variables', 'get_breakpoint', 'get_instance_name_from_bp', 'get_instance_name')] + [Watched(), NoWatches(), Broadcast(), MadeWith('MonitorResponse', ['track_id_', 'namespace_id_', 'value_']), MonitorText(), NoEffect(name=G + '::get_monitor_topic'), DefaultRtl(), RtlValue(), ValueText(), Pure(name=R + '::get_handle'), Pure(name=R + '::get_signal_width'), Pure(name=R + '::is_absolute_path'), Pure(name='hgdb::in_instance'),
         Log(name=G + '::log_info'), Log(name=G + '::log_error')]
HOOKS = {}
