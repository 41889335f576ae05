"""src/monitor.cc: which watches are reported, with which value, and how their ids behave."""
import z3
from hvc.contract import Contract, Assumed, Pure, Havoc, Loop, Cx
from hvc.sym import Val
from .common import *

SRC = 'src/monitor.cc'
MODE = 'int'
M = 'hgdb::Monitor'
W = M + '::WatchVariable'
WB = M + '::WatchVariableBuffer'
OPT = ('opt', ('int', 64, True))
CELL = 'cell:opt_i64'
MT = 'hgdb::MonitorRequest::MonitorType'
VPI = ('ptr', ('int', 32, False))


def kinds(cx):
    return cx.ex.tu.enumty[MT]


def watches(cx, st=None):
    return cx.my('watched_variables_', st)


def f(cx, r, name, st=None):
    return cx.fld(r, WB if name in ('depth_', 'values_') else W, name, st)


def cell(cx, r, st=None):
    """what a plain watch remembers"""
    st = st or cx.st
    return SEL(cx.ex.heap(st, CELL, OPT), f(cx, r, 'value_', st))


def delayed(cx, r, st=None):
    return f(cx, r, 'type', st) == kinds(cx)['delay_clock_edge']


def recall(cx, r, st=None):
    """the value a watch remembers: of a delayed watch the one from depth cycles ago"""
    q = f(cx, r, 'values_', st)
    return z3.If(delayed(cx, r, st), z3.If(cx.len(q) == f(cx, r, 'depth_', st), cx.el(q, 0), cx.ex.none(OPT)), cell(cx, r, st))


def okwatch(cx, r, st=None):
    st = st or cx.st
    al = cx.ex.allocd(st)
    q = f(cx, r, 'values_', st)
    return AND(r > 0, SEL(al, r), z3.If(delayed(cx, r, st),
                                       AND(f(cx, r, 'depth_', st) >= 1, cx.len(q) >= 0, cx.len(q) <= f(cx, r, 'depth_', st)),
                                       AND(f(cx, r, 'value_', st) > 0, SEL(al, f(cx, r, 'value_', st)))),
               OR(*[f(cx, r, 'type', st) == v for v in kinds(cx).values()]))


def inv(cx, st=None):
    m = watches(cx, st)
    k, l = I('k'), I('l')
    return [('watches', fa([k], IMP(cx.has(m, k), okwatch(cx, cx.val(m, k), st)), cx.has(m, k))),
            ('ids-below-the-counter', fa([k], IMP(cx.has(m, k), AND(k >= 0, k < cx.my('watch_id_count_', st))), cx.has(m, k))),
            ('own-watch', fa([k, l], IMP(AND(cx.has(m, k), cx.has(m, l), k != l), cx.val(m, k) != cx.val(m, l)), (cx.has(m, k), cx.has(m, l)))),
            ('counter', AND(cx.my('watch_id_count_', st) >= 0, cx.my('watch_id_count_', st) < 2 ** 64 - 1)),
            ('simulator', IMP(cx.my('rtl_', st) != 0, SEL(cx.ex.allocd(st or cx.st), cx.my('rtl_', st))))]


def invs(cx):
    """the counter may reach its limit only after 2^64 watches"""
    return [('inv-' + a, b) for a, b in inv(cx) if a != 'counter']


def current(cx, r, st=None):
    """the value the simulator has for the watched signal"""
    ex = cx.ex
    return ex.uf('pure:hgdb::RTLSimulatorClient::get_value', z3.IntSort(), z3.IntSort(), z3.BoolSort(), ex.sort(OPT))(cx.my('rtl_', st), f(cx, r, 'handle', st), z3.BoolVal(True))


def differs(cx, now, before):
    return AND(cx.has(now), OR(NOT(cx.has(before)), cx.val(before) != cx.val(now)))


class RtlValue(Pure):
    """the simulator answers a handle with one value during one evaluation"""
    name = 'hgdb::RTLSimulatorClient::get_value'


class RtlHandle(Pure):
    name = 'hgdb::RTLSimulatorClient::get_handle'


class GetValue(Contract):
    """dynamic dispatch: a delayed watch is a buffer, any other is a plain one"""
    name = W + '::get_value'

    def pre(self, cx):
        r = cx.thisref
        out = [('watch', okwatch(cx, r))]
        if cx.ex.fn == self.name:
            out.append(('dynamic-type', NOT(delayed(cx, r)) if self.name.startswith(W + '::') else delayed(cx, r)))
        return out

    def post(self, cx):
        return [('value', same(cx, cx.ret.t, recall(cx, cx.thisref, cx.old)))]


def same(cx, a, b):
    return AND(cx.has(a) == cx.has(b), IMP(cx.has(a), cx.val(a) == cx.val(b)))


class GetValueBuffer(GetValue):
    name = WB + '::get_value'


class SetValue(Contract):
    name = W + '::set_value'
    pre = GetValue.pre

    def modifies(self, cx):
        if cx.ex.fn == W + '::set_value':
            return [('heap', CELL, OPT)]
        if cx.ex.fn == WB + '::set_value':
            return [('field', cx.thisref, WB, 'values_')]
        return [('heap', CELL, OPT), ('field', cx.thisref, WB, 'values_')]

    def post(self, cx):
        r = cx.thisref
        q0, q1 = f(cx, r, 'values_', cx.old), f(cx, r, 'values_')
        d = f(cx, r, 'depth_', cx.old)
        n0, n1 = cx.len(q0), cx.len(q1)
        x, i = I('x'), I('i')
        H0, H1 = cx.ex.heap(cx.old, CELL, OPT), cx.ex.heap(cx.st, CELL, OPT)
        v = cx.arg(0)
        return [('plain-remembers', IMP(NOT(delayed(cx, r, cx.old)), cell(cx, r) == v)),
                ('other-values-kept', fa([x], IMP(OR(delayed(cx, r, cx.old), x != f(cx, r, 'value_', cx.old)), SEL(H1, x) == SEL(H0, x)), SEL(H1, x))),
                ('plain-has-no-queue', IMP(NOT(delayed(cx, r, cx.old)), q1 == q0)),
                ('queue-length', IMP(delayed(cx, r, cx.old), n1 == z3.If(n0 < d, n0 + 1, d))),
                ('newest-last', IMP(delayed(cx, r, cx.old), cx.el(q1, n1 - 1) == v)),
                ('queue-grows', IMP(AND(delayed(cx, r, cx.old), n0 < d), fa([i], IMP(AND(i >= 0, i < n0), cx.el(q1, i) == cx.el(q0, i)), cx.el(q1, i)))),
                ('queue-shifts', IMP(AND(delayed(cx, r, cx.old), n0 == d), fa([i], IMP(AND(i >= 0, i + 1 < n0), cx.el(q1, i) == cx.el(q0, i + 1)), cx.el(q1, i))))]


class SetValueBuffer(SetValue):
    name = WB + '::set_value'


class IsMonitored(Contract):
    name = M + '::is_monitored'

    def pre(self, cx):
        return inv(cx)

    def post(self, cx):
        m = watches(cx)
        k = I('k')
        match = lambda k: AND(cx.has(m, k), f(cx, cx.val(m, k), 'handle') == cx.arg(0), f(cx, cx.val(m, k), 'type') == cx.arg(1))
        r = cx.ret.t
        return [('found-is-a-match', IMP(cx.has(r), match(cx.val(r)))),
                ('none-means-no-match', IMP(NOT(cx.has(r)), fa([k], NOT(match(k)), cx.has(m, k))))]

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        m = watches(cx, L.old)
        k = I('k')
        v = cx.val(m, k)
        return [('none-so-far', fa([k], IMP(SEL(L.visited, k), NOT(AND(f(cx, v, 'handle') == cx.arg(0, L.old), f(cx, v, 'type') == cx.arg(1, L.old)))), SEL(L.visited, k)))]
    loops = [Loop(_inv)]


class Remove(Contract):
    name = M + '::remove_monitor_variable'

    def pre(self, cx):
        return inv(cx)

    def modifies(self, cx):
        return [('field', cx.thisref, M, 'watched_variables_')]

    def post(self, cx):
        m0, m1 = watches(cx, cx.old), watches(cx)
        k = I('k')
        return [('only-that-watch-goes', fa([k], cx.has(m1, k) == AND(cx.has(m0, k), k != cx.arg(0)))),
                ('the-others-stay-the-same', fa([k], IMP(cx.has(m1, k), cx.val(m1, k) == cx.val(m0, k)))),
                ] + invs(cx)


ADDED = [('heap', W + '.type', ('enum', MT)), ('heap', W + '.full_name', ('str',)), ('heap', W + '.handle', VPI)]


def frame_add(cx):
    return [('field', cx.thisref, M, 'watched_variables_'), ('field', cx.thisref, M, 'watch_id_count_'), ('alloc',)]


def added(cx, guard=z3.BoolVal(True)):
    """a watch under the next id; every other watch untouched"""
    m0, m1 = watches(cx, cx.old), watches(cx)
    c0, c1 = cx.my('watch_id_count_', cx.old), cx.my('watch_id_count_')
    k = I('k')
    return [('next-id', IMP(guard, AND(cx.ret.t == c0, c1 == c0 + 1))),
            ('watched', IMP(guard, cx.has(m1, c0))),
            ('the-others-stay', IMP(guard, fa([k], IMP(k != c0, AND(cx.has(m1, k) == cx.has(m0, k), IMP(cx.has(m0, k), cx.val(m1, k) == cx.val(m0, k)))))))]


class AddWatch(Contract):
    name = M + '::add_watch_var'

    def pre(self, cx):
        m = watches(cx)
        k = I('k')
        return inv(cx) + [('watch', okwatch(cx, cx.arg(0))), ('not-watched-yet', fa([k], IMP(cx.has(m, k), cx.val(m, k) != cx.arg(0)), cx.has(m, k)))]

    def modifies(self, cx):
        return [('field', cx.thisref, M, 'watched_variables_'), ('field', cx.thisref, M, 'watch_id_count_')]

    def post(self, cx):
        m1 = watches(cx)
        # the argument is moved from: its entry value names the watch
        w = cx.arg(0) if cx.ex.fn != self.name else cx.old.vars['arg:w'] if 'arg:w' in cx.old.vars else cx.arg(0)
        return added(cx) + [('that-watch', cx.val(m1, cx.my('watch_id_count_', cx.old)) == w)] + invs(cx)

    def apply(self, ex, st, this, args, n):
        # a moved-from unique_ptr argument: pass its value
        return super().apply(ex, st, this, [Val(ex.term(st, a), ('ptr', ('rec', W))) for a in args], n)


def match(cx, m, k, handle, kind, st):
    return AND(cx.has(m, k), f(cx, cx.val(m, k), 'handle', st) == handle, f(cx, cx.val(m, k), 'type', st) == kind)


def handle_of(cx):
    ex = cx.ex
    return ex.uf('pure:hgdb::RTLSimulatorClient::get_handle', z3.IntSort(), ex.Str, z3.IntSort())(cx.my('rtl_', cx.old), cx.arg(0))


class Add(Contract):
    """plain watch: shares the id of the same signal and kind, otherwise a new id; nothing else changes"""
    name = M + '::add_monitor_variable/2'
    nparams = 2

    def pre(self, cx):
        return inv(cx) + [('plain', AND(cx.arg(1) != kinds(cx)['delay_clock_edge'], OR(*[cx.arg(1) == v for v in kinds(cx).values()])))]

    def modifies(self, cx):
        return frame_add(cx)

    def post(self, cx):
        st0 = cx.old
        m0, m1 = watches(cx, st0), watches(cx)
        k = I('k')
        on = cx.my('rtl_', st0) != 0
        h, kd = handle_of(cx), cx.arg(1)
        old = z3.Exists([k], match(cx, m0, k, h, kd, st0))
        c0 = cx.my('watch_id_count_', st0)
        w = cx.val(m1, c0)
        new = AND(on, NOT(old))
        return [('no-simulator', IMP(NOT(on), AND(cx.ret.t == 2 ** 64 - 1, m1 == m0, cx.my('watch_id_count_') == c0))),
                ('same-watch-same-id', IMP(AND(on, old), AND(match(cx, m0, cx.ret.t, h, kd, st0), m1 == m0, cx.my('watch_id_count_') == c0)))] + \
            added(cx, new) + \
            [('watches-that-signal', IMP(new, AND(f(cx, w, 'handle') == h, f(cx, w, 'type') == kd, f(cx, w, 'full_name') == cx.arg(0))))] + self.start(cx, new, w) + invs(cx)

    def start(self, cx, new, w):
        return [('nothing-reported-yet', IMP(new, NOT(cx.has(cell(cx, w)))))]


class AddShared(Add):
    """a watch that shares the remembered value of its caller"""
    name = M + '::add_monitor_variable/3@shared_ptr'
    nparams = 3
    sig = 'shared_ptr'

    def pre(self, cx):
        return Add.pre(self, cx) + [('value', AND(cx.arg(2) > 0, SEL(cx.ex.allocd(cx.st), cx.arg(2))))]

    def start(self, cx, new, w):
        v = cx.old.vars['arg:value'] if 'arg:value' in cx.old.vars else cx.arg(2)
        return [('shares-the-value', IMP(new, f(cx, w, 'value_') == v))]


class AddDelayed(Contract):
    name = M + '::add_monitor_variable/3@uint32_t'
    nparams = 3
    sig = 'uint32_t'

    def pre(self, cx):
        return inv(cx)

    def modifies(self, cx):
        return frame_add(cx)

    def post(self, cx):
        st0 = cx.old
        m0, m1 = watches(cx, st0), watches(cx)
        on = cx.my('rtl_', st0) != 0
        c0 = cx.my('watch_id_count_', st0)
        w = cx.val(m1, c0)
        q = f(cx, w, 'values_')
        d = cx.arg(1)
        return [('no-simulator', IMP(NOT(on), AND(cx.ret.t == 2 ** 64 - 1, m1 == m0, cx.my('watch_id_count_') == c0)))] + added(cx, on) + \
            [('watches-that-signal', IMP(on, AND(f(cx, w, 'handle') == handle_of(cx), delayed(cx, w), f(cx, w, 'full_name') == cx.arg(0)))),
             ('depth', IMP(on, f(cx, w, 'depth_') == z3.If(d == 0, 1, d))),
             ('first-sample', IMP(on, AND(cx.len(q) == 1, same(cx, cx.el(q, 0), cx.arg(2)))))] + invs(cx)


class VarChanged(Contract):
    name = M + '::var_changed'

    def pre(self, cx):
        m = watches(cx)
        return inv(cx) + [('plain', IMP(cx.has(m, cx.arg(0)), NOT(delayed(cx, cx.val(m, cx.arg(0))))))]

    def modifies(self, cx):
        return [('heap', CELL, OPT)] + ([('heap', WB + '.values_', ('vec', OPT))] if cx.ex.fn == self.name else [])

    def post(self, cx):
        ex = cx.ex
        st0 = cx.old
        m = watches(cx, st0)
        w = cx.val(m, cx.arg(0))
        on = AND(cx.has(m, cx.arg(0)), cx.my('rtl_', st0) != 0)
        now, before = current(cx, w, st0), cell(cx, w, st0)
        ch, v = ex.acc(cx.ret.t, 0), ex.acc(cx.ret.t, 1)
        yes = AND(on, differs(cx, now, before))
        x = I('x')
        H0, H1 = ex.heap(st0, CELL, OPT), ex.heap(cx.st, CELL, OPT)
        return [('changed-iff-known-and-different', ch == yes),
                ('value-is-the-current-one', IMP(AND(on, cx.has(now)), same(cx, v, now))),
                ('remembers-the-reported-value', IMP(yes, same(cx, cell(cx, w), now))),
                ('other-values-kept', fa([x], IMP(NOT(AND(yes, x == f(cx, w, 'value_', st0))), SEL(H1, x) == SEL(H0, x)), SEL(H1, x)))]


class GetWatched(Contract):
    """the report of one event"""
    name = M + '::get_watched_values'

    def pre(self, cx):
        m = watches(cx)
        k, l = I('k'), I('l')
        t = cx.arg(0)
        mine = lambda k: AND(cx.has(m, k), f(cx, cx.val(m, k), 'type') == t)
        return inv(cx) + [('kind', OR(*[t == v for v in kinds(cx).values()])),
                          ('own-memory', fa([k, l], IMP(AND(mine(k), mine(l), k != l, t != kinds(cx)['delay_clock_edge']),
                                                        f(cx, cx.val(m, k), 'value_') != f(cx, cx.val(m, l), 'value_')), (cx.val(m, k), cx.val(m, l))))]

    def modifies(self, cx):
        return [('heap', CELL, OPT), ('heap', WB + '.values_', ('vec', OPT))]

    @staticmethod
    def spec(cx, res, done, st0):
        """done(k): the watch has been handled"""
        ex = cx.ex
        K = kinds(cx)
        t = cx.arg(0, st0)
        m = watches(cx, st0)
        n = cx.len(res)
        i, j, k, x = I('i'), I('j'), I('k'), I('x')
        rid = lambda i: ex.acc(cx.el(res, i), 0)
        rv = lambda i: ex.acc(cx.el(res, i), 1)
        w = lambda k: cx.val(m, k)
        mine = lambda k: AND(cx.has(m, k), done(k), f(cx, w(k), 'type', st0) == t)
        onchange = OR(t == K['data'], t == K['changed'])
        always = OR(t == K['breakpoint'], t == K['clock_edge'])
        due = lambda k: AND(mine(k), IMP(onchange, differs(cx, current(cx, w(k), st0), cell(cx, w(k), st0))))
        at = lambda i: AND(i >= 0, i < n)
        q0, q1 = (lambda k: f(cx, w(k), 'values_', st0)), (lambda k: f(cx, w(k), 'values_'))
        d = lambda k: f(cx, w(k), 'depth_', st0)
        dl = t == K['delay_clock_edge']
        H0, H1 = ex.heap(st0, CELL, OPT), ex.heap(cx.st, CELL, OPT)
        cond = lambda k: f(cx, w(k), 'enable_cond', st0)
        return [('only-due-watches', fa([i], IMP(at(i), due(rid(i))), cx.el(res, i))),
                ('every-due-watch', fa([k], IMP(due(k), z3.Exists([i], AND(at(i), rid(i) == k))), cx.has(m, k))),
                ('each-once', fa([i, j], IMP(AND(at(i), at(j), i != j), rid(i) != rid(j)), (cx.el(res, i), cx.el(res, j)))),
                ('current-value', fa([i], IMP(AND(at(i), OR(onchange, AND(always, NOT(cx.has(cond(rid(i))))))), same(cx, rv(i), current(cx, w(rid(i)), st0))), cx.el(res, i))),
                ('conditional-value', fa([i], IMP(AND(at(i), always), OR(same(cx, rv(i), current(cx, w(rid(i)), st0)), same(cx, rv(i), cell(cx, w(rid(i)), st0)))), cx.el(res, i))),
                ('delayed-value', fa([i], IMP(AND(at(i), dl), same(cx, rv(i), recall(cx, w(rid(i)), st0))), cx.el(res, i))),
                ('remembered', fa([k], IMP(AND(onchange, mine(k)), z3.If(due(k), same(cx, cell(cx, w(k)), current(cx, w(k), st0)), cell(cx, w(k)) == cell(cx, w(k), st0))), cx.has(m, k))),
                ('unremembered', IMP(NOT(onchange), H1 == H0)),
                ('only-its-own-memory', fa([x], IMP(SEL(H1, x) != SEL(H0, x), z3.Exists([k], AND(due(k), f(cx, w(k), 'value_', st0) == x))), SEL(H1, x))),
                ('sampled', fa([k], IMP(AND(dl, mine(k)), AND(cx.len(q1(k)) == z3.If(cx.len(q0(k)) < d(k), cx.len(q0(k)) + 1, d(k)),
                                                              cx.el(q1(k), cx.len(q1(k)) - 1) == current(cx, w(k), st0))), cx.has(m, k))),
                ('samples-in-order', fa([k, i], IMP(AND(dl, mine(k), i >= 0, i + 1 < cx.len(q1(k))),
                                                    cx.el(q1(k), i) == cx.el(q0(k), z3.If(cx.len(q0(k)) < d(k), i, i + 1))), (cx.has(m, k), cx.el(q1(k), i)))),
                ('queues-kept', fa([x], IMP(f(cx, x, 'values_') != f(cx, x, 'values_', st0), z3.Exists([k], AND(dl, mine(k), w(k) == x))), f(cx, x, 'values_')))]

    def post(self, cx):
        on = cx.my('rtl_', cx.old) != 0
        T = lambda k: z3.BoolVal(True)
        return [('no-simulator', IMP(NOT(on), cx.len(cx.ret.t) == 0))] + [(a, IMP(on, b)) for a, b in self.spec(cx, cx.ret.t, T, cx.old)] + invs(cx)

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        res = L.var('result', ('vec', ('tup', ('int', 64, False), OPT)))
        k, x = I('k'), I('x')
        return GetWatched.spec(cx, res, lambda k: SEL(L.visited, k), L.old) + \
            [('watches', b) for a, b in inv(cx) if a == 'watches']
    loops = [Loop(_inv)]


class NumWatches(Contract):
    name = M + '::num_watches'

    def pre(self, cx):
        return inv(cx)

    def post(self, cx):
        m = watches(cx)
        k = I('k')
        hit = lambda k: AND(cx.has(m, k), f(cx, cx.val(m, k), 'full_name') == cx.arg(0), f(cx, cx.val(m, k), 'type') == cx.arg(1))
        return [('zero-iff-none', (cx.ret.t == 0) == fa([k], NOT(hit(k)), cx.has(m, k)))]


def callfn(ex, n, st, fobj, vs):
    """an enable condition: any answer, no effect"""
    return [(st, Val(ex.fresh('enabled', z3.BoolSort()), ('bool',)))]


CONTRACTS = [GetValue(), GetValueBuffer(), SetValue(), SetValueBuffer(), IsMonitored(), Remove(), AddWatch(), Add(), AddShared(), AddDelayed(), VarChanged(), GetWatched()]
SPECS = [RtlValue(), RtlHandle()]
HOOKS = {'#callfn': callfn}
