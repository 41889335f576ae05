"""src/debug.cc: every request is answered exactly once, to whom sent it, under its token"""
import z3
from hvc.contract import Contract, Assumed, Pure, Havoc, NoEffect, Loop, Cx
from hvc.sym import Val, Iter, PtrTo, PyObj, Temp, Local, Unsupported, HeapObj, HeapField
from .common import *
from .debug import G, B, S, N, NM, R, MON, X, DB, OPT, part, spaces, live, ok_spaces, OPAQUE, Log, Flag, DefaultRtl, GetFullName, SetExprValues as SetExpr0

SRC = 'src/debug.cc'
MODE = 'int'
RQ = 'hgdb::Request'
RS = 'hgdb::Response'
SRV = 'hgdb::DebugServer'
SENT, TOKEN, STATUS = 'ghost:sent', 'ghost:token', 'ghost:status'
U64 = ('int', 64, False)
READY, ADDED, REMOVED, SORTED, WRITTEN = 'ghost:released', 'ghost:added', 'ghost:removed', 'ghost:sorted', 'ghost:written'
EFFECTS = [(READY, U64), (ADDED, ('bool',)), (REMOVED, ('bool',)), (SORTED, ('bool',)), (WRITTEN, ('int', 64, True))]       # what the handlers make others do
GHOSTS = [(SENT, U64), (TOKEN, ('str',)), (STATUS, ('bool',))]


def sent(cx, c, st=None):
    return SEL(cx.ex.heap(st or cx.st, SENT, U64), c)


def ghost(cx, k, c, st=None):
    return SEL(cx.ex.heap(st or cx.st, k, dict(GHOSTS)[k]), c)


def eff(cx, k, c=0, st=None):
    return SEL(cx.ex.heap(st or cx.st, k, dict(EFFECTS)[k]), c)


def hp(k):
    return ('heap', k, dict(EFFECTS)[k])


class Release(Assumed):
    """lets the simulation go on"""
    name = 'hgdb::RuntimeLock::ready'

    def modifies(self, cx):
        return [hp(READY)]

    def post(self, cx):
        return [('released', eff(cx, READY) == eff(cx, READY, 0, cx.old) + 1)]


class SetMode(Assumed):
    """proved in scheduler"""
    name = S + '::set_evaluation_mode'

    def modifies(self, cx):
        return [('field', cx.thisref, S, 'evaluation_mode_')]

    def post(self, cx):
        return [('mode', cx.my('evaluation_mode_') == cx.arg(0))]


BP = 'hgdb::BreakPoint'


def bpid(cx, t):
    return part(cx.ex, t, BP, 'id')


class Add(Assumed):
    """inserts one statement of the table (order is restored by reorder_breakpoints)"""
    name = G + '::add_breakpoint'

    def modifies(self, cx):
        return [hp(ADDED), hp(SORTED)]

    def post(self, cx):
        x, d = I('x'), bpid(cx, cx.ex.term(cx.st, cx.args[1]))
        return [('added', fa([x], eff(cx, ADDED, x) == OR(eff(cx, ADDED, x, cx.old), x == d), eff(cx, ADDED, x)))]


class Reorder(Assumed):
    """proved in scheduler"""
    name = S + '::reorder_breakpoints'

    def modifies(self, cx):
        return [hp(SORTED)]

    def post(self, cx):
        return [('sorted', eff(cx, SORTED))]


class Remove(Assumed):
    """proved in scheduler"""
    name = S + '::remove_breakpoint'

    def modifies(self, cx):
        return [hp(REMOVED)]

    def post(self, cx):
        x, d = I('x'), bpid(cx, cx.ex.term(cx.st, cx.args[0]))
        return [('removed', fa([x], eff(cx, REMOVED, x) == OR(eff(cx, REMOVED, x, cx.old), x == d), eff(cx, REMOVED, x)))]


def token_of(cx, text):
    return cx.ex.uf('token-of-response', cx.ex.Str, cx.ex.Str)(text)


def success_of(cx, text):
    return cx.ex.uf('response-is-a-success', cx.ex.Str, z3.BoolSort())(text)


def one_more(cx, c, text=None, token=None, ok=None):
    """exactly one message more to c, none to anybody else"""
    x = I('x')
    out = [('one-message', sent(cx, c) == sent(cx, c, cx.old) + 1), ('nobody-else', fa([x], IMP(x != c, sent(cx, x) == sent(cx, x, cx.old)), sent(cx, x)))]
    if token is not None:
        out.append(('token', ghost(cx, TOKEN, c) == token))
    if ok is not None:
        out.append(('status', ghost(cx, STATUS, c) == ok))
    return out


def ghosts():
    return [('heap', k, t) for k, t in GHOSTS]


class ServerSend(Assumed):
    """one message to one connection"""
    name = SRV + '::send/2'

    def modifies(self, cx):
        return ghosts()

    def post(self, cx):
        c = cx.arg(1)
        return one_more(cx, c, token=token_of(cx, cx.arg(0)), ok=success_of(cx, cx.arg(0)))


class ServerSendAll(Assumed):
    """one message to every connection"""
    name = SRV + '::send/1'

    def modifies(self, cx):
        return ghosts()

    def post(self, cx):
        x = I('x')
        return [('everybody', fa([x], sent(cx, x) == sent(cx, x, cx.old) + 1, sent(cx, x)))]


class Made(Assumed):
    """a response object (its constructors are under contract in proto)"""

    def __init__(self, cls, sig=None):
        Assumed.__init__(self, name='hgdb::%s::%s%s' % (cls, cls, '@' + sig if sig else ''), cls='hgdb::' + cls)

    def apply(self, ex, st, this, args, n):
        from hvc import types as T
        r = ex.alloc(st, T.key(('rec', self.cls)))
        pl = HeapObj(r, self.cls)
        pl.fresh = True
        cx = Cx(ex, st, st, pl, args)
        own = lambda f: HeapField(r, RS, f, ex.fieldty(RS, f))
        generic = self.cls.endswith('::GenericResponse')
        own('status_').set(ex, st, args[0].t if generic and isinstance(args[0], Val) else cx.arg(0) if generic else z3.IntVal(ex.tu.enumty['hgdb::status_code']['success']))
        tok = cx.fld(args[1].ref, RQ, 'token_') if generic and isinstance(args[1], HeapObj) else ex.lit('')
        own('token_').set(ex, st, tok)
        return [(st, pl)]


class Text(Assumed):
    """its text carries status and token (proved in proto)"""

    def post(self, cx):
        ok = cx.ex.tu.enumty['hgdb::status_code']['success']
        return [('token', token_of(cx, cx.ret.t) == cx.fld(cx.thisref, RS, 'token_', cx.old)), ('status', success_of(cx, cx.ret.t) == (cx.fld(cx.thisref, RS, 'status_', cx.old) == ok))]


CLASSES = ['GenericResponse', 'BreakPointLocationResponse', 'BreakPointResponse', 'DebuggerInformationResponse', 'EvaluationResponse', 'MonitorResponse']


def ns_ids(cx, v, st=None):
    """each namespace has its place as its id"""
    i = I('i')
    e = lambda i: cx.el(v, i)
    return [('namespace-ids', fa([i], IMP(AND(i >= 0, i < cx.len(v)), AND(live(cx, e(i), st), cx.fld(e(i), N, 'id', st) == i)), e(i)))]


def is_ns(cx, v, r, st=None):
    """r is one of the namespaces"""
    i = cx.fld(r, N, 'id', st)
    return AND(live(cx, r, st), i >= 0, i < cx.len(v), cx.el(v, i) == r, live(cx, cx.fld(r, N, 'rtl', st), st), live(cx, cx.fld(r, N, 'monitor', st), st))


class GetNamespace(Contract):
    """the namespace that is meant, if one is"""
    name = 'hgdb::get_namespace'

    def v(self, cx):
        return part(cx.ex, cx.arg(3), NM, 'namespaces_')

    def pre(self, cx):
        v, i = self.v(cx), I('i')
        return ns_ids(cx, v) + [('namespaces', fa([i], IMP(AND(i >= 0, i < cx.len(v)), is_ns(cx, v, cx.el(v, i))), cx.el(v, i))), ('a-namespace', cx.len(v) > 0)]

    def post(self, cx):
        v, n = self.v(cx), cx.arg(2)
        given = AND(cx.has(n), cx.val(n) >= 0, cx.val(n) < cx.len(v))
        none = AND(NOT(cx.has(cx.arg(0))), NOT(cx.has(cx.arg(1))))
        return [('one-of-them', OR(cx.ret.t == 0, is_ns(cx, v, cx.ret.t))), ('as-asked', IMP(given, cx.ret.t == cx.el(v, cx.val(n)))),
                ('default', IMP(AND(NOT(given), OR(none, cx.arg(4) == 0)), cx.ret.t == cx.el(v, z3.IntVal(0))))]


def valid(cx, rtl, name):
    return cx.ex.uf('pure:' + R + '::is_valid_signal', z3.IntSort(), cx.ex.Str, z3.BoolSort())(rtl, name)


class ResolveVar(Contract):
    """a name resolves to a signal of the design or not at all"""
    name = G + '::resolve_var_name'

    def pre(self, cx):
        return base(cx) + [('namespace', AND(cx.arg(0) >= 0, cx.arg(0) < cx.len(spaces(cx))))]

    def post(self, cx):
        r = cx.ret.t
        rtl = cx.fld(cx.el(spaces(cx), cx.arg(0)), N, 'rtl')
        plain = AND(NOT(cx.has(cx.arg(2))), NOT(cx.has(cx.arg(3))))
        return [('valid', IMP(cx.has(r), valid(cx, rtl, cx.val(r)))), ('plain-names', IMP(plain, AND(cx.has(r) == valid(cx, rtl, cx.arg(1)), IMP(cx.has(r), cx.val(r) == cx.arg(1))))),
                ('ids-need-a-table', IMP(AND(NOT(plain), cx.my('db_') == 0), NOT(cx.has(r))))]


class Spaces(Assumed):
    """proved in namespace: it lists namespaces"""
    name = NM + '::get_namespaces'

    def post(self, cx):
        i, r = I('i'), cx.ret.t
        v = part(cx.ex, cx.ex.term(cx.st, cx.this), NM, 'namespaces_') if not isinstance(cx.this, HeapObj) else cx.my('namespaces_')
        return [('listed', fa([i], IMP(AND(i >= 0, i < cx.len(r)), is_ns(cx, v, cx.el(r, i))), cx.el(r, i)))]


def base(cx, st=None):
    """what holds between messages"""
    st = st or cx.st
    db, sched, srv = cx.my('db_', st), cx.my('scheduler_', st), cx.my('server_', st)
    return ok_spaces(cx, st) + ns_ids(cx, spaces(cx, st), st) + [('a-namespace', cx.len(spaces(cx, st)) > 0), ('server', live(cx, srv, st)), ('scheduler-iff-table', (db != 0) == (sched != 0)),
                                ('table', OR(db == 0, live(cx, db, st))), ('scheduler', OR(sched == 0, live(cx, sched, st)))]


class Send(Contract):
    """one message to one connection"""
    name = G + '::send_message/2'
    nparams = 2

    def pre(self, cx):
        return [('server', live(cx, cx.my('server_')))]

    def modifies(self, cx):
        return ghosts()

    def post(self, cx):
        return one_more(cx, cx.arg(1), token=token_of(cx, cx.arg(0)), ok=success_of(cx, cx.arg(0)))


def reqtoken(cx):
    return cx.fld(cx.args[0].ref, RQ, 'token_', cx.old)


class SendError(Contract):
    name = G + '::send_error'

    def pre(self, cx):
        return [('server', live(cx, cx.my('server_')))]

    def modifies(self, cx):
        return ghosts() + [('alloc',)]

    def post(self, cx):
        return one_more(cx, cx.arg(2), token=reqtoken(cx), ok=z3.BoolVal(False))


class CheckDb(Contract):
    """without a symbol table the request is refused, and only then"""
    name = G + '::check_send_db_error'

    def pre(self, cx):
        return [('server', live(cx, cx.my('server_')))]

    def modifies(self, cx):
        return ghosts() + [('alloc',)]

    def post(self, cx):
        c, x = cx.arg(1), I('x')
        out = [('table', cx.ret.t == (cx.my('db_', cx.old) != 0))]
        out += [(n, IMP(NOT(cx.ret.t), p)) for n, p in one_more(cx, c, token=reqtoken(cx), ok=z3.BoolVal(False))]
        return out + [('silent-otherwise', IMP(cx.ret.t, AND(*[cx.ex.heap(cx.st, k, t) == cx.ex.heap(cx.old, k, t) for k, t in GHOSTS])))]


# the requests of each type, and what is known of their fields once parsed (proto): enumerations hold declared values
ENUMS = {'handle_command': ('hgdb::CommandRequest', 'command_type_', 'hgdb::CommandRequest::CommandType'), 'handle_debug_info': ('hgdb::DebuggerInformationRequest', 'command_type_', 'hgdb::DebuggerInformationRequest::CommandType'),
         'handle_data_breakpoint': ('hgdb::DataBreakpointRequest', 'action_', 'hgdb::DataBreakpointRequest::Action')}
KINDS = {'handle_connection': 'connection', 'handle_breakpoint': 'breakpoint', 'handle_breakpoint_id': 'breakpoint_id', 'handle_bp_location': 'bp_location', 'handle_command': 'command',
         'handle_debug_info': 'debugger_info', 'handle_path_mapping': 'path_mapping', 'handle_evaluation': 'evaluation', 'handle_option_change': 'option_change', 'handle_monitor': 'monitor',
         'handle_set_value': 'set_value', 'handle_data_breakpoint': 'data_breakpoint'}


def kind(cx, r):
    return cx.ex.uf('pure:' + RQ + '::type', z3.IntSort(), z3.IntSort())(r)


def enum_ok(cx, r, h):
    own, f, e = ENUMS[h]
    v = cx.fld(r, own, f)
    return OR(*[v == x for x in cx.ex.tu.enumty[e].values()])


class Parsed(Assumed):
    """proved in proto: the token is kept; anything but a request of a known class is an error"""
    name = 'hgdb::Request::parse_request'

    def modifies(self, cx):
        return [('alloc',)]

    def post(self, cx):
        e, r, t = cx.ex.tu.enumty['hgdb::RequestType'], cx.ret.t, cx.ex.uf('token-of-request', cx.ex.Str, cx.ex.Str)(cx.arg(0))
        bad = cx.fld(r, RQ, 'status_code_') != cx.ex.tu.enumty['hgdb::status_code']['success']
        return [('object', live(cx, r)), ('token', cx.fld(r, RQ, 'token_') == t), ('class', OR(bad, *[kind(cx, r) == e[k] for k in KINDS.values()]))] + \
            [('enumerations', IMP(NOT(bad), IMP(kind(cx, r) == e[KINDS[h]], enum_ok(cx, r, h)))) for h in ENUMS]


class OnMessage(Contract):
    """whatever the message, in whatever state: one answer, to its sender, with its token; handed to the handler of its type"""
    name = G + '::on_message'

    def pre(self, cx):
        return base(cx)

    def modifies(self, cx):
        return ghosts() + [hp(k) for k, t in EFFECTS] + [('alloc',), ('heap', B + '.watch_id', U64), ('heap', S + '.evaluation_mode_', U64)] + [('field', cx.thisref, G, f) for f in ('db_', 'scheduler_', 'is_running_', 'namespaces_', 'cached_signal_values_')]

    def post(self, cx):
        t = cx.ex.uf('token-of-request', cx.ex.Str, cx.ex.Str)(cx.arg(0, cx.old))
        return one_more(cx, cx.arg(1), token=t) + base(cx)


class Handler(Contract):
    """exactly one reply, to the sender, under the token of its request"""

    def __init__(self, name, **kw):
        Contract.__init__(self, name=G + '::' + name, **kw)

    def pre(self, cx):
        r, h = cx.args[0].ref, self.name.split('::')[-1]
        return base(cx) + [('a-request-of-this-type', kind(cx, r) == cx.ex.tu.enumty['hgdb::RequestType'][KINDS[h]])] + ([('enumerations', enum_ok(cx, r, h))] if h in ENUMS else [])

    def modifies(self, cx):
        return ghosts() + [('alloc',)] + [('field', cx.thisref, G, f) for f in getattr(self, 'fields', ())]

    ok = None

    def post(self, cx):
        ok = self.__dict__['ok'](cx) if 'ok' in self.__dict__ else None
        return one_more(cx, cx.arg(1), token=reqtoken(cx), ok=ok) + base(cx)


def quiet(L):
    """nothing is sent meanwhile"""
    cx = Cx(L.ex, L.st, L.old, L.this, L.args)
    return [('silent', AND(*[L.ex.heap(L.st, k, t) == L.ex.heap(L.old, k, t) for k, t in GHOSTS]))] + base(cx)


Q = Loop(quiet)


def lines(cx, r):
    """the statements of the table at the place asked for"""
    ex = cx.ex
    b = cx.fld(r, 'hgdb::BreakPointRequest', 'bp_', cx.old)
    q = ex.uf('pure:' + DB + '::get_breakpoints', z3.IntSort(), ex.Str, z3.IntSort(), z3.IntSort(), ex.sort(('vec', ('rec', BP))))
    return q(cx.my('db_', cx.old), part(ex, b, BP, 'filename'), part(ex, b, BP, 'line_num'), part(ex, b, BP, 'column_num'))


class HBreakpoint(Handler):
    """inserts, or removes, every statement there is at that place; an error iff there is nothing to insert"""

    def __init__(self):
        Handler.__init__(self, 'handle_breakpoint', loops=[Loop(self.inv(ADDED)), Loop(self.inv(REMOVED))])

    @staticmethod
    def inv(which):
        def f(L):
            cx = Cx(L.ex, L.st, L.old, L.this, L.args)
            v, x, i = lines(cx, L.args[0].ref), I('x'), I('i')
            d = bpid(cx, cx.el(v, i))
            return quiet(L) + [('so-far', fa([x], eff(cx, which, x) == OR(eff(cx, which, x, L.old), z3.Exists([i], AND(i >= 0, i < L.idx, d == x))), eff(cx, which, x)))]
        return f

    def modifies(self, cx):
        return Handler.modifies(self, cx) + [hp(ADDED), hp(REMOVED), hp(SORTED)]

    def post(self, cx):
        r = cx.args[0].ref
        v, x, i = lines(cx, r), I('x'), I('i')
        add = cx.fld(r, 'hgdb::BreakPointRequest', 'bp_action_', cx.old) == cx.ex.tu.enumty['hgdb::BreakPointRequest::action']['add']
        some = z3.Exists([i], AND(i >= 0, i < cx.len(v), bpid(cx, cx.el(v, i)) == x))
        on = lambda k, c: fa([x], eff(cx, k, x) == OR(eff(cx, k, x, cx.old), AND(c, some)), eff(cx, k, x))
        table = cx.my('db_', cx.old) != 0
        return Handler.post(self, cx) + [('status', ghost(cx, STATUS, cx.arg(1)) == AND(table, OR(NOT(add), cx.len(v) != 0))),
                                         ('inserted', on(ADDED, AND(table, add))), ('removed', on(REMOVED, AND(table, NOT(add)))), ('in-order', IMP(AND(table, add, cx.len(v) != 0), eff(cx, SORTED)))]


class HBreakpointId(Handler):
    def __init__(self):
        Handler.__init__(self, 'handle_breakpoint_id')

    def modifies(self, cx):
        return Handler.modifies(self, cx) + [hp(ADDED), hp(REMOVED), hp(SORTED)]

    def post(self, cx):
        ex, r, x = cx.ex, cx.args[0].ref, I('x')
        d = part(ex, cx.fld(r, 'hgdb::BreakPointRequest', 'bp_', cx.old), BP, 'id')
        b = ex.uf('pure:' + DB + '::get_breakpoint', z3.IntSort(), z3.IntSort(), ex.sort(('opt', ('rec', BP))))(cx.my('db_', cx.old), d)
        add = cx.fld(r, 'hgdb::BreakPointRequest', 'bp_action_', cx.old) == ex.tu.enumty['hgdb::BreakPointRequest::action']['add']
        table = cx.my('db_', cx.old) != 0
        known = cx.has(b)
        return Handler.post(self, cx) + [('status', ghost(cx, STATUS, cx.arg(1)) == AND(table, OR(NOT(add), known))),
                                         ('inserted', fa([x], eff(cx, ADDED, x) == OR(eff(cx, ADDED, x, cx.old), AND(table, add, known, bpid(cx, cx.val(b)) == x)), eff(cx, ADDED, x))),
                                         ('removed', fa([x], eff(cx, REMOVED, x) == OR(eff(cx, REMOVED, x, cx.old), AND(table, NOT(add), d == x)), eff(cx, REMOVED, x))),
                                         ('in-order', IMP(AND(table, add, known), eff(cx, SORTED)))]


class HCommand(Handler):
    """a command sets the mode it stands for and lets the simulation go on once"""

    def __init__(self):
        Handler.__init__(self, 'handle_command')

    def modifies(self, cx):
        return Handler.modifies(self, cx) + [hp(READY), ('heap', S + '.evaluation_mode_', U64)]

    def post(self, cx):
        ex = cx.ex
        c = ex.tu.enumty['hgdb::CommandRequest::CommandType']
        m = ex.tu.enumty[S + '::EvaluationMode']
        cmd = cx.fld(cx.args[0].ref, 'hgdb::CommandRequest', 'command_type_', cx.old)
        s = cx.my('scheduler_', cx.old)
        mode, mode0 = cx.fld(s, S, 'evaluation_mode_'), cx.fld(s, S, 'evaluation_mode_', cx.old)
        table = cx.my('db_', cx.old) != 0
        out = [('mode-after-' + a, IMP(AND(cmd == c[a], table), mode == m[b])) for a, b in (('continue_', 'BreakPointOnly'), ('step_over', 'StepOver'), ('reverse_continue', 'ReverseBreakpointOnly'), ('step_back', 'StepBack'), ('stop', 'None'))]
        return Handler.post(self, cx) + out + [('jump-keeps-the-mode', IMP(AND(cmd == c['jump'], table), mode == mode0)),
                                               ('goes-on-once', IMP(cmd != c['stop'], eff(cx, READY) == eff(cx, READY, 0, cx.old) + z3.If(table, z3.IntVal(1), z3.IntVal(0)))),
                                               ('status', IMP(cmd != c['jump'], ghost(cx, STATUS, cx.arg(1)) == OR(table, cmd == c['stop'])))]


class Data(Handler):
    def __init__(self):
        Handler.__init__(self, 'handle_data_breakpoint', loops=[Q, Q])

    def modifies(self, cx):
        return Handler.modifies(self, cx) + [('heap', B + '.watch_id', U64), hp(SORTED)]

    def post(self, cx):
        e = cx.ex.tu.enumty['hgdb::DataBreakpointRequest::Action']
        a = cx.fld(cx.args[0].ref, 'hgdb::DataBreakpointRequest', 'action_', cx.old)
        ok = ghost(cx, STATUS, cx.arg(1))
        return Handler.post(self, cx) + [('needs-a-table', IMP(cx.my('db_', cx.old) == 0, NOT(ok))), ('in-order', IMP(AND(ok, a == e['add']), eff(cx, SORTED)))]


def good(cx):
    return cx.fld(cx.args[0].ref, RQ, 'status_code_', cx.old) == cx.ex.tu.enumty['hgdb::status_code']['success']


def needs_table(cx):
    c = cx.ex.tu.enumty['hgdb::DebuggerInformationRequest::CommandType']
    cmd = cx.fld(cx.args[0].ref, 'hgdb::DebuggerInformationRequest', 'command_type_', cx.old)
    return OR(cx.my('db_', cx.old) != 0, NOT(OR(cmd == c['breakpoints'], cmd == c['filename'])))


class HMonitor(Handler):
    """only signals of the design can be watched"""

    def __init__(self):
        Handler.__init__(self, 'handle_monitor')

    def post(self, cx):
        ex, q = cx.ex, 'hgdb::MonitorRequest'
        f = lambda n: cx.fld(cx.args[0].ref, q, n, cx.old)
        ids = OR(cx.has(f('instance_id_')), cx.has(f('breakpoint_id_')))
        n = f('namespace_id_')
        v = spaces(cx, cx.old)
        given = AND(cx.has(n), cx.val(n) >= 0, cx.val(n) < cx.len(v))
        ns = z3.If(given, cx.el(v, cx.val(n)), cx.el(v, z3.IntVal(0)))
        add = f('action_type_') == ex.tu.enumty[q + '::ActionType']['add']
        ok = ghost(cx, STATUS, cx.arg(1))
        return Handler.post(self, cx) + [('plain-names', IMP(NOT(ids), ok == AND(good(cx), OR(NOT(add), valid(cx, cx.fld(ns, N, 'rtl'), f('var_name_')))))),
                                         ('well-formed', IMP(ok, good(cx))), ('ids-need-a-table', IMP(AND(add, ids, cx.my('db_', cx.old) == 0), NOT(ok)))]


def code(cx, rtl, name):
    return cx.ex.uf('signal', z3.IntSort(), cx.ex.Str, z3.IntSort())(rtl, name)


class Write(Assumed):
    """sets one signal"""
    name = R + '::set_value'

    def modifies(self, cx):
        return [hp(WRITTEN)]

    def post(self, cx):
        x, c = I('x'), code(cx, cx.thisref, cx.arg(0))
        return [('written', IMP(cx.ret.t, eff(cx, WRITTEN, c) == cx.arg(1))), ('only', fa([x], IMP(OR(x != c, NOT(cx.ret.t)), eff(cx, WRITTEN, x) == eff(cx, WRITTEN, x, cx.old)), eff(cx, WRITTEN, x)))]


class HSet(Handler):
    """success means the signal has the value asked for, and no value read before is used any longer"""

    def __init__(self):
        Handler.__init__(self, 'handle_set_value', fields=['cached_signal_values_'])

    def modifies(self, cx):
        return Handler.modifies(self, cx) + [hp(WRITTEN)]

    def post(self, cx):
        q, h, x = 'hgdb::SetValueRequest', I('h'), I('x')
        f = lambda n: cx.fld(cx.args[0].ref, q, n, cx.old)
        ids = OR(cx.has(f('instance_id_')), cx.has(f('breakpoint_id_')))
        n = f('namespace_id_')
        v = spaces(cx, cx.old)
        ns = z3.If(AND(cx.has(n), cx.val(n) >= 0, cx.val(n) < cx.len(v)), cx.el(v, cx.val(n)), cx.el(v, z3.IntVal(0)))
        c = code(cx, cx.fld(ns, N, 'rtl'), f('var_name_'))
        ok = ghost(cx, STATUS, cx.arg(1))
        return Handler.post(self, cx) + [('nothing-cached', IMP(ok, fa([h], NOT(cx.has(cx.my('cached_signal_values_'), h)), cx.has(cx.my('cached_signal_values_'), h)))),
                                         ('written', IMP(AND(ok, NOT(ids)), eff(cx, WRITTEN, c) == f('value_'))),
                                         ('only', IMP(NOT(ids), fa([x], IMP(OR(x != c, NOT(ok)), eff(cx, WRITTEN, x) == eff(cx, WRITTEN, x, cx.old)), eff(cx, WRITTEN, x)))),
                                         ('well-formed', IMP(ok, good(cx)))]


class HConnection(Handler):
    """success iff the table could be loaded (or needn't be)"""

    def __init__(self):
        Handler.__init__(self, 'handle_connection', fields=['db_', 'scheduler_', 'is_running_', 'namespaces_'])

    def post(self, cx):
        ex = cx.ex
        ok = ghost(cx, STATUS, cx.arg(1))
        skip = ex.uf('pure:' + G + '::has_cli_flag', z3.IntSort(), ex.Str, z3.BoolSort())(cx.thisref, ex.lit('+DEBUG_NO_DB'))
        return Handler.post(self, cx) + [('status', ok == OR(skip, cx.my('db_') != 0)), ('running', cx.my('is_running_') == OR(ok, cx.my('is_running_', cx.old)))]


HANDLERS = [
    HBreakpoint(), HBreakpointId(),
    Handler('handle_bp_location', loops=[Loop(lambda L: quiet(L) + [('room', L.ex.acc(L.var('bps_', ('vec', ('ptr', ('rec', 'hgdb::BreakPoint')))), 0) == L.ex.acc(L.var('bps', ('vec', ('rec', 'hgdb::BreakPoint'))), 0))])]),
    HCommand(),
    Handler('handle_debug_info', loops=[Q], ok=lambda cx: needs_table(cx)),
    Handler('handle_path_mapping', ok=lambda cx: AND(cx.my('db_', cx.old) != 0, good(cx))),
    Handler('handle_evaluation'),
    Handler('handle_option_change', loops=[Q, Q, Q], ok=lambda cx: good(cx)),
    HMonitor(), HSet(),
    Data(),
    HConnection(),
]


class OptPtr(Havoc):
    """null or a live object"""

    def facts(self, cx):
        return [('', OR(cx.ret.t == 0, live(cx, cx.ret.t)))] and [OR(cx.ret.t == 0, live(cx, cx.ret.t))]


class Quiet(NoEffect):
    """changes nothing these contracts speak about"""


class Validate(Contract):
    name = 'hgdb::find_matching_namespace_validate'

    def v(self, cx):
        return part(cx.ex, cx.arg(4), NM, 'namespaces_')

    def pre(self, cx):
        v, i = self.v(cx), I('i')
        return ns_ids(cx, v) + [('namespaces', fa([i], IMP(AND(i >= 0, i < cx.len(v)), is_ns(cx, v, cx.el(v, i))), cx.el(v, i)))]

    loops = [Loop(lambda L: [])]


class InitDb(Contract):
    """there is a scheduler iff there is a usable symbol table"""
    name = G + '::initialize_db@unique_ptr'

    def pre(self, cx):
        return base(cx) + [('table', OR(cx.arg(0) == 0, live(cx, cx.arg(0))))]

    def modifies(self, cx):
        return [('field', cx.thisref, G, f) for f in ('db_', 'scheduler_', 'namespaces_')] + [('alloc',)] + ([('place', cx.args[0])] if cx.ex.fn != self.name and not isinstance(cx.args[0], Val) else [])

    def post(self, cx):
        d = cx.arg(0, cx.old)
        bad = cx.ex.uf('pure:' + DB + '::bad', z3.IntSort(), z3.BoolSort())(d)
        return base(cx) + [('table-if-usable', cx.my('db_') == z3.If(OR(d == 0, bad), z3.IntVal(0), d))]


class InitDbFile(Contract):
    name = G + '::initialize_db@const std::string &'

    def pre(self, cx):
        return base(cx)

    def modifies(self, cx):
        return InitDb.modifies(self, cx)

    def post(self, cx):
        return base(cx) + [('success-iff-table', cx.ret.t == (cx.my('db_') != 0))]


class Mapping(Assumed):
    """keeps the list of namespaces in order (harness G01-G03 runs the real one)"""
    name = NM + '::compute_instance_mapping'

    def apply(self, ex, st, this, args, n):
        this.set(ex, st, ex.newval(st, 'mapped', this.ty))
        g = HeapObj(z3.Int('this'), G)
        for nm, p in ok_spaces(Cx(ex, st, st, g, args)) + ns_ids(Cx(ex, st, st, g, args), spaces(Cx(ex, st, st, g, args))):
            ex.assume(st, p)
        ex.assume(st, part(ex, this.get(ex, st), NM, 'namespaces_') is not None and Cx(ex, st, st, g, args).len(spaces(Cx(ex, st, st, g, args))) > 0)
        return [(st, Val(z3.BoolVal(True), ('void',)))]


class NewScheduler(Assumed):
    name = S + '::Scheduler'

    def apply(self, ex, st, this, args, n):
        from hvc import types as T
        r = ex.alloc(st, T.key(('rec', S)))
        return [(st, Val(r, ('ptr', ('rec', S))))] if this == 'new' else [(st, HeapObj(r, S))]


class NoLoss(Havoc):
    """a list of live objects"""

    def facts(self, cx):
        i, v = I('i'), cx.ret.t
        return [fa([i], IMP(AND(i >= 0, i < cx.len(v)), live(cx, cx.el(v, i))), cx.el(v, i))]


class DefaultNs(Assumed):
    """proved in namespace"""
    name = NM + '::default_namespace'

    def post(self, cx):
        v = cx.my('namespaces_') if isinstance(cx.this, HeapObj) else part(cx.ex, cx.ex.term(cx.st, cx.this), NM, 'namespaces_')
        return [('first', cx.ret.t == z3.If(cx.len(v) == 0, z3.IntVal(0), cx.el(v, z3.IntVal(0))))]


class MadeExpr(Assumed):
    """the expression object: any state"""
    name = X + '::DebugExpression'

    def apply(self, ex, st, this, args, n):
        from hvc import types as T
        pl = HeapObj(ex.alloc(st, T.key(('rec', X))), X)
        pl.fresh = True
        return [(st, pl)]


DBQ = ['get_breakpoints/1', 'get_instance_name', 'get_instance_name_from_bp', 'get_filenames', 'get_assigned_breakpoints', 'resolve_scoped_name_breakpoint', 'resolve_scoped_name_instance']
RTLQ = ['get_argv', 'get_simulator_name', 'get_simulator_version', 'rewind', 'get_full_name']

CONTRACTS = [Send(), SendError(), CheckDb(), OnMessage(), InitDb(), InitDbFile(), Validate(), GetNamespace(), ResolveVar()] + HANDLERS
SPECS = [ServerSend(), ServerSendAll()] + [Made('GenericResponse', 'Request &'), Made('GenericResponse', 'RequestType')] + [Made(c) for c in CLASSES[1:]] + [Text(name='hgdb::%s::str' % c) for c in CLASSES] + [
    DefaultRtl(), DefaultNs(), MadeExpr(), Log(name=G + '::log_info'), Log(name=G + '::log_error')] + \
    [Havoc(name=DB + '::' + f) for f in DBQ] + [Havoc(name=R + '::' + f) for f in RTLQ] + [Havoc(name=n) for n in (
        DB + '::set_src_mapping', R + '::finish_sim', S + '::clear', S + '::remove_data_breakpoint', S + '::clear_data_breakpoints',
        'hgdb::RuntimeLock::wait', G + '::stop', G + '::get_monitor_topic', G + '::add_cb_clocks', G + '::set_expr_values',
        MON + '::add_monitor_variable', MON + '::remove_monitor_variable', MON + '::is_monitored', MON + '::get_watched_value_ptr', SRV + '::add_to_topic', SRV + '::remove_from_topic', 'hgdb::util::validate_expr',
        X + '::correct', X + '::eval', X + '::clear', X + '::set_error', NM + '::get_top_mapping', 'hgdb::util::Options::add_option', 'hgdb::util::Options::set_option', 'hgdb::util::Options::get_options', 'hgdb::util::join', DB + '::set_get_symbol_value', G + '::setup_init_breakpoint_from_env')] + \
    [OptPtr(name=S + '::add_data_breakpoint'), NoLoss(name=S + '::get_current_breakpoints'), Spaces(), Pure(name=R + '::is_valid_signal'), Pure(name=DB + '::bad'), Mapping(), Write(), Pure(name=G + '::has_cli_flag'), Release(), SetMode(), Add(), Reorder(), Remove(), Pure(name=DB + '::get_breakpoints'), Pure(name=DB + '::get_breakpoint'), Parsed(), Pure(name=RQ + '::type'), NoEffect(name='hgdb::to_string'), NewScheduler(), OptPtr(name='hgdb::create_symbol_table')]
HOOKS = {'#callfn': lambda ex, n, st, f, vs: [(st, Val(z3.BoolVal(True), ('void',)))]}       # what is told when a client connected
