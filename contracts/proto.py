"""src/proto.cc: requests are read from JSON exactly as they are spelled."""
import z3
from hvc.contract import Contract, Assumed, Pure, Havoc, NoEffect, Loop, Cx
from hvc.stl import class_id
from hvc import types as T
from hvc.sym import HeapField, Val, Iter, PtrTo, PyObj, Temp, Local, Unsupported
from . import json as J
from .json import U32, U64, I64, BOOL, STR
from .common import *

SRC = 'src/proto.cc'
MODE = 'int'
MAP = ('map', STR, STR)
SUCCESS, ERROR = 0, 1


class GetMember(Contract):
    """the member of that name if it is there and has the type asked for, otherwise nothing"""
    base = 'hgdb::get_member'

    def __init__(self, ty, sig, tag):
        Contract.__init__(self, name='hgdb::get_member@' + sig, ty=ty, sig=sig)

    def modifies(self, cx):
        return [('place', cx.args[2])]

    def post(self, cx):
        ex = cx.ex
        j, nm, r = cx.arg(0), cx.arg(1), cx.ret.t
        if self.ty == MAP:
            return self.post_map(cx, J.mem(ex, j, nm), J.has(ex, j, nm))
        ok = AND(J.has(ex, j, nm), J.is_(ex, J.mem(ex, j, nm), self.ty))
        return [('there-iff-it-has-the-type', cx.has(r) == ok), ('value', IMP(ok, cx.val(r) == J.get(ex, J.mem(ex, j, nm), self.ty)))]

    def post_map(self, cx, v, there):
        ex, r = cx.ex, cx.ret.t
        ok = AND(there, textmap(ex, v))
        return [('there-iff-all-are-text', cx.has(r) == ok)] + [(a, IMP(ok, p)) for a, p in as_map(ex, v, cx.val(r), None)]


def kv(ex, v, i):
    e = z3.Select(ex.acc(J.members(ex, v), 1), i)
    return ex.acc(e, 0), ex.acc(e, 1), e


def textmap(ex, v):
    """an object whose members are all text"""
    i = I('i')
    k, x, e = kv(ex, v, i)
    return AND(J.isobj(ex, v), fa([i], IMP(AND(i >= 0, i < ex.acc(J.members(ex, v), 0)), J.is_(ex, x, STR)), e))


def as_map(ex, v, m, n):
    """m maps the names of the first n members (None: all) to their text, the first of equal names counting"""
    i, j, s = I('i'), I('j'), z3.Const('s', ex.Str)
    n = ex.acc(J.members(ex, v), 0) if n is None else n
    key = lambda i: J.get(ex, kv(ex, v, i)[0], STR)
    hs = lambda k: z3.Select(ex.acc(m, 0), k)
    first = fa([j], IMP(AND(j >= 0, j < i), key(j) != key(i)))
    return [('names', fa([i], IMP(AND(i >= 0, i < n), hs(key(i))), kv(ex, v, i)[2])),
            ('texts', fa([i], IMP(AND(i >= 0, i < n, first), z3.Select(ex.acc(m, 1), key(i)) == J.get(ex, kv(ex, v, i)[1], STR)), kv(ex, v, i)[2])),
            ('nothing-else', fa([s], IMP(hs(s), z3.Exists([i], AND(i >= 0, i < n, key(i) == s))), hs(s)))]


DOC = '(rapidjson::GenericDocument<rapidjson::UTF8<>> &'
VAL = '(const rapidjson::GenericValue<rapidjson::UTF8<>> &'
S_ = 'optional<basic_string<char, char_traits<char>, allocator<char>>> '
GM = []
for ty, t in ((STR, S_), (BOOL, 'optional<bool> '), (U32, 'optional<unsigned int> '), (U64, 'optional<unsigned long> '), (I64, 'optional<long> ')):
    GM.append(GetMember(ty, t + DOC, 'doc'))
for ty, t in ((STR, S_), (BOOL, 'optional<bool> '), (U32, 'optional<unsigned int> ')):
    GM.append(GetMember(ty, t + VAL, 'val'))

GM.append(GetMember(MAP, 'optional<map<basic_string<char, char_traits<char>, allocator<char>>, basic_string<', 'map'))


def _map_loop(L):
    ex = L.ex
    cx = Cx(ex, L.st, L.old, L.this, L.args)
    v = J.mem(ex, cx.arg(0), cx.arg(1))
    i = I('i')
    k, x, e = kv(ex, v, i)
    return as_map(ex, v, L.var('result'), L.idx) + [('texts-so-far', fa([i], IMP(AND(i >= 0, i < L.idx), J.is_(ex, x, STR)), e))]


GM[-1].loops = [Loop(_map_loop)]

# ---------------------------------------------------------------- requests
RQ = 'hgdb::Request'


class Payload(Contract):
    """the members of the payload are the fields of the request; what is missing or has another type is an error, or unset if optional"""

    def __init__(self, cls, spec, fresh=(), loops=()):
        Contract.__init__(self, name='hgdb::%s::parse_payload' % cls, cls='hgdb::' + cls, spec=spec, fresh=fresh, loops=list(loops))

    def pre(self, cx):
        out = [('no-error-yet', cx.my('status_code_') == SUCCESS)]
        for f in self.fresh:
            v = cx.my(f)
            ty = cx.ex.fieldty(self.cls, f)
            out.append(('fresh-' + f, v == cx.ex.emptyval(ty)))
        return out

    def modifies(self, cx):
        return [('field', cx.thisref, self.cls, f) for own, f, t in cx.ex.fields(self.cls) if f != 'token_']

    def post(self, cx):
        ex = cx.ex
        d = J.parse(ex, cx.arg(0))
        q = Q(cx, d)
        self.spec(q)
        ok = AND(NOT(J.bad(ex, d)), *q.need)
        return [('error-iff-malformed', cx.my('status_code_') == z3.If(ok, z3.IntVal(SUCCESS), z3.IntVal(ERROR)))] + [(a, IMP(ok, p)) for a, p in q.facts]


class Q:
    """a payload against its table"""

    def __init__(self, cx, d):
        self.cx, self.ex, self.d = cx, cx.ex, d
        self.need, self.facts = [], []

    def has(self, n, ty):
        return J.typed(self.ex, self.d, n, ty)

    def v(self, n, ty):
        return J.value(self.ex, self.d, n, ty)

    def text(self, n, s):
        return AND(self.has(n, STR), self.v(n, STR) == self.ex.lit(s))

    def f(self, name):
        """field of the request, a.b inside a record"""
        a = name.split('.')
        v = self.cx.my(a[0])
        if len(a) > 1:
            rec = self.ex.fieldty(self.cx.this.ty[1], a[0])
            for k, (own, fn, ft) in enumerate(self.ex.fields(rec[1])):
                if fn == a[1]:
                    return self.ex.acc(v, k)
            raise Unsupported('field ' + name)
        return v

    def req(self, n, ty, field):
        self.need.append(self.has(n, ty))
        self.facts.append((n, self.f(field) == self.v(n, ty)))

    def opt(self, n, ty, field, default=None):
        """optional member: an optional field, or a field with a default"""
        x = self.f(field)
        if default is None:
            h = self.cx.has(x)
            self.facts += [(n + '-set-iff-there', h == self.has(n, ty)), (n, IMP(self.has(n, ty), self.cx.val(x) == self.v(n, ty)))]
        else:
            self.facts.append((n, x == z3.If(self.has(n, ty), self.v(n, ty), default)))

    def enum(self, n, field, ety, table, need=True):
        vals = self.ex.tu.enumty[ety]
        if need:
            self.need.append(OR(*[self.text(n, s) for s in table]))
        for s, e in table.items():
            self.facts.append(('%s-%s' % (n, s), IMP(self.text(n, s), self.f(field) == vals[e])))


def _bp(q):
    E = q.ex.lit('')
    q.req('filename', STR, 'bp_.filename')
    q.enum('action', 'bp_action_', 'hgdb::BreakPointRequest::action', {'add': 'add', 'remove': 'remove'})
    q.need.append(OR(q.text('action', 'remove'), q.has('line_num', U32)))
    q.opt('line_num', U32, 'bp_.line_num', z3.IntVal(0))
    q.opt('column_num', U32, 'bp_.column_num', z3.IntVal(0))
    q.opt('condition', STR, 'bp_.condition', E)


def _bpid(q):
    q.req('id', U32, 'bp_.id')
    q.enum('action', 'bp_action_', 'hgdb::BreakPointRequest::action', {'add': 'add', 'remove': 'remove'})
    q.opt('condition', STR, 'bp_.condition', q.ex.lit(''))


def _mapping(q, need):
    there = AND(J.has(q.ex, q.d, 'path-mapping'), textmap(q.ex, J.mem(q.ex, q.d, 'path-mapping')))
    v = q.f('path_mapping_')
    if need:
        q.need.append(there)
    q.facts += [('mapping-' + a, IMP(there, p)) for a, p in as_map(q.ex, J.mem(q.ex, q.d, 'path-mapping'), v, None)]
    if not need:
        s = z3.Const('s', q.ex.Str)
        q.facts.append(('no-mapping', IMP(NOT(there), fa([s], NOT(q.cx.has(v, s)), q.cx.has(v, s)))))


def _conn(q):
    q.req('db_filename', STR, 'db_filename_')
    _mapping(q, False)


def _loc(q):
    q.req('filename', STR, 'filename_')
    q.opt('line_num', U64, 'line_num_')
    q.opt('column_num', U64, 'column_num_')


def _cmd(q):
    t = ('continue', 'step_over', 'stop', 'step_back', 'reverse_continue', 'jump')
    q.enum('command', 'command_type_', 'hgdb::CommandRequest::CommandType', {s: s + '_' if s == 'continue' else s for s in t})
    q.need.append(OR(NOT(q.text('command', 'jump')), q.has('time', U64)))
    q.facts.append(('time', IMP(q.text('command', 'jump'), q.f('time_') == q.v('time', U64))))


def _info(q):
    q.enum('command', 'command_type_', 'hgdb::DebuggerInformationRequest::CommandType', {s: s for s in ('breakpoints', 'status', 'options', 'design', 'filename')})


def _eval(q):
    q.req('expression', STR, 'expression_')
    q.opt('breakpoint_id', U32, 'breakpoint_id_')
    q.opt('instance_id', U32, 'instance_id_')
    q.opt('namespace_id', U64, 'namespace_id_')


def _mon(q):
    q.enum('action_type', 'action_type_', 'hgdb::MonitorRequest::ActionType', {'add': 'add', 'remove': 'remove'})
    add = q.text('action_type', 'add')
    types = {s: s for s in ('breakpoint', 'clock_edge', 'changed')}
    q.need.append(OR(NOT(add), AND(q.has('var_name', STR), OR(*[q.text('monitor_type', s) for s in types]))))
    q.need.append(OR(add, q.has('track_id', U64)))
    q.opt('namespace_id', U64, 'namespace_id_')
    n = len(q.facts)
    q.enum('monitor_type', 'monitor_type_', 'hgdb::MonitorRequest::MonitorType', types, need=False)
    q.facts.append(('var_name', q.f('var_name_') == q.v('var_name', STR)))
    q.opt('instance_id', U64, 'instance_id_')
    q.opt('breakpoint_id', U64, 'breakpoint_id_')
    q.facts[n:] = [(a, IMP(add, p)) for a, p in q.facts[n:]]
    q.facts.append(('track_id', IMP(NOT(add), q.f('track_id_') == q.v('track_id', U64))))


def _set(q):
    q.req('var_name', STR, 'var_name_')
    q.req('value', I64, 'value_')
    for m in ('instance_id', 'breakpoint_id', 'namespace_id'):
        q.opt(m, U64, m + '_')


def _data(q):
    q.enum('action', 'action_', 'hgdb::DataBreakpointRequest::Action', {s: s for s in ('add', 'clear', 'remove', 'info')})
    clear, remove = q.text('action', 'clear'), q.text('action', 'remove')
    q.need.append(OR(clear, q.has('breakpoint-id', U64)))
    q.need.append(OR(clear, remove, q.has('var_name', STR)))
    q.opt('namespace_id', U64, 'namespace_id_')
    q.facts.append(('breakpoint-id', IMP(NOT(clear), q.f('breakpoint_id_') == q.v('breakpoint-id', U64))))
    full = AND(NOT(clear), NOT(remove))
    q.facts.append(('var_name', IMP(full, q.f('variable_name_') == q.v('var_name', STR))))
    q.facts.append(('condition', IMP(full, q.f('condition_') == z3.If(q.has('condition', STR), q.v('condition', STR), q.ex.lit('')))))


def _opts(q):
    ex = q.ex
    i = I('i')
    k, x, e = kv(ex, q.d, i)
    n = ex.acc(J.members(ex, q.d), 0)
    q.need += [J.isobj(ex, q.d), fa([i], IMP(AND(i >= 0, i < n), OR(*[J.is_(ex, x, t) for t in (BOOL, I64, STR)])), e)]
    for f, t in OPTS:
        q.facts += [(f + a, p) for a, p in as_opts(ex, q.d, q.f(f), t, n)]


OPTS = (('bool_values_', BOOL), ('int_values_', I64), ('str_values_', STR))


def as_opts(ex, v, m, ty, n):
    """m holds the members among the first n that have type ty"""
    i, j, s = I('i'), I('j'), z3.Const('s', ex.Str)
    key = lambda i: J.get(ex, kv(ex, v, i)[0], STR)
    x = lambda i: kv(ex, v, i)[1]
    hs = lambda k: z3.Select(ex.acc(m, 0), k)
    first = fa([j], IMP(AND(j >= 0, j < i, J.is_(ex, x(j), ty)), key(j) != key(i)))
    mine = lambda i: AND(i >= 0, i < n, J.is_(ex, x(i), ty))
    return [('names', fa([i], IMP(mine(i), hs(key(i))), kv(ex, v, i)[2])),
            ('values', fa([i], IMP(AND(mine(i), first), z3.Select(ex.acc(m, 1), key(i)) == J.get(ex, x(i), ty)), kv(ex, v, i)[2])),
            ('nothing-else', fa([s], IMP(hs(s), z3.Exists([i], AND(mine(i), key(i) == s))), hs(s)))]


def _opt_loop(L):
    ex = L.ex
    cx = Cx(ex, L.st, L.old, L.this, L.args)
    d = J.parse(ex, cx.arg(0))
    i = I('i')
    k, x, e = kv(ex, d, i)
    out = [('kinds-so-far', fa([i], IMP(AND(i >= 0, i < L.idx), OR(*[J.is_(ex, x, t) for t in (BOOL, I64, STR)])), e)),
           ('no-error', cx.my('status_code_') == SUCCESS)]
    for f, t in OPTS:
        out += [(f + a, p) for a, p in as_opts(ex, d, cx.my(f), t, L.idx)]
    return out


PAYLOADS = [Payload('BreakPointRequest', _bp), Payload('BreakPointIDRequest', _bpid), Payload('ConnectionRequest', _conn, ['path_mapping_']),
            Payload('BreakPointLocationRequest', _loc), Payload('CommandRequest', _cmd), Payload('DebuggerInformationRequest', _info),
            Payload('PathMappingRequest', lambda q: _mapping(q, True)), Payload('EvaluationRequest', _eval), Payload('MonitorRequest', _mon),
            Payload('SetValueRequest', _set), Payload('DataBreakpointRequest', _data, ['condition_']),
            Payload('OptionChangeRequest', _opts, [f for f, t in OPTS], [Loop(_opt_loop)])]

class Dispatch(Assumed):
    """a virtual call of parse_payload: one of the overrides above, or nothing for an ErrorRequest; records the text handed over"""
    name = 'hgdb::Request::parse_payload'

    def apply(self, ex, st, this, args, n):
        r = this.ref
        err = z3.Select(ex.heap(st, '#dyn', U32), r) == class_id('hgdb::ErrorRequest')
        for f in ('status_code_', 'error_reason_'):
            ty = ex.fieldty(RQ, f)
            pl = HeapField(r, RQ, f, ty)
            pl.set(ex, st, z3.If(err, pl.get(ex, st), ex.newval(st, 'parsed_' + f, ty)))
        st.heap['#payload'] = z3.Store(ex.heap(st, '#payload', STR), r, ex.term(st, args[0]))
        return [(st, Val(z3.BoolVal(True), ('void',)))]


REQUESTS = {'breakpoint': 'BreakPointRequest', 'breakpoint-id': 'BreakPointIDRequest', 'connection': 'ConnectionRequest', 'bp-location': 'BreakPointLocationRequest',
            'command': 'CommandRequest', 'debugger-info': 'DebuggerInformationRequest', 'path-mapping': 'PathMappingRequest', 'evaluation': 'EvaluationRequest',
            'option-change': 'OptionChangeRequest', 'monitor': 'MonitorRequest', 'set-value': 'SetValueRequest', 'data-breakpoint': 'DataBreakpointRequest'}


class ParseRequest(Contract):
    """text that is not a request is an error; otherwise the payload is read by the class its type names; the token is kept either way"""
    name = 'hgdb::Request::parse_request'

    def modifies(self, cx):
        return [('alloc',)]

    def post(self, cx):
        ex = cx.ex
        d = J.parse(ex, cx.arg(0))
        r = cx.ret.t
        dyn = z3.Select(ex.heap(cx.st, '#dyn', U32), r)
        q = Q(cx, d)
        isreq = AND(NOT(J.bad(ex, d)), q.has('request', BOOL), q.v('request', BOOL), q.has('type', STR), J.has(ex, d, 'payload'))
        known = AND(isreq, OR(*[q.text('type', s) for s in REQUESTS]))
        tok = AND(NOT(J.bad(ex, d)), q.has('token', STR))
        out = [('some-request', r != 0),
               ('token', cx.fld(r, RQ, 'token_') == z3.If(tok, q.v('token', STR), ex.lit(''))),
               ('error-class', IMP(NOT(known), dyn == class_id('hgdb::ErrorRequest'))),
               ('error-status', IMP(NOT(known), cx.fld(r, RQ, 'status_code_') == ERROR))]
        for s, c in REQUESTS.items():
            out.append(('class-of-' + s, IMP(AND(isreq, q.text('type', s)), dyn == class_id('hgdb::' + c))))
        p = z3.Select(ex.heap(cx.st, '#payload', STR), r)
        out.append(('payload', IMP(known, J.parse(ex, p) == J.mem(ex, d, 'payload'))))
        return out


# ---------------------------------------------------------------- responses
RS = 'hgdb::Response'
TYPES = {'error': 'error', 'breakpoint': 'breakpoint', 'breakpoint_id': 'breakpoint-id', 'connection': 'connection', 'bp_location': 'bp-location',
         'command': 'command', 'debugger_info': 'debugger-info', 'path_mapping': 'path-mapping', 'evaluation': 'evaluation',
         'option_change': 'option-change', 'monitor': 'monitor', 'set_value': 'set-value', 'symbol': 'symbol', 'data_breakpoint': 'data-breakpoint'}
OUT = {('int', 32, False): U64, ('int', 64, False): U64, ('int', 64, True): I64, STR: STR, BOOL: BOOL}


def one_of(ex, v, table, r):
    """r is the text of the enumerator v"""
    return AND(*[IMP(v == e, r == ex.lit(t)) for e, t in table])


class TypeText(Contract):
    """the documented name of each type"""
    name = 'hgdb::to_string@RequestType'
    sig = 'RequestType'

    def post(self, cx):
        e = cx.ex.tu.enumty['hgdb::RequestType']
        return [(n, IMP(cx.arg(0) == e[n], cx.ret.t == cx.ex.lit(t))) for n, t in TYPES.items()]


class CommandText(Contract):
    name = 'hgdb::DebuggerInformationResponse::get_command_str'

    def post(self, cx):
        e = cx.ex.tu.enumty['hgdb::DebuggerInformationRequest::CommandType']
        return [(n, IMP(cx.my('command_type_') == e[n], cx.ret.t == cx.ex.lit(n))) for n in ('breakpoints', 'status', 'options', 'design', 'filename')]


class TypeOf(Contract):
    def __init__(self, cls, text):
        Contract.__init__(self, name='hgdb::%s::type' % cls, text=text)

    def post(self, cx):
        return [('type', cx.ret.t == cx.ex.lit(self.text))]


class ReqTypeOf(Contract):
    def __init__(self, cls, en):
        Contract.__init__(self, name='hgdb::%s::type' % cls, en=en)

    def post(self, cx):
        return [('type', cx.ret.t == cx.ex.tu.enumty['hgdb::RequestType'][self.en])]


RESPONSES = {'GenericResponse': 'generic', 'BreakPointLocationResponse': 'bp-location', 'BreakPointResponse': 'breakpoint', 'DebuggerInformationResponse': 'debugger-info',
             'EvaluationResponse': 'evaluation', 'MonitorResponse': 'monitor'}
TYPEOFS = [TypeOf(c, t) for c, t in RESPONSES.items()] + [ReqTypeOf(c, n.replace('-', '_')) for n, c in REQUESTS.items()] + [ReqTypeOf('ErrorRequest', 'error'), ReqTypeOf('SymbolRequest', 'symbol')]


class Obj:
    """a JSON object described member by member"""

    def __init__(self, ex, j, vs=(), given=None):
        self.ex, self.j, self.vs, self.given = ex, j, list(vs), given
        self.names, self.facts = [], []

    def wrap(self, f, *p):
        if self.given is not None:
            f = IMP(self.given, f)
        return fa(self.vs, f, *p) if self.vs else f

    def any(self, name, cond=None):
        self.names.append((name, cond))
        return J.mem(self.ex, self.j, name)

    def put(self, name, v, ty, cond=None):
        ex = self.ex
        ty = OUT[ty]
        m = self.any(name, cond)
        f = AND(J.has(ex, self.j, name), J.is_(ex, m, ty), J.get(ex, m, ty) == v)
        self.facts.append((name, self.wrap(f if cond is None else IMP(cond, f))))

    def sub(self, name, f, cond=None):
        """member whose value satisfies f"""
        g = AND(J.has(self.ex, self.j, name), f)
        self.any(name, cond)
        self.facts.append((name, self.wrap(g if cond is None else IMP(cond, g))))

    def done(self, others=None):
        ex = self.ex
        s = z3.Const('s', ex.Str)
        cs = [s == ex.lit(n) if c is None else AND(c, s == ex.lit(n)) for n, c in self.names]
        if others is not None:
            cs.append(others(s))
        h = J.has_(ex, self.j, s)
        f = AND(J.isobj(ex, self.j), fa([s], h == OR(*cs), h))
        if self.vs:
            f = AND(self.wrap(J.isobj(ex, self.j)), fa(self.vs + [s], (h == OR(*cs)) if self.given is None else IMP(self.given, h == OR(*cs)), h))
        return self.facts + [('nothing-else', f)]


class Str(Contract):
    """the text is a JSON object with the documented members"""

    def __init__(self, cls, payload, loops=()):
        Contract.__init__(self, name='hgdb::%s::str' % cls, payload=payload, loops=list(loops))

    def post(self, cx):
        ex = cx.ex
        d = J.parse(ex, cx.ret.t)
        o = Obj(ex, d)
        my = cx.my
        o.put('request', z3.BoolVal(False), BOOL)
        o.put('type', ex.uf('pure:hgdb::Response::type', z3.IntSort(), ex.Str)(cx.thisref), STR)
        o.put('status', z3.If(my('status_') == SUCCESS, ex.lit('success'), ex.lit('error')), STR)
        o.put('token', my('token_'), STR, my('token_') != ex.lit(''))
        p = o.any('payload')
        return [('is-JSON', NOT(J.bad(ex, d)))] + o.done() + [('payload-' + a, b) for a, b in self.payload(cx, p)]


def fields_of(ex, ref, own, st, *fs):
    return [HeapField(ref, own, f, ex.fieldty(own, f)).get(ex, st) for f in fs]


def _evaluation(cx, p):
    o = Obj(cx.ex, p)
    o.put('result', cx.my('result_'), STR)
    return o.done()


def _monitor(cx, p):
    o = Obj(cx.ex, p)
    o.put('track_id', cx.my('track_id_'), U64)
    o.put('namespace_id', cx.my('namespace_id_'), U64)
    o.put('value', cx.my('value_'), STR)
    return o.done()


def list_of(ex, a, n, each):
    """a is an array of n elements, described by each(element, i)"""
    i = I('i')
    l = J.elems(ex, a)
    e = z3.Select(ex.acc(l, 1), i)
    o = Obj(ex, e, [i], AND(i >= 0, i < n))
    others = each(o, i)
    return [('list', AND(J.isarr(ex, a), ex.acc(l, 0) == n))] + [('element-' + x, y) for x, y in o.done(others)]


def ptr_field(ex, st, ref, own, f):
    for o, nme, t in ex.fields(own):
        if nme == f:
            return z3.Select(ex.heap(st, o + '.' + f, t), ref)
    raise Unsupported('field %s of %s' % (f, own))


def bp_list(ex, st, bps):
    def each(o, i):
        b = z3.Select(ex.acc(bps, 1), i)
        for f, t in (('id', U32), ('filename', STR), ('line_num', U32), ('column_num', U32)):
            o.put(f, ptr_field(ex, st, b, 'hgdb::BreakPoint', f), t)
    return each


def _locations(cx, p):
    bps = cx.my('bps_')
    return list_of(cx.ex, p, cx.ex.acc(bps, 0), bp_list(cx.ex, cx.st, bps))


def _loc_loop(L):
    cx = Cx(L.ex, L.st, L.old, L.this, L.args)
    return list_of(L.ex, L.var('values'), L.idx, bp_list(L.ex, L.st, cx.my('bps_')))


def live(cx, v):
    """every pointer of the list is an object"""
    i = I('i')
    e = z3.Select(cx.ex.acc(v, 1), i)
    return fa([i], IMP(AND(i >= 0, i < cx.ex.acc(v, 0)), AND(e > 0, z3.Select(cx.ex.allocd(cx.st), e))), e)


class LocStr(Str):
    def pre(self, cx):
        return [('breakpoints', live(cx, cx.my('bps_')))]


def same_as_map(ex, j, m, ty, seen=None):
    """j is an object with a member for every entry of m (among those seen), of that type and value, and no others"""
    s = z3.Const('name_' + T.key(ty), ex.Str)
    h = J.has_(ex, j, s)
    x = J.mem(ex, j, s)
    there = z3.Select(ex.acc(m, 0), s)
    if seen is not None:
        there = AND(there, z3.Select(seen, s))
    v = z3.Select(ex.acc(m, 1), s)
    out = [('object', J.isobj(ex, j)), ('names', fa([s], h == there, h, *([] if seen is None else [z3.Select(seen, s)])))]
    if ty[0] != 'map':
        return out + [('values', fa([s], IMP(there, AND(J.is_(ex, x, OUT[ty]), J.get(ex, x, OUT[ty]) == v)), x))]
    return out + [('values-' + a, fa([s], IMP(there, p))) for a, p in same_as_map(ex, x, v, ty[2])]


def grown(ex, old, new, k, f):
    """new is old with one more member k (unless it had one), which satisfies f"""
    s = z3.Const('s', ex.Str)
    h = lambda j: J.has_(ex, j, s)
    return [('object', J.isobj(ex, new)), ('names', fa([s], h(new) == OR(h(old), s == k), h(new), h(old))),
            ('others', fa([s], IMP(h(old), J.mem(ex, new, s) == J.mem(ex, old, s)), J.mem(ex, new, s)))] + \
        [('member-' + a, IMP(NOT(J.has_(ex, old, k)), p)) for a, p in f(J.mem(ex, new, k))]


class SetMap(Contract):
    """adds a member: an object with one member per entry of the map"""

    def __init__(self, sig, ty):
        Contract.__init__(self, name='hgdb::set_member@' + sig, sig=sig, ty=ty)
        self.loops = [Loop(lambda L: same_as_map(L.ex, L.var('v'), Cx(L.ex, L.st, L.old, L.this, L.args).arg(3), ty[2], L.visited))]

    def pre(self, cx):
        return [('object', J.isobj(cx.ex, cx.arg(0)))]

    def modifies(self, cx):
        return [('place', cx.args[0])]

    def post(self, cx):
        ex = cx.ex
        m = cx.arg(3)
        return grown(ex, cx.arg(0, cx.old), cx.arg(0), cx.arg(2), lambda v: same_as_map(ex, v, m, self.ty[2]))


BS = 'std::basic_string<char>'
NUMS = ('map', STR, U32)
MAPS = [SetMap('const char *, const std::map<%s, %s> &' % (BS, BS), MAP), SetMap('const char *, const std::map<%s, %s, hgdb::BreakPointResponse::LocalVarNameCompare> &' % (BS, BS), MAP),
        SetMap('const char *, const std::map<%s, unsigned int> &' % BS, NUMS), SetMap('const char *, const std::map<%s, std::map<%s, unsigned int>> &' % (BS, BS), ('map', STR, NUMS))]

STRS = [Str('EvaluationResponse', _evaluation), Str('MonitorResponse', _monitor), LocStr('BreakPointLocationResponse', _locations, [Loop(_loc_loop)])]


def stol(ex, s):
    return ex.uf('pure:hgdb::util::stol', ex.Str, ex.sort(('opt', I64)))(s)


def isnum(ex, s):
    """all digits, and small enough"""
    return AND(ex.uf('all-digits', ex.Str, z3.BoolSort())(s), ex.acc(stol(ex, s), 0))


def all_digits(ex, st, vs, n):
    a, b, f = [ex.rv(st, v) for v in vs]
    c = getattr(a, 'cont', None) or getattr(a, 'place', None)
    if not (isinstance(f, PyObj) and f.kind == 'func' and f.decl.get('name') == 'isdigit' and c is not None and c.ty == STR):
        raise Unsupported('all_of %s %s' % (vars(a), f))
    return [(st, Val(ex.uf('all-digits', ex.Str, z3.BoolSort())(c.get(ex, st)), BOOL))]


def same_options(ex, j, m, seen=None):
    s = z3.Const('opt', ex.Str)
    h = J.has_(ex, j, s)
    x = J.mem(ex, j, s)
    there = z3.Select(ex.acc(m, 0), s)
    if seen is not None:
        there = AND(there, z3.Select(seen, s))
    v = z3.Select(ex.acc(m, 1), s)
    tf = OR(v == ex.lit('true'), v == ex.lit('false'))
    num = AND(NOT(tf), isnum(ex, v))
    b = lambda c, t, w: IMP(c, AND(J.is_(ex, x, t), J.get(ex, x, t) == w))
    return [('object', J.isobj(ex, j)), ('names', fa([s], h == there, h, *([] if seen is None else [z3.Select(seen, s)]))),
            ('truth-values', fa([s], IMP(there, b(tf, BOOL, v == ex.lit('true'))), x)),
            ('numbers', fa([s], IMP(there, b(num, I64, ex.acc(stol(ex, v), 1))), x)),
            ('texts', fa([s], IMP(there, b(NOT(OR(tf, isnum(ex, v))), STR, v)), x))]


def dbg_list(ex, st, bps):
    def each(o, i):
        b = z3.Select(ex.acc(bps, 1), i)
        g = lambda f: ptr_field(ex, st, b, 'hgdb::DebugBreakPoint', f)
        for f, t in (('id', U32), ('filename', STR), ('line_num', U32), ('column_num', U32)):
            o.put(f, g(f), t)
        o.put('var', g('target_rtl_var_name'), STR, g('target_rtl_var_name') != ex.lit(''))
        o.put('type', g('type'), U32)
    return each


def text_list(ex, a, v, n):
    i = I('i')
    l = J.elems(ex, a)
    e = z3.Select(ex.acc(l, 1), i)
    return [('list', AND(J.isarr(ex, a), ex.acc(l, 0) == n)),
            ('elements', fa([i], IMP(AND(i >= 0, i < n), AND(J.is_(ex, e, STR), J.get(ex, e, STR) == z3.Select(ex.acc(v, 1), i))), e))]


def _debugger_info(cx, p):
    ex = cx.ex
    k = ex.tu.enumty['hgdb::DebuggerInformationRequest::CommandType']
    my = cx.my
    n = ex.acc
    out = []
    for cmd, member, parts in (('breakpoints', 'breakpoints', lambda m: list_of(ex, m, n(my('bps_'), 0), dbg_list(ex, cx.st, my('bps_')))),
                               ('status', 'status', lambda m: [('text', AND(J.is_(ex, m, STR), J.get(ex, m, STR) == my('status_str_')))]),
                               ('options', 'options', lambda m: same_options(ex, m, my('options_'))),
                               ('design', 'design', lambda m: same_as_map(ex, m, my('design_'), NUMS)),
                               ('filename', 'filenames', lambda m: text_list(ex, m, my('filenames_'), n(my('filenames_'), 0)))):
        o = Obj(ex, p)
        o.put('command', ex.lit(cmd), STR)
        m = o.any(member)
        out += [('%s-%s' % (cmd, a), IMP(my('command_type_') == k[cmd], b)) for a, b in o.done() + parts(m)]
    return out


def _dbg_loop(L):
    cx = Cx(L.ex, L.st, L.old, L.this, L.args)
    return list_of(L.ex, L.var('array'), L.idx, dbg_list(L.ex, L.st, cx.my('bps_')))


def _opts_out(L):
    cx = Cx(L.ex, L.st, L.old, L.this, L.args)
    return same_options(L.ex, L.var('v'), cx.my('options_'), L.visited)


def _names_loop(L):
    cx = Cx(L.ex, L.st, L.old, L.this, L.args)
    return text_list(L.ex, L.var('array'), cx.my('filenames_'), L.idx)


class DbgStr(LocStr):
    def pre(self, cx):
        ex = cx.ex
        v = cx.my('bps_')
        i = I('i')
        e = z3.Select(ex.acc(v, 1), i)
        t = ptr_field(ex, cx.st, e, 'hgdb::DebugBreakPoint', 'type')
        return LocStr.pre(self, cx) + [('kinds-are-flags', fa([i], IMP(AND(i >= 0, i < ex.acc(v, 0)), AND(t >= 0, t < 8)), e))]


def scope_list(ex, scopes):
    rec = ('rec', 'hgdb::BreakPointResponse::Scope')
    fs = [f for own, f, t in ex.fields(rec[1])]
    def each(o, i):
        b = z3.Select(ex.acc(scopes, 1), i)
        g = lambda f: ex.acc(b, fs.index(f))
        for f, t in (('instance_id', U64), ('instance_name', STR), ('breakpoint_id', U64), ('namespace_id', U64)):
            o.put(f, g(f), t)
        for m, f in (('local', 'local_values'), ('generator', 'generator_values')):
            o.sub(m, AND(*[p for _, p in same_as_map(ex, J.mem(ex, o.j, m), g(f), STR)]))
        o.put('bp_type', g('bp_type'), STR, g('bp_type') != ex.lit(''))
    return each


def _stopped(cx, p):
    ex = cx.ex
    o = Obj(ex, p)
    o.put('time', cx.my('time_'), U64)
    o.put('filename', cx.my('filename_'), STR)
    o.put('line_num', cx.my('line_num_'), U64)
    o.put('column_num', cx.my('column_num_'), U64)
    m = o.any('instances')
    sc = cx.my('scopes_')
    return o.done() + list_of(ex, m, ex.acc(sc, 0), scope_list(ex, sc))


def _scope_loop(L):
    cx = Cx(L.ex, L.st, L.old, L.this, L.args)
    return list_of(L.ex, L.var('instances'), L.idx, scope_list(L.ex, cx.my('scopes_')))


VALUES = (('bool_values_', BOOL), ('int_values_', I64), ('string_values_', STR))


def generic(cx, p, seen=(None, None, None)):
    """request type, reason if an error, then the values that were set; the first of equal names counts"""
    ex = cx.ex
    o = Obj(ex, p)
    err = cx.my('status_') == ERROR
    o.put('request-type', cx.my('request_type_'), STR)
    o.put('reason', cx.my('reason_'), STR, err)
    s = z3.Const('s', ex.Str)
    header = lambda s: OR(s == ex.lit('request-type'), AND(err, s == ex.lit('reason')))
    def there(k, s):
        m = z3.Select(ex.acc(cx.my(VALUES[k][0]), 0), s)
        return m if seen[k] is None else AND(m, z3.Select(seen[k], s))
    x = J.mem(ex, p, s)
    out = o.done(lambda s: OR(*[there(k, s) for k in range(3)]))
    for k, (f, t) in enumerate(VALUES):
        before = OR(header(s), *[there(l, s) for l in range(k)])
        out.append((f, fa([s], IMP(AND(there(k, s), NOT(before)), AND(J.is_(ex, x, t), J.get(ex, x, t) == z3.Select(ex.acc(cx.my(f), 1), s))), x)))
    return out


def _gen_loop(k):
    def inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        none = z3.K(L.ex.Str, z3.BoolVal(False))
        return generic(cx, L.var('payload'), tuple(None if l < k else L.visited if l == k else none for l in range(3)))
    return Loop(inv)


STRS += [Str('BreakPointResponse', _stopped, [Loop(_scope_loop)]), DbgStr('DebuggerInformationResponse', _debugger_info, [Loop(_dbg_loop), Loop(_opts_out), Loop(_names_loop)]),
         Str('GenericResponse', generic, [_gen_loop(k) for k in range(3)])]


class GenericOf(Contract):
    """a response made for a request: the name of its type, the reason and, from a request, its token"""
    name = 'hgdb::GenericResponse::GenericResponse@RequestType'

    def modifies(self, cx):
        return [('field', cx.thisref, 'hgdb::GenericResponse', f) for own, f, t in cx.ex.fields('hgdb::GenericResponse')]

    def kind_(self, cx):
        return cx.arg(1)

    def post(self, cx):
        e = cx.ex.tu.enumty['hgdb::RequestType']
        s = z3.Const('s', cx.ex.Str)
        return [('status', cx.my('status_') == cx.arg(0)), ('reason', cx.my('reason_') == cx.arg(2, cx.old))] + \
            [('type-' + n, IMP(self.kind_(cx) == e[n], cx.my('request_type_') == cx.ex.lit(t))) for n, t in TYPES.items()] + \
            [('no-' + f, fa([s], NOT(cx.has(cx.my(f), s)), cx.has(cx.my(f), s))) for f, t in VALUES]


class GenericFor(GenericOf):
    name = 'hgdb::GenericResponse::GenericResponse@Request &'

    def kind_(self, cx):
        r = cx.args[1].ref
        return cx.ex.uf('pure:hgdb::Request::type', z3.IntSort(), z3.IntSort())(r)

    def post(self, cx):
        return GenericOf.post(self, cx) + [('token', cx.my('token_') == cx.fld(cx.args[1].ref, RQ, 'token_'))]


class ScopeOf(Contract):
    name = 'hgdb::BreakPointResponse::Scope::Scope'
    nparams = 4

    def modifies(self, cx):
        c = 'hgdb::BreakPointResponse::Scope'
        return [('field', cx.thisref, c, f) for own, f, t in cx.ex.fields(c)]

    def post(self, cx):
        s = z3.Const('s', cx.ex.Str)
        return [(f, cx.my(f) == cx.arg(i, cx.old)) for i, f in enumerate(('instance_id', 'instance_name', 'breakpoint_id', 'namespace_id'))] + \
            [('no-' + f, fa([s], NOT(cx.has(cx.my(f), s)), cx.has(cx.my(f), s))) for f in ('local_values', 'generator_values')] + [('no-type', cx.my('bp_type') == cx.ex.lit(''))]


class Made(Contract):
    def __init__(self, cls, fs, sig=None, cmd=None):
        Contract.__init__(self, name='hgdb::%s::%s%s' % (cls, cls, '@' + sig if sig else ''), cls='hgdb::' + cls, fs=fs, cmd=cmd)

    def modifies(self, cx):
        return [('field', cx.thisref, self.cls, f) for own, f, t in cx.ex.fields(self.cls)]

    def post(self, cx):
        out = [(f, cx.my(f) == cx.arg(i, cx.old)) for i, f in enumerate(self.fs)] + [('status', cx.my('status_') == SUCCESS), ('token', cx.my('token_') == cx.ex.lit(''))]
        if self.cmd:
            out.append(('command', cx.my('command_type_') == cx.ex.tu.enumty['hgdb::DebuggerInformationRequest::CommandType'][self.cmd]))
        return out


DI = 'DebuggerInformationResponse'
CTORS = [GenericOf(), GenericFor(), ScopeOf(), Made('EvaluationResponse', ['result_']), Made('MonitorResponse', ['track_id_', 'namespace_id_', 'value_']),
         Made('BreakPointResponse', ['time_', 'filename_', 'line_num_', 'column_num_']), Made('BreakPointLocationResponse', ['bps_'], 'vector'),
         Made(DI, ['status_str_'], '(std::string)', 'status'), Made(DI, ['bps_'], 'DebugBreakPoint', 'breakpoints'), Made(DI, ['options_'], '(std::map<std::string, std::string>)', 'options'),
         Made(DI, ['design_'], 'uint32_t', 'design'), Made(DI, ['filenames_'], 'vector<std::string>', 'filename')]
RTYPE = Pure(name='hgdb::Response::type')

CONTRACTS = GM + PAYLOADS + [ParseRequest(), TypeText(), CommandText()] + TYPEOFS + MAPS + STRS + CTORS
SPECS = [Dispatch(), RTYPE, Pure(name='hgdb::Request::type'), Pure(name='hgdb::util::stol')]
HOOKS = dict(J.HOOKS, **{'#dyn': True, '#functions': dict(J.HOOKS['#functions'], all_of=all_digits)})
