"""Assumed behaviour of rapidjson: values as terms of an abstract sort, read by type tests, getters and look-ups."""
import re
import z3
from hvc.contract import Contract, Cx
from hvc.sym import Val, Temp, Local, Place, Unsupported, PyObj
from hvc import types as T
from .common import *

JSON = T.JSON
U32, U64, I64, BOOL, STR = ('int', 32, False), ('int', 64, False), ('int', 64, True), ('bool',), ('str',)
I32 = ('int', 32, True)
TESTS = {'IsString': STR, 'IsBool': BOOL, 'IsInt': I32, 'IsUint': U32, 'IsUint64': U64, 'IsInt64': I64}
GETS = {'GetString': STR, 'GetBool': BOOL, 'GetInt': I32, 'GetUint': U32, 'GetUint64': U64, 'GetInt64': I64}
PAIRS = ('vec', ('tup', JSON, JSON))


def parse(ex, s):
    return ex.uf('json:parse', ex.Str, ex.sort(JSON))(s)


def bad(ex, j):
    return ex.uf('json:parse-error', ex.sort(JSON), z3.BoolSort())(j)


def isobj(ex, j):
    return ex.uf('json:is-object', ex.sort(JSON), z3.BoolSort())(j)


def isarr(ex, j):
    return ex.uf('json:is-array', ex.sort(JSON), z3.BoolSort())(j)


def has(ex, j, name):
    if isinstance(name, str):
        name = ex.lit(name)
    return z3.And(isobj(ex, j), ex.uf('json:has-member', ex.sort(JSON), ex.Str, z3.BoolSort())(j, name))


def mem(ex, j, name):
    if isinstance(name, str):
        name = ex.lit(name)
    return ex.uf('json:member', ex.sort(JSON), ex.Str, ex.sort(JSON))(j, name)


def is_(ex, j, ty):
    return ex.uf('json:is-' + T.key(ty), ex.sort(JSON), z3.BoolSort())(j)


def get(ex, j, ty):
    return ex.uf('json:get-' + T.key(ty), ex.sort(JSON), ex.sort(ty))(j)


def members(ex, j):
    return ex.uf('json:members', ex.sort(JSON), ex.sort(PAIRS))(j)


def elems(ex, j):
    return ex.uf('json:elements', ex.sort(JSON), ex.sort(('vec', JSON)))(j)


def typed(ex, j, name, ty):
    """member name is there and is a ty"""
    return z3.And(has(ex, j, name), is_(ex, mem(ex, j, name), ty))


def value(ex, j, name, ty):
    return get(ex, mem(ex, j, name), ty)


def targ(ex, n, name):
    """T of Is<T>/Get<T>: the source says <T>, and the function being executed returns optional<T>"""
    me = n['inner'][0]
    e = me['range']['end']
    txt = open(ex.tu.src, 'rb').read()
    b = me['range']['begin']['offset']
    t = txt[b:e['offset'] + e.get('tokLen', 1)].decode(errors='replace')
    if not re.search(r'\b%s\s*<\s*T\s*>$' % name, t):
        raise Unsupported('%s with other template arguments: %s' % (name, t))
    r = ex.retty
    r = r[0] if isinstance(r[0], tuple) else r
    if r[0] != 'opt':
        raise Unsupported(name + '<T> outside get_member')
    return r[1]


def kinds_disjoint(ex, st, j):
    ints = OR(*[is_(ex, j, t) for t in (U32, U64, I64)])
    st.pc.append(AND(NOT(AND(is_(ex, j, STR), is_(ex, j, BOOL))), NOT(AND(ints, OR(is_(ex, j, STR), is_(ex, j, BOOL)))),
                     NOT(AND(OR(isobj(ex, j), isarr(ex, j)), OR(ints, is_(ex, j, STR), is_(ex, j, BOOL)))), NOT(AND(isobj(ex, j), isarr(ex, j)))))


def methods(ex, n, name, st, pl, ty, args):
    if ty == STR and name == 'GetString':          # of a string buffer
        return [(st, Val(pl.get(ex, st), STR))]
    if ty != JSON:
        return None
    out = []
    for s, vs in ex.evs(args, st):
        if s.thrown:
            out.append((s, None))
            continue
        j = pl.get(ex, s)
        if name == 'Parse':
            pl.set(ex, s, parse(ex, ex.term(s, vs[0])))
            r = pl
        elif name == 'HasParseError':
            r = Val(bad(ex, j), BOOL)
        elif name == 'IsObject':
            r = Val(isobj(ex, j), BOOL)
        elif name == 'IsArray':
            r = Val(isarr(ex, j), BOOL)
        elif name in TESTS:
            kinds_disjoint(ex, s, j)
            if name == 'IsInt':
                v = get(ex, j, I64)
                s.pc.append(AND(is_(ex, j, I32) == AND(is_(ex, j, I64), v >= -2**31, v < 2**31), IMP(is_(ex, j, I32), get(ex, j, I32) == v)))
            r = Val(is_(ex, j, TESTS[name]), BOOL)
        elif name == 'Is':
            r = Val(is_(ex, j, targ(ex, n, 'Is')), BOOL)
        elif name in GETS or name == 'Get':
            t = GETS[name] if name in GETS else targ(ex, n, 'Get')
            ex.oblige(s, 'json-value-has-the-type-it-is-read-as', is_(ex, j, t), n)
            v = get(ex, j, t)
            ex.know(s, v, t)
            r = Val(v, t)
        elif name == 'HasMember':
            ex.oblige(s, 'json-member-of-an-object', isobj(ex, j), n)
            r = Val(has(ex, j, ex.term(s, vs[0])), BOOL)
        elif name == 'GetObject':
            ex.oblige(s, 'json-members-of-an-object', isobj(ex, j), n)
            v = members(ex, j)
            ex.know(s, v, PAIRS)
            i = z3.Int('i')
            e = z3.Select(ex.acc(v, 1), i)
            s.pc.append(fa([i], IMP(AND(i >= 0, i < ex.acc(v, 0)), is_(ex, ex.acc(e, 0), STR)), e))
            r = Temp(v, PAIRS)
        elif name == 'GetArray':
            ex.oblige(s, 'json-elements-of-an-array', isarr(ex, j), n)
            v = elems(ex, j)
            ex.know(s, v, ('vec', JSON))
            r = Temp(v, ('vec', JSON))
        elif name in ('GetAllocator',):
            r = PyObj('allocator')
        elif name == 'Move':
            r = pl
        elif name == 'AddMember':
            v = as_json(ex, s, vs[1])
            k = as_json(ex, s, vs[0])
            ex.oblige(s, 'json-member-of-an-object', isobj(ex, pl.get(ex, s)), n)
            ex.oblige(s, 'json-name-is-text', is_(ex, k, STR), n)
            add_member(ex, s, pl, k, v)
            r = pl
        elif name == 'PushBack':
            v = as_json(ex, s, vs[0])
            ex.oblige(s, 'json-element-of-an-array', isarr(ex, pl.get(ex, s)), n)
            push(ex, s, pl, v)
            r = pl
        elif name in ('SetString', 'SetUint64'):
            pl.set(ex, s, scalar(ex, s, ex.rv(s, vs[0]).t, STR if name == 'SetString' else U64))
            r = pl
        elif name == 'Accept':
            w = ex.rv(s, vs[0])
            if not (isinstance(w, PyObj) and w.kind == 'writer'):
                raise Unsupported('Accept %s %s' % (type(w), getattr(w,'ty',w)))
            t = text(ex, j)
            s.pc.append(AND(parse(ex, t) == j, NOT(bad(ex, parse(ex, t)))))
            w.buffer.set(ex, s, t)
            r = Val(z3.BoolVal(True), BOOL)
        else:
            raise Unsupported('rapidjson ' + name)
        out.append((s, r))
    return out


def operators(ex, n, op, st, vs, a):
    if not (isinstance(a, Val) and a.ty == JSON):
        return None
    if op == '[]':
        b = ex.rv(st, vs[1])
        if isinstance(b, Val) and b.ty[0] == 'str':
            ex.oblige(st, 'json-member-exists', has(ex, a.t, b.t), n)
            return [(st, Temp(mem(ex, a.t, b.t), JSON))]
        i = ex.convert(st, b, ('int', 64, False)).t
        v = elems(ex, a.t)
        ex.know(st, v, ('vec', JSON))
        ex.oblige(st, 'json-element-exists', AND(isarr(ex, a.t), i >= 0, i < ex.acc(v, 0)), n)
        return [(st, Temp(z3.Select(ex.acc(v, 1), i), JSON))]
    if op in ('==', '!='):
        b = ex.rv(st, vs[1])
        if isinstance(b, Val) and b.ty[0] == 'str':
            e = AND(is_(ex, a.t, STR), get(ex, a.t, STR) == b.t)
            return [(st, Val(e if op == '==' else NOT(e), BOOL))]
    return None


def text(ex, j):
    """the text a writer prints for j; reading it gives j again"""
    return ex.uf('json:text', ex.sort(JSON), ex.Str)(j)


# ---- building documents
def nothing(ex, j):
    """none of the kinds the getters ask for, except as stated by the caller"""


def fresh(ex, st, kind):
    j = ex.fresh('json', ex.sort(JSON))
    kinds_disjoint(ex, st, j)
    if kind == 'kObjectType':
        s = z3.Const('s', ex.Str)
        st.pc.append(AND(isobj(ex, j), fa([s], NOT(has_(ex, j, s)), has_(ex, j, s))))
    elif kind == 'kArrayType':
        st.pc.append(AND(isarr(ex, j), ex.acc(elems(ex, j), 0) == 0))
    return j


def has_(ex, j, s):
    return ex.uf('json:has-member', ex.sort(JSON), ex.Str, z3.BoolSort())(j, s)


def scalar(ex, st, v, ty):
    """the JSON value of a C++ value"""
    if ty[0] == 'int':
        j = ex.uf('json:of-int', z3.IntSort(), ex.sort(JSON))(v)
        rng = {U32: (0, 2**32), U64: (0, 2**64), I64: (-2**63, 2**63)}
        for t, (a, b) in rng.items():
            st.pc.append(AND(is_(ex, j, t) == AND(v >= a, v < b), get(ex, j, t) == v))
        st.pc.append(AND(NOT(is_(ex, j, STR)), NOT(is_(ex, j, BOOL))))
    elif ty[0] in ('str', 'bool'):
        j = ex.uf('json:of-' + ty[0], ex.sort(ty), ex.sort(JSON))(v)
        st.pc.append(AND(is_(ex, j, ty), get(ex, j, ty) == v))
    else:
        raise Unsupported('JSON of %s' % (ty,))
    kinds_disjoint(ex, st, j)
    return j


def as_json(ex, st, x):
    """value handed to a function that takes a JSON value; a value passed by reference is moved from"""
    r = ex.rv(st, x)
    if not isinstance(r, Val):
        raise Unsupported('JSON argument %s' % type(r))
    if r.ty == JSON:
        if isinstance(x, Local) or (isinstance(x, Place) and not isinstance(x, Temp)):
            x.set(ex, st, ex.fresh('moved', ex.sort(JSON)))
        return r.t
    return scalar(ex, st, r.t, r.ty)


def add_member(ex, st, pl, name, v):
    j = pl.get(ex, st)
    k = get(ex, name, STR)
    r = ex.fresh('json', ex.sort(JSON))
    s = z3.Const('s', ex.Str)
    kinds_disjoint(ex, st, r)
    st.pc.append(AND(isobj(ex, r), fa([s], has_(ex, r, s) == OR(has_(ex, j, s), s == k), has_(ex, r, s), has_(ex, j, s)),
                     fa([s], IMP(has_(ex, j, s), mem(ex, r, s) == mem(ex, j, s)), mem(ex, r, s)),
                     IMP(NOT(has_(ex, j, k)), mem(ex, r, k) == v), has_(ex, r, k)))
    pl.set(ex, st, r)


def push(ex, st, pl, v):
    j = pl.get(ex, st)
    r = ex.fresh('json', ex.sort(JSON))
    i = z3.Int('i')
    a, b = elems(ex, j), elems(ex, r)
    n = ex.acc(a, 0)
    kinds_disjoint(ex, st, r)
    e = lambda l: z3.Select(ex.acc(l, 1), i)
    st.pc.append(AND(n >= 0, isarr(ex, r), ex.acc(b, 0) == n + 1, z3.Select(ex.acc(b, 1), n) == v,
                     fa([i], IMP(AND(i >= 0, i < n), e(b) == e(a)), e(b))))
    pl.set(ex, st, r)


def enumerator(ex, n, d):
    return PyObj('enumerator', name=d['name']) if d['name'] in ('kObjectType', 'kArrayType', 'kStringType', 'kNumberType', 'kNullType') else None


def string_ref(ex, st, vs, n):
    return [(st, ex.rv(st, vs[0]))]


def construct(ex, st, ty, vs, n):
    if ty == JSON:
        if not vs:
            return [(st, Val(fresh(ex, st, None), JSON))]
        r = ex.rv(st, vs[0])
        if isinstance(r, PyObj) and r.kind in ('enumerator', 'defaultarg', 'allocator'):
            return [(st, Val(fresh(ex, st, r.name if r.kind == 'enumerator' else None), JSON))]
        if isinstance(r, Val) and r.ty == JSON:        # a copy, made with an allocator
            return [(st, Val(r.t, JSON))]
        if isinstance(r, Val):
            return [(st, Val(scalar(ex, st, r.t, r.ty), JSON))]
        raise Unsupported('JSON value from %s' % type(r))
    if ty[0] != 'opaque':
        return None
    if ty[1].split('<')[0].endswith('GenericStringBuffer'):
        return [(st, Val(ex.EMPTY, STR))]
    if 'Writer<' in ty[1] and vs and isinstance(vs[0], Place):
        return [(st, PyObj('writer', buffer=vs[0]))]
    return None


HOOKS = {'#construct': [construct], '#methods': [methods], '#operators': [operators], '#enumerator': enumerator, '#functions': {'StringRef': string_ref}}
