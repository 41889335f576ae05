"""Models (trusted contracts) of the standard-library operations the code uses."""
import z3
from . import types as T
from .cast import unwrap, line_of
from .sym import *
from .sym import PairView


# ---------------------------------------------------------------- construction
def construct(ex, st, ty, vs, n, meta):
    """-> [(st, value)]"""
    h = ty[0]
    ctype = (meta or {}).get('ctorType', {}).get('qualType', '')
    for hook in ex.specs.get('#construct', ()):
        res = hook(ex, st, ty, vs, n)
        if res is not None:
            return res
    if vs and isinstance(vs[0], InitList) and (len(vs) == 1 or 'initializer_list' in ctype):
        il = vs[0]
        return [(st, from_list(ex, st, ty, il))]
    if ty == ('opaque', 'lock'):
        return [(st, PyObj('lock'))]
    if h == 'iter':
        return [(st, ex.rv(st, vs[0]))]
    if h == 'opaque' and ty[1].split('::')[-1] == 'thread' and len(vs) == 1 and isinstance(ex.rv(st, vs[0]), Closure):
        # a thread runs its function to the end (assumption: threads do not interfere, and each is joined)
        out = []
        for s, _ in ex.call_closure(ex.rv(st, vs[0]), [], st, n):
            out.append((s, None) if s.thrown else (s, PyObj('thread')))
        return out
    if len(vs) == 1:
        r0 = ex.rv(st, vs[0])
        if isinstance(r0, (Closure, Iter, PyObj)):
            return [(st, r0)]
        if isinstance(r0, PtrTo):
            raise Unsupported('constructing %s from a local address' % (ty,))
        if r0.ty[0] == 'nullopt':
            return [(st, Val(ex.none(ty), ty))] if h == 'opt' else [(st, r0)]
        if r0.ty == ty and r0.t is not None:
            if h == 'ptr' and '&&' in ctype and isinstance(vs[0], Place):
                vs[0].set(ex, st, z3.IntVal(0))
            elif '&&' in ctype and isinstance(vs[0], (Local, HeapField, Sub, VecElem, MapVal)) and h in ('vec', 'map', 'set', 'str'):
                moved(ex, st, vs[0], ty)
            elif '&&' in ctype and h == 'opt' and isinstance(vs[0], Place) and ty[1][0] == 'ptr':
                raise Unsupported('move of optional pointer')
            return [(st, Val(r0.t, ty))]
    if h == 'str':
        if not vs:
            return [(st, Val(ex.EMPTY, ty))]
        if len(vs) == 1 or (len(vs) == 2 and isinstance(vs[1], PyObj)):
            r = ex.rv(st, vs[0])
            if r.ty[0] == 'str':
                return [(st, Val(r.t, ty))]
            if r.ty[0] == 'ptr':
                return [(st, cstr(ex, st, r, n))]
        raise Unsupported('string constructor %s' % ctype)
    if h == 'vec':
        if not vs:
            return [(st, Val(ex.emptyval(ty), ty))]
        if len(vs) >= 2 and isinstance(vs[0], (Iter, Place)):
            a, b = ex.rv(st, vs[0]), ex.rv(st, vs[1])
            if isinstance(a, Iter) and isinstance(b, Iter):
                return [(st, from_range(ex, st, ty, a, b, n))]
        if 'size_type, const allocator_type &' in ctype and ty[1][0] in ('int', 'ptr', 'bool'):
            ln = ex.convert(st, ex.rv(st, vs[0]), ('int', 64, False)).t
            return [(st, Val(ex.sort(ty).constructor(0)(ln, z3.K(ex.size, ex.emptyval(ty[1]))), ty))]
        if len(vs) >= 2 and 'size_type, const value_type &' in ctype:
            ln = ex.convert(st, ex.rv(st, vs[0]), ('int', 64, False)).t
            x = ex.coerce(st, ex.rv(st, vs[1]), ty[1]).t
            return [(st, Val(ex.sort(ty).constructor(0)(ln, z3.K(ex.size, x)), ty))]
        raise Unsupported('vector constructor %s' % ctype)
    if h in ('map', 'set'):
        if not vs:
            return [(st, Val(ex.emptyval(ty), ty))]
        if len(vs) >= 2:
            a, b = ex.rv(st, vs[0]), ex.rv(st, vs[1])
            if isinstance(a, Iter) and isinstance(b, Iter):
                return [(st, from_range(ex, st, ty, a, b, n))]
            return construct(ex, st, ty, vs[:1], n, meta)
        raise Unsupported('%s constructor %s' % (h, ctype))
    if h == 'opt':
        if not vs:
            return [(st, Val(ex.none(ty), ty))]
        return [(st, ex.coerce(st, ex.rv(st, vs[0]), ty))]
    if h == 'ptr':
        if not vs:
            return [(st, Val(z3.IntVal(0), ty))]
        r = ex.rv(st, vs[0])
        if isinstance(r, Val) and r.ty[0] == 'ptr':
            if '&&' in ctype and isinstance(vs[0], Place):
                vs[0].set(ex, st, z3.IntVal(0))
            return [(st, Val(r.t, ty))]
        raise Unsupported('pointer constructor')
    if h == 'tup':
        if not vs:
            return [(st, Val(ex.emptyval(ty), ty))]
        if len(vs) == len(ty) - 1:
            ts = [ex.coerce(st, ex.rv(st, v), t).t for v, t in zip(vs, ty[1:])]
            return [(st, Val(ex.sort(ty).constructor(0)(*ts), ty))]
        if len(vs) == 1:
            return [(st, ex.coerce(st, ex.rv(st, vs[0]), ty))]
    if h == 'nullopt':
        return [(st, Val(None, ty))]
    if h == 'rec':
        return construct_rec(ex, st, ty, vs, n, meta)
    if h == 'opaque' and 'basic_format_string' in ty[1] and vs:
        r = ex.rv(st, vs[0])
        if isinstance(r, Val) and r.ty[0] == 'str':
            return [(st, r)]
    if h == 'opaque':
        return [(st, Val(ex.fresh('op', ex.sort(ty)), ty))]
    raise Unsupported('construct %s' % (ty,))


def construct_rec(ex, st, ty, vs, n, meta):
    rec = ty[1]
    f = ex.find_ctor(rec, meta or {})
    short = rec.split('::')[-1]
    spec = ex.spec_for(rec + '::' + short, {'type': (meta or {}).get('ctorType', {})}, len(vs))
    if spec is not None:
        ex.used_specs.add(spec.name)
        return spec.apply(ex, st, None, vs, n)
    if f is not None and ex.tu.body(f) is not None and not f.get('isImplicit'):
        r = ex.alloc(st, T.key(ty))
        pl = HeapObj(r, rec)
        default_fields(ex, st, pl, skip=init_names(f))
        pl.fresh = True
        if any('<' in q for q in ex.tu.supers(rec)):
            pl.dyn = rec
        out = []
        for s, _ in ex.run_body(f, vs, st, {}, pl, n):
            out.append((s, None) if s.thrown else (s, pl))
        return out
    if not vs:
        r = ex.alloc(st, T.key(ty))
        pl = HeapObj(r, rec)
        default_fields(ex, st, pl)
        return [(st, Val(pl.get(ex, st), ty))]
    if len(vs) == 1:
        r = ex.rv(st, vs[0])
        if isinstance(r, Val) and r.ty[0] == 'rec':
            return [(st, Val(r.t, r.ty))]
    raise Unsupported('construct record %s' % rec)


def init_names(f):
    return {c['anyInit'].get('name') for c in f.get('inner', ()) if c.get('kind') == 'CXXCtorInitializer' and 'anyInit' in c
            and not (c.get('inner') and c['inner'][0].get('kind') == 'CXXDefaultInitExpr')}


def default_fields(ex, st, pl, skip=()):
    """default member initialisers; members without one and without a default constructor are arbitrary"""
    r = ex.tu.records[pl.ty[1]]
    for b in r.get('bases', ()):
        bt, _ = ex.tc.ty(b['type'])
        if bt[0] == 'rec':
            default_fields(ex, st, HeapObj(pl.ref, bt[1]))
    for c in r.get('inner', ()):
        if c.get('kind') != 'FieldDecl':
            continue
        fty, isref = ex.tc.ty(c['type'])
        if isref or c['name'] in skip:
            continue
        p = pl.field(ex, pl.ty[1], c['name'], fty)
        init = [x for x in c.get('inner', ()) if x.get('kind') and not x['kind'].endswith('Comment')]
        if init:
            s2, v = ex.ev1(init[0], st)
            r0 = ex.rv(st, v)
            if isinstance(r0, InitList):
                r0 = construct(ex, st, fty, r0.items, None, {})[0][1]
            p.set(ex, st, ex.coerce(st, r0, fty).t)
        elif fty[0] in ('vec', 'map', 'set', 'opt', 'str') or (fty[0] == 'ptr' and '_ptr<' in (c['type'].get('desugaredQualType') or c['type']['qualType'])):
            p.set(ex, st, ex.emptyval(fty))
        else:
            p.set(ex, st, ex.newval(st, 'uninit_' + c['name'], fty))


def moved(ex, st, pl, ty):
    pl.set(ex, st, ex.newval(st, 'moved', ty))


def cstr(ex, st, r, n):
    f = ex.uf('cstr', z3.IntSort(), ex.Str)
    ex.oblige(st, 'null-c-string', r.t != 0, n)
    return Val(f(r.t), ('str',))


def from_list(ex, st, ty, il):
    h = ty[0]
    if h == 'vec':
        arr = ex.anyarr(ex.size, ty[1])
        for i, v in enumerate(il.items):
            arr = z3.Store(arr, ex.I(i), ex.coerce(st, unil(ex, st, v, ty[1]), ty[1]).t)
        return Val(ex.sort(ty).constructor(0)(ex.I(len(il.items)), arr), ty)
    if h == 'set':
        m = ex.emptyval(ty)
        pl = Temp(m, ty)
        for v in il.items:
            set_insert(ex, st, pl, ex.coerce(st, unil(ex, st, v, ty[1]), ty[1]).t)
        return Val(pl.v, ty)
    if h == 'map':
        m = ex.emptyval(ty)
        pl = Temp(m, ty)
        pt = ('tup', ty[1], ty[2])
        for v in il.items:
            p = unil(ex, st, v, pt)
            p = ex.coerce(st, p, pt)
            map_insert(ex, st, pl, ex.acc(p.t, 0), ex.acc(p.t, 1), False)
        return Val(pl.v, ty)
    if h in ('tup',):
        ts = [ex.coerce(st, unil(ex, st, v, t), t).t for v, t in zip(il.items, ty[1:])]
        return Val(ex.sort(ty).constructor(0)(*ts), ty)
    if h == 'opt':
        if not il.items:
            return Val(ex.none(ty), ty)
        return ex.coerce(st, ex.rv(st, il.items[0]), ty)
    if not il.items:
        e = ex.emptyval(ty)
        if e is not None:
            return Val(e, ty)
    if len(il.items) == 1:
        return ex.coerce(st, ex.rv(st, il.items[0]), ty)
    raise Unsupported('init list for %s' % (ty,))


def unil(ex, st, v, ty):
    r = ex.rv(st, v)
    if isinstance(r, InitList):
        return from_list(ex, st, ty, r)
    return r


def from_range(ex, st, ty, a, b, n):
    if a.kind == 'set' or a.kind == 'map':
        if a.ok is not None and getattr(a, 'whole', False):
            src = ex.rv(st, a.place)
            if src.ty == ty:
                return src
    if a.kind == 'vec':
        src = ex.rv(st, a.place)
        if ty[0] == 'vec' and src.ty == ty:
            # whole-range copy or sub-range
            arr = ex.fresh('sub', ex.acc(src.t, 1).sort())
            j = z3.Const('j', ex.size)
            ln = b.idx - a.idx
            ex.oblige(st, 'iterator-range', z3.And(a.idx >= 0, a.idx <= b.idx, b.idx <= ex.acc(src.t, 0)), n)
            st.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ln),
                                                   z3.Select(arr, j) == z3.Select(ex.acc(src.t, 1), j + a.idx)),
                                   patterns=[z3.Select(arr, j)]))
            return Val(ex.sort(ty).constructor(0)(ln, arr), ty)
        if ty[0] == 'vec' and ty[1][0] in ('int', 'bool') and src.ty[1][0] in ('int', 'bool'):
            arr = ex.fresh('sub', z3.ArraySort(ex.size, ex.sort(ty[1])))
            j = z3.Const('j', ex.size)
            ln = b.idx - a.idx
            ex.oblige(st, 'iterator-range', z3.And(a.idx >= 0, a.idx <= b.idx, b.idx <= ex.acc(src.t, 0)), n)
            x = z3.Select(ex.acc(src.t, 1), j + a.idx)
            st.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ln), z3.Select(arr, j) == ex.coerce(st, Val(x, src.ty[1]), ty[1]).t), patterns=[z3.Select(arr, j)]))
            return Val(ex.sort(ty).constructor(0)(ln, arr), ty)
        if ty[0] == 'set' and src.ty[1] == ty[1]:
            dom = ex.fresh('dom', z3.ArraySort(ex.sort(ty[1]), z3.BoolSort()))
            cnt = ex.fresh('cnt', ex.size)
            j = z3.Const('j', ex.size)
            x = z3.Const('x', ex.sort(ty[1]))
            arr = ex.acc(src.t, 1)
            wit = z3.Function('wit!%d' % ex.n, ex.sort(ty[1]), ex.size)
            st.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= a.idx, j < b.idx), z3.Select(dom, z3.Select(arr, j))),
                                   patterns=[z3.Select(arr, j)]))
            st.pc.append(z3.ForAll([x], z3.Implies(z3.Select(dom, x), z3.And(wit(x) >= a.idx, wit(x) < b.idx,
                                                                            z3.Select(arr, wit(x)) == x)),
                                   patterns=[z3.Select(dom, x)]))
            st.pc.append(cnt >= 0)
            return Val(ex.sort(ty).constructor(0)(dom, cnt), ty)
    raise Unsupported('range construction')


# ---------------------------------------------------------------- containers
def prefix_axiom(ex, name):
    """what starts_with / ends_with of two texts means"""
    if ex.mode != 'int' or name in ex.__dict__.setdefault('_prefix_ax', set()):
        return
    ex._prefix_ax.add(name)
    a, b, j = z3.Const('pa', ex.Str), z3.Const('pb', ex.Str), z3.Int('pj')
    f = ex.uf(name, ex.Str, ex.Str, z3.BoolSort())
    off = 0 if name == 'starts_with' else ex.slen(a) - ex.slen(b)
    ex.axioms.append(z3.ForAll([a, b], f(a, b) == z3.And(ex.slen(a) >= ex.slen(b), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ex.slen(b)), ex.sat(a, off + j) == ex.sat(b, j)),
                                                                                          patterns=[ex.sat(b, j)])), patterns=[f(a, b)]))


def vec_parts(ex, st, pl):
    r = ex.rv(st, pl)
    return ex.acc(r.t, 0), ex.acc(r.t, 1), r.ty


def vec_set(ex, st, pl, ln, arr):
    pl.set(ex, st, ex.sort(pl.ty).constructor(0)(ln, arr))


def vec_push(ex, st, pl, t):
    ln, arr, ty = vec_parts(ex, st, pl)
    vec_set(ex, st, pl, ln + 1, z3.Store(arr, ln, t))


def vec_erase(ex, st, pl, i, n):
    ln, arr, ty = vec_parts(ex, st, pl)
    new = ex.fresh('erased', arr.sort())
    j = z3.Const('j', ex.size)
    st.pc.append(z3.ForAll([j], z3.Select(new, j) == z3.If(j < i, z3.Select(arr, j), z3.Select(arr, j + 1)),
                           patterns=[z3.Select(new, j)]))
    vec_set(ex, st, pl, ln - 1, new)


def vec_insert(ex, st, pl, i, t):
    ln, arr, ty = vec_parts(ex, st, pl)
    new = ex.fresh('inserted', arr.sort())
    j = z3.Const('j', ex.size)
    st.pc.append(z3.ForAll([j], z3.Select(new, j) == z3.If(j < i, z3.Select(arr, j),
                                                         z3.If(j == i, t, z3.Select(arr, j - 1))),
                           patterns=[z3.Select(new, j)]))
    vec_set(ex, st, pl, ln + 1, new)


def set_insert(ex, st, pl, k):
    r = ex.rv(st, pl)
    dom, cnt = ex.acc(r.t, 0), ex.acc(r.t, 1)
    had = z3.Select(dom, k)
    pl.set(ex, st, ex.sort(r.ty).constructor(0)(z3.Store(dom, k, z3.BoolVal(True)), z3.If(had, cnt, cnt + 1)))
    return had


def assoc_erase(ex, st, pl, k):
    r = ex.rv(st, pl)
    dom = ex.acc(r.t, 0)
    had = z3.Select(dom, k)
    ci = 2 if r.ty[0] == 'map' else 1
    cnt = ex.acc(r.t, ci)
    nd = z3.Store(dom, k, z3.BoolVal(False))
    nc = z3.If(had, cnt - 1, cnt)
    if r.ty[0] == 'map':
        pl.set(ex, st, ex.sort(r.ty).constructor(0)(nd, ex.acc(r.t, 1), nc))
    else:
        pl.set(ex, st, ex.sort(r.ty).constructor(0)(nd, nc))
    return had


def map_insert(ex, st, pl, k, v, overwrite):
    r = ex.rv(st, pl)
    dom, val, cnt = ex.acc(r.t, 0), ex.acc(r.t, 1), ex.acc(r.t, 2)
    had = z3.Select(dom, k)
    nv = z3.Store(val, k, v) if overwrite else z3.Store(val, k, z3.If(had, z3.Select(val, k), v))
    pl.set(ex, st, ex.sort(r.ty).constructor(0)(z3.Store(dom, k, z3.BoolVal(True)), nv, z3.If(had, cnt, cnt + 1)))
    return had


def assoc_size_facts(ex, st, r):
    """cnt = 0 <=> no key (the only cardinality facts used)"""
    ci = 2 if r.ty[0] == 'map' else 1
    cnt, dom = ex.acc(r.t, ci), ex.acc(r.t, 0)
    x = z3.Const('x', ex.sort(r.ty[1]))
    st.pc.append(cnt >= 0)
    st.pc.append(z3.Implies(cnt == 0, z3.ForAll([x], z3.Not(z3.Select(dom, x)), patterns=[z3.Select(dom, x)])))
    w = ex.fresh('wit', ex.sort(r.ty[1]))
    st.pc.append(z3.Implies(cnt != 0, z3.Select(dom, w)))
    ex.know(st, w, r.ty[1])


# ---------------------------------------------------------------- iterators
def iter_step(ex, st, it, d, n):
    if it.kind != 'vec':
        raise Unsupported('stepping an associative iterator')
    return Iter('vec', it.place, idx=it.idx + d if not it.rev else it.idx - d, rev=it.rev)


def iter_cmp(ex, st, op, l, r, n):
    if not isinstance(l, Iter) or not isinstance(r, Iter):
        raise Unsupported('iterator comparison')
    if l.kind == 'vec':
        t = {'==': l.idx == r.idx, '!=': l.idx != r.idx}.get(op)
        if t is None:
            t = ex.compare(op, l.idx, r.idx, False)
        return Val(t, ('bool',))
    # one side must be end()
    e, o = (r, l) if (r.ok is not None and z3.is_false(r.ok)) else (l, r)
    if not (e.ok is not None and z3.is_false(e.ok)):
        raise Unsupported('comparison of two associative iterators')
    t = z3.Not(o.ok)
    return Val(t if op == '==' else z3.Not(t), ('bool',))


def iter_add(ex, st, op, l, r, n):
    if l.kind != 'vec':
        raise Unsupported('iterator arithmetic')
    d = ex.convert(st, r, ('int', 64, True)).t
    return Iter('vec', l.place, idx=l.idx + d if op == '+' else l.idx - d)


def iter_diff(ex, st, l, r, n):
    return Val(l.idx - r.idx, ('int', 64, True))


# ---------------------------------------------------------------- predicates under a bound index
def skolem(ex, terms, js, n0):
    """constants made while evaluating a closure on arbitrary elements js depend on those elements"""
    cs, todo, seen = {}, list(terms), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in x.decl().name():
            try:
                k = int(x.decl().name().rsplit('!', 1)[1])
            except ValueError:
                k = 0
            if k > n0 and not any(x.eq(j) for j in js):
                if x.num_args():
                    raise Unsupported('nested algorithm in a closure')
                cs[x.get_id()] = x
        todo.extend(x.children())
    if not cs:
        return list(terms)
    sub = [(c, z3.Function(c.decl().name() + '_at', *([j.sort() for j in js] + [c.sort()]))(*js)) for c in cs.values()]
    return [z3.substitute(t, *sub) for t in terms]


def pred_at(ex, st, clo, pl, ln, n):
    n0 = ex.n
    j, P, facts = pred_at_(ex, st, clo, pl, ln, n)
    r = skolem(ex, [P] + facts, [j], n0)
    return j, r[0], r[1:]


def pred_at_(ex, st, clo, pl, ln, n):
    """evaluate predicate on element j (fresh constant): -> (j, P(j), facts)"""
    j = ex.fresh('j', ex.size)
    s = st.copy()
    s.pc.append(ex.inrange(j, ln))
    base = len(s.pc)
    if pl.ty[0] == 'str':
        el = Temp(ex.sat(pl.get(ex, s), j), ('int', 8, True))
    else:
        el = VecElem(pl, j, pl.ty[1])
    if isinstance(clo, PyObj) and pl.ty[0] == 'str' and ex.mode == 'int':
        return j, CTYPE[clo.decl['name']](el.v), []
    outs = ex.call_closure(clo, [el], s, n) if isinstance(clo, Closure) else None
    if outs is None:
        raise Unsupported('predicate object')
    P = None
    facts = []
    if len(outs) == 1:
        s2, v = outs[0]
        if s2.thrown:
            raise Unsupported('throwing predicate')
        P = ex.truth(s2, v)
        facts = s2.pc[base:]
    else:
        alts = []
        for s2, v in outs:
            if s2.thrown or not ex.same_state(s, s2):
                raise Unsupported('predicate with side effects')
            alts.append(z3.And(*(s2.pc[base:] + [ex.truth(s2, v)])))
        P = z3.Or(*alts)
        return j, P, []
    if not ex.same_state(s, outs[0][0]):
        raise Unsupported('predicate with side effects')
    return j, P, facts


def q_forall(ex, j, rngf, body):
    x = z3.Const('q!%d' % j.get_id(), j.sort())
    b = z3.substitute(z3.Implies(rngf, body), (j, x))
    return z3.ForAll([x], b)


def find_first(ex, st, pl, ln, j, P, facts, lo=None):
    r = ex.fresh('pos', ex.size)
    lo = lo if lo is not None else ex.I(0)
    st.pc.append(z3.And(ex.le(lo, r, False), ex.le(r, ln, False)) if True else None)
    if ex.mode == 'int':
        st.pc.append(z3.Implies(lo <= ln, z3.And(r >= lo, r <= ln)))
    if facts:
        st.pc.append(q_forall(ex, j, ex.inrange(j, ln), z3.And(*facts)))
    st.pc.append(z3.Implies(ex.lt(r, ln, False), z3.substitute(P, (j, r))))
    if facts:
        st.pc.append(z3.Implies(ex.lt(r, ln, False), z3.substitute(z3.And(*facts), (j, r))))
    st.pc.append(q_forall(ex, j, z3.And(ex.le(lo, j, False), ex.lt(j, r, False)), z3.Not(P)))
    return r


# ---------------------------------------------------------------- methods
def method(ex, n, me, name, st, obj, args):
    o = obj
    r = ex.rv(st, o)
    if isinstance(r, PyObj):
        return pyobj_method(ex, n, name, st, r, args, obj)
    if isinstance(r, Iter):
        raise Unsupported('method of iterator')
    if isinstance(r, (Closure, PtrTo)):
        raise Unsupported('method of %s' % type(r).__name__)
    ty = r.ty
    pl = o if isinstance(o, Place) else Temp(r.t, ty)
    h = ty[0]
    # receiver-specific model hooks
    for hook in ex.specs.get('#methods', ()):
        res = hook(ex, n, name, st, pl, ty, args)
        if res is not None:
            return res
    rty = None
    out = []
    for s, vs in ex.evs(args, st):
        if s.thrown:
            out.append((s, None))
            continue
        f = globals().get('m_' + h)
        if f is None and h in ('bool', 'int') and (name == 'load' or name.startswith('operator ')):       # an atomic
            out.append((s, Val(r.t, ty)))
            continue
        if f is None and h in ('bool', 'int') and name == 'store' and len(vs) >= 1:
            pl.set(ex, s, ex.coerce(s, ex.rv(s, vs[0]), ty).t)
            out.append((s, Val(z3.BoolVal(True), ('void',))))
            continue
        if f is None:
            raise Unsupported('method %s of %s' % (name, ty))
        res = f(ex, n, name, s, pl, ty, vs, args)
        if res is None:
            raise Unsupported('method %s of %s' % (name, h))
        out += res if isinstance(res, list) else [(s, res)]
    return out


# <ctype.h> on a char passed without a cast, "C" locale
CTYPE = {'isdigit': lambda c: z3.And(c >= 48, c <= 57),
         'isspace': lambda c: z3.Or(c == 32, z3.And(c >= 9, c <= 13))}


def lam(v, ex, st):
    r = ex.rv(st, v)
    if isinstance(r, Closure):
        return r
    if isinstance(r, PyObj) and r.kind == 'func' and r.decl.get('name') in CTYPE:
        return r
    raise Unsupported('predicate is not a lambda')


def m_vec(ex, n, name, st, pl, ty, vs, args):
    ln, arr, _ = vec_parts(ex, st, pl)
    U64 = ('int', 64, False)
    if name == 'size':
        return Val(ln, U64)
    if name == 'empty':
        return Val(ln == ex.I(0), ('bool',))
    if name in ('reserve', 'shrink_to_fit'):
        return Val(z3.BoolVal(True), ('void',))
    if name in ('begin', 'cbegin'):
        return Iter('vec', pl, idx=ex.I(0))
    if name in ('end', 'cend'):
        return Iter('vec', pl, idx=ln)
    if name in ('rbegin', 'crbegin'):
        return Iter('vec', pl, idx=ln - 1, rev=True)
    if name in ('rend', 'crend'):
        return Iter('vec', pl, idx=ex.I(0) - 1, rev=True)
    if name in ('front', 'back', 'top'):
        ex.oblige(st, name + '-of-empty-container', ln != ex.I(0), n)
        qt = unwrap(n['inner'][0])['inner'][0]['type'].get('qualType', '')
        qd = unwrap(n['inner'][0])['inner'][0]['type'].get('desugaredQualType', qt)
        first = name == 'front'
        return VecElem(pl, ex.I(0) if first else ln - 1, ty[1])
    if name == 'pop' or name == 'pop_back' or name == 'pop_front':
        ex.oblige(st, name + '-of-empty-container', ln != ex.I(0), n)
        qd = unwrap(n['inner'][0])['inner'][0]['type']
        q = qd.get('desugaredQualType') or qd.get('qualType', '')
        if name == 'pop_front' or (name == 'pop' and 'queue' in q):
            vec_erase(ex, st, pl, ex.I(0), n)
        else:
            vec_set(ex, st, pl, ln - 1, arr)
        return Val(z3.BoolVal(True), ('void',))
    if name == 'clear':
        vec_set(ex, st, pl, ex.I(0), arr)
        return Val(z3.BoolVal(True), ('void',))
    if name in ('push_back', 'emplace_back', 'push', 'emplace'):
        if name == 'emplace' and len(vs) == 2:
            raise Unsupported('vector::emplace at position')
        if name in ('push_back', 'push') or (len(vs) == 1 and not needs_ctor(ex, st, vs[0], ty[1])):
            v = vs[0]
            rr = ex.rv(st, v)
            if isinstance(rr, InitList):
                rr = construct(ex, st, ty[1], [rr], n, {})[0][1]
            t = ex.coerce(st, rr, ty[1]).t
            if ty[1][0] == 'ptr' and isinstance(v, Place) and is_move(args[0]) and is_unique(n, args[0]):
                v.set(ex, st, z3.IntVal(0))
            res = [(st, t)]
        else:
            res = []
            for s2, v2 in construct(ex, st, ty[1], vs, n, {}):
                v2 = ex.rv(s2, v2)
                if isinstance(v2, PyObj) and v2.kind == 'thread':
                    v2 = Val(ex.fresh('thread', ex.sort(ty[1])), ty[1])
                res.append((s2, v2.t))
        out = []
        for s2, t in res:
            l2, _, _ = vec_parts(ex, s2, pl)
            vec_push(ex, s2, pl, t)
            out.append((s2, VecElem(pl, l2, ty[1])))
        return out
    if name in ('at',):
        i = ex.convert(st, ex.rv(st, vs[0]), U64).t
        ex.oblige(st, 'vector-at-in-range', ex.inrange(i, ln), n)
        return VecElem(pl, i, ty[1])
    if name == 'erase' and len(vs) == 1:
        it = ex.rv(st, vs[0])
        ex.oblige(st, 'erase-position-valid', ex.inrange(it.idx, ln), n)
        vec_erase(ex, st, pl, it.idx, n)
        return Iter('vec', pl, idx=it.idx)
    if name == 'erase' and len(vs) == 2:
        a, b = ex.rv(st, vs[0]), ex.rv(st, vs[1])
        rm = getattr(a, 'removed', None)
        if rm is not None:
            l2, arr2, _ = vec_parts(ex, st, pl)
            vec_set(ex, st, pl, a.idx, arr2)
            return Iter('vec', pl, idx=a.idx)
        raise Unsupported('range erase')
    if name == 'insert' and len(vs) == 2:
        it = ex.rv(st, vs[0])
        if isinstance(it, Iter):
            ex.oblige(st, 'insert-position-valid', z3.And(it.idx >= 0, it.idx <= ln), n)
            vec_insert(ex, st, pl, it.idx, ex.coerce(st, ex.rv(st, vs[1]), ty[1]).t)
            return Iter('vec', pl, idx=it.idx)
    if name == 'insert' and len(vs) == 3:
        it, a, b = [ex.rv(st, v) for v in vs]
        if all(isinstance(x, Iter) and x.kind == 'vec' for x in (it, a, b)):
            src_ln, src_arr, sty = vec_parts(ex, st, a.place)
            cnt = b.idx - a.idx
            ex.oblige(st, 'insert-range-valid', z3.And(a.idx >= 0, a.idx <= b.idx, b.idx <= src_ln, it.idx >= 0, it.idx <= ln), n)
            new = ex.fresh('spliced', arr.sort())
            j = z3.Const('j', ex.size)
            st.pc.append(z3.ForAll([j], z3.Select(new, j) == z3.If(j < it.idx, z3.Select(arr, j), z3.If(
                j < it.idx + cnt, z3.Select(src_arr, j - it.idx + a.idx), z3.Select(arr, j - cnt))),
                patterns=[z3.Select(new, j)]))
            vec_set(ex, st, pl, ln + cnt, new)
            return Iter('vec', pl, idx=it.idx)
    if name == 'resize':
        i = ex.convert(st, ex.rv(st, vs[0]), U64).t
        new = ex.fresh('resized', arr.sort())
        j = z3.Const('j', ex.size)
        st.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ln, j < i), z3.Select(new, j) == z3.Select(arr, j)),
                               patterns=[z3.Select(new, j)]))
        if len(vs) == 2 or ty[1][0] in ('bool', 'int', 'ptr', 'str', 'opt', 'vec', 'map', 'set'):
            e = ex.coerce(st, ex.rv(st, vs[1]), ty[1]).t if len(vs) == 2 else ex.emptyval(ty[1])
            st.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= ln, j < i), z3.Select(new, j) == e),
                                   patterns=[z3.Select(new, j)]))
        vec_set(ex, st, pl, i, new)
        return Val(z3.BoolVal(True), ('void',))
    return None


def needs_ctor(ex, st, v, ety):
    r = ex.rv(st, v)
    if isinstance(r, InitList):
        return True
    if not isinstance(r, Val):
        return True
    if r.ty[0] == 'rec' and ety[0] == 'rec':
        return False
    return ety[0] == 'rec'


def is_move(node):
    u = node
    while u.get('kind') in ('ImplicitCastExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ParenExpr'):
        u = u['inner'][0]
    if u.get('kind') == 'CallExpr':
        c = u['inner'][0]
        while c.get('kind') == 'ImplicitCastExpr':
            c = c['inner'][0]
        return c.get('referencedDecl', {}).get('name') in ('move', 'forward')
    return False


def is_unique(n, node):
    t = node.get('type', {})
    return 'unique_ptr' in (t.get('desugaredQualType') or t.get('qualType', ''))


def key_of(ex, st, v, kty):
    r = ex.rv(st, v)
    if isinstance(r, Val):
        return ex.coerce(st, r, kty).t
    raise Unsupported('key')


def m_map(ex, n, name, st, pl, ty, vs, args):
    r = ex.rv(st, pl)
    dom, val, cnt = ex.acc(r.t, 0), ex.acc(r.t, 1), ex.acc(r.t, 2)
    if name in ('find', 'count', 'contains'):
        k = key_of(ex, st, vs[0], ty[1])
        has = z3.Select(dom, k)
        if name == 'find':
            return Iter('map', pl, key=k, ok=has)
        return Val(z3.If(has, ex.I(1), ex.I(0)), ('int', 64, False)) if name == 'count' else Val(has, ('bool',))
    if name in ('end', 'cend'):
        return Iter('map', pl, ok=z3.BoolVal(False))
    if name in ('begin', 'cbegin'):
        assoc_size_facts(ex, st, r)
        w = ex.newval(st, 'first', ty[1])
        st.pc.append(z3.Implies(cnt != 0, z3.Select(dom, w)))
        it = Iter('map', pl, key=w, ok=cnt != ex.I(0))
        it.whole = True
        return it
    if name == 'at':
        k = key_of(ex, st, vs[0], ty[1])
        has = z3.Select(dom, k)
        if ex.specs.get('#at-may-throw'):
            out = []
            for s, b in ex.split(st, has, n):
                if b:
                    out.append((s, MapVal(pl, k, ty[2])))
                else:
                    s.thrown = 'out_of_range'
                    out.append((s, None))
            return out
        ex.oblige(st, 'map-at-key-present', has, n)
        return MapVal(pl, k, ty[2])
    if name in ('emplace', 'try_emplace', 'insert_or_assign', 'insert'):
        if name == 'insert' and len(vs) == 1:
            p = unil(ex, st, vs[0], ('tup', ty[1], ty[2]))
            p = ex.coerce(st, p, ('tup', ty[1], ty[2]))
            k, v = ex.acc(p.t, 0), ex.acc(p.t, 1)
        elif len(vs) == 2:
            k = key_of(ex, st, vs[0], ty[1])
            r2 = ex.rv(st, vs[1])
            if isinstance(r2, InitList) or (isinstance(r2, Val) and r2.ty[0] != ty[2][0] and ty[2][0] in ('rec',)):
                v = ex.rv(st, construct(ex, st, ty[2], [vs[1]], n, {})[0][1]).t
            else:
                v = ex.coerce(st, r2, ty[2]).t
            if ty[2][0] == 'ptr' and isinstance(vs[1], Place) and is_move(args[1]) and is_unique(n, args[1]):
                vs[1].set(ex, st, z3.IntVal(0))
        elif len(vs) == 1 and name == 'emplace':
            p = ex.coerce(st, ex.rv(st, vs[0]), ('tup', ty[1], ty[2]))
            k, v = ex.acc(p.t, 0), ex.acc(p.t, 1)
        else:
            return None
        had = map_insert(ex, st, pl, k, v, name == 'insert_or_assign')
        return PyObj('insres', items=[Iter('map', pl, key=k, ok=z3.BoolVal(True)), Val(z3.Not(had), ('bool',))])
    if name == 'erase':
        a = ex.rv(st, vs[0])
        if isinstance(a, Iter):
            ex.oblige(st, 'erase-position-valid', a.ok, n)
            assoc_erase(ex, st, pl, a.key)
            return Iter('map', pl, key=a.key, ok=z3.BoolVal(False))
        k = key_of(ex, st, vs[0], ty[1])
        had = assoc_erase(ex, st, pl, k)
        return Val(z3.If(had, ex.I(1), ex.I(0)), ('int', 64, False))
    if name == 'clear':
        pl.set(ex, st, ex.emptyval(ty))
        return Val(z3.BoolVal(True), ('void',))
    if name == 'size':
        assoc_size_facts(ex, st, r)
        return Val(cnt, ('int', 64, False))
    if name == 'empty':
        assoc_size_facts(ex, st, r)
        return Val(cnt == ex.I(0), ('bool',))
    if name in ('reserve',):
        return Val(z3.BoolVal(True), ('void',))
    return None


def m_set(ex, n, name, st, pl, ty, vs, args):
    r = ex.rv(st, pl)
    dom, cnt = ex.acc(r.t, 0), ex.acc(r.t, 1)
    if name in ('find', 'count', 'contains'):
        k = key_of(ex, st, vs[0], ty[1])
        has = z3.Select(dom, k)
        if name == 'find':
            return Iter('set', pl, key=k, ok=has)
        return Val(z3.If(has, ex.I(1), ex.I(0)), ('int', 64, False)) if name == 'count' else Val(has, ('bool',))
    if name in ('end', 'cend'):
        return Iter('set', pl, ok=z3.BoolVal(False))
    if name in ('begin', 'cbegin'):
        assoc_size_facts(ex, st, r)
        w = ex.newval(st, 'first', ty[1])
        st.pc.append(z3.Implies(cnt != ex.I(0), z3.Select(dom, w)))
        it = Iter('set', pl, key=w, ok=cnt != ex.I(0))
        it.whole = True
        return it
    if name in ('emplace', 'insert') and len(vs) == 1:
        k = key_of(ex, st, vs[0], ty[1])
        had = set_insert(ex, st, pl, k)
        return PyObj('insres', items=[Iter('set', pl, key=k, ok=z3.BoolVal(True)), Val(z3.Not(had), ('bool',))])
    if name == 'insert' and len(vs) == 2:
        a, b = ex.rv(st, vs[0]), ex.rv(st, vs[1])
        if isinstance(a, Iter) and a.kind == 'vec':
            add = from_range(ex, st, ty, a, b, n)
            nd = ex.fresh('dom', dom.sort())
            x = z3.Const('x', ex.sort(ty[1]))
            st.pc.append(z3.ForAll([x], z3.Select(nd, x) == z3.Or(z3.Select(dom, x), z3.Select(ex.acc(add.t, 0), x)),
                                   patterns=[z3.Select(nd, x)]))
            c2 = ex.fresh('cnt', ex.size)
            st.pc.append(c2 >= cnt)
            pl.set(ex, st, ex.sort(ty).constructor(0)(nd, c2))
            return Val(z3.BoolVal(True), ('void',))
    if name == 'erase':
        a = ex.rv(st, vs[0])
        if isinstance(a, Iter):
            ex.oblige(st, 'erase-position-valid', a.ok, n)
            assoc_erase(ex, st, pl, a.key)
            return Iter('set', pl, ok=z3.BoolVal(False))
        k = key_of(ex, st, vs[0], ty[1])
        had = assoc_erase(ex, st, pl, k)
        return Val(z3.If(had, ex.I(1), ex.I(0)), ('int', 64, False))
    if name == 'clear':
        pl.set(ex, st, ex.emptyval(ty))
        return Val(z3.BoolVal(True), ('void',))
    if name == 'size':
        assoc_size_facts(ex, st, r)
        return Val(cnt, ('int', 64, False))
    if name == 'empty':
        assoc_size_facts(ex, st, r)
        return Val(cnt == ex.I(0), ('bool',))
    if name == 'reserve':
        return Val(z3.BoolVal(True), ('void',))
    return None


def m_opt(ex, n, name, st, pl, ty, vs, args):
    r = ex.rv(st, pl)
    if name in ('has_value', 'operator bool'):
        return Val(ex.acc(r.t, 0), ('bool',))
    if name == 'value':
        ex.oblige(st, 'value-of-empty-optional', ex.acc(r.t, 0), n)
        return Sub(pl, 1, ty[1])
    if name == 'value_or':
        d = ex.coerce(st, ex.rv(st, vs[0]), ty[1])
        t = ex.acc(r.t, 1)
        ex.know(st, t, ty[1])
        return Val(z3.If(ex.acc(r.t, 0), t, d.t), ty[1])
    if name == 'reset':
        pl.set(ex, st, ex.none(ty))
        return Val(z3.BoolVal(True), ('void',))
    if name == 'emplace':
        pl.set(ex, st, ex.some(ty, ex.coerce(st, ex.rv(st, vs[0]), ty[1]).t))
        return Sub(pl, 1, ty[1])
    return None


def m_ptr(ex, n, name, st, pl, ty, vs, args):
    r = ex.rv(st, pl)
    if name == 'get':
        return Val(r.t, ty)
    if name == 'operator bool':
        return Val(r.t != 0, ('bool',))
    if name == 'reset':
        v = ex.rv(st, vs[0]).t if vs and not (isinstance(vs[0], PyObj)) else z3.IntVal(0)
        pl.set(ex, st, v)
        return Val(z3.BoolVal(True), ('void',))
    if name == 'release':
        pl.set(ex, st, z3.IntVal(0))
        return Val(r.t, ty)
    return None


def str_term(ex, st, v):
    r = ex.rv(st, v)
    if isinstance(r, Val) and r.ty[0] == 'str':
        return r.t
    if isinstance(r, Val) and r.ty == ('ptr', ('int', 8, True)):
        return ex.uf('cstr', z3.IntSort(), ex.Str)(r.t)
    if isinstance(r, Val) and r.ty[0] == 'int' and r.ty[1] == 8:
        return ex.uf('chr_str', ex.sort(r.ty), ex.Str)(r.t)
    raise Unsupported('string operand %s' % (getattr(r, 'ty', r),))


def substr(ex, st, s, a, ln, n):
    """fresh string equal to s[a, a+ln) (caller has clamped)"""
    r = ex.uf('substr', ex.Str, ex.size, ex.size, ex.Str)(s, a, ln)
    ex.know(st, r, ('str',))
    j = z3.Const('j', ex.size)
    st.pc.append(ex.slen(r) == ln)
    full = r
    r = ex.fresh('substr', ex.Str)      # patterns must not contain conditional terms
    st.pc.append(r == full)
    if ex.mode == 'int':
        st.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ln), ex.sat(r, j) == ex.sat(s, a + j)),
                               patterns=[ex.sat(r, j)]))
    else:
        st.pc.append(z3.ForAll([j], z3.Implies(z3.ULT(j, ln), ex.sat(r, j) == ex.sat(s, a + j)),
                               patterns=[ex.sat(r, j)]))
    st.pc.append(z3.Implies(z3.And(a == 0, ln == ex.slen(s)), r == s))
    st.pc.append((r == ex.EMPTY) == (ln == 0))
    return r


def m_str(ex, n, name, st, pl, ty, vs, args):
    s = ex.rv(st, pl).t
    U64 = ('int', 64, False)
    if name in ('size', 'length'):
        return Val(ex.slen(s), U64)
    if name == 'empty':
        st.pc.append((s == ex.EMPTY) == (ex.slen(s) == ex.I(0)))
        return Val(s == ex.EMPTY, ('bool',))
    if name in ('c_str', 'data') or name.startswith('operator basic_string_view'):
        return Val(s, ('str',))
    if name in ('append',) and len(vs) == 1:
        pl.set(ex, st, ex.concat([s, str_term(ex, st, vs[0])]))
        return pl
    if name in ('clear',):
        pl.set(ex, st, ex.EMPTY)
        return Val(z3.BoolVal(True), ('void',))
    if name == 'reserve':
        return Val(z3.BoolVal(True), ('void',))
    if name in ('begin', 'cbegin'):
        return Iter('vec', pl, idx=ex.I(0))
    if name in ('end', 'cend'):
        return Iter('vec', pl, idx=ex.slen(s))
    if name == 'substr':
        a = ex.convert(st, ex.rv(st, vs[0]), U64).t if vs else ex.I(0)
        ex.oblige(st, 'substr-position-in-range', ex.le(a, ex.slen(s), False), n)
        rest = ex.slen(s) - a
        if len(vs) > 1 and not (isinstance(vs[1], PyObj)):
            c = ex.convert(st, ex.rv(st, vs[1]), U64).t
            ln = z3.If(ex.lt(c, rest, False), c, rest)
        else:
            ln = rest
        ln = z3.simplify(ln)
        return Val(substr(ex, st, s, a, ln, n), ('str',))
    if name in ('find_first_of', 'find') and ex.mode == 'int':
        d = ex.rv(st, vs[0])
        lo = ex.convert(st, ex.rv(st, vs[1]), U64).t if len(vs) > 1 and not isinstance(vs[1], PyObj) else ex.I(0)
        NPOS = (1 << 64) - 1
        if d.ty[0] == 'int':
            isd = lambda c: c == d.t
        elif name == 'find_first_of':
            f = ex.uf('char_in', z3.IntSort(), ex.Str, z3.BoolSort())
            isd = lambda c: f(c, d.t)
            l = ex.litof(d.t)
            if l is not None:
                isd = lambda c: z3.Or(*[c == ord(ch) for ch in l]) if l else z3.BoolVal(False)
        else:
            l = ex.litof(d.t)
            if l is not None and len(l) == 1:
                isd = lambda c: c == ord(l)
            elif l:
                r = ex.fresh('findpos', ex.size)
                at = lambda j: z3.And(j + len(l) <= ex.slen(s), *[ex.sat(s, j + i) == ord(c) for i, c in enumerate(l)])
                j = z3.Const('j', ex.size)
                st.pc.append(z3.Or(z3.And(r == NPOS, z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < ex.slen(s)), z3.Not(at(j))), patterns=[ex.sat(s, j)])),
                                   z3.And(r >= lo, r < ex.slen(s), at(r),
                                          z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < r), z3.Not(at(j))), patterns=[ex.sat(s, j)]))))
                return Val(r, U64)
            else:
                r = ex.fresh('findpos', ex.size)
                st.pc.append(z3.Or(r == NPOS, z3.And(r >= lo, r + ex.slen(d.t) <= ex.slen(s))))
                return Val(r, U64)
        r = ex.fresh('findpos', ex.size)
        j = z3.Const('j', ex.size)
        st.pc.append(z3.Or(
            z3.And(r == NPOS, z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < ex.slen(s)), z3.Not(isd(ex.sat(s, j)))),
                                        patterns=[ex.sat(s, j)])),
            z3.And(r >= lo, r < ex.slen(s), isd(ex.sat(s, r)),
                   z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < r), z3.Not(isd(ex.sat(s, j)))),
                             patterns=[ex.sat(s, j)]))))
        return Val(r, U64)
    if name in ('starts_with', 'ends_with'):
        f = ex.uf(name, ex.Str, ex.Str, z3.BoolSort())
        d = ex.rv(st, vs[0])
        t = ex.uf('chr_str', ex.sort(d.ty), ex.Str)(d.t) if d.ty[0] == 'int' else str_term(ex, st, vs[0])
        l = ex.litof(t)
        r = f(s, t)
        if d.ty[0] == 'int':
            st.pc.append(r == z3.And(ex.slen(s) != ex.I(0), ex.sat(s, ex.I(0) if name == 'starts_with' else ex.slen(s) - 1) == d.t))
        elif l is not None and ex.mode == 'int' and len(l) <= 24:
            off = 0 if name == 'starts_with' else ex.slen(s) - len(l)
            st.pc.append(r == z3.And(ex.slen(s) >= len(l), *[ex.sat(s, off + i) == ord(c) for i, c in enumerate(l)]))
        else:
            prefix_axiom(ex, name)
        return Val(r, ('bool',))
    if name in ('front', 'back'):
        ex.oblige(st, name + '-of-empty-string', ex.slen(s) != ex.I(0), n)
        c = ex.sat(s, ex.I(0) if name == 'front' else ex.slen(s) - 1)
        v = Val(c, ('int', 8, True))
        ex.know(st, c, v.ty)
        return v
    if name == 'at':
        i = ex.convert(st, ex.rv(st, vs[0]), U64).t
        ex.oblige(st, 'string-at-in-range', ex.inrange(i, ex.slen(s)), n)
        c = ex.sat(s, i)
        ex.know(st, c, ('int', 8, True))
        return Val(c, ('int', 8, True))
    if name == 'compare' and len(vs) == 1:
        o = str_term(ex, st, vs[0])
        c = ex.newval(st, 'cmp', ('int', 32, True))
        st.pc.append((c == 0) == (s == o))
        return Val(c, ('int', 32, True))
    return None


def m_opaque(ex, n, name, st, pl, ty, vs, args):
    if ty[1].split('::')[-1] == 'thread' and name == 'join':
        return Val(z3.BoolVal(True), ('void',))
    if 'stringstream' in ty[1] and name == 'str' and not vs:
        return Val(ex.newval(st, 'stream', ('str',)), ('str',))
    return None


def pyobj_method(ex, n, name, st, o, args, obj):
    if o.kind == 'stringstream':
        if name == 'str':
            return [(st, Val(o.text, ('str',)))]
    if o.kind == 'exception':
        return [(st, Val(ex.fresh('what', ex.Str), ('str',)))]
    raise Unsupported('method %s of %s' % (name, o.kind))


def pyobj_member(ex, st, o, name, n):
    if o.kind == 'insres':
        return o.items[0 if name == 'first' else 1]
    if o.kind == 'aggr':
        # a C structure of the simulator interface: its members by name (members of a union do not alias)
        ty = ex.ty(n)
        if ty[0] in ('opaque', 'rec'):
            return Temp(PyObj('aggr', key='%s.%s' % (o.key, name), items=None), ty)
        return Local('%s.%s' % (o.key, name), ty)
    return None


def call_function_object(ex, n, st, f, vs):
    hook = ex.specs.get('#callfn')
    if hook:
        return hook(ex, n, st, f, vs)
    raise Unsupported('call of a function object')


# ---------------------------------------------------------------- operators
def assign(ex, n, st, l, r, d):
    rr = ex.rv(st, r)
    if not isinstance(l, Place):
        raise Unsupported('assignment')
    if isinstance(rr, InitList):
        rr = construct(ex, st, l.ty, [rr], n, {})[0][1]
    if isinstance(rr, Val) and l.ty[0] == 'opaque' and rr.ty != l.ty:
        for hook in ex.specs.get('#construct', ()):
            res = hook(ex, st, l.ty, [rr], n)
            if res is not None:
                rr = res[0][1]
    if isinstance(rr, Val) and rr.ty[0] == 'nullopt':
        l.set(ex, st, ex.none(l.ty))
        return [(st, l)]
    if isinstance(rr, (Iter, Closure, PyObj)):
        if isinstance(l, Local):
            l.set(ex, st, rr)
            return [(st, l)]
        if l.ty[0] in ('opaque', 'opt'):
            l.set(ex, st, ex.fresh('op', ex.sort(l.ty)))
            return [(st, l)]
        raise Unsupported('assignment of %s' % type(rr).__name__)
    if isinstance(rr, PtrTo):
        raise Unsupported('store of local address')
    t = ex.coerce(st, rr, l.ty).t
    if l.ty[0] == 'ptr' and isinstance(r, Place) and 'unique_ptr' in d.get('type', {}).get('qualType', '') \
            and '&&' in d.get('type', {}).get('qualType', ''):
        r.set(ex, st, z3.IntVal(0))
    l.set(ex, st, t)
    return [(st, l)]


def operator(ex, n, name, st, vs):
    op = name[len('operator'):]
    a = ex.rv(st, vs[0])
    if op == '<<' and isinstance(a, Val) and a.ty[0] == 'opaque' and 'stream' in a.ty[1]:
        return [(st, vs[0])]        # what is written to a stream is not tracked: its text is unknown
    for hook in ex.specs.get('#operators', ()):
        res = hook(ex, n, op, st, vs, a)
        if res is not None:
            return res
    if op == '[]':
        U64 = ('int', 64, False)
        if isinstance(a, Iter):
            raise Unsupported('iterator subscript')
        if a.ty[0] == 'vec':
            i = ex.convert(st, ex.rv(st, vs[1]), U64).t
            ex.oblige(st, 'vector-index-in-range', ex.inrange(i, ex.acc(a.t, 0)), n)
            return [(st, VecElem(ex.place(st, vs[0]), i, a.ty[1]))]
        if a.ty[0] == 'str':
            i = ex.convert(st, ex.rv(st, vs[1]), U64).t
            ex.oblige(st, 'string-index-in-range', ex.le(i, ex.slen(a.t), False), n)
            c = ex.sat(a.t, i)
            ex.know(st, c, ('int', 8, True))
            return [(st, Val(c, ('int', 8, True)))]
        if a.ty[0] == 'map':
            k = key_of(ex, st, vs[1], a.ty[1])
            e = ex.emptyval(a.ty[2])
            if e is None:
                raise Unsupported('map[] default')
            map_insert(ex, st, vs[0], k, e, False)
            return [(st, MapVal(vs[0], k, a.ty[2]))]
    if op == '->' or (op == '*' and len(vs) == 1):
        if isinstance(a, Iter):
            p = ex.iter_deref(st, a, n)
            return [(st, PtrTo(p) if op == '->' else p)]
        if isinstance(a, PtrTo):
            return [(st, a if op == '->' else a.place)]
        if a.ty[0] == 'opt':
            ex.oblige(st, 'deref-of-empty-optional', ex.acc(a.t, 0), n)
            pl = Sub(ex.place(st, vs[0]), 1, a.ty[1])
            return [(st, PtrTo(pl) if op == '->' else pl)]
        if a.ty[0] == 'ptr':
            if op == '->':
                return [(st, a)]
            return [(st, ex.deref(st, a, n))]
    if op in ('++', '--') and isinstance(a, Iter):
        new = iter_step(ex, st, a, 1 if op == '++' else -1, n)
        vs[0].set(ex, st, new)
        return [(st, a if len(vs) == 2 else vs[0])]
    if op in ('==', '!=', '<', '>', '<=', '>='):
        b = ex.rv(st, vs[1])
        return [(st, compare(ex, st, op, a, b, n))]
    if op == '+':
        b = ex.rv(st, vs[1])
        if isinstance(a, Iter):
            return [(st, iter_add(ex, st, '+', a, b, n))]
        return [(st, Val(ex.concat([str_term(ex, st, a), str_term(ex, st, b)]), ('str',)))]
    if op == '-':
        b = ex.rv(st, vs[1])
        if isinstance(a, Iter) and isinstance(b, Iter):
            return [(st, iter_diff(ex, st, a, b, n))]
        if isinstance(a, Iter):
            return [(st, iter_add(ex, st, '-', a, b, n))]
    if op == '+=':
        b = ex.rv(st, vs[1])
        if isinstance(a, Val) and a.ty[0] == 'str':
            vs[0].set(ex, st, ex.concat([a.t, str_term(ex, st, b)]))
            return [(st, vs[0])]
    if op == '!' and isinstance(a, Val):
        return [(st, Val(z3.Not(ex.tobool(a)), ('bool',)))]
    raise Unsupported('operator%s on %s' % (op, getattr(a, 'ty', type(a).__name__)))


def plain(ty):
    """values of this type are equal iff their terms are"""
    return ty[0] in ('int', 'bool', 'enum', 'ptr', 'str') or ty[0] == 'tup' and all(plain(t) for t in ty[1:])


def compare(ex, st, op, a, b, n):
    if isinstance(a, Iter) or isinstance(b, Iter):
        return iter_cmp(ex, st, op, a, b, n)
    if isinstance(b, Val) and b.ty[0] == 'nullopt':
        t = z3.Not(ex.acc(a.t, 0))
        return Val(t if op == '==' else z3.Not(t), ('bool',))
    if isinstance(a, PtrTo) or isinstance(b, PtrTo):
        raise Unsupported('pointer comparison')
    if a.ty[0] == 'opt' or b.ty[0] == 'opt':
        return cmp_opt(ex, st, op, a, b)
    if op in ('==', '!='):
        if a.ty[0] == 'str' or b.ty[0] == 'str':
            x, y = str_term(ex, st, a), str_term(ex, st, b)
        else:
            x, y = a.t, b.t
            if a.ty[0] == 'vec' and a.ty == b.ty and plain(a.ty[1]):
                j, w = z3.Const('j', ex.size), ex.fresh('differs', ex.size)
                at = lambda v, i: z3.Select(ex.acc(v, 1), i)
                e = ex.fresh('equal', z3.BoolSort())
                n_ = ex.acc(x, 0)
                st.pc.append(z3.Implies(e, z3.And(n_ == ex.acc(y, 0), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n_), at(x, j) == at(y, j)), patterns=[at(x, j), at(y, j)]))))
                st.pc.append(z3.Implies(z3.Not(e), z3.Or(n_ != ex.acc(y, 0), z3.And(w >= 0, w < n_, at(x, w) != at(y, w)))))
                return Val(e if op == '==' else z3.Not(e), ('bool',))
            if a.ty[0] in ('vec', 'map', 'set', 'rec'):
                raise Unsupported('comparison of %s' % a.ty[0])
            if x.sort() != y.sort():
                raise Unsupported('comparison of different sorts')
        return Val(x == y if op == '==' else x != y, ('bool',))
    if a.ty[0] == 'str':
        f = ex.uf('str_lt', ex.Str, ex.Str, z3.BoolSort())
        x, y = str_term(ex, st, a), str_term(ex, st, b)
        st.pc.append(z3.And(z3.Not(f(x, x)), z3.Not(f(y, y)), z3.Not(z3.And(f(x, y), f(y, x))),
                            z3.Or(f(x, y), f(y, x), x == y)))
        t = {'<': f(x, y), '>': f(y, x), '<=': z3.Not(f(y, x)), '>=': z3.Not(f(x, y))}[op]
        return Val(t, ('bool',))
    if a.ty[0] in ('int', 'enum', 'ptr', 'bool'):
        return Val(ex.compare(op, a.t, b.t, not (a.ty[0] == 'int' and not a.ty[2])), ('bool',))
    raise Unsupported('comparison %s of %s' % (op, a.ty))


def cmp_opt(ex, st, op, a, b):
    def parts(v):
        if v.ty[0] == 'opt':
            t = ex.acc(v.t, 1)
            ex.know(st, t, v.ty[1])
            return ex.acc(v.t, 0), t, v.ty[1]
        return z3.BoolVal(True), v.t, v.ty
    ha, xa, ta = parts(a)
    hb, xb, tb = parts(b)
    if ta[0] == 'str':
        eq = xa == xb
    elif xa.sort() == xb.sort():
        eq = xa == xb
    else:
        raise Unsupported('optional comparison')
    E = z3.Or(z3.And(z3.Not(ha), z3.Not(hb)), z3.And(ha, hb, eq))
    if op == '==':
        return Val(E, ('bool',))
    if op == '!=':
        return Val(z3.Not(E), ('bool',))
    sg = not (ta[0] == 'int' and not ta[2])
    L = z3.And(hb, z3.Or(z3.Not(ha), ex.lt(xa, xb, sg)))
    G = z3.And(ha, z3.Or(z3.Not(hb), ex.lt(xb, xa, sg)))
    return Val({'<': L, '>': G, '<=': z3.Not(G), '>=': z3.Not(L)}[op], ('bool',))


# ---------------------------------------------------------------- free functions
def function(ex, n, name, args, st, decl):
    hooks = ex.specs.get('#functions', {})
    if name in hooks:
        out = []
        for s, vs in ex.evs(args, st):
            out += [(s, None)] if s.thrown else hooks[name](ex, s, vs, n)
        return out
    f = globals().get('f_' + str(name))
    if f is None:
        raise Unsupported('function %s' % name)
    out = []
    for s, vs in ex.evs(args, st):
        if s.thrown:
            out.append((s, None))
            continue
        r = f(ex, n, s, vs, args)
        out += r if isinstance(r, list) else [(s, r)]
    return out


def f_move(ex, n, st, vs, args):
    return vs[0]


f_forward = f_move


def f_reinterpret_pointer_cast(ex, n, st, vs, args):
    ty = ex.ty(n)           # the same object, by another type
    r = ex.rv(st, vs[0])
    if ty[0] != 'ptr' or r.ty[0] != 'ptr':
        raise Unsupported('pointer cast of %s' % (r.ty,))
    return Val(r.t, ty)


f_static_pointer_cast = f_reinterpret_pointer_cast
f_as_const = f_move


def class_id(rec):
    import zlib
    return z3.IntVal(zlib.crc32(rec.encode()))


def f_make_unique(ex, n, st, vs, args):
    ty = ex.ty(n)           # ('ptr', T)
    T0 = ty[1]
    if T0[0] != 'rec':
        r = ex.alloc(st, 'cell')
        v = construct(ex, st, T0, vs, n, {})[0][1]
        HeapCell(r, T0).set(ex, st, ex.rv(st, v).t)
        return Val(r, ty)
    rec = T0[1]
    short = rec.split('::')[-1]
    spec = ex.spec_for(rec + '::' + short, None, len(vs))
    if spec is not None:
        ex.used_specs.add(spec.name)
        return spec.apply(ex, st, 'new', vs, n)
    cands = [f for f in ex.tu.funcs.get(rec + '::' + short, []) if not f.get('isImplicit')
             and len(ex.tu.params(f)) >= len(vs) and ex.tu.body(f)
             and all(p.get('inner') for p in ex.tu.params(f)[len(vs):])]
    cands = [f for f in cands if len(ex.tu.params(f)) == len(vs)] or cands
    r = ex.alloc(st, T.key(T0))
    pl = HeapObj(r, rec)
    if ex.specs.get('#dyn'):          # ghost: the class the object was made as
        st.heap['#dyn'] = z3.Store(ex.heap(st, '#dyn', ('int', 32, False)), r, class_id(rec))
    if cands:
        if len(cands) > 1:
            raise Unsupported('make_unique overload')
        default_fields(ex, st, pl, skip=init_names(cands[0]))
        out = []
        for s, _ in ex.run_body(cands[0], vs, st, {}, pl, n):
            out.append((s, None if s.thrown else Val(r, ty)))
        return out
    if vs:
        raise Unsupported('make_unique<%s> with arguments' % rec)
    default_fields(ex, st, pl)
    return Val(r, ty)


f_make_shared = f_make_unique


def f_make_pair(ex, n, st, vs, args):
    ty = ex.ty(n)
    ts = [ex.coerce(st, ex.rv(st, v), t).t for v, t in zip(vs, ty[1:])]
    return Val(ex.sort(ty).constructor(0)(*ts), ty)


f_make_tuple = f_make_pair


def f_make_optional(ex, n, st, vs, args):
    return ex.coerce(st, ex.rv(st, vs[0]), ex.ty(n))


def f_distance(ex, n, st, vs, args):
    a, b = ex.rv(st, vs[0]), ex.rv(st, vs[1])
    return Val(b.idx - a.idx, ('int', 64, True))


def f_begin(ex, n, st, vs, args):
    return m_vec(ex, n, 'begin', st, vs[0], vs[0].ty, [], [])


def f_end(ex, n, st, vs, args):
    return m_vec(ex, n, 'end', st, vs[0], vs[0].ty, [], [])


def whole(ex, st, a, b):
    if not (isinstance(a, Iter) and isinstance(b, Iter) and a.kind == 'vec'):
        raise Unsupported('algorithm on this range')
    r = ex.rv(st, a.place)
    ln = ex.slen(r.t) if r.ty[0] == 'str' else ex.acc(r.t, 0)
    if not (a.idx.eq(ex.I(0)) and b.idx.eq(ln)):
        raise Unsupported('algorithm on a partial range')
    return a.place, ln, r.ty


def f_find(ex, n, st, vs, args):
    a, b = ex.rv(st, vs[0]), ex.rv(st, vs[1])
    pl, ln, ty = whole(ex, st, a, b)
    v = ex.rv(st, vs[2])
    j = ex.fresh('j', ex.size)
    el = z3.Select(ex.acc(pl.get(ex, st), 1), j)
    t = ex.coerce(st, v, ty[1]).t
    r = find_first(ex, st, pl, ln, j, el == t, [])
    return Iter('vec', pl, idx=r)


def f_find_if(ex, n, st, vs, args):
    a, b = ex.rv(st, vs[0]), ex.rv(st, vs[1])
    pl, ln, ty = whole(ex, st, a, b)
    j, P, facts = pred_at(ex, st, lam(vs[2], ex, st), pl, ln, n)
    r = find_first(ex, st, pl, ln, j, P, facts)
    return Iter('vec', pl, idx=r)


def f_all_of(ex, n, st, vs, args):
    a, b = ex.rv(st, vs[0]), ex.rv(st, vs[1])
    pl, ln, ty = whole(ex, st, a, b)
    j, P, facts = pred_at(ex, st, lam(vs[2], ex, st), pl, ln, n)
    r = find_first(ex, st, pl, ln, j, z3.Not(P), facts)
    return Val(r == ln, ('bool',))


def f_any_of(ex, n, st, vs, args):
    a, b = ex.rv(st, vs[0]), ex.rv(st, vs[1])
    pl, ln, ty = whole(ex, st, a, b)
    j, P, facts = pred_at(ex, st, lam(vs[2], ex, st), pl, ln, n)
    r = find_first(ex, st, pl, ln, j, P, facts)
    return Val(r != ln, ('bool',))


def f_none_of(ex, n, st, vs, args):
    v = f_any_of(ex, n, st, vs, args)
    return Val(z3.Not(v.t), ('bool',))


def f_remove_if(ex, n, st, vs, args):
    """keeps exactly the elements not satisfying the predicate, in order"""
    a, b = ex.rv(st, vs[0]), ex.rv(st, vs[1])
    pl, ln, ty = whole(ex, st, a, b)
    j, P, facts = pred_at(ex, st, lam(vs[2], ex, st), pl, ln, n)
    return keep_rest(ex, st, pl, ln, j, P, facts)


def f_remove(ex, n, st, vs, args):
    a, b = ex.rv(st, vs[0]), ex.rv(st, vs[1])
    pl, ln, ty = whole(ex, st, a, b)
    j = ex.fresh('j', ex.size)
    t = ex.coerce(st, ex.rv(st, vs[2]), ty[1]).t
    return keep_rest(ex, st, pl, ln, j, z3.Select(ex.acc(pl.get(ex, st), 1), j) == t, [])


def keep_rest(ex, st, pl, ln, j, P, facts):
    ln0, arr, _ = vec_parts(ex, st, pl)
    new = ex.fresh('kept', arr.sort())
    k = ex.fresh('nkept', ex.size)
    src = z3.Function('src!%d' % ex.n, ex.size, ex.size)
    dst = z3.Function('dst!%d' % ex.n, ex.size, ex.size)
    x, y = z3.Const('x', ex.size), z3.Const('y', ex.size)
    st.pc.append(z3.And(k >= 0, k <= ln))
    Pa = lambda t: z3.substitute(P, (j, t))
    if facts:
        st.pc.append(q_forall(ex, j, ex.inrange(j, ln), z3.And(*facts)))
    st.pc.append(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < k), z3.And(
        src(x) >= x, src(x) < ln, z3.Not(Pa(src(x))), z3.Select(new, x) == z3.Select(arr, src(x)), dst(src(x)) == x)),
        patterns=[z3.Select(new, x)]))
    st.pc.append(z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, x < y, y < k), src(x) < src(y)),
                           patterns=[z3.MultiPattern(src(x), src(y))]))
    st.pc.append(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < ln, z3.Not(Pa(x))), z3.And(
        dst(x) >= 0, dst(x) < k, src(dst(x)) == x, z3.Select(new, dst(x)) == z3.Select(arr, x))),
        patterns=[z3.Select(arr, x)]))
    vec_set(ex, st, pl, ln0, new)
    it = Iter('vec', pl, idx=k)
    it.removed = True
    return it


def f_erase_if(ex, n, st, vs, args):
    pl = vs[0]
    ty = pl.ty
    if ty[0] != 'vec':
        raise Unsupported('erase_if on %s' % ty[0])
    ln, arr, _ = vec_parts(ex, st, pl)
    it = f_remove_if(ex, n, st, [Iter('vec', pl, idx=ex.I(0)), Iter('vec', pl, idx=ln), vs[1]], args)
    l2, arr2, _ = vec_parts(ex, st, pl)
    vec_set(ex, st, pl, it.idx, arr2)
    return Val(ln - it.idx, ('int', 64, False))


def f_erase(ex, n, st, vs, args):
    pl = vs[0]
    if pl.ty[0] != 'vec':
        raise Unsupported('erase on %s' % pl.ty[0])
    ln, arr, _ = vec_parts(ex, st, pl)
    it = f_remove(ex, n, st, [Iter('vec', pl, idx=ex.I(0)), Iter('vec', pl, idx=ln), vs[1]], args)
    l2, arr2, _ = vec_parts(ex, st, pl)
    vec_set(ex, st, pl, it.idx, arr2)
    return Val(ln - it.idx, ('int', 64, False))


def f_reverse(ex, n, st, vs, args):
    a, b = ex.rv(st, vs[0]), ex.rv(st, vs[1])
    pl, ln, ty = whole(ex, st, a, b)
    ln0, arr, _ = vec_parts(ex, st, pl)
    new = ex.fresh('reversed', arr.sort())
    i = ex.fresh('i', ex.size)
    for x, y in ((arr, new), (new, arr)):
        st.pc.append(z3.ForAll([i], z3.Implies(ex.inrange(i, ln), z3.Select(x, i) == z3.Select(y, ln - 1 - i)), patterns=[z3.Select(x, i)]))
    pl.set(ex, st, ex.sort(ty).constructor(0)(ln, new))
    return Val(z3.BoolVal(True), ('void',))


def f_sort(ex, n, st, vs, args):
    a, b = ex.rv(st, vs[0]), ex.rv(st, vs[1])
    pl, ln, ty = whole(ex, st, a, b)
    ln0, arr, _ = vec_parts(ex, st, pl)
    i, j = ex.fresh('i', ex.size), ex.fresh('j', ex.size)

    def less(x, y, s):
        """cmp(arr[x], arr[y]) for index constants"""
        if len(vs) < 3:
            ex_, ey_ = z3.Select(arr, x), z3.Select(arr, y)
            return compare(ex, s, '<', Val(ex_, ty[1]), Val(ey_, ty[1]), n).t, []
        base = len(s.pc)
        outs = ex.call_closure(lam(vs[2], ex, st), [VecElem(pl, x, ty[1]), VecElem(pl, y, ty[1])], s, n)
        if len(outs) != 1:
            alts = []
            for s2, v in outs:
                if s2.thrown or not ex.same_state(st, s2):
                    raise Unsupported('comparator')
                alts.append(z3.And(*(s2.pc[base:] + [ex.truth(s2, v)])))
            return z3.Or(*alts), []
        if outs[0][0].thrown or not ex.same_state(st, outs[0][0]):
            raise Unsupported('comparator')
        return ex.truth(outs[0][0], outs[0][1]), outs[0][0].pc[base:]
    s = st.copy()
    s.pc.append(z3.And(ex.inrange(i, ln), ex.inrange(j, ln)))
    n0 = ex.n
    C, facts = less(i, j, s)
    r = skolem(ex, [C] + facts, [i, j], n0)
    C, facts = r[0], r[1:]
    if facts:     # obligations proved for arbitrary elements, and type facts: they hold for all of them
        xi, xj = z3.Const('xi', ex.size), z3.Const('xj', ex.size)
        fb = z3.substitute(z3.Implies(z3.And(ex.inrange(i, ln), ex.inrange(j, ln)), z3.And(*facts)), (i, xi), (j, xj))
        st.pc.append(z3.ForAll([xi, xj], fb))
    # strict weak ordering (irreflexive, asymmetric, transitive) on the elements present
    k = ex.fresh('k', ex.size)
    Cf = lambda x, y: z3.substitute(C, (i, x), (j, y))
    Ff = lambda x, y: z3.substitute(z3.And(*facts), (i, x), (j, y)) if facts else z3.BoolVal(True)
    s3 = st.copy()
    s3.pc.append(z3.And(ex.inrange(i, ln), ex.inrange(j, ln), ex.inrange(k, ln)))
    for p, q in ((i, j), (j, k), (i, k), (j, i), (i, i), (k, i), (k, j)):
        s3.pc.append(Ff(p, q))
    ex.oblige(s3, 'comparator-strict-weak-order', z3.And(
        z3.Not(Cf(i, i)), z3.Implies(Cf(i, j), z3.Not(Cf(j, i))),
        z3.Implies(z3.And(Cf(i, j), Cf(j, k)), Cf(i, k)),
        z3.Implies(z3.And(z3.Not(Cf(i, j)), z3.Not(Cf(j, i)), z3.Not(Cf(j, k)), z3.Not(Cf(k, j))),
                   z3.And(z3.Not(Cf(i, k)), z3.Not(Cf(k, i))))), n)
    new = ex.fresh('sorted', arr.sort())
    ex.n += 1
    P = z3.Function('perm!%d' % ex.n, ex.size, ex.size)
    Q = z3.Function('pinv!%d' % ex.n, ex.size, ex.size)
    x, y = z3.Const('x', ex.size), z3.Const('y', ex.size)
    st.pc.append(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < ln), z3.And(
        P(x) >= 0, P(x) < ln, Q(P(x)) == x, z3.Select(new, x) == z3.Select(arr, P(x)))), patterns=[z3.Select(new, x)]))
    st.pc.append(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < ln), z3.And(
        Q(x) >= 0, Q(x) < ln, P(Q(x)) == x, z3.Select(new, Q(x)) == z3.Select(arr, x))), patterns=[z3.Select(arr, x)]))
    body = z3.Implies(z3.And(x >= 0, x < y, y < ln), z3.Not(Cf(P(y), P(x))))
    ax, ay = z3.Select(new, x), z3.Select(new, y)
    mp = z3.MultiPattern(ax, ay)
    st.pc.append(z3.ForAll([x, y], body, patterns=[mp]))
    vec_set(ex, st, pl, ln0, new)
    st.note['perm'] = (P, Q)
    return Val(z3.BoolVal(True), ('void',))


f_stable_sort = f_sort


def f_min(ex, n, st, vs, args):
    a, b = ex.rv(st, vs[0]), ex.rv(st, vs[1])
    sg = not (a.ty[0] == 'int' and not a.ty[2])
    b = ex.convert(st, b, a.ty)
    return Val(z3.If(ex.lt(b.t, a.t, sg), b.t, a.t), a.ty)


def f_max(ex, n, st, vs, args):
    if not vs:      # numeric_limits<T>::max()
        ty = ex.ty(n)
        return Val(ex.num(ex.irange(ty)[1], ty), ty)
    a, b = ex.rv(st, vs[0]), ex.rv(st, vs[1])
    sg = not (a.ty[0] == 'int' and not a.ty[2])
    b = ex.convert(st, b, a.ty)
    return Val(z3.If(ex.lt(a.t, b.t, sg), b.t, a.t), a.ty)


def f_format(ex, n, st, vs, args):
    """fmt::format with a literal format of {} / {i} fields over strings and integers"""
    f = ex.rv(st, vs[0])
    if not isinstance(f, Val) or f.ty[0] != 'str':
        raise Unsupported('format string %r' % (f.ty if isinstance(f, Val) else f,))
    lit = ex.litof(f.t)
    import re
    if lit is None:     # some function of the format and its argument
        ts = [ex.rv(st, v) for v in vs[1:]]
        if len(ts) != 1 or not isinstance(ts[0], Val):
            raise Unsupported('non-literal format')
        return Val(ex.uf('formatted', ex.Str, ts[0].t.sort(), ex.Str)(f.t, ts[0].t), ('str',))
    parts, auto, pos = [], 0, 0
    if re.sub(r'\{\d*\}', '', lit).count('{'):
        # a format with a width or a base: some function of its arguments
        ts = [ex.rv(st, v) for v in vs[1:]]
        if not all(isinstance(t, Val) for t in ts):
            return Val(ex.fresh('formatted', ex.Str), ('str',))
        if len(ts) == 1:
            return Val(ex.uf('formatted', ex.Str, ts[0].t.sort(), ex.Str)(f.t, ts[0].t), ('str',))
        return Val(ex.uf('format:' + lit, *([t.t.sort() for t in ts] + [ex.Str]))(*[t.t for t in ts]), ('str',))
    for m in re.finditer(r'\{(\d*)\}', lit):
        if m.start() > pos:
            parts.append(ex.lit(lit[pos:m.start()]))
        i = int(m.group(1)) if m.group(1) else auto
        auto += 1
        parts.append(tostr(ex, st, vs[1 + i]))
        pos = m.end()
    if pos < len(lit):
        parts.append(ex.lit(lit[pos:]))
    return Val(ex.concat(parts), ('str',))


def tostr(ex, st, v):
    r = ex.rv(st, v)
    if not isinstance(r, Val):
        raise Unsupported('to string')
    if r.ty[0] == 'str' or r.ty == ('ptr', ('int', 8, True)):
        return str_term(ex, st, r)
    if r.ty[0] in ('int', 'enum'):
        if r.ty[0] == 'int' and r.ty[1] == 8:
            return ex.uf('chr_str', ex.sort(r.ty), ex.Str)(r.t)
        if ex.mode != 'int':
            return ex.uf('dec' if r.ty[2] else 'udec', r.t.sort(), ex.Str)(r.t)
        if ex.mode == 'int':
            f = ex.uf('dec', z3.IntSort(), ex.Str)
            t = f(r.t)
            inv = ex.uf('dec_inv', ex.Str, z3.IntSort())
            st.pc.append(inv(t) == r.t)
            st.pc.append(t != ex.EMPTY)
            return t
    if r.ty[0] in ('ptr', 'bool'):
        return ex.uf('text_of_' + r.ty[0], r.t.sort(), ex.Str)(r.t)
    raise Unsupported('to string of %s' % (r.ty,))


def f_to_string(ex, n, st, vs, args):
    return Val(tostr(ex, st, vs[0]), ('str',))


def _sto(name, ty):
    def f(ex, n, st, vs, args):
        s = str_term(ex, st, vs[0])
        ok = ex.uf(name + '_ok', ex.Str, z3.BoolSort())(s)
        v = ex.uf(name + '_val', ex.Str, ex.sort(ty))(s)
        out = []
        for s2, b in ex.split(st, ok, n):
            if b:
                ex.know(s2, v, ty)
                out.append((s2, Val(v, ty)))
            else:
                s2.thrown = 'invalid_argument/out_of_range'
                out.append((s2, None))
        return out
    return f


f_stol = _sto('stol', ('int', 64, True))
f_stoll = _sto('stoll', ('int', 64, True))
f_stoul = _sto('stoul', ('int', 64, False))
f_stoull = _sto('stoull', ('int', 64, False))
f_stoi = _sto('stoi', ('int', 32, True))


def f_isdigit(ex, n, st, vs, args):
    c = ex.rv(st, vs[0])
    t = z3.And(c.t >= ord('0'), c.t <= ord('9')) if ex.mode == 'int' else z3.And(c.t >= ord('0'), c.t <= ord('9'))
    return Val(z3.If(t, ex.num(1, ('int', 32, True)), ex.num(0, ('int', 32, True))), ('int', 32, True))


def f_get(ex, n, st, vs, args):
    """std::get<i>(tuple)"""
    import re
    m = re.match(r'(?:const )?(?:typename )?\w*tuple_element(?:_t)?<(\d+)', n['inner'][0]['type'].get('qualType', ''))
    pl = vs[0]
    if isinstance(pl, Val):
        pl = Temp(pl.t, pl.ty)
    if not m or not isinstance(pl, Place) or not pl.ty or pl.ty[0] != 'tup':
        raise Unsupported('std::get')
    i = int(m.group(1))
    return Sub(pl, i, pl.ty[1 + i])
