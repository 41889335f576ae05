import z3


def bad(t, vs):
    """not usable as a pattern: contains an interpreted connective, or misses a bound variable"""
    seen, todo, found = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or not z3.is_app(x):
            return True
        k = x.decl().kind()
        if k in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_STORE, z3.Z3_OP_IMPLIES,
                 z3.Z3_OP_CONST_ARRAY, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            return True
        for v in vs:
            if x.eq(v):
                found.add(v.get_id())
        todo.extend(x.children())
    return len(found) != len({v.get_id() for v in vs})


def fa(vs, body, *pats):
    """forall, with the usable ones of the given patterns"""
    ps = []
    for p in pats:
        if isinstance(p, tuple):
            if any(bad(x, ()) for x in p):
                continue
            ps.append(z3.MultiPattern(*p))
        elif not bad(p, vs) and z3.is_app(p) and p.num_args() > 0:
            ps.append(p)
    if pats and len(ps) < len(pats):
        ps = []           # let the solver choose
    if ps:
        try:
            return z3.ForAll(vs, body, patterns=ps)
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, body)


I = z3.Int
IMP, AND, OR, NOT = z3.Implies, z3.And, z3.Or, z3.Not
SEL = z3.Select
