"""What a function has established about its operands when it completes: universally quantified and
conditional facts, in a form where the ways of iterating over the fields of a type coincide."""
from .common import *

FIELD_WRAPPERS = ('builtins.set', 'builtins.list', 'builtins.tuple', 'builtins.sorted', 'builtins.frozenset', 'builtins.iter', 'builtins.reversed')


def rep(x):
    """a generic representation (field) of the field type x"""
    return T('field', x)


def bases_of(x):
    r = attr(x, 'representations')
    return [x, r, attr(x, '_unique_representations')]


def is_base(b, x):
    while b.op == 'call' and b.args[0].op == 'ext' and b.args[0].args[0] in FIELD_WRAPPERS and len(b.args[1]) == 1:
        b = b.args[1][0]
    return b in bases_of(x)


def canon(t, xs):
    """replace every term that denotes an element of a field type by field<x>"""
    m = {}
    for s in t.subterms():
        for x in xs:
            if s.op == 'elem' and is_base(s.args[0], x):
                m[s] = rep(x)
            elif s.op == 'sub' and s.args[0] in (attr(x, 'representations'), x) and s.args[1].op in ('idx', 'elem'):
                m[s] = rep(x)
    return subst(t, m) if m else t


def peel(f, conds=(), quants=()):
    """alternatives (conditions, quantified iterables, body) of a fact"""
    if f.op == 'forall':
        yield from peel(f.args[1], conds, quants + (f.args[0],))
    elif f.op == 'implies':
        yield from peel(f.args[1], conds + tuple(literals(f.args[0])), quants)
    elif f.op == 'or':
        yield conds, quants, f
        for i, a in enumerate(f.args):
            rest = tuple(neg(x) for j, x in enumerate(f.args) if j != i)
            for l in literals(a):
                yield from peel(l, conds + rest, quants)
    elif f.op == 'and':
        for a in f.args:
            yield from peel(a, conds, quants)
    elif empty_comp(f) is not None:
        c = empty_comp(f)
        q, lits = quants, ()
        for it, cd in c.args[2]:
            q += (it,)
            lits += tuple(cd)
        if not lits:
            yield conds, quants, f
        for i, l in enumerate(lits):
            rest = tuple(x for j, x in enumerate(lits) if j != i)
            for g in literals(neg(l)):
                yield from peel(g, conds + rest, q)
    else:
        yield conds, quants, f


def empty_comp(f):
    """f says that a comprehension is empty"""
    c = None
    if f.op == 'not' and f.args[0].op == 'comp' and f.args[0].args[0] in ('list', 'set', 'dict'):
        c = f.args[0]
    elif f.op == 'cmp' and f.args[0] == '==':
        for a, b in ((f.args[1], f.args[2]), (f.args[2], f.args[1])):
            if is_const(b, 0) and a.op == 'call' and a.args[0] is ext('builtins.len') and len(a.args[1]) == 1 and a.args[1][0].op == 'comp':
                c = a.args[1][0]
    elif f.op == 'not' and f.args[0].op == 'call' and f.args[0].args[0] is ext('builtins.len') and f.args[0].args[1][0].op == 'comp':
        c = f.args[0].args[1][0]
    return c


def prefix_test(body, r, prefix):
    """body says: some supported non-linearity of field r starts with prefix"""
    sup = attr(r, 'supported_nonlinearities')
    inner = None
    if body.op == 'exists' and body.args[0] is sup:
        inner = body.args[1]
    elif body.op == 'call' and body.args[0] is ext('builtins.any') and len(body.args[1]) == 1 and body.args[1][0].op == 'comp':
        kind, elt, gens = body.args[1][0].args
        if len(gens) == 1 and gens[0][0] is sup and not gens[0][1]:
            inner = elt
    if inner is None or inner.op != 'call':
        return None
    fn = inner.args[0]
    if not (fn.op == 'attr' and fn.args[1] == 'startswith' and fn.args[0].op == 'elem' and fn.args[0].args[0] is sup):
        return None
    return len(inner.args[1]) == 1 and is_const(inner.args[1][0], prefix)


def method_call(body, r, name):
    """body is r.name() or r.name"""
    if body is attr(r, name):
        return True
    if body.op == 'call' and not body.args[1]:
        fn = body.args[0]
        return fn is attr(r, name) or (fn.op == 'bound' and fn.args[0] is r and callee_name(fn) == name)
    return False


def equal_len(facts, a, b):
    la, lb = [T('call', ext('builtins.len'), (x,), ()) for x in (a, b)]
    return cmp('==', la, lb) in facts


def covers(q, x, facts):
    if is_base(q, x):
        return True
    return any(equal_len(facts, q, y) for y in bases_of(x)[:2])


def mentions(t, *words):
    s = set()
    for u in t.subterms():
        if u.op == 'attr':
            s.add(u.args[1])
        elif u.op == 'const':
            s.add(u.args[1])
        elif u.op == 'bound':
            s.add(callee_name(u))
    return all(w in s for w in words)
