"""Representations: how change of basis and irreps of a derived representation are put together, as matrix formulas.

Products are flattened into ordered factors, block-diagonal matrices are recognised whether stacked by a library call or
written block by block at running offsets, and look-ups in tables built from the same list are resolved."""
from ..common import *
from ..interp import Interp
from .c17 import nm, recv, is_int
from .c18 import val, where, einsum_parts
from .c19 import items, flat, strip

ASSUMPTIONS = ['the irreps and the numerical decompositions they are fed with are correct (C09, C10; N03, N05)']


def run(p, rep, tier):
    rep.rule('evaluate', 'a representation evaluates to B diag(irreps(g)) B^-1, with its own irreps in order, B on the left and its inverse on the right', 6)
    rep.rule('derive', 'change of basis, its inverse and the irreps of a derived representation are those of the operands, combined in the same order', 12)
    rep.rule('character', 'characters are traces: sums over direct sums, products over tensor products', 4)
    rep.rule('intertwine', 'bases of intertwiners pair equal irreps at their own rows and columns, between the basis of the output and the inverse basis of the input', 8)
    rep.rule('commutant', 'the endomorphism basis of an irrep of type R, C, H is a basis of the reals, complex numbers, quaternions', 3)
    rep.rule('coset', 'two elements share a coset when the inverse of one times the other lies in the subgroup; fields on the cosets are moved by left translation', 4)
    mod = 'escnn/group/representation.py'
    fn = {f.name: f for f in p.all_functions() if f.cls is None and f.module.relpath == mod}
    cl = {c.name: c for c in p.classes.values() if c.module.relpath.startswith('escnn/group/')}
    for n in ('Representation', 'IrreducibleRepresentation', 'Group', 'HomSpace'):
        if n not in cl:
            raise AnalysisError(f'{n} not found')
    jobs = [('evaluate', factory, fn.get('direct_sum_factory')), ('evaluate', construct, cl['Representation']), ('character', chars, cl['Representation']),
            ('derive', directsum, fn.get('directsum')), ('derive', change, fn.get('change_basis')), ('derive', restricted, cl['Group']), ('derive', tensor, cl['Group']),
            ('derive', named, cl['Group']), ('derive', discrete, fn.get('build_from_discrete_group_representation')), ('derive', apart, fn.get('disentangle')),
            ('derive', regular, fn.get('build_regular_representation')), ('derive', induced, fn.get('build_induced_representation')), ('coset', dirac, cl['HomSpace']),
            ('intertwine', homs, fn.get('homomorphism_space')), ('intertwine', homs, p.method(cl['Representation'], 'endomorphism_basis')),
            ('commutant', commutant, cl['IrreducibleRepresentation']), ('coset', cosets, cl['HomSpace']), ('derive', spectral, cl['HomSpace'])]
    for rule, job, what in jobs:
        if what is None:
            rep.undecide(rule, job.__name__, mod, 'not found')
            continue
        try:
            job(p, rep, what)
        except Exception as e:
            rep.undecide(rule, f'{job.__name__}', mod, repr(e)[:90])


def go(p, f, c=None, it=None):
    it = it or Interp(p, inline=lambda g, r: g.name.startswith('_') and not g.name.startswith('__') and g.module is f.module and g.cls is None and g.name not in KEEP, max_stmts=600)
    return it, it.run(f, c or f.cls)


KEEP = {'_build_character_from_irreps_multiplicities', '_build_representation_callable_from_dict', '_tensor_product_character', '_tensor_nonlinearities', '_induced_nonlinearities'}
SOFT = {'asarray', 'array', 'todense', 'toarray', 'tocsc', 'tocsr', 'A', 'copy', 'matrix', 'list', 'tuple'}


def soft(t):
    while t.op == 'call' and nm(t) in SOFT:
        if t.args[0].op == 'attr' and t.args[0].args[0].op not in ('ext', 'mod'):
            t = t.args[0].args[0]
        elif t.args[1]:
            t = t.args[1][0]
        else:
            break
    return t


def factors(t):
    """ordered factors of a matrix product"""
    t = soft(t)
    if t.op == 'bin' and t.args[0] == '@':
        return factors(t.args[1]) + factors(t.args[2])
    if t.op == 'matmul':
        return [y for x in t.args for y in factors(x)]
    if t.op == 'call' and nm(t) in ('dot', 'matmul'):
        r = recv(t)
        if r is not None and r.op not in ('ext', 'mod') and len(t.args[1]) == 1:
            return factors(r) + factors(t.args[1][0])
        if len(t.args[1]) == 2:
            return factors(t.args[1][0]) + factors(t.args[1][1])
    if t.op == 'call' and nm(t) == 'multi_dot' and t.args[1] and t.args[1][0].op == 'list':
        return [y for x in t.args[1][0].args for y in factors(x)]
    return [t]


def inverse(t):
    """X when t is inv(X)"""
    if t.op == 'call' and nm(t) in ('inv', 'pinv') and len(t.args[1]) == 1:
        return t.args[1][0]
    return None


def lookup(t):
    """resolve entries of tables that are built from the list the key comes from"""
    for _ in range(8):
        m = {}
        for s in t.subterms():
            if s.op == 'sub' and s.args[0].op == 'comp' and s.args[0].args[0] == 'dict' and s.args[0].args[1].op == 'tuple' and len(s.args[0].args[2]) == 1:
                k, v = s.args[0].args[1].args
                ov, flt = s.args[0].args[2][0]
                if flt:
                    continue
                e = T('elem', ov)
                if k is e:
                    m[s] = subst(v, {e: s.args[1]})
                elif k is s.args[1]:
                    m[s] = v
                elif k.op == 'attr' and k.args[0] is e and s.args[1].op == 'attr' and s.args[1].args[1] == k.args[1]:
                    m[s] = subst(v, {e: s.args[1].args[0]})
        if not m:
            return t
        t2 = subst(t, m)
        if t2 is t:
            return t
        t = t2
    return t


def blocks(t):
    """(block, over) of a block-diagonal matrix, in order"""
    t = soft(t)
    if t.op == 'call' and nm(t) == 'block_diag' and t.args[1]:
        x = t.args[1][0]
        q = items(x.args[0] if x.op == 'star' else x)
        return (lookup(q[0]), q[1]) if q else None
    if t.op == 'overlay' and t.args[0].op == 'call' and nm(t.args[0]) == 'zeros' and t.args[1].op == 'comp' and t.args[1].args[0] == 'dict':
        key, v = t.args[1].args[1].args
        gens = t.args[1].args[2]
        if len(gens) != 1 or gens[0][1] or key.op != 'tuple' or len(key.args) != 2:
            return None
        ov = gens[0][0]
        a, b = key.args
        if span(a, ov) and a is b:
            return v, ov
        if a.op == 'slice' and b.op == 'slice':
            return ('bad', f'rows {show(a)[:60]}, columns {show(b)[:60]}') if a is not b and (span(a, ov) or span(b, ov)) and known_span(a, ov) and known_span(b, ov) else None
    return None


def known_span(s, ov):
    return all(x is NONE or x.op in ('run', 'const', 'add', 'bin', 'attr') for x in s.args)


def span(s, ov, size=None):
    """a slice from a running sum of sizes to that sum plus the own size"""
    if s.op != 'slice' or len(s.args) < 2:
        return False
    lo, hi = s.args[0], s.args[1]
    if lo.op != 'run' or lo.args[0] != '+' or lo.args[3] is not ov or not (lo.args[1].op == 'const' and lo.args[1].args[1] == 0):
        return False
    st = lo.args[2]
    if size is not None and st is not size:
        return False
    return hi.op in ('add', 'bin') and {x for x in hi.args if isinstance(x, T)} == {lo, st} and (hi.op == 'add' or hi.args[0] == '+')


def ob(rep, rule, w, ok, loc, msg):
    rep.ob(rule, w, ok, loc, msg)


# ------------------------------------------------------------------------------------------------- evaluation
def factory(p, rep, f):
    it, r = go(p, f)
    irr, cob, inv_ = (arg(x) for x in f.params[:3])
    for cl in list(it.closures):
        fi = it.closures[cl][0]
        free = [q for q in fi.params if q not in fi.defaults]
        v, _ = it.invoke(cl, [arg(q) for q in free])
        loc, w = where(fi), f.name
        el = arg(free[0])
        for conds, x in leaves(v):
            fs = factors(x)
            mid = [blocks(y) for y in fs]
            n = [i for i, y in enumerate(mid) if y is not None]
            if len(n) != 1 or mid[n[0]][0] == 'bad':
                rep.undecide('evaluate', w, loc, show(x)[:60])
                continue
            body, ov = mid[n[0]]
            ok = None
            if body.op == 'call' and len(body.args[1]) == 1:
                g = body.args[1][0]
                if strip(ov) is irr:
                    ok = (body.args[0] is T('elem', ov)) and g is el if body.args[0].op == 'elem' and g.op in ('arg', 'un') else None
                elif ov.op == 'call' and nm(ov) in ('set', 'sorted', 'reversed'):
                    ok = False
                elif ov.op == 'comp' and ov.args[0] == 'dict':
                    ok = False              # each irrep once, however often it occurs
            rep.ob('evaluate', w, ok, loc, f'blocks {show(body)[:60]} for each of {show(ov)[:40]}')
            left, right = fs[:n[0]], fs[n[0] + 1:]
            none = cmp('is', cob, NONE) in conds
            given = neg(cmp('is', cob, NONE)) in conds
            if none:
                rep.ob('evaluate', w, not left and not right, loc, 'without a change of basis the blocks are the matrix')
            else:
                def isinv(y):
                    alts = {z for _, z in leaves(y)}
                    good = all(z is inv_ or (inverse(z) is cob) for z in alts)
                    return True if good else (False if cob in alts or any(z is attr(cob, 'T') for z in alts) and False else None)
                okl = len(left) == 1 and left[0] is cob
                okr = len(right) == 1 and isinv(right[0])
                if len(left) == 1 and len(right) == 1:
                    swapped = isinv(left[0]) is True and right[0] is cob
                    rep.ob('evaluate', w, True if okl and okr is True else (False if swapped or left[0] is cob and right[0] is cob else None), loc, f'{show(left[0])[:40]} .. {show(right[0])[:40]}')
                elif given and (not left or not right):
                    rep.ob('evaluate', w, False, loc, 'the change of basis is applied on one side only')
                else:
                    rep.undecide('evaluate', w, loc, show(x)[:60])


def construct(p, rep, c):
    f = p.method(c, '__init__')
    it, r = go(p, f, c)
    loc, w = where(f), f'{c.name}.__init__'
    heap = {k[1]: v for k, v in r.state.heap.items() if k[0] is SELF}
    cob, inv_ = arg('change_of_basis'), arg('change_of_basis_inv')
    v = heap.get('change_of_basis')
    rep.ob('evaluate', w, v is cob if v is not None and v.op in ('arg', 'attr') else None, loc, f'change_of_basis = {show(v)[:40] if v is not None else None}')

    def isinv(y):
        return all(z is inv_ or inverse(z) is cob for _, z in leaves(y))
    v = heap.get('change_of_basis_inv')
    if v is not None:
        rep.ob('evaluate', w, True if isinv(v) else (False if any(z is cob for _, z in leaves(v)) else None), loc, f'change_of_basis_inv = {show(v)[:60]}')
    v = heap.get('irreps')
    if v is not None:
        rep.ob('evaluate', w, True if strip(v) is arg('irreps') else (False if v.op == 'call' and nm(v) in ('sorted', 'set') else None), loc, f'irreps = {show(v)[:40]}')
    v = heap.get('size')
    if v is not None:
        ok = v.op == 'sub' and v.args[0] is attr(cob, 'shape') and is_int(v.args[1]) or (v.op == 'call' and nm(v) == 'len' and v.args[1][0] is cob)
        rep.ob('evaluate', w, ok or None, loc, f'size = {show(v)[:40]}')
    v = heap.get('representation')
    if v is None:
        return
    none = cmp('is', arg('representation'), NONE)
    x = assume(v, [none])
    for conds, y in leaves(x):
        if y.op == 'call' and nm(y) == 'direct_sum_factory':
            q = items(val(y, 'irreps', 0))
            ok = None
            if q is not None:
                b, ov = q
                if b.op == 'call' and nm(b) == 'irrep' and strip(ov) in (arg('irreps'),):
                    ok = T('elem', ov) in set(b.subterms())
                elif ov.op == 'call' and nm(ov) in ('set', 'sorted', 'reversed'):
                    ok = False
            rep.ob('evaluate', w, ok, loc, f'evaluates the irreps {show(val(y, "irreps", 0))[:60]}')
            a, b = val(y, 'change_of_basis', 1), val(y, 'change_of_basis_inv', 2)
            ident = any(z.op == 'call' and nm(z) == 'allclose' for z in conds)
            if a is NONE:
                rep.ob('evaluate', w, ident or None, loc, 'the change of basis is dropped unless it is the identity')
                if not ident and not conds:
                    rep.ob('evaluate', w, False, loc, 'the change of basis is dropped')
            else:
                okb = b is NONE or b is None or isinv(b)
                rep.ob('evaluate', w, (a is cob and okb) if a.op in ('arg',) else None, loc, f'evaluates with {show(a)[:30]} and {show(b)[:30]}')
        else:
            rep.undecide('evaluate', w, loc, show(y)[:60])


def chars(p, rep, c):
    f = p.method(c, 'character')
    it, r = go(p, f, c)
    e = arg(f.params[1])
    own = attr(SELF, '_characters')
    for conds, v in leaves(r.ret):
        w, loc = f'{c.name}.character', where(f)
        if v is NONE:
            continue
        if v.op == 'call' and nm(v) == 'trace' and len(v.args[1]) == 1:
            m = v.args[1][0]
            rep.ob('character', w, m.args[1][0] is e if m.op == 'call' and m.args[0] in (SELF, attr(SELF, 'representation')) and len(m.args[1]) == 1 and m.args[1][0].op in ('arg', 'un') else None, loc, f'trace of {show(m)[:50]}')
        elif v.op == 'sub' and v.args[0] is own:
            rep.ob('character', w, v.args[1] is e if v.args[1].op in ('arg', 'un') else None, loc, show(v)[:50])
        elif v.op == 'call' and v.args[0] is own and len(v.args[1]) == 1:
            rep.ob('character', w, v.args[1][0] is e if v.args[1][0].op in ('arg', 'un') else None, loc, show(v)[:50])
        elif v.op == 'bin' or v.op == 'mul':
            rep.ob('character', w, False, loc, f'the character is {show(v)[:60]}')
        else:
            rep.undecide('character', w, loc, show(v)[:60])
    for g in p.all_functions():
        if g.cls is None and g.name == '_build_character_from_irreps_multiplicities':
            for fi, v, el, loc in closures(p, g):
                ok = None
                if v.op == 'fold' and v.args[0] == '+' and not v.args[4] and strip(v.args[3]) is arg(g.params[0]):
                    b, e_ = v.args[2], T('elem', v.args[3])
                    ts = set(b.args) if b.op in ('mul',) else {b.args[1], b.args[2]} if b.op == 'bin' and b.args[0] == '*' else {b}
                    ch = [t for t in ts if isinstance(t, T) and t.op == 'call' and nm(t) == 'character']
                    m = [t for t in ts if isinstance(t, T) and t.op == 'sub']
                    if len(ch) == 1 and len(ts) == 2 and len(m) == 1:
                        ok = ch[0].args[1][0] is el and recv(ch[0]) is sub(e_, const(0)) and m[0] is sub(e_, const(1)) if ch[0].args[1] else None
                    elif len(ch) == 1 and len(ts) == 1:
                        ok = False
                rep.ob('character', g.name, ok, loc, f'character {show(v)[:80]}')
        if g.cls is None and g.name == '_tensor_product_character':
            for fi, v, el, loc in closures(p, g):
                ok = None
                ts = list(v.args) if v.op == 'mul' else [v.args[1], v.args[2]] if v.op == 'bin' else []
                ts = [t for t in ts if isinstance(t, T)]
                if len(ts) == 2 and all(t.op == 'call' and nm(t) == 'character' and len(t.args[1]) + len(t.args[2]) == 1 for t in ts):
                    rs = {recv(t) for t in ts}
                    es = {(list(t.args[1]) + [x for _, x in t.args[2]])[0] for t in ts}
                    mulop = v.op == 'mul' or v.args[0] == '*'
                    ok = mulop and rs == {arg(g.params[0]), arg(g.params[1])} and es == {el} if all(x.op == 'arg' for x in rs) else None
                rep.ob('character', g.name, ok, loc, f'character {show(v)[:80]}')


def closures(p, g):
    it, r = go(p, g)
    for cl in list(it.closures):
        fi = it.closures[cl][0]
        free = [q for q in fi.params if q not in fi.defaults]
        v, _ = it.invoke(cl, [arg(q) for q in free])
        yield fi, v, arg(free[0]), where(fi)


# ------------------------------------------------------------------------------------------------- derived representations
def built(p, f, c=None):
    """the Representation(...) calls a function returns: (conditions, operands)"""
    it, r = go(p, f, c)
    out = []
    for conds, v in leaves(r.ret):
        if is_ctor(v, 'Representation'):
            out.append((conds, dict(v.args[2]), v))
        else:
            out.append((conds, None, v))
    return out, r


def directsum(p, rep, f):
    outs, r = built(p, f)
    loc, w = where(f), f.name
    rs, user = arg(f.params[0]), arg('change_of_basis')
    for conds, d, v in outs:
        if d is None:
            rep.undecide('derive', w, loc, show(v)[:60])
            continue
        q = flat(d['irreps'])
        ok = None
        if q is not None and strip(q[1]) is rs:
            ok = strip(q[0]) is attr(T('elem', q[1]), 'irreps') or None
        elif q is not None and q[1].op == 'call' and nm(q[1]) in ('set', 'reversed', 'sorted'):
            ok = False
        rep.ob('derive', w, ok, loc, f'irreps {show(d["irreps"])[:70]}')
        none = cmp('is', user, NONE)
        for case, given in ((none, False), (neg(none), True)):
            b, bi = assume(d['change_of_basis'], [case]), assume(d['change_of_basis_inv'], [case])
            fs = factors(b)
            ok = None
            if given:
                if len(fs) == 2 and fs[0] is user:
                    ok = stacked(fs[1], rs, 'change_of_basis')
                elif len(fs) == 2 and fs[1] is user:
                    ok = False
                elif len(fs) == 1:
                    ok = False if fs[0] is user or stacked(fs[0], rs, 'change_of_basis') else None
            else:
                ok = stacked(fs[0], rs, 'change_of_basis') if len(fs) == 1 else None
            rep.ob('derive', w, ok, loc, f'change of basis {"with a further one" if given else ""}: {show(b)[:60]}')
            ok = None
            if bi is NONE or inverse(bi) is b:
                ok = True
            elif inverse(bi) is not None:
                ok = False if given and (inverse(bi) is user or stacked(inverse(bi), rs, 'change_of_basis')) else None
            elif given:
                fi = factors(bi)
                if len(fi) == 2 and inverse(fi[1]) is user:
                    ok = stacked(fi[0], rs, 'change_of_basis_inv')
                elif len(fi) == 2 and inverse(fi[0]) is user:
                    ok = False
                elif len(fi) == 1:
                    ok = False if stacked(fi[0], rs, 'change_of_basis_inv') else None
            else:
                ok = stacked(bi, rs, 'change_of_basis_inv')
            rep.ob('derive', w, ok, loc, f'inverse change of basis {"with a further one" if given else ""}: {show(bi)[:60]}')


def stacked(t, rs, what):
    q = blocks(t)
    if q is None:
        return None
    if q[0] == 'bad':
        return False
    b, ov = q
    if strip(ov) is not rs:
        return False if ov.op == 'call' and nm(ov) in ('set', 'reversed', 'sorted') else None
    b = soft(b)
    return b.args[1] == what if b.op == 'attr' and b.args[0] is T('elem', ov) else (False if b.op == 'attr' and b.args[1] == 'T' and False else None)


def change(p, rep, f):
    outs, r = built(p, f)
    loc, w = where(f), f.name
    rho, user = arg(f.params[0]), arg(f.params[1])
    for conds, d, v in outs:
        if d is None:
            rep.undecide('derive', w, loc, show(v)[:60])
            continue
        rep.ob('derive', w, strip(d['irreps']) is attr(rho, 'irreps') or None, loc, f'irreps {show(d["irreps"])[:50]}')
        rep.ob('derive', w, d['group'] is attr(rho, 'group') or None, loc, f'group {show(d["group"])[:50]}')
        fs = factors(d['change_of_basis'])
        want = [user, attr(rho, 'change_of_basis')]
        rep.ob('derive', w, fs == want if set(fs) <= set(want) else None, loc, f'change of basis {show(d["change_of_basis"])[:60]}')
        bi = d['change_of_basis_inv']
        ok = None
        if bi is NONE or inverse(bi) is d['change_of_basis']:
            ok = True
        else:
            fi = factors(bi)
            a = attr(rho, 'change_of_basis_inv')
            norm = [('inv', inverse(y)) if inverse(y) is not None else y for y in fi]
            good = [a, ('inv', user)]
            alt = [('inv', attr(rho, 'change_of_basis')), ('inv', user)]
            if norm in (good, alt):
                ok = True
            elif len(norm) == 2 and norm[::-1] in (good, alt) or len(norm) == 1 and norm[0] in (good + alt) or user in fi:
                ok = False
        rep.ob('derive', w, ok, loc, f'inverse change of basis {show(bi)[:60]}')


def restricted(p, rep, c):
    f = p.method(c, 'restrict_representation')
    outs, r = built(p, f, c)
    loc, w = where(f), f'{c.name}.{f.name}'
    rho, i = arg('repr'), arg('id')

    def ids(t):
        return t is i or t.op == 'call' and nm(t) == '_process_subgroup_id' and val(t, 'id', 0) is i
    for conds, d, v in outs:
        if d is None:
            rep.undecide('derive', w, loc, show(v)[:60])
            continue
        g = d['group']
        ok = None
        if g.op == 'sub' and g.args[0].op == 'call' and nm(g.args[0]) == 'subgroup':
            ok = is_int(g.args[1]) and g.args[1].args[1] == 0 and ids(val(g.args[0], 'id', 0)) and recv(g.args[0]) is SELF
        elif g is SELF:
            ok = False
        rep.ob('derive', w, ok, loc, f'group {show(g)[:50]}')
        q = flat(d['irreps'])

        def piece(t, ov, pos):
            if t.op == 'sub' and is_int(t.args[1]) and t.args[0].op == 'call' and nm(t.args[0]) in ('_restrict_irrep', 'restrict_irrep'):
                k = t.args[0]
                return t.args[1].args[1] == pos and val(k, 'irrep', 0) is T('elem', ov) and ids(val(k, 'id', 1))
            return None
        ok = None
        if q is not None and q[1] is attr(rho, 'irreps'):
            ok = piece(q[0], q[1], 1)
        rep.ob('derive', w, ok, loc, f'irreps {show(d["irreps"])[:60]}')
        fs = factors(d['change_of_basis'])
        ok = None
        b = [blocks(y) for y in fs]
        if len(fs) == 2:
            if fs[0] is attr(rho, 'change_of_basis') and b[1] is not None and b[1][0] != 'bad':
                ok = piece(b[1][0], b[1][1], 0) if b[1][1] is attr(rho, 'irreps') else None
            elif fs[1] is attr(rho, 'change_of_basis') and b[0] is not None or fs[0] is attr(rho, 'change_of_basis_inv'):
                ok = False
        elif len(fs) == 1 and (b[0] is not None or fs[0] is attr(rho, 'change_of_basis')):
            ok = False
        rep.ob('derive', w, ok, loc, f'change of basis {show(d["change_of_basis"])[:70]}')


def tensor(p, rep, c):
    f = p.method(c, '_tensor_product')
    it, r = go(p, f, c)
    loc, w = where(f), f'{c.name}.{f.name}'
    r1, r2 = arg(f.params[1]), arg(f.params[2])
    for conds, v in leaves(r.ret):
        if v.op != 'call':
            continue
        d = dict(v.args[2])
        b = d.get('change_of_basis')
        if b is None:
            rep.undecide('derive', w, loc, show(v)[:60])
            continue
        fs = factors(b)
        k = [i for i, y in enumerate(fs) if y.op == 'call' and nm(y) == 'kron']
        if len(fs) != 2 or len(k) != 1 or len(fs[k[0]].args[1]) != 2:
            rep.undecide('derive', w, loc, show(b)[:60])
            continue
        x = fs[k[0]]
        want = [attr(r1, 'change_of_basis'), attr(r2, 'change_of_basis')]
        got = [soft(y) for y in x.args[1]]
        rep.ob('derive', w, got == want and k[0] == 0 if all(y.op == 'attr' for y in got) else None, loc, f'{show(x)[:70]} as factor {k[0] + 1} of the change of basis')
        ch = d.get('character')
        if ch is not None and ch.op == 'call' and nm(ch) == '_tensor_product_character':
            a = set(dict(ch.args[2]).values()) | set(ch.args[1])
            rep.ob('character', w, a == {r1, r2} if all(y.op == 'arg' for y in a) else None, loc, f'character of {show(ch)[:60]}')
    # the decomposition: coefficients are asked for the pair that is decomposed, in order
    ask = [e for e in r.of('call') if e['f'] is not None and e['f'].name in ('_tensor_product_irreps', '_clebsh_gordan_coeff')]
    seen = set()
    for e in ask:
        b = e['bound'] or {}
        m, n = b.get('m'), b.get('n')
        if m is None or n is None or (m, n, e['f'].name) in seen:
            continue
        seen.add((m, n, e['f'].name))
        src = []
        for t in (m, n):
            s = {y.args[0] for y in t.subterms() if y.op == 'elem'}
            src.append(1 if attr(r1, 'irreps') in s and attr(r2, 'irreps') not in s else 2 if attr(r2, 'irreps') in s and attr(r1, 'irreps') not in s else 0)
        rep.ob('derive', w, src == [1, 2] if 0 not in src else None, e.loc(), f'{e["f"].name} of an irrep of operand {src[0]} and one of operand {src[1]}')


def named(p, rep, c):
    """regular, quotient, induced: the operands returned by the builder are handed to the representation in their places"""
    for name in ('regular_representation', 'quotient_representation', 'induced_representation'):
        f = p.method(c, name)
        if f is None:
            continue
        it, r = go(p, f, c)
        w = f'{c.name}.{name}'
        for e in r.of('call'):
            t = e['term']
            if not is_ctor(t, 'Representation'):
                continue
            d = dict(t.args[2])
            rep.ob('derive', w, d['group'] is SELF if d['group'].op in ('self', 'arg', 'attr') else None, e.loc(), f'group {show(d["group"])[:30]}')
            for k, pos in (('change_of_basis', 1), ('change_of_basis_inv', 2)):
                x = d[k]
                ok = None
                if x.op == 'sub' and is_int(x.args[1]) and x.args[0].op == 'call':
                    ok = x.args[1].args[1] == pos
                elif k == 'change_of_basis_inv' and (x is NONE or inverse(x) is d['change_of_basis'] or x is attr(d['change_of_basis'], 'T')):
                    ok = True
                rep.ob('derive', w, ok, e.loc(), f'{k} = {show(x)[-30:]}')
            q = items(d['irreps'])
            if q is not None and q[1].op == 'sub' and is_int(q[1].args[1]):
                rep.ob('derive', w, q[1].args[1].args[1] == 0 and q[0] is attr(T('elem', q[1]), 'id') or None, e.loc(), 'irreps')
            src = d['change_of_basis'].args[0] if d['change_of_basis'].op == 'sub' else None
            if src is not None and src.op == 'call' and nm(src) == '_induced_from_irrep':
                a = dict(src.args[2])
                sid = a.get('subgroup_id')
                rep.ob('derive', w, sid is arg('subgroup_id') if sid is not None and sid.op == 'arg' else None, e.loc(), f'induced from {show(sid)[:30]}')
                x = a.get('repr')
                if name == 'induced_representation':
                    rep.ob('derive', w, x is arg('repr') if x is not None and x.op in ('arg', 'attr') else None, e.loc(), f'induces {show(x)[:40]}')
                else:
                    rep.ob('derive', w, x.args[1] == 'trivial_representation' if x is not None and x.op == 'attr' else None, e.loc(), f'induces {show(x)[:40]}')
    f = p.method(c, 'get_irrep_id')
    if f is not None:
        it, r = go(p, f, c)
        for conds, v in leaves(r.ret):
            ok = True if v.op == 'attr' and v.args[1] == 'id' else None
            if v.op == 'sub' and v.args[0] is attr(SELF, 'representations') or v is arg(f.params[1]):
                ok = False
            rep.ob('derive', f'{c.name}.get_irrep_id', ok, where(f), f'the id of an irrep is given as {show(v)[:60]}')


def discrete(p, rep, f):
    outs, r = built(p, f)
    loc, w = where(f), f.name
    for conds, d, v in outs:
        if d is None:
            continue
        b = d['change_of_basis']
        ok = None
        if b.op == 'sub' and is_int(b.args[1]) and b.args[0].op == 'call' and nm(b.args[0]) == 'decompose_representation_finitegroup':
            ok = b.args[1].args[1] == 0
            q = flat(d['irreps'])
            if q is not None and q[1].op == 'sub' and q[1].args[0] is b.args[0]:
                e = T('elem', q[1])
                x = q[0]
                good = x.op in ('bin', 'mul') and sub(e, const(1)) in x.args and any(isinstance(y, T) and y.op == 'list' and y.args == (sub(e, const(0)),) for y in x.args)
                rep.ob('derive', w, True if good else (False if x.op == 'list' else None), loc, f'irreps {show(x)[:50]}')
        rep.ob('derive', w, ok, loc, f'change of basis {show(b)[:60]}')
        rep.ob('derive', w, d['group'] is arg('group') if d['group'].op == 'arg' else None, loc, 'group')


def apart(p, rep, f):
    """disentangle: each block takes rows and columns of the change of basis, and its rows are moved to consecutive places"""
    it, r = go(p, f)
    loc, w = where(f), f.name
    rho = arg(f.params[0])
    for e in r.of('call'):
        t = e['term']
        if is_ctor(t, 'Representation'):
            d = dict(t.args[2])
            b = d['change_of_basis']
            ok = None
            if b.op == 'sub' and b.args[0] in (attr(rho, 'change_of_basis'), attr(rho, 'change_of_basis_inv')) and b.args[1].op == 'call' and nm(b.args[1]) == 'ix_' and len(b.args[1].args[1]) == 2:
                ok = b.args[0] is attr(rho, 'change_of_basis')
                rows, cols = b.args[1].args[1]
                if 'range' in show(rows) and 'range' not in show(cols):
                    ok = False
            rep.ob('derive', w, ok, e.loc(), f'block {show(b)[:60]}')
            rep.ob('derive', w, d['group'] is attr(rho, 'group') or None, e.loc(), 'group')
    for _, v in leaves(r.ret):
        if v.op != 'tuple' or len(v.args) != 2:
            continue
        t = v.args[0]
        if t.op == 'overlay' and t.args[1].op == 'comp' and t.args[1].args[1].op == 'tuple' and t.args[1].args[1].args[0].op == 'tuple':
            key, x = t.args[1].args[1].args
            if len(key.args) == 2 and x.op == 'call' and nm(x) in ('eye', 'identity'):
                a, b = (k.op == 'slice' for k in key.args)
                rep.ob('derive', w, True if a and not b else (False if b and not a else None), loc, 'the rows of a block are moved to consecutive rows')


def roots(t):
    """(core, numerators, denominators) of a matrix scaled by square roots"""
    num, den = [], []
    while True:
        if t.op == 'bin' and t.args[0] in ('*', '/', '//'):
            a, b = t.args[1], t.args[2]
        elif t.op == 'mul' and len(t.args) == 2:
            a, b = t.args
        else:
            return t, num, den
        isr = lambda y: y.op == 'call' and nm(y) == 'sqrt' and len(y.args[1]) == 1
        if isr(b):
            (den if t.op == 'bin' and t.args[0] != '*' else num).append(b.args[1][0])
            t = a
        elif isr(a) and not (t.op == 'bin' and t.args[0] != '*'):
            num.append(a.args[1][0])
            t = b
        else:
            return t, num, den


def regular(p, rep, f):
    it, r = go(p, f)
    loc, w = where(f), f.name
    g = arg(f.params[0])
    for _, v in leaves(r.ret):
        if v.op != 'tuple' or len(v.args) != 3:
            rep.undecide('derive', w, loc, show(v)[:60])
            continue
        _, B, Bi = v.args
        rep.ob('derive', w, True if Bi is attr(B, 'T') or inverse(Bi) is B else (False if Bi is B else None), loc, 'the second matrix inverts the first')
        core, num, den = roots(B)
        if core.op != 'overlay' or core.args[1].op != 'comp' or len(core.args[1].args[2]) != 1:
            rep.undecide('derive', w, loc, show(core)[:60])
            continue
        size = lambda t: t.op == 'call' and nm(t) in ('order', 'len')
        rep.ob('derive', w, True if len(den) == 1 and not num and size(den[0]) else (False if not den and not num or num else None), loc, 'rows are divided by the root of the order')
        key, x = core.args[1].args[1].args
        ov = core.args[1].args[2][0][0]
        e = T('elem', ov)
        row = key.args[0] if key.op == 'tuple' and len(key.args) == 2 else key
        pos = lookup(row)
        x = x.args[0] if x.op == 'attr' and x.args[1] == 'T' else x
        while x.op == 'call' and nm(x) in ('flatten', 'ravel', 'reshape', 'squeeze') and recv(x) is not None:
            x = recv(x)
        fs = factors(x)
        if len(fs) != 2 or fs[0].op != 'call' or len(fs[0].args[1]) != 1:
            rep.undecide('derive', w, loc, show(x)[:60])
            continue
        el = fs[0].args[1][0]
        ok = True if el is e else (False if el.op == 'un' and el.args[1] is e else None)
        rep.ob('derive', w, ok, loc, f'the row of an element is the vector moved by {show(el)[:30]}')
        vec = fs[1]
        if vec.op == 'overlay' and vec.args[1].op == 'comp':
            y = vec.args[1].args[1].args[1]
            c_, n_, d_ = roots(y)
            sz = lambda t: t.op == 'attr' and t.args[1] == 'size'
            rep.ob('derive', w, True if len(n_) == 1 and sz(n_[0]) and not d_ else (False if not n_ else None), loc, 'each irrep weighs the root of its dimension')


def induced(p, rep, f):
    it, r = go(p, f)
    loc, w = where(f), f.name
    for _, v in leaves(r.ret):
        if v.op != 'tuple' or len(v.args) != 3:
            rep.undecide('derive', w, loc, show(v)[:60])
            continue
        _, B, Bi = v.args
        rep.ob('derive', w, True if Bi is attr(B, 'T') or inverse(Bi) is B else (False if Bi is B else None), loc, 'the second matrix inverts the first')
        if not (B.op == 'call' and nm(B) in ('concatenate', 'hstack') and B.args[1] and B.args[1][0].op == 'comp'):
            rep.undecide('derive', w, loc, show(B)[:60])
            continue
        x = B.args[1][0].args[1]
        while x.op == 'call' and nm(x) in ('reshape',) and recv(x) is not None:
            x = recv(x)
        core, num, den = roots(x)
        if core.op != 'overlay' or core.args[1].op != 'comp' or len(core.args[1].args[2]) != 1:
            rep.undecide('derive', w, loc, show(core)[:60])
            continue
        rho = T('elem', B.args[1][0].args[2][0][0])
        psi = arg(f.params[2])
        k = {'rho' if t is attr(rho, 'size') else 'psi' if t is attr(psi, 'size') else 'len' if t.op == 'call' and nm(t) == 'len' else '?' for t in num + den}
        if '?' not in k:
            rep.ob('derive', w, [t is attr(rho, 'size') for t in num] == [True] and len(den) == 2 and attr(psi, 'size') in den and attr(rho, 'size') not in den, loc,
                   f'blocks are scaled by the roots of {[show(t)[:20] for t in num]} / {[show(t)[:20] for t in den]}')
        else:
            rep.undecide('derive', w, loc, 'scale')
        e = einsum_parts(core.args[1].args[1].args[1])
        if e is None:
            rep.undecide('derive', w, loc, 'block')
            continue
        a, b, out, x, y = e
        if y.op == 'call' and len(y.args[1]) == 1 and y.args[0] is rho:
            a, b, x, y = b, a, y, x
        if x.op == 'call' and x.args[0] is rho and len(x.args[1]) == 1 and y.op == 'call' and nm(y) == '_dirac_kernel_ft':
            el = T('elem', core.args[1].args[2][0][0])
            u = x.args[1][0]
            rep.ob('derive', w, True if u is el else (False if u.op == 'un' and u.args[1] is el else None), loc, f'the kernel is moved by {show(u)[:20]}')
            ok = len(a) == 2 and len(b) == 3 and a[1] == b[0] and a[0] != a[1] and out == b[2] + b[1] + a[0]
            rep.ob('derive', w, ok, loc, f'rows are the entries of the field, columns the copies of an irrep and its components: {a},{b}->{out}')
        else:
            rep.undecide('derive', w, loc, show(x)[:50])


def dirac(p, rep, c):
    f = p.method(c, '_dirac_kernel_ft')
    it, r = go(p, f, c)
    w, loc = f'{c.name}.{f.name}', where(f)
    for _, v in leaves(r.ret):
        e = einsum_parts(v)
        if e is None:
            rep.undecide('coset', w, loc, show(v)[:60])
            continue
        a, b, out, x, y = e
        if y.op == 'attr':
            a, b, x, y = b, a, y, x
        if not (x.op == 'attr' and x.args[0].op == 'call' and nm(x.args[0]) == 'restrict'):
            rep.undecide('coset', w, loc, show(x)[:60])
            continue
        rep.ob('coset', w, x.args[1] == 'change_of_basis' and len(a) == 2 and b[0] == a[1] and out == a[0] + b[1:] and a[0] != a[1], loc, f'{x.args[1]} of the restriction applied as {a},{b}->{out}')


# ------------------------------------------------------------------------------------------------- intertwiners
def homs(p, rep, f):
    it, r = go(p, f, f.cls)
    loc, w = where(f), (f'{f.cls.name}.' if f.cls else '') + f.name
    if f.cls is None:
        rin, rout = arg(f.params[0]), arg(f.params[1])
    else:
        rin = rout = SELF
    for _, v in leaves(r.ret):
        if v.op != 'call' or nm(v) != 'einsum' or len(v.args[1]) != 4 or v.args[1][0].op != 'const':
            rep.undecide('intertwine', w, loc, show(v)[:60])
            continue
        spec = v.args[1][0].args[1].replace(' ', '')
        ins, out = spec.split('->')
        ins = ins.split(',')
        ops = list(v.args[1][1:])
        mats = {}
        core = None
        for s, o in zip(ins, ops):
            if len(s) == 3:
                core = s
                X = o
            elif len(s) == 2:
                mats[o] = s
        if core is None or len(mats) != 2 or len(out) != 3:
            rep.undecide('intertwine', w, loc, spec)
            continue
        B, Bi = attr(rout, 'change_of_basis'), attr(rin, 'change_of_basis_inv')
        bad = {attr(rin, 'change_of_basis'), attr(rout, 'change_of_basis_inv'), B, Bi}
        bad |= {attr(x, 'T') for x in bad}          # a change of basis need not be orthogonal
        if set(mats) != {B, Bi}:
            rep.ob('intertwine', w, False if set(mats) <= bad else None, loc, f'between {[show(x) for x in mats]}')
            continue
        k, m, n = core
        ok = mats[B][1] == m and mats[Bi][0] == n and out == k + mats[B][0] + mats[Bi][1] and len({k, m, n, mats[B][0], mats[Bi][1]}) == 5
        rep.ob('intertwine', w, ok, loc, f'applied as {spec} to {[show(x) for x in ops if x in mats]}')
        # shape and positions of the blocks
        z = [s for s in X.subterms() if s.op == 'call' and nm(s) == 'zeros' and s.args[1] and s.args[1][0].op == 'tuple' and len(s.args[1][0].args) == 3]
        for s in z:
            a, b, c_ = s.args[1][0].args
            rep.ob('intertwine', w, b is attr(rout, 'size') and c_ is attr(rin, 'size') if b.op == 'attr' and c_.op == 'attr' else None, loc, f'shape {show(b)} x {show(c_)}')
        for s in X.subterms():
            if s.op == 'comp' and s.args[0] == 'dict' and s.args[1].op == 'tuple' and s.args[1].args[0].op == 'tuple' and len(s.args[1].args[0].args) == 3:
                _, rows, cols = s.args[1].args[0].args
                val_ = s.args[1].args[1]
                place(rep, w, loc, rows, cols, rin, rout)
                if val_.op == 'call' and nm(val_) == 'endomorphism_basis':
                    rep.ob('intertwine', w, True, loc, '')
                conds = [g[1] for g in s.args[2]]
                eqs = [y for cs in conds for y in cs]
                if eqs:
                    good = any(y.op == 'cmp' and y.args[0] == '==' for y in eqs)
                    rep.ob('intertwine', w, True if good else (False if all(y.op == 'cmp' and y.args[0] == '!=' for y in eqs) else None), loc, f'blocks are filled where {show(eqs[0])[:60]}')
                break


def place(rep, w, loc, rows, cols, rin, rout):
    """rows run over the irreps of the output, columns over those of the input"""
    def src(s):
        if s.op != 'slice':
            return None
        lo = s.args[0]
        runs = [y for y in lo.subterms() if y.op in ('run', 'rec')]
        if lo.op == 'run':
            return lo
        return runs[0] if lo.op == 'rec' else None
    a, b = src(rows), src(cols)
    if a is None or b is None:
        rep.undecide('intertwine', w, loc, f'rows {show(rows)[:40]}')
        return
    oa = a.args[3] if a.op == 'run' else a.args[2]
    ob_ = b.args[3] if b.op == 'run' else b.args[2]
    wa, wb = attr(rout, 'irreps'), attr(rin, 'irreps')
    known = {wa, wb}
    base = lambda t: t
    if rin is not rout:
        rep.ob('intertwine', w, oa is wa and ob_ is wb if {oa, ob_} <= known else None, loc, f'rows follow {show(oa)[:40]}, columns follow {show(ob_)[:40]}')
    else:
        rep.ob('intertwine', w, True if a is not b else False, loc, 'rows and columns are the same')


# ------------------------------------------------------------------------------------------------- commutant
def mat(t):
    """constant matrix (or stack) of a literal expression, as nested lists"""
    if t.op == 'const' and type(t.args[1]) in (int, float):
        return t.args[1]
    if t.op == 'un' and t.args[0] == '-':
        v = mat(t.args[1])
        return neg_(v)
    if t.op in ('list', 'tuple'):
        return [mat(x) for x in t.args]
    if t.op == 'call' and t.args[1]:
        n = nm(t)
        if n in ('array', 'asarray'):
            return mat(t.args[1][0])
        if n in ('eye', 'identity'):
            k = mat(t.args[1][0])
            return [[1.0 if i == j else 0.0 for j in range(k)] for i in range(k)] if type(k) is int else bad()
        if n == 'diag':
            v = mat(t.args[1][0])
            return [[v[i] if i == j else 0.0 for j in range(len(v))] for i in range(len(v))]
        if n == 'stack':
            ax = dict(t.args[2]).get('axis', t.args[1][1] if len(t.args[1]) > 1 else const(0))
            if not (ax.op == 'const' and ax.args[1] == 0):
                bad()
            return mat(t.args[1][0])
    if t.op == 'sub':
        v = mat(t.args[0])
        ix = t.args[1]
        if ix.op == 'slice':
            return v[slice(*[x.args[1] if x.op == 'const' else bad() for x in ix.args])]
        if ix.op == 'tuple' and all(x.op == 'slice' for x in ix.args) and len(ix.args) == 2:
            a, b = (slice(*[x.args[1] if x.op == 'const' else bad() for x in y.args]) for y in ix.args)
            return [row[b] for row in v[a]]
    if t.op == 'attr' and t.args[1] == 'T':
        v = mat(t.args[0])
        return [list(r) for r in zip(*v)]
    bad()


def neg_(v):
    return [neg_(x) for x in v] if isinstance(v, list) else -v


def bad():
    raise ValueError('not a literal')


def mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def commutant(p, rep, c):
    f = p.method(c, 'endomorphism_basis')
    it, r = go(p, f, c)
    loc = where(f)
    ty = attr(SELF, 'type')
    for kind, n in (('R', 1), ('C', 2), ('H', 4)):
        w = f'{c.name}.endomorphism_basis {kind}'
        v = None
        for conds, x in leaves(r.ret):
            if all(same_kind(cd, ty, kind) for cd in conds) and x is not NONE:
                v = x
                break
        if v is None:
            rep.undecide('commutant', w, loc, 'no value')
            continue
        try:
            if v.op == 'call' and nm(v) == 'kron' and len(v.args[1]) == 2:
                big, e = v.args[1]
                m = mat(big)
                if e.op == 'call' and nm(e) in ('eye', 'identity'):
                    ok = algebra(m, n)
                    x = e.args[1][0]
                    if ok and n > 1:
                        ok = x.op == 'bin' and x.args[0] == '//' and x.args[1] is attr(SELF, 'size') and x.args[2].op == 'const' and x.args[2].args[1] == n if x.op == 'bin' and x.args[0] == '//' else None
                else:
                    ok = None
            elif n == 1 and 'eye' in show(v):
                t = v
                while t.op in ('call', 'sub') and not (t.op == 'call' and nm(t) in ('eye', 'identity')):
                    t = recv(t) if t.op == 'call' else t.args[0]
                ok = t.args[1][0] is attr(SELF, 'size') or None
            else:
                ok = None
        except Exception:
            ok = None
        rep.ob('commutant', w, ok, loc, f'{show(v)[:100]} does not span the endomorphisms of an irrep of type {kind}')
    f = p.method(c, '__init__')
    it, r = go(p, f, c)
    heap = {k[1]: v for k, v in r.state.heap.items() if k[0] is SELF}
    v = heap.get('sum_of_squares_constituents')
    if v is not None:
        for kind, n in (('R', 1), ('C', 2), ('H', 4)):
            x = pick(v, {ty, arg('type')}, kind)
            rep.ob('commutant', f'{c.name}.sum_of_squares_constituents {kind}', x.args[1] == n if x is not None and x.op == 'const' and type(x.args[1]) is int else None, where(f), f'{show(x)[:30] if x is not None else "?"} for type {kind}')


def pick(v, tys, kind):
    while v.op == 'ite':
        q = None
        for ty in tys:
            q = same_kind(v.args[0], ty, kind)
            if q is not None:
                break
        if q is None:
            return None
        v = v.args[1] if q else v.args[2]
    if v.op == 'sub' and v.args[0].op == 'dict' and v.args[1] in tys:
        for k, x in v.args[0].args:
            if k.op == 'const' and k.args[1] == kind:
                return x
    return v


def same_kind(cd, ty, kind):
    if cd.op == 'not':
        q = same_kind(cd.args[0], ty, kind)
        return None if q is None else not q
    if cd.op in ('and', 'or'):
        qs = [same_kind(x, ty, kind) for x in cd.args]
        stop = cd.op == 'or'
        return stop if stop in qs else (None if None in qs else not stop)
    if cd.op == 'cmp' and cd.args[0] in ('==', '!=') and ty in cd.args[1:]:
        o = [x for x in cd.args[1:] if x is not ty]
        if o and o[0].op == 'const':
            e = o[0].args[1] == kind
            return e if cd.args[0] == '==' else not e
    return None


def algebra(m, n):
    """n matrices n x n: the identity and units squaring to -1, anticommuting, closed under products, in the layout [[A, -B], [B, A]]"""
    if len(m) != n or any(len(x) != n or any(len(r) != n for r in x) for x in m):
        return False
    one = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    if m[0] != one and one not in m:
        return False
    units = [x for x in m if x != one]
    if len(units) != n - 1:
        return False
    for u in units:
        if mm(u, u) != neg_(one) and [[-0.0 + y for y in r] for r in mm(u, u)] != neg_(one):
            return False
        if [list(r) for r in zip(*u)] != neg_(u):
            return False
    for i, a in enumerate(units):
        for b in units[i + 1:]:
            s = [[x + y for x, y in zip(r, q)] for r, q in zip(mm(a, b), mm(b, a))]
            if any(abs(y) > 1e-12 for r in s for y in r):
                return False
    if n == 2:
        return units[0] in ([[0.0, -1.0], [1.0, 0.0]], [[0.0, 1.0], [-1.0, 0.0]])
    return True


# ------------------------------------------------------------------------------------------------- homogeneous spaces
def cosets(p, rep, c):
    f = p.method(c, '__init__')
    it, r = go(p, f, c)
    heap = {k[1]: v for k, v in r.state.heap.items() if k[0] is SELF}
    for k, pos in (('H', 0), ('_inclusion', 1), ('_restriction', 2)):
        v = heap.get(k)
        if v is not None and v.op == 'sub' and is_int(v.args[1]) and v.args[0].op == 'call' and nm(v.args[0]) == 'subgroup':
            rep.ob('coset', f'{c.name}.{k}', v.args[1].args[1] == pos and val(v.args[0], 'id', 0) is arg(f.params[2]) and recv(v.args[0]) in (arg(f.params[1]), attr(SELF, 'G')), where(f), f'{k} = {show(v)[:60]}')
    f = p.method(c, 'same_coset')
    if f is not None:
        it, r = go(p, f, c)
        w, loc = f'{c.name}.same_coset', where(f)
        g1, g2 = arg(f.params[1]), arg(f.params[2])
        v = r.ret
        ok = None
        calls = [s for s in v.subterms() if s.op == 'call' and s.args[0] is attr(SELF, '_restriction') and len(s.args[1]) == 1]
        if len(calls) == 1:
            fs = factors(calls[0].args[1][0])
            pat = [('~', x.args[1]) if x.op == 'un' and x.args[0] in ('~', 'inv') else x for x in fs]
            if len(pat) == 2:
                if pat in ([('~', g1), g2], [('~', g2), g1]):
                    ok = True
                elif {x[1] if isinstance(x, tuple) else x for x in pat} <= {g1, g2}:
                    ok = False
            if ok and v.op == 'cmp':
                ok = True if v.args[0] == 'is not' or v is neg(cmp('is', calls[0], NONE)) else (False if v is cmp('is', calls[0], NONE) else None)
        rep.ob('coset', w, ok, loc, f'same coset when {show(v)[:70]}')
    f = p.method(c, 'basis')
    if f is not None:
        it, r = go(p, f, c)
        w, loc = f'{c.name}.basis', where(f)
        for _, v in leaves(r.ret):
            e = einsum_parts(v)
            if e is None:
                rep.undecide('coset', w, loc, show(v)[:60])
                continue
            a, b, out, x, y = e
            ism = lambda t: t.op == 'call' and len(t.args[1]) == 1 and (t.args[1][0] is arg(f.params[1]) or t.args[1][0].op == 'un') and 'dirac' not in show(t.args[0])
            if not ism(x) and ism(y):
                a, b, x, y = b, a, y, x
            if not ism(x) or not (y.op == 'call' and nm(y) == '_dirac_kernel_ft'):
                rep.undecide('coset', w, loc, show(v)[:60])
                continue
            rep.ob('coset', w, x.args[1][0] is arg(f.params[1]), loc, f'translated by {show(x)[-30:]}')
            rep.ob('coset', w, len(a) == 2 and b[0] == a[1] and out == a[0] + b[1:] and a[0] != a[1], loc, f'applied as {a},{b}->{out}')
    f = p.method(c, 'dimension_basis')
    if f is not None:
        it, r = go(p, f, c)
        w, loc = f'{c.name}.dimension_basis', where(f)
        v = r.ret
        if v.op == 'tuple' and len(v.args) == 3:
            m = v.args[1]
            while m.op == 'call' and nm(m) in ('int', 'round') and m.args[1]:
                m = m.args[1][0]
            ok = None
            num, den = [], []

            def split(t, n_, d_):
                if t.op == 'mul':
                    for x in t.args:
                        split(x, n_, d_)
                elif t.op == 'bin' and t.args[0] == '*':
                    split(t.args[1], n_, d_)
                    split(t.args[2], n_, d_)
                elif t.op == 'bin' and t.args[0] in ('/', '//'):
                    split(t.args[1], n_, d_)
                    split(t.args[2], d_, n_)
                else:
                    n_.append(t)
            split(m, num, den)
            kinds = lambda ts: sorted(what(t) for t in ts)

            def what(t):
                if t.op == 'attr' and t.args[1] == 'sum_of_squares_constituents':
                    b = t.args[0]
                    o = recv(b) if b.op == 'call' else None
                    return 'rho' if o is attr(SELF, 'G') else 'psi' if o is attr(SELF, 'H') else '?'
                if t.op == 'call' and nm(t) == 'multiplicity':
                    return 'm'
                return '?'
            a, b = kinds(num), kinds(den)
            if '?' not in a + b:
                ok = a == ['m', 'psi'] and b == ['rho']
            rep.ob('coset', w, ok, loc, f'multiplicity {show(m)[:80]}')
            s0, s2 = v.args[0], v.args[2]
            own = lambda t, o: t.op == 'attr' and t.args[1] == 'size' and t.args[0].op == 'call' and recv(t.args[0]) is attr(SELF, o)
            if s0.op == 'attr' and s2.op == 'attr':
                rep.ob('coset', w, own(s0, 'G') and own(s2, 'H') if (own(s0, 'G') or own(s0, 'H')) and (own(s2, 'G') or own(s2, 'H')) else None, loc, 'sizes')


def spectral(p, rep, c):
    """induced representations on a band of irreps: each irrep as often as it occurs"""
    f = p.method(c, 'induced_representation')
    it, r = go(p, f, c)
    w = f'{c.name}.induced_representation'
    for e in r.of('call'):
        t = e['term']
        if is_ctor(t, 'Representation'):
            d = dict(t.args[2])
            rep.ob('derive', w, d['group'] is attr(SELF, 'G') if d['group'].op == 'attr' else None, e.loc(), f'group {show(d["group"])[:30]}')
            b = d['change_of_basis']
            rep.ob('derive', w, True if b.op == 'call' and nm(b) == 'eye' else None, e.loc(), 'basis')
    f = p.method(c, 'complete_basis')
    if f is None:
        return
    it, r = go(p, f, c)
    w, loc = f'{c.name}.complete_basis', where(f)
    for s in r.ret.subterms():
        if s.op == 'overlay' and s.args[1].op == 'comp' and s.args[1].args[0] == 'dict' and s.args[1].args[1].args[0].op == 'slice':
            key, v = s.args[1].args[1].args
            ov = s.args[1].args[2][0][0]
            rep.ob('derive', w, True if span(key, ov) else None, loc, f'entries {show(key)[:60]}')
            x = v
            if x.op == 'call' and nm(x) in ('reshape', 'flatten', 'ravel'):
                b = recv(x)
                # the channels of one copy of an irrep are contiguous: copies first
                ok = True if b.op == 'attr' and b.args[1] == 'T' or b.op == 'call' and nm(b) in ('transpose', 'swapaxes') else (False if b.op == 'sub' else None)
                rep.ob('derive', w, ok, loc, f'entries are {show(x)[-40:]}')
