"""Product groups: every value computed by the product-group code is given the component (first, second or both) it is
made of - by provenance from G1/G2, from the entries of a pair, of a split parametrization, of a split element - and
the places where components meet are checked: a component group only ever receives its own component, pairs are built
in order, restrictions to a component test the other one, and the irreps are the tensor products of the factors'."""
import re
from ..common import *
from ..interp import Interp
from .c08 import typed

ASSUMPTIONS = ['the component groups satisfy the group interface (C08)',
               'real irreps of complex type are stored as [[A, -B], [B, A]]']

FILES = ('escnn/group/directproduct.py', 'escnn/group/doublegroup.py')
SUF = re.compile(r'^(psi|g|restrict|inclusion|id|G|H|rho|irrep|child|parent)_?([12])$')
WHOLE = {'e1', 'e2', 'element', 'id', 'sg_id1', 'sg_id2', 'g', 'e', 'elem', 'element1', 'element2'}
SPLIT = ('_split_param', 'split_element', 'to')
ONE, TWO, NO = frozenset({1}), frozenset({2}), frozenset()


def run(p, rep, tier):
    rep.rule('component', 'a component group, irrep or map is applied to its own component only', 30)
    rep.rule('argument', 'a helper receives the first component as its first and the second as its second', 14)
    rep.rule('pair', 'elements and subgroup ids of a product group are pairs in the order of the factors', 12)
    rep.rule('both', 'both components are combined, inverted, compared, checked and converted', 12)
    rep.rule('whole', 'identity, elements, generators, parametrizations and subgroup ids of the product are built from those of the factors', 9)
    rep.rule('kind', 'a product is continuous when a factor is, commutative when both are', 2)
    rep.rule('maps', 'restricting to one factor requires the identity in the other; including puts the identity there', 4)
    rep.rule('subgroup', 'the subgroup of a product is the product of the subgroups, or the one factor whose partner is trivial', 3)
    rep.rule('irreps', 'irreps of a product are the tensor products of the irreps of the factors, and their characters the traces of these', 6)
    rep.rule('diagonal', 'the diagonal of a double group holds the pairs (g, g)', 2)
    cls = [c for c in p.classes.values() if c.name == 'DirectProductGroup']
    if not cls:
        raise AnalysisError('DirectProductGroup not found')
    c = cls[0]
    mods = {c.module.relpath} | {d.module.relpath for d in p.classes.values() if d.name == 'DoubleGroup'}
    for f in sorted(p.all_functions(), key=lambda f: f.qualname):
        if f.module.relpath not in mods or f.name.endswith('_pickleable'):
            continue
        try:
            function(p, rep, f)
        except Exception as e:
            rep.undecide('component', f.qualname, f.module.relpath, repr(e)[:80])
    for chk in (both, whole, kind, subgroup, maps, irreps, diagonal):
        try:
            chk(p, rep, c)
        except Exception as e:
            rep.undecide(chk.__name__, c.name, c.module.relpath, repr(e)[:80])


def nm(t):
    f = t.args[0]
    if f.op in ('bound', 'func', 'class'):
        return f.args[-1].rpartition('.')[2]
    if f.op == 'attr':
        return f.args[1]
    if f.op == 'ext':
        return f.args[0].rpartition('.')[2]
    return None


def recv(t):
    return t.args[0].args[0] if t.args[0].op in ('bound', 'attr') else None


def is_int(t):
    return t.op == 'const' and type(t.args[1]) is int


_memo = {}


def comp(t):
    if t in _memo:
        return _memo[t]
    _memo[t] = NO
    r = _comp(t)
    _memo[t] = r
    return r


def _comp(t):
    o = t.op
    if o == 'const':
        v = t.args[1]
        return ONE if v in ('G1', 'G1_') else TWO if v in ('G2', 'G2_') else NO
    if o == 'arg':
        m = SUF.match(t.args[0])
        return frozenset({int(m.group(2))}) if m else NO
    if o == 'attr':
        if t.args[1] in ('G1', '_G1'):
            return ONE
        if t.args[1] in ('G2', '_G2'):
            return TWO
        return comp(t.args[0])
    if o == 'bound':
        return comp(t.args[0])
    if o == 'sub' and is_int(t.args[1]) and t.args[1].args[1] in (0, 1, -1, -2):
        i = frozenset({t.args[1].args[1] % 2 + 1})
        b = t.args[0]
        if b.op == 'arg' and b.args[0] in WHOLE:
            return i
        if b.op == 'call' and nm(b) in SPLIT and not comp(b):
            return i
        if b.op == 'elem' and b.args[0].op == 'call' and nm(b.args[0]) in ('product', 'zip'):
            return i
        return comp(b)
    out = NO
    for x in t.args:
        out |= walk(x)
    return out


def walk(x):
    if isinstance(x, T):
        return comp(x)
    if isinstance(x, tuple):
        r = NO
        for y in x:
            r |= walk(y)
        return r
    return NO


def where(f):
    return f.qualname.replace('escnn.group.', '', 1)


def runs(p, f):
    """events and returned value of a function and of the closures it defines"""
    it = Interp(p, inline=inline, max_stmts=400)
    r = it.run(f, f.cls)
    yield f, r.events, r.ret
    for cl in list(it.closures):
        fi = it.closures[cl][0]
        try:
            v, st = it.invoke(cl, [typed(it, fi, q) for q in fi.params if q not in fi.defaults])
        except Exception:
            continue
        yield fi, it.res.events, v


PRIVATE_KEEP = {'_split_param', '_combine', '_inverse', '_is_element', '_equal', '_change_param', '_hash_element', '_repr_element',
                '_subgroup', '_process_subgroup_id', '_combine_subgroups', '_generator', '_build_representations', '_restrict_irrep',
                '_decode_subgroup_id_pickleable', '_encode_subgroup_id_pickleable'}


def inline(g, r):
    return g.name.startswith('_') and not g.name.startswith('__') and g.name not in PRIVATE_KEEP


def function(p, rep, f):
    seen = set()
    for fi, evs, ret in runs(p, f):
        w = where(fi)
        for e in evs:
            if e.kind != 'call' or e['term'] in seen:
                continue
            seen.add(e['term'])
            t = e['term']
            fn = t.args[0] if t.op == 'call' else e['fn']
            c = comp(fn) if fn.op in ('bound', 'attr', 'arg') else NO
            vals = [x for x in t.args[1]] + [v for _, v in t.args[2]] if t.op == 'call' else list(e['pos'])
            if fn.op == 'attr' and fn.args[0].op in ('mut', 'dict', 'list', 'comp', 'upd', 'tuple', 'recout', 'str'):
                c = NO          # a container
            if len(c) == 1:
                bad = None
                for v in vals:
                    cv = comp(v)
                    if v.op == 'sub' and any(w_.op == 'sub' and w_.args[0] is v.args[0] and is_int(w_.args[1]) and w_.args[1].args[1] == 2 for w_ in vals):
                        continue        # entry of a tagged triple, not of a pair
                    if cv and not cv & c:
                        bad = v
                rep.ob('component', w, bad is None, e.loc(), f'{show(fn)[:50]} is applied to {show(bad)[:60]}' if bad is not None else '')
            b = e['bound'] or {}
            if e['f'] is not None and e['f'].module.relpath in FILES or fn.op == 'class':
                for k, v in b.items():
                    m = SUF.match(k)
                    if m and isinstance(v, T):
                        cv = comp(v)
                        if cv and not (cv == ONE or cv == TWO):
                            continue
                        if cv:
                            rep.ob('argument', w, cv == frozenset({int(m.group(2))}), e.loc(), f'{nm(t)} gets {show(v)[:60]} as its {k}')
            if t.op == 'call' and nm(t) == 'element' and not comp(fn) and recv(t) is not None and b.get('element') is not None:
                pair(rep, w, e.loc(), b['element'])
                q = b.get('param')
                if q is not None and q.op == 'str':
                    cs = [comp(x) for x in q.args if x.op != 'const']
                    if len(cs) == 2 and all(len(x) == 1 for x in cs):
                        rep.ob('pair', w, cs == [ONE, TWO], e.loc(), f'parametrization {show(q)[:80]}')
        if fi is f and f.cls is not None and f.name in ('_combine', '_inverse', '_change_param', '_process_subgroup_id', '_combine_subgroups', 'split_element'):
            for _, v in leaves(ret):
                if v is not NONE:
                    pair(rep, w, f'{f.module.relpath}:{f.node.lineno}', v)


def pair(rep, w, loc, v):
    if v.op != 'tuple' or any(x.op == 'star' for x in v.args):
        if v.op == 'arg' or v.op == 'sub':
            return
        rep.undecide('pair', w, loc, show(v)[:60])
        return
    cs = [comp(x) for x in v.args]
    if len(v.args) < 2:
        rep.ob('pair', w, False if any(cs) else None, loc, f'{len(v.args)} entries: {show(v)[:90]}')
        return
    cs = cs[:2]         # only the first two entries are ever read
    if all(len(x) == 1 for x in cs):
        rep.ob('pair', w, cs == [ONE, TWO], loc, f'({show(v.args[0])[:50]}, {show(v.args[1])[:50]})')
    elif cs[0] == NO and cs[1] == NO:
        pass                # diagonal
    else:
        rep.undecide('pair', w, loc, show(v)[:60])


def ret_of(p, c, name):
    f = p.method(c, name)
    if f is None:
        return None, None
    r = Interp(p, inline=inline, max_stmts=400).run(f, f.cls)
    return f, r


def both(p, rep, c):
    for name in ('_combine', '_inverse', '_is_element', '_equal', '_change_param'):
        f, r = ret_of(p, c, name)
        if f is None:
            continue
        loc = f'{f.module.relpath}:{f.node.lineno}'
        calls = {}
        for s in r.ret.subterms():
            if s.op == 'call' and nm(s) == name and recv(s) is not None and len(comp(recv(s))) == 1:
                calls.setdefault(comp(recv(s)), []).append(s)
        for i in (ONE, TWO):
            n = sorted(i)[0]
            if i not in calls:
                # nothing of the component is asked: decided when the value is made of known parts only
                known = all(s.op in ('call', 'tuple', 'sub', 'arg', 'const', 'attr', 'bound', 'func', 'and', 'or', 'ite', 'cmp', 'self', 'not') for s in r.ret.subterms())
                rep.ob('both', f'{c.name}.{name}', False if known else None, loc, f'component {n} is not asked for {name}')
                continue
            for s in calls[i]:
                d = dict(s.args[2])
                bad = None
                for k, v in d.items():
                    if k in f.params and not v.contains(arg(k)):
                        bad = (k, v)
                rep.ob('both', f'{c.name}.{name}', bad is None, loc, '' if bad is None else f'G{n}.{name} gets {bad[0]} = {show(bad[1])[:60]}')
        if name in ('_is_element', '_equal') and len(calls) == 2:
            v = r.ret
            if v.op == 'and' or v.op == 'or':
                rep.ob('both', f'{c.name}.{name}', v.op == 'and', loc, f'a single component decides: {show(v)[:50]}')
    f, r = ret_of(p, c, '__eq__')
    if f is not None:
        loc = f'{f.module.relpath}:{f.node.lineno}'
        cs = set()
        for s in r.ret.subterms():
            if s.op == 'cmp' and s.args[0] == '==':
                a, b = s.args[1], s.args[2]
                if a.op == 'attr' and b.op == 'attr' and comp(a) and comp(b):
                    rep.ob('component', f'{c.name}.__eq__', comp(a) == comp(b), loc, f'{show(a)} compared with {show(b)}')


def whole(p, rep, c):
    def one(name):
        f, r = ret_of(p, c, name)
        return f, (r.ret if f is not None else None), (f'{f.module.relpath}:{f.node.lineno}' if f is not None else '')

    def src(t, i, n):
        return t.op == 'attr' and t.args[1] == n and comp(t.args[0]) == i

    f, v, loc = one('identity')
    if f and v.op == 'call' and nm(v) in ('pair_elements', 'element'):
        b = dict(v.args[2])
        if nm(v) == 'pair_elements':
            ok = src(b['g1'], ONE, 'identity') and src(b['g2'], TWO, 'identity')
            rep.ob('whole', f'{c.name}.identity', ok if all(comp(x) for x in (b['g1'], b['g2'])) else None, loc, show(v)[:90])
    elif f:
        rep.undecide('whole', f'{c.name}.identity', loc, show(v)[:60])
    for name, attr_ in (('elements', 'elements'), ('PARAMETRIZATIONS', 'PARAMETRIZATIONS')):
        f, v, loc = one(name)
        if not f:
            continue
        got = False
        for _, x in leaves(v):
            if x.op == 'comp' and x.args[0] == 'list':
                gens = x.args[2]
                its = [g[0] for g in gens]
                if len(its) == 1 and its[0].op == 'call' and nm(its[0]) == 'product':
                    its = list(its[0].args[1])
                filt = any(g[1] for g in gens)
                ok = not filt and sorted(i.id for i in its) == sorted(i.id for i in its if i.op == 'attr' and i.args[1] == attr_) and {comp(i) for i in its} == {ONE, TWO} and len(its) == 2
                closed = all(i.op == 'attr' or i.op == 'sub' for i in its)
                rep.ob('whole', f'{c.name}.{name}', True if ok else (False if closed else None), loc, f'{name} are listed from {[show(i)[:40] for i in its]}' + (' with a filter' if filt else ''))
                body = x.args[1]
                elems = [comp(s) for s in body.subterms() if s.op == 'elem' and any(s.args[0] is i for i in its)]
                if elems:
                    rep.ob('whole', f'{c.name}.{name}', set(elems) == {ONE, TWO}, loc, f'an entry is {show(body)[:80]}')
                got = True
        if not got:
            rep.undecide('whole', f'{c.name}.{name}', loc, show(v)[:60])
    table = {'subgroup_trivial_id': ('subgroup_trivial_id', 'subgroup_trivial_id'), 'subgroup_self_id': ('subgroup_self_id', 'subgroup_self_id'),
             'subgroup1_id': ('subgroup_self_id', 'subgroup_trivial_id'), 'subgroup2_id': ('subgroup_trivial_id', 'subgroup_self_id')}
    for name, (a, b) in table.items():
        f, v, loc = one(name)
        if not f:
            continue
        if v.op == 'tuple' and len(v.args) == 2 and all(x.op == 'attr' and comp(x) for x in v.args):
            rep.ob('whole', f'{c.name}.{name}', src(v.args[0], ONE, a) and src(v.args[1], TWO, b), loc, show(v)[:90])
        else:
            rep.undecide('whole', f'{c.name}.{name}', loc, show(v)[:60])
    f, v, loc = one('PARAM')
    if f and v.op == 'str':
        parts = [x for x in v.args if x.op != 'const']
        if len(parts) == 2 and all(comp(x) for x in parts):
            rep.ob('whole', f'{c.name}.PARAM', src(parts[0], ONE, 'PARAM') and src(parts[1], TWO, 'PARAM'), loc, show(v)[:80])
    for name, i in (('inclusion1', ONE), ('inclusion2', TWO)):
        f, v, loc = one(name)
        if not f or v.op != 'call' or nm(v) != 'pair_elements':
            if f:
                rep.undecide('whole', f'{c.name}.{name}', loc, show(v)[:60])
            continue
        b = dict(v.args[2])
        own, other = ('g1', 'g2') if i == ONE else ('g2', 'g1')
        ok = b[own].op == 'arg' and src(b[other], TWO if i == ONE else ONE, 'identity')
        rep.ob('whole', f'{c.name}.{name}', ok if comp(b[other]) else None, loc, show(v)[:90])
    f, v, loc = one('generators')
    if f:
        parts = [x for x in v.subterms() if x.op == 'comp' and x.args[0] == 'list']
        its = [x.args[2][0][0] for x in parts]
        if len(parts) == 2 and all(x.op == 'attr' and comp(x) for x in its):
            rep.ob('whole', f'{c.name}.generators', {comp(x) for x in its} == {ONE, TWO} and all(x.args[1] == 'generators' for x in its), loc, f'{[show(x) for x in its]}')
        elif len(parts) == 1 and comp(parts[0]) and len(comp(parts[0])) == 1:
            rep.ob('whole', f'{c.name}.generators', False, loc, 'generators of one factor only')
        else:
            rep.undecide('whole', f'{c.name}.generators', loc, show(v)[:60])


def kind(p, rep, c):
    f = p.method(c, '__init__')
    r = Interp(p, inline=lambda g, rr: False, max_stmts=400).run(f, f.cls)
    for e in r.of('call'):
        b = e['bound'] or {}
        if e['f'] is not None and e['f'].name == '__init__' and {'continuous', 'abelian'} <= set(b):
            for k, op, word in (('continuous', 'or', 'either'), ('abelian', 'and', 'both')):
                v = b[k]
                at = [x for x in v.subterms() if x.op == 'attr' and x.args[1] == k]
                if v.op in ('or', 'and') and len(v.args) == 2 and len(at) == 2:
                    ok = v.op == op and {comp(x) for x in at} == {ONE, TWO}
                elif v.op == 'attr' and v.args[1] == k and comp(v):
                    ok = False
                elif v.op == 'const':
                    ok = False
                else:
                    ok = None
                rep.ob('kind', f'{c.name}.__init__', ok, e.loc(), f'{k} = {show(v)[:70]}, must hold when {word} factors are')


def subgroup(p, rep, c):
    f = p.method(c, '_subgroup')
    r = Interp(p, inline=lambda g, rr: False, max_stmts=400).run(f, f.cls)
    for e in r.of('return'):
        v = e['value']
        loc = e.loc()
        if v.op != 'tuple' or len(v.args) != 3:
            rep.undecide('subgroup', f'{c.name}._subgroup', loc, show(v)[:60])
            continue
        cs = [comp(x) for x in v.args]
        h = cs[0]
        triv = set()
        for x in e.facts:
            if x.op == 'cmp' and x.args[0] == '==' and any(is_int(y) and y.args[1] == 1 for y in x.args[1:]) and 'order' in show(x):
                triv |= comp(x)
        if h == ONE or h == TWO:
            other = 2 if h == ONE else 1
            rep.ob('subgroup', f'{c.name}._subgroup', other in triv and cs[1] == h and cs[2] == h, loc,
                   f'returns the subgroup of factor {sorted(h)[0]} where the trivial ones are {sorted(triv)}, with an inclusion of {sorted(cs[1])} and a restriction of {sorted(cs[2])}')
        else:
            rep.ob('subgroup', f'{c.name}._subgroup', cs[1] == h and cs[2] == h if h == ONE | TWO else None, loc, 'inclusion and restriction do not use both factors')
        # position of the maps in what Group.subgroup returns: 1 is the inclusion, 2 the restriction
        for pos, word in ((1, 'inclusion'), (2, 'restriction')):
            used = [s for s in v.args[pos].subterms() if s.op == 'sub' and is_int(s.args[1]) and s.args[1].args[1] in (1, 2) and s.args[0].op == 'call' and nm(s.args[0]) == 'subgroup']
            if used:
                rep.ob('subgroup', f'{c.name}._subgroup', all(s.args[1].args[1] == pos for s in used), loc, f'the {word} is built from the wrong map of a factor')


def maps(p, rep, c):
    for f in p.all_functions():
        if f.module.relpath != c.module.relpath or f.cls is not None:
            continue
        fm = [m for m in (SUF.match(k) for k in f.params) if m and m.group(1) in ('restrict', 'inclusion')]
        if len(fm) != 1:
            continue
        kind_, i = fm[0].group(1), frozenset({int(fm[0].group(2))})
        other = TWO if i == ONE else ONE
        for fi, evs, v in runs(p, f):
            if fi is f:
                continue
            loc = f'{fi.module.relpath}:{fi.node.lineno}'
            if kind_ == 'restrict':
                for conds, x in leaves(v):
                    if x is NONE:
                        continue
                    if comp(x) != i:
                        rep.undecide('maps', where(f), loc, show(x)[:60])
                        continue
                    ok = any(guards_identity(y, other) for z in conds for y in literals(z))
                    rep.ob('maps', where(f), ok, loc, f'an element is restricted to factor {sorted(i)[0]} without requiring the identity in the other')
            else:
                for conds, x in leaves(v):
                    if x.op == 'call' and nm(x) == 'element' and dict(x.args[2]).get('element') is not None and dict(x.args[2])['element'].op == 'tuple':
                        t = dict(x.args[2])['element']
                        if len(t.args) != 2:
                            continue
                        o = t.args[sorted(other)[0] - 1]
                        good = any(s.op == 'attr' and s.args[1] == 'identity' for s in o.subterms())
                        rep.ob('maps', where(f), good if comp(o) == other or good else None, loc, f'the other component is {show(o)[:60]}')
                    else:
                        rep.undecide('maps', where(f), loc, show(x)[:60])


def literals(t):
    if t.op == 'and':
        for x in t.args:
            yield from literals(x)
    else:
        yield t


def guards_identity(x, other):
    return x.op == 'cmp' and x.args[0] == '==' and comp(x) == other and any(s.op == 'attr' and s.args[1] == 'identity' for s in x.subterms()) \
        or x.op == 'call' and nm(x) == 'is_identity' and comp(x) == other


# ---------------------------------------------------------------------------------------------------- irreps
class Unknown(Exception):
    pass


def padd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}


def pmul(a, b):
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(sorted(k + l))
            r[m] = r.get(m, 0) + v * w
    return {k: v for k, v in r.items() if v}


def scale(a, n):
    return {k: v * n for k, v in a.items() if v * n}


def psi_of(t):
    """psi_i(g_i) -> i"""
    if t.op == 'call' and t.args[0].op == 'arg' and len(t.args[1]) == 1:
        m = SUF.match(t.args[0].args[0])
        if m and m.group(1) == 'psi':
            return int(m.group(2))
    return None


def half_of(t, i):
    return t.op == 'bin' and t.args[0] == '//' and is_int(t.args[2]) and t.args[2].args[1] == 2 and t.args[1] is attr(arg(f'psi{i}'), 'size')


def side(s, test):
    """0: first half, 1: second half"""
    if s.op != 'slice' or s.args[2] is not NONE:
        raise Unknown('slice')
    lo, hi = s.args[0], s.args[1]
    if (lo is NONE or is_int(lo) and lo.args[1] == 0) and hi is not NONE and test(hi):
        return 0
    if lo is not NONE and test(lo) and hi is NONE:
        return 1
    raise Unknown('slice bounds')


def quad(ix, test):
    if ix.op != 'tuple' or len(ix.args) != 2:
        raise Unknown('index')
    return side(ix.args[0], test), side(ix.args[1], test)


def mat(t):
    """matrix expression -> polynomial in the blocks of the two factors"""
    i = psi_of(t)
    if i is not None:
        return {(f'{i}P',): 1}
    if t.op == 'sub':
        i = psi_of(t.args[0])
        if i is None:
            raise Unknown('slice of ' + t.args[0].op)
        q = quad(t.args[1], lambda h: half_of(h, i))
        return {(0, 0): {(f'{i}A',): 1}, (1, 1): {(f'{i}A',): 1}, (1, 0): {(f'{i}B',): 1}, (0, 1): {(f'{i}B',): -1}}[q]
    if t.op == 'bin' and t.args[0] in '+-':
        return padd(mat(t.args[1]), mat(t.args[2]), 1 if t.args[0] == '+' else -1)
    if t.op == 'bin' and t.args[0] == '*':
        for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            if a.op == 'const' and isinstance(a.args[1], (int, float)):
                return scale(mat(b), a.args[1])
            if a.op == 'un' and a.args[0] == '-' and is_int(a.args[1]):
                return scale(mat(b), -a.args[1].args[1])
    if t.op == 'un' and t.args[0] == '-':
        return scale(mat(t.args[1]), -1)
    if t.op == 'call' and nm(t) == 'kron':
        a, b = t.args[1] if len(t.args[1]) == 2 else (dict(t.args[2]).get('a'), dict(t.args[2]).get('b'))
        pa, pb = mat(a), mat(b)
        ca, cb = {k[0][0] for k in pa}, {k[0][0] for k in pb}
        if ca == {'2'} and cb == {'1'} or len(ca) > 1 or len(cb) > 1:
            raise Unknown('order of kron')
        return pmul(pa, pb)
    raise Unknown(t.op)


def blocks(t):
    """2x2 block matrix -> {(row, column): polynomial}"""
    if t.op == 'call' and nm(t) == 'block':
        rows = t.args[1][0]
        if rows.op in ('list', 'tuple') and len(rows.args) == 2:
            return {(i, j): mat(rows.args[i].args[j]) for i in (0, 1) for j in (0, 1)}
    if t.op == 'upd':
        out = {}
        chain = []
        while t.op == 'upd':
            chain.append(t)
            t = t.args[0]
        if t.op == 'call' and nm(t) in ('empty', 'zeros'):
            sh = t.args[1][0]
            if sh.op != 'tuple' or len(sh.args) != 2 or sh.args[0] is not sh.args[1]:
                raise Unknown('shape')
            n = sh.args[0]
            if nm(t) == 'zeros':
                out = {(i, j): {} for i in (0, 1) for j in (0, 1)}
            for u in reversed(chain):
                out[quad(u.args[1], lambda h: h.op == 'bin' and h.args[0] == '//' and h.args[1] is n and is_int(h.args[2]) and h.args[2].args[1] == 2)] = mat(u.args[2])
            return out
    raise Unknown('blocks')


def scal(t):
    """character expression -> polynomial in traces"""
    if t.op == 'const' and isinstance(t.args[1], (int, float)):
        return {(): t.args[1]}
    if t.op == 'call' and nm(t) == 'trace':
        x = t.args[1][0] if t.args[1] else recv(t)
        m = mat(x)
        return {tuple('tr' + a for a in k): v for k, v in m.items()}
    if t.op == 'call' and nm(t) == 'character' and recv(t) is not None and recv(t).op == 'arg':
        m = SUF.match(recv(t).args[0])
        if m:
            return {(f'tr{m.group(2)}P',): 1}
    if t.op == 'bin' and t.args[0] in '+-':
        return padd(scal(t.args[1]), scal(t.args[2]), 1 if t.args[0] == '+' else -1)
    if t.op == 'bin' and t.args[0] == '*':
        return pmul(scal(t.args[1]), scal(t.args[2]))
    if t.op == 'un' and t.args[0] == '-':
        return scale(scal(t.args[1]), -1)
    raise Unknown(t.op)


def expand(poly, real):
    """traces of whole matrices of complex type in terms of their blocks"""
    out = {}
    for k, v in poly.items():
        l = []
        for a in k:
            if a in ('tr1P', 'tr2P') and a not in real:
                v *= 2
                a = a.replace('P', 'A')
            l.append(a)
        l = tuple(sorted(l))
        out[l] = out.get(l, 0) + v
    return {k: v for k, v in out.items() if v}


def resolve_i(t, i):
    for _ in range(8):
        m = {}
        for s in t.subterms():
            if s.op == 'ite':
                v = truth_i(s.args[0], i)
                if v is None:
                    raise Unknown('condition ' + show(s.args[0])[:40])
                m[s] = s.args[1] if v else s.args[2]
        if not m:
            return t
        t = subst(t, m)
    return t


def truth_i(c, i):
    if c.op == 'cmp' and c.args[0] in ('==', '!='):
        a, b = c.args[1], c.args[2]
        if a is arg('i'):
            a, b = b, a
        if b is arg('i') and is_int(a):
            return (a.args[1] == i) == (c.args[0] == '==')
    if c is arg('i'):
        return bool(i)
    if c.op == 'not':
        v = truth_i(c.args[0], i)
        return None if v is None else not v
    return None


def irreps(p, rep, c):
    for f in p.all_functions():
        if f.module.relpath != c.module.relpath or f.cls is not None or not {'psi1', 'psi2'} <= set(f.params):
            continue
        it = Interp(p, inline=inline, max_stmts=400)
        r = it.run(f, f.cls)
        for e in r.of('return'):
            v = e['value']
            if v.op != 'tuple' or len(v.args) != 2 or any(x.op != 'closure' for x in v.args):
                rep.undecide('irreps', where(f), e.loc(), show(v)[:60])
                continue
            real = set()
            for x in facts_types(e):
                real.add(x)
            for i in ((0, 1) if 'i' in f.params else (0,)):
                vals = []
                try:
                    for cl in v.args:
                        fi = it.closures[cl][0]
                        y, _ = it.invoke(cl, [typed(it, fi, q) for q in fi.params if q not in fi.defaults])
                        vals.append(resolve_i(y, i))
                    one_irrep(rep, f, e, vals, i, real)
                except Unknown as ex:
                    rep.undecide('irreps', where(f), e.loc(), str(ex))


def facts_types(e):
    """factors known to be of real type on this path"""
    for x in e.facts:
        if x.op == 'cmp' and x.args[0] == '==' and any(is_const(y, 'R') for y in x.args[1:]):
            for y in x.args[1:]:
                if y.op == 'attr' and y.args[1] == 'type' and y.args[0].op == 'arg':
                    m = SUF.match(y.args[0].args[0])
                    if m:
                        yield f'tr{m.group(2)}P'


def one_irrep(rep, f, e, vals, i, real):
    M, ch = vals
    s = -1 if i == 1 else 1
    tag = f'{where(f)} (i={i})' if 'i' in f.params else where(f)
    if M.op == 'call' and nm(M) == 'kron':
        m = mat(M)
        rep.ob('irreps', tag, m == {('1P', '2P'): 1}, e.loc(), 'the irrep is not the tensor product psi1(g1) x psi2(g2)')
        tr = {('tr1P', 'tr2P'): 1}
    else:
        b = blocks(M)
        if len(b) != 4:
            rep.ob('irreps', tag, False, e.loc(), f'block {sorted(set((i, j) for i in (0, 1) for j in (0, 1)) - set(b))} of the irrep is never written')
            return
        whole1 = any('1P' in k for q in b.values() for k in q)
        if whole1:
            re_, im = {('1P', '2A'): 1}, {('1P', '2B'): 1}
        else:
            re_ = {('1A', '2A'): 1, ('1B', '2B'): -s}
            im = {('1A', '2B'): s, ('1B', '2A'): 1}
        want = {(0, 0): re_, (1, 1): re_, (1, 0): im, (0, 1): scale(im, -1)}
        # the conjugate irrep is as good a choice as the irrep
        conj = {(0, 0): re_, (1, 1): re_, (1, 0): scale(im, -1), (0, 1): im}
        bad = [q for q in want if b[q] != want[q]]
        if bad and b == conj:
            bad = []
        rep.ob('irreps', tag, not bad, e.loc(), f'block {bad[0] if bad else ""} is not that of the tensor product of the complex irreps')
        if whole1:
            tr = {('tr1P', 'tr2A'): 2}
        else:
            tr = {('tr1A', 'tr2A'): 2, ('tr1B', 'tr2B'): -2 * s}
    if 'tr1P' in real and 'tr2P' in real:
        pass
    rl = set(real)
    if M.op == 'call' and nm(M) == 'kron':
        got = scal(ch)
    else:
        got = expand(scal(ch), rl)
    rep.ob('irreps', tag, got == tr, e.loc(), f'the character {show(ch)[:70]} is not the trace of the irrep')


def diagonal(p, rep, c):
    ds = [d for d in p.classes.values() if d.name == 'DoubleGroup']
    for d in ds:
        f = p.method(d, '_subgroup')
        it = Interp(p, inline=lambda g, rr: False, max_stmts=400)
        r = it.run(f, d)
        for e in r.of('return'):
            v = e['value']
            if v.op != 'tuple' or len(v.args) != 3:
                continue
            if not any(is_const(y, 'diagonal') for x in e.facts for y in x.subterms()):
                continue
            for pos, kd in ((1, 'inclusion'), (2, 'restriction')):
                t = v.args[pos]
                if t.op != 'call' or t.args[0].op != 'func':
                    rep.undecide('diagonal', where(f), e.loc(), show(t)[:60])
                    continue
                g = it.func_by_term(t.args[0])
                for fi, evs, w in runs(p, g):
                    if fi is g:
                        continue
                    loc = f'{fi.module.relpath}:{fi.node.lineno}'
                    for conds, x in leaves(w):
                        if kd == 'inclusion':
                            b = dict(x.args[2]) if x.op == 'call' else {}
                            t2 = b.get('element')
                            if t2 is not None and t2.op == 'tuple' and len(t2.args) == 2:
                                rep.ob('diagonal', where(g), t2.args[0] is t2.args[1] and t2.args[0].contains(arg(fi.params[0])), loc, f'{show(t2)[:60]} is not on the diagonal')
                            elif b.get('g1') is not None:
                                rep.ob('diagonal', where(g), b['g1'] is b.get('g2'), loc, 'not on the diagonal')
                            else:
                                rep.undecide('diagonal', where(g), loc, show(x)[:60])
                        elif x is not NONE:
                            ok = any(y.op == 'cmp' and y.args[0] == '==' and {comp(y.args[1]), comp(y.args[2])} == {ONE, TWO} for z in conds for y in literals(z))
                            rep.ob('diagonal', where(g), ok, loc, 'an element off the diagonal is restricted to it')
