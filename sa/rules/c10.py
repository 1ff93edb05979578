"""Subgroups of the planar groups: inclusion and restriction maps are mutually inverse homomorphisms,
subgroups of subgroups are identified correctly, and restricted irreps decompose as declared."""
from fractions import Fraction
from ..common import *
from .. import alg
from ..alg import S, Arr, Unknown, Raises, TWOPI
from ..planar import *
from ..pmodel import Model, IR

ASSUMPTIONS = ['floating-point rounding is not modelled: closeness tests with a tolerance are read as equality',
               'group elements returned by to(int) lie in the canonical range']
c_ = S.c


def run(p, rep, tier):
    rep.rule('inclusion', 'the inclusion of a subgroup is a homomorphism into the group', 10)
    rep.rule('round-trip', 'restricting an included element gives the element back', 8)
    rep.rule('membership', 'elements outside the subgroup are restricted to None, elements inside to their preimage', 15)
    rep.rule('combine', 'the identifier of a subgroup of a subgroup includes its elements like the two inclusions in turn', 8)
    rep.rule('restrict', 'the declared decomposition of a restricted irrep intertwines with the irrep', 20)
    for kind in ('SO2', 'C', 'O2', 'D'):
        for f in (subgroups, combine, restrictions):
            try:
                f(p, rep, kind, tier)
            except Exception as e:
                rep.undecide({'subgroups': 'inclusion', 'combine': 'combine', 'restrictions': 'restrict'}[f.__name__], kind, '', repr(e))


A, B = 'a', 'b'
NAMES = ('n', 'r', 'x', 'y', 'z', 'ax', 'bx', 'q', 'maxfreq')


def model(p):
    for n in ('n', 'r', 'q'):
        S.atom(n, True)
    return Model(p, NAMES)


def configs(kind):
    """(label, group, id, symbolic axis) of every form of subgroup identifier"""
    n, r = S.atom('n', True), S.atom('r', True)
    ax = S.atom('axi', True)
    th = S.atom('ax')
    if kind == 'SO2':
        G = GV('SO2')
        return [('order n', G, n), ('whole', G, c_(-1)), ('trivial', G, c_(1)), ('order 2', G, c_(2)), ('order 3', G, c_(3))]
    if kind == 'C':
        return [('order n of n*r', GV('C', n * r), n), ('trivial', GV('C', n), c_(1)), ('whole', GV('C', n), n), ('order 2 of 6', GV('C', c_(6)), c_(2)),
                ('order 3 of 6', GV('C', c_(6)), c_(3))]
    if kind == 'O2':
        G = GV('O2')
        return [('O(2) about an axis', G, (th, c_(-1))), ('SO(2)', G, (None, c_(-1))), ('mirror', G, (th, c_(1))), ('rotations n', G, (None, n)),
                ('dihedral n', G, (th, n)), ('trivial', G, (None, c_(1))), ('dihedral 2', G, (th, c_(2))), ('dihedral 3, axis 0', G, (c_(0), c_(3))), ('mirror 0', G, (c_(0), c_(1)))]
    G = GV('D', n * r)
    return [('mirror', G, (ax, c_(1))), ('rotations n', G, (None, n)), ('dihedral n', G, (ax, n)), ('trivial', G, (None, c_(1))),
            ('dihedral 2 of 6', GV('D', c_(6)), (c_(1), c_(2))), ('dihedral 3 of 6', GV('D', c_(6)), (c_(1), c_(3))), ('mirror 2 of 4', GV('D', c_(4)), (c_(2), c_(1)))]


def elem(G, f, name):
    x = S.atom(name, integer=G.N is not None)
    return GE(G, f, x * TWOPI / G.N if G.N is not None else x)


def flips(G):
    return (0, 1) if G.flips else (0,)


def sym_names(m):
    return m


def subgroups(p, rep, kind, tier):
    m = model(p)
    m.names = NAMES + ('axi',)
    for lab, G, id in configs(kind):
        lab = f'{G!r} {lab}'
        try:
            t = m.triple(G, id)
        except Raises:
            rep.ob('inclusion', lab, False, '', 'this subgroup identifier is refused')
            continue
        except Unknown as e:
            rep.undecide('inclusion', lab, '', str(e))
            continue
        try:
            check_triple(rep, m, lab, G, id, t)
        except (Unknown, Raises) as e:
            rep.undecide('inclusion', lab, t['loc'], f'form not recognised: {e!r}')


def check_triple(rep, m, lab, G, id, t):
    sg = t['sg']
    for f in flips(sg):
        for h in flips(sg):
            a, b = elem(sg, f, 'x'), elem(sg, h, 'y')
            if sg.N is not None and sg.N.const() is not None:
                pass
            pa, pb, pab = t['parent'](a), t['parent'](b), t['parent'](a.mul(b))
            ok = all(isinstance(v, GE) and v.g == G for v in (pa, pb, pab)) and pab.same(pa.mul(pb))
            if sg.kind == 'C' and sg.N.const() in (1, 2):
                continue
            rep.ob('inclusion', f'{lab} ({f},{h})', ok, t['loc'], f'inclusion of a product is {pab!r}, product of the inclusions is {pa!r} @ {pb!r}')
    insts = [elem(sg, f, 'x') for f in flips(sg)]
    if sg.kind == 'C' and sg.N.const() is not None:
        N = int(sg.N.const())
        insts = [GE(sg, 0, TWOPI * c_(i) / c_(N)) for i in range(N)]
        for a in insts:
            for b in insts:
                pa, pb, pab = t['parent'](a), t['parent'](b), t['parent'](canon(a.mul(b)))
                rep.ob('inclusion', f'{lab} {a!r},{b!r}', isinstance(pa, GE) and pa.g == G and pab.same(pa.mul(pb)), t['loc'], f'inclusion of a product is {pab!r}, product of the inclusions is {pa!r} @ {pb!r}')
    for a in insts:
        v = t['child'](t['parent'](a))
        rep.ob('round-trip', f'{lab} {a.f}', isinstance(v, GE) and v.g == sg and v.same(a), t['loc'], f'the element {a!r} of the subgroup, included and restricted again, gives {v!r}')
    # candidates in the group
    y = S.atom('y', integer=G.N is not None)
    unit = TWOPI / G.N if G.N is not None else c_(1)
    sub = TWOPI / sg.N if sg.N is not None else None
    ax = None
    if isinstance(id, tuple) and id[0] is not None:
        ax = id[0] * unit
    z = S.atom('z', True)
    cands = [c_(0), y * unit]
    if ax is not None:
        cands += [ax, -ax, ax + y * unit]
    if sub is not None:
        cands += [z * sub] + ([z * sub + ax, z * sub - ax] if ax is not None else [])
    if G.N is not None and G.N.const() is not None:
        cands += [c_(i) * unit for i in range(int(G.N.const()))]
    for f in flips(G):
        for x in cands:
            g = GE(G, f, x)
            try:
                v = t['child'](g)
            except Raises:
                v = None
            ok = v is None or (isinstance(v, GE) and v.g == sg and isinstance(t['parent'](v), GE) and t['parent'](v).same(g))
            rep.ob('membership', f'{lab} ({f}, {x!r})', ok, t['loc'], f'{g!r} is restricted to {v!r}, whose inclusion is {t["parent"](v) if isinstance(v, GE) else None!r}')


def canon(g):
    """the representative of a concrete cyclic element in 0..N-1"""
    i = (g.x * g.g.N / TWOPI).const()
    if i is None:
        return g
    return GE(g.g, g.f, (c_(i % g.g.N.const())) * TWOPI / g.g.N)


# ------------------------------------------------------------------ subgroups of subgroups
def combine(p, rep, kind, tier):
    m = model(p)
    m.names = NAMES + ('axi', 'bxi')
    n, r, q = (S.atom(s, True) for s in ('n', 'r', 'q'))
    axi, bxi, ax, bx = S.atom('axi', True), S.atom('bxi', True), S.atom('ax'), S.atom('bx')
    if kind == 'SO2':
        cs = [(GV('SO2'), n * r, n), (GV('SO2'), c_(-1), n), (GV('SO2'), c_(-1), c_(-1)), (GV('SO2'), n, n)]
    elif kind == 'C':
        cs = [(GV('C', n * r * q), n * r, n), (GV('C', n * r), n * r, n)]
    elif kind == 'O2':
        G = GV('O2')
        cs = [(G, (None, c_(-1)), n), (G, (None, c_(-1)), c_(-1)), (G, (None, n * r), n), (G, (ax, c_(1)), c_(2)), (G, (ax, c_(1)), c_(1)),
              (G, (ax, n * r), (None, n)), (G, (ax, n * r), (bxi, n)), (G, (ax, n * r), (bxi, c_(1))), (G, (ax, c_(-1)), (bx, n)), (G, (ax, c_(-1)), (None, n)),
              (G, (ax, c_(-1)), (bx, c_(1))), (G, (ax, c_(-1)), (None, c_(-1))), (G, (ax, c_(-1)), (bx, c_(-1)))]
    else:
        G = GV('D', n * r * q)
        cs = [(G, (None, n * r), n), (G, (axi, c_(1)), c_(2)), (G, (axi, c_(1)), c_(1)), (G, (axi, n * r), (None, n)), (G, (axi, n * r), (bxi, n)), (G, (axi, n * r), (bxi, c_(1)))]
    for G, i1, i2 in cs:
        lab = f'{G!r} {i1!r} > {i2!r}'
        try:
            c, f, it, _ = m.method(kind, '_combine_subgroups')
            env = m.genv(G)
            env[arg(f.params[1])], env[arg(f.params[2])] = i1, i2
            e, ev, it = m.value(kind, '_combine_subgroups', env)
            i3 = ev(e['value'])
            t1 = m.triple(G, i1)
            t2 = m.triple(t1['sg'], i2)
            try:
                t3 = m.triple(G, i3)
            except Raises:
                rep.ob('combine', lab, False, f.loc(), f'identified as {i3!r}, which names no subgroup')
                continue
            ok = t3['sg'] == t2['sg']
            for fl in flips(t2['sg']):
                insts = [elem(t2['sg'], fl, 'x')]
                if t2['sg'].kind == 'C' and t2['sg'].N.const() is not None:
                    insts = [GE(t2['sg'], 0, TWOPI * c_(i) / t2['sg'].N) for i in range(int(t2['sg'].N.const()))]
                for a in insts:
                    if ok:
                        u, v = t3['parent'](a), t1['parent'](t2['parent'](a))
                        ok = u.same(v)
            rep.ob('combine', lab, ok, f.loc(), f'identified as {i3!r}, whose inclusion is not that of the subgroup of the subgroup')
        except (Unknown, Raises) as e:
            rep.undecide('combine', lab, '', f'form not recognised: {e!r}')


# ------------------------------------------------------------------ restriction of irreps
def restrictions(p, rep, kind, tier):
    m = model(p)
    m.names = NAMES + ('axi', 'bxi')
    ax = S.atom('ax')
    K = 5 if tier == 'quick' else 9
    ords = (1, 2, 3, 4, 5, 6) if tier == 'quick' else tuple(range(1, 10))
    cs = []
    if kind == 'SO2':
        G = GV('SO2')
        cs = [(G, (c_(k),), c_(n)) for k in range(K + 1) for n in ords] + [(G, (c_(k),), c_(-1)) for k in range(3)]
    elif kind == 'C':
        for N in ((1, 2, 3, 4, 6) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 8, 9, 12)):
            for n in range(1, N + 1):
                if N % n == 0:
                    cs += [(GV('C', c_(N)), (c_(k),), c_(n)) for k in range(N // 2 + 1)]
    elif kind == 'O2':
        G = GV('O2')
        js = [(0, 0)] + [(1, k) for k in range(K + 1)]
        for j, k in js:
            idd = (c_(j), c_(k))
            cs += [(G, idd, (ax, c_(-1))), (G, idd, (None, c_(-1))), (G, idd, (ax, c_(1)))]
            cs += [(G, idd, (None, c_(n))) for n in ords]
            cs += [(G, idd, (ax, c_(n))) for n in ords if n > 1]
    else:
        for N in ((1, 2, 3, 4, 6) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 8, 9, 12)):
            js = [(0, 0)] + [(1, k) for k in range(N // 2 + 1)] + ([(0, N // 2)] if N % 2 == 0 else [])
            for j, k in js:
                for n in range(1, N + 1):
                    if N % n == 0:
                        for a in [None] + sorted({0, 1, N // n - 1, 2 % N, N - 1} & set(range(N))):
                            cs.append((GV('D', c_(N)), (c_(j), c_(k)), (None if a is None else c_(a), c_(n))))
    for G, irr, id in cs:
        lab = f'{G!r} irrep{irr!r} to {id!r}'
        try:
            restrict_one(rep, m, kind, lab, G, irr, id)
        except Unknown as e:
            rep.undecide('restrict', lab, '', f'form not recognised: {e!r}')
        except Raises as e:
            rep.undecide('restrict', lab, '', 'raises')


def restrict_one(rep, m, kind, lab, G, irr, id):
    c, f, it, _ = m.method(kind, '_restrict_irrep')
    env = m.genv(G)
    env[arg(f.params[1])], env[arg(f.params[2])] = irr, id
    e, ev, it = m.value(kind, '_restrict_irrep', env)
    v = m.pick(e['value'], ev)
    if v.op != 'tuple' or len(v.args) != 2:
        raise Unknown('pair expected')
    Bm = ev(v.args[0])
    irreps = ev(v.args[1])
    if not isinstance(Bm, Arr) or len(alg.shape(Bm)) != 2 or not isinstance(irreps, tuple):
        raise Unknown('change of basis and irreps')
    t = m.triple(G, id)
    sg = t['sg']
    R = m.irrep(G, irr)
    try:
        parts = [m.irrep(sg, i if isinstance(i, tuple) else (i,)) for i in irreps]
    except Raises:
        rep.ob('restrict', lab, False, e.loc(), f'decomposes into {irreps!r}, not all of which are irreps of the subgroup')
        return
    size = sum(x['size'] for x in parts)
    if size != R['size'] or alg.shape(Bm) != (size, size):
        rep.ob('restrict', lab, False, e.loc(), f'decomposes a representation of size {R["size"]} into {irreps!r} of total size {size} with change of basis of shape {alg.shape(Bm)}')
        return
    ok = True
    for fl in flips(sg):
        insts = [elem(sg, fl, 'x')]
        if sg.kind == 'C' and sg.N.const() is not None and sg.N.const() < 3:
            insts = [GE(sg, 0, TWOPI * c_(i) / sg.N) for i in range(int(sg.N.const()))]
        for a in insts:
            lhs = alg.matmul(R['rho'](t['parent'](a)), Bm)
            D = blocks([x['rho'](a) for x in parts])
            rhs = alg.matmul(Bm, D)
            if alg.arr(lhs) != alg.arr(rhs):
                ok = False
    # invertible: orthogonal change of basis
    orth = alg.arr(alg.matmul(Bm, alg.transpose(Bm))) == alg.arr(alg.eye(size))
    rep.ob('restrict', lab, ok and orth, e.loc(), f'the change of basis and the irreps {irreps!r} do not reproduce the restricted representation' if not ok else 'the change of basis is not orthogonal')


def blocks(ms):
    n = sum(len(x) for x in ms)
    out = [[c_(0)] * n for _ in range(n)]
    o = 0
    for x in ms:
        for i in range(len(x)):
            for j in range(len(x)):
                out[o + i][o + j] = x[i][j]
        o += len(x)
    return Arr(Arr(r) for r in out)
