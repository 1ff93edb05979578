"""Irreducible representations of the planar groups (any order, any frequency) and of O(3): the matrix
formulas are orthogonal homomorphisms, the character is their trace, and the declared size, type,
frequency and supported non-linearities fit the formulas."""
from fractions import Fraction
from ..common import *
from .. import alg
from ..alg import S, Arr, Unknown, Raises, TWOPI
from ..planar import *

ASSUMPTIONS = ['numpy cos/sin/array/eye/kron follow their mathematical meaning; rounding is not modelled',
               'the Wigner matrices and characters of SO(3) are trusted (numerical tables)']



def run(p, rep, tier):
    rep.rule('homomorphism', 'the matrix of a product is the product of the matrices, the identity maps to the identity', 40)
    rep.rule('orthogonal', 'the matrices are orthogonal', 20)
    rep.rule('character', 'the character is the trace of the matrix', 20)
    rep.rule('size', 'the declared size is the size of the matrix', 15)
    rep.rule('type', 'the declared type (R or C) is the one of the representation', 15)
    rep.rule('tags', 'identifier and frequencies recorded are those the representation was requested with', 20)
    rep.rule('nonlinearity', 'declared non-linearities are compatible with the action of the representation', 15)
    rep.rule('irreducible', 'every frequency the group accepts yields one irreducible representation, every other is refused', 8)
    for c in sorted(p.subclasses('Group'), key=lambda c: c.qualname):
        if c.name in KINDS:
            try:
                planar_irreps(p, rep, c, tier)
            except Exception as e:
                rep.undecide('homomorphism', c.name, c.loc(), repr(e))
        elif c.name in ('O3', 'SO3'):
            try:
                parity(p, rep, c)
            except Exception as e:
                rep.undecide('homomorphism', c.name, c.loc(), repr(e))
    try:
        endomorphisms(p, rep)
    except Exception as e:
        rep.undecide('type', 'IrreducibleRepresentation.endomorphism_basis', '', repr(e))


class IEval(PEval):
    odd = None

    def decide_sym(self, q, c):
        N = S.atom('N')
        if self.odd is not None and (q - N * S.c(Fraction(1, 2))).d == {}:
            return not self.odd
        raise Unknown('symbolic condition ' + show(c)[:60])

    def integer_cond(self, q, c):
        h = q - S.c(Fraction(1, 2))
        if h.is_int():
            return False
        return super().integer_cond(q, c)

    def gcond(self, c, ev):
        if c.op == 'cmp' and c.args[0] in ('<', '<=', '>', '>='):
            try:
                a, b = self.num(c.args[1]), self.num(c.args[2])
            except Unknown:
                return None
            d = a - b
            if d.const() is None and d.plain():
                s = {v[0] > 0 for v in d.d.values()}
                if len(s) == 1 and all(k in INT_POS for (m, e) in d.d for k, x in m):
                    pos = s.pop()
                    return pos is (c.args[0] in ('>', '>='))
        return super().gcond(c, ev)


INT_POS = {'N', 'M', 'k'}


def scenarios(kind, tier):
    """(label, N, k, odd, element angles)"""
    N, M, k = S.atom('N', True), S.atom('M', True), S.atom('k', True)
    out = []
    if kind in ('SO2', 'O2'):
        out = [('k=0', None, S.c(0), None), ('k generic', None, k, None)]
        out += [(f'k={i}', None, S.c(i), None) for i in range(1, 7)]
    else:
        out = [('k=0', N, S.c(0), False), ('k=0, N odd', N, S.c(0), True), ('k=N/2', M * S.c(2), M, None),
               ('N even, k generic', M * S.c(2), k, None), ('N odd, k generic', N, k, True)]
        for n in range(1, 8 if tier == 'quick' else 14):
            out += [(f'N={n}, k={i}', S.c(n), S.c(i), None) for i in range(n // 2 + 1)]
    return out


def exists(kind, j, N, k, odd, label):
    """the pair (j, k) names an irrep; and its size and type"""
    flips = kind in ('D', 'O2')
    half = N is not None and not (k - N * S.c(Fraction(1, 2))).d
    one = not k.d or half
    if flips and j == 0 and not one:
        return None
    return (1 if one else 2), ('R' if one or flips else 'C')


def planar_irreps(p, rep, c, tier):
    kind = KINDS[c.name]
    f = p.method(c, 'irrep')
    flips = kind in ('D', 'O2')
    names = f.params[1:]
    if len(names) < (2 if flips else 1):
        raise Unknown('parameters of irrep')
    it = Interp(p, inline=keep, max_stmts=300)
    r = it.run(f, c)
    ctors = [e for e in r.calls() if is_ctor(e['term'], 'IrreducibleRepresentation')]
    if not ctors:
        raise Unknown('no irreducible representation constructed')
    for label, N, k, odd in scenarios(kind, tier):
        for j in ((0, 1) if flips else (0,)):
            lab = f'{c.name} ' + (f'j={j}, ' if flips else '') + label
            try:
                one(p, rep, c, kind, f, it, r, ctors, lab, N, j, k, odd, names, flips)
            except (Unknown, Raises) as e:
                rep.undecide('homomorphism', lab, f.loc(), f'form not recognised: {e!r}')


def one(p, rep, c, kind, f, it, r, ctors, lab, N, j, k, odd, names, flips):
    G = GV(kind, N)
    env = {SELF: G, arg(names[-1]): k}
    if flips:
        env[arg(names[0])] = S.c(j)
    for n in ('N', 'rotation_order', '_N'):
        if N is not None:
            env[attr(SELF, n)] = N
    generic = [n for n in ('k', 'N', 'M')]

    def ev(extra=()):
        e = dict(env)
        e.update(extra)
        v = IEval(e, generic=generic)
        v.odd = odd
        return v
    want = exists(kind, j, N, k, odd, lab)
    feas = []
    for e in ctors:
        if possible(e.facts, lambda l: ev().truth(l)):
            feas.append(e)
    if want is None:
        rep.ob('irreducible', lab, not feas, feas[0].loc() if feas else f.loc(), 'a representation is built for a pair of frequencies that names no irreducible representation')
        return
    rep.ob('irreducible', lab, len(feas) > 0, f.loc(), 'no irreducible representation is built for these frequencies')
    for e in feas:
        build(p, rep, c, kind, f, it, e, lab, G, N, j, k, ev, want, flips)


def possible(facts, truth):
    """whether the path is taken in the scenario; bounds that cannot be compared are taken to hold"""
    unk = None
    for l in facts:
        if memo_fact(l):
            continue
        try:
            if not truth(l):
                return False
        except (Unknown, Raises):
            if l.op == 'cmp' and l.args[0] in ('<', '<=', '>', '>='):
                continue
            unk = l
    if unk is not None:
        raise Unknown('condition ' + show(unk)[:80])
    return True


def memo_fact(l):
    """whether the request was served before"""
    return any(x.op == 'attr' and x.args[1] in ('_irreps',) for x in l.subterms())


def build(p, rep, c, kind, f, it, e, lab, G, N, j, k, ev, want, flips):
    t = e['term']
    d = irrep_args(t)
    size, typ = want
    ev0 = ev()
    if d.get('group') is not None:
        rep.ob('tags', lab + ' group', ev0(d['group']) == G, e.loc(), 'the representation is attached to another group')
    idv = ev0(d['id'])
    if isinstance(idv, tuple):
        w = ((S.c(j),) if flips else ()) + (k,)
        rep.ob('tags', lab + ' id', len(idv) == len(w) and all(isinstance(a, S) and a == b for a, b in zip(idv, w)), e.loc(), f'the representation is identified as {idv!r}')
    for n, w in (('frequency', k), ('flip_frequency', S.c(j))):
        if n in d and (n == 'frequency' or flips):
            v = ev0(d[n])
            rep.ob('tags', lab + ' ' + n, v == w, e.loc(), f'the recorded {n} is {v!r}, requested {w!r}')
    sv = ev0.num(d['size']).const()
    x, y = S.atom('x', integer=N is not None), S.atom('y', integer=N is not None)
    if N is not None:
        x, y = x * TWOPI / N, y * TWOPI / N
    a = arg('e')
    rho_t, _ = it.invoke(d['representation'], (a,))
    chi_t = None
    if d.get('character') is not None and d['character'] is not NONE:
        chi_t, _ = it.invoke(d['character'], (a,))

    def rho(g):
        v = ev({a: g})(rho_t)
        if not isinstance(v, Arr) or len(alg.shape(v)) != 2:
            raise Unknown('matrix expected')
        return v
    fl = (0, 1) if flips else (0,)
    mats = {}
    for fx in fl:
        try:
            mats[fx] = rho(GE(G, fx, x))
        except Raises:
            rep.ob('homomorphism', lab, False, e.loc(), 'evaluating the representation on an element raises')
            return
    sh = {alg.shape(m) for m in mats.values()}
    rep.ob('size', lab, sh == {(int(sv), int(sv))} and sv == size, e.loc(), f'declared size {sv}, matrices of shape {sorted(sh)}, the irreducible representation has size {size}')
    if len(sh) != 1 or any(a != b for a, b in sh):
        return
    n = sh.pop()[0]
    one_ = rho(G.one())
    rep.ob('homomorphism', lab + ' identity', one_ == alg.arr(alg.eye(n)), e.loc(), f'the identity is mapped to {one_!r}')
    for fx in fl:
        for fy in fl:
            g, h = GE(G, fx, x), GE(G, fy, y)
            lhs = rho(g.mul(h))
            rhs = alg.arr(alg.matmul(rho(g), rho(h)))
            rep.ob('homomorphism', f'{lab} ({fx},{fy})', lhs == rhs, e.loc(), f'rho(gh) = {str(lhs)[:120]} but rho(g)rho(h) = {str(rhs)[:120]}')
    for fx in fl:
        m = mats[fx]
        rep.ob('orthogonal', f'{lab} ({fx})', alg.arr(alg.matmul(m, alg.transpose(m))) == alg.arr(alg.eye(n)), e.loc(), 'the matrices are not orthogonal')
    if chi_t is not None:
        for fx in fl:
            try:
                v = ev({a: GE(G, fx, x)}).num(chi_t)
            except Raises:
                rep.ob('character', f'{lab} ({fx})', False, e.loc(), 'evaluating the character on an element raises')
                continue
            w = alg.trace(mats[fx])
            rep.ob('character', f'{lab} ({fx})', v == w, e.loc(), f'the character is {v!r} but the trace of the matrix is {w!r}')
    for fx in fl:
        w = alg.trace(mats[fx])
        ref = S.c(0) if fx and size == 2 else alg.cos(k * x) * S.c(size if not fx or not j else -1)
        rep.ob('character', f'{lab} ({fx}) frequency', w == ref, e.loc(), f'the trace is {w!r}, the representation with these frequencies has character {ref!r}')
    av = S.c(0)
    for fx in fl:
        w = alg.trace(mats[fx])
        av = av + S({kk: v for kk, v in (w * w).d.items() if kk == ((), ())})
    av = (av / S.c(len(fl))).const()
    tv = ev0(d['type'])
    if av in (1, 2):
        rep.ob('type', lab, tv == {1: 'R', 2: 'C'}[int(av)], e.loc(), f'declared of type {tv!r}, its commutant has dimension {av}')
    elif av is not None:
        rep.ob('type', lab, False, e.loc(), f'the representation is not irreducible (norm of the character {av})')
    sn = d.get('supported_nonlinearities')
    sn = ev0(sn) if sn is not None else None
    if isinstance(sn, tuple) and all(isinstance(s, str) for s in sn):
        triv = n == 1 and all(m == alg.arr(alg.eye(1)) for m in mats.values())
        for s in ('pointwise', 'gate'):
            if s in sn:
                rep.ob('nonlinearity', f'{lab} {s}', triv, e.loc(), f'{s} non-linearities are allowed on a representation that is not trivial')
        if 'concatenated' in sn:
            rep.ob('nonlinearity', f'{lab} concatenated', signed_perm(mats.values()), e.loc(), 'concatenated non-linearities are allowed on a representation that does not permute its channels up to signs')
        rep.ob('nonlinearity', lab, True, e.loc())


def signed_perm(ms):
    """every row of every matrix has one entry which is +-1"""
    for m in ms:
        for row in m:
            nz = [v for v in row if v.d]
            if len(nz) != 1 or (nz[0] * nz[0]).const() != 1:
                return False
    return True


# ------------------------------------------------------------------ SO(3), O(3)
def parity(p, rep, c):
    """the inversion acts by (-1)^j, on matrix and character alike, and both read the rotation the same way"""
    f = p.method(c, 'irrep')
    names = f.params[1:]
    o3 = c.name == 'O3'
    it = Interp(p, inline=lambda g, r: False if g.name in ('_wigner_d_matrix', '_character') or keep(g, r) is False else None, max_stmts=300)
    r = it.run(f, c)
    ctors = [e for e in r.calls() if is_ctor(e['term'], 'IrreducibleRepresentation')]
    if not ctors:
        raise Unknown('no irreducible representation constructed')
    l_ = S.atom('l', True)
    a = arg('e')
    for lab0, l in (('l=0', S.c(0)), ('l generic', l_), ('l=1', S.c(1)), ('l=2', S.c(2))):
        for j in ((0, 1) if o3 else (0,)):
            lab = f'{c.name} ' + (f'j={j}, ' if o3 else '') + lab0
            env = {arg(names[-1]): l}
            if o3:
                env[arg(names[0])] = S.c(j)
            try:
                so3_one(p, rep, c, f, it, ctors, lab, env, l, j, o3, a)
            except (Unknown, Raises) as e:
                rep.undecide('homomorphism', lab, f.loc(), f'form not recognised: {e!r}')


class REval(alg.Eval):
    def __init__(self, env, inv, l):
        super().__init__(env, call=self.hook)
        self.inv, self.l = inv, l
        self.reads = []

    def same(self, a, b):
        if isinstance(a, S) and isinstance(b, S):
            d = a - b
            if d.const() is None and d.plain() and all(k == 'l' for (m, e) in d.d for k, x in m):
                return False
        return super().same(a, b)

    def truth(self, c):
        if c.op == 'cmp' and c.args[0] in ('<', '<=', '>', '>=') and arg('l') in set(c.subterms()):
            try:
                return super().truth(c)
            except Unknown:
                a, b = self.num(c.args[1]), self.num(c.args[2])
                if b.const() == 0:
                    return c.args[0] in ('>', '>=')
                raise
        return super().truth(c)

    def hook(self, t, ev):
        if t.op == 'attr' and t.args[1] in ('value', '_element') and t.args[0] is arg('e'):
            return (S.c(self.inv), ('rot', 'param')) if self.inv is not None else ('rot', 'param')
        if t.op == 'attr' and t.args[1] == 'param' and t.args[0] is arg('e'):
            return 'param'
        if t.op == 'call' and nm(t) == 'to' and recv(t) is arg('e'):
            q = self(argv(t, 'param')[0])
            return (S.c(self.inv), ('rot', q)) if self.inv is not None else ('rot', q)
        if t.op == 'call' and nm(t) in ('_wigner_d_matrix', '_character'):
            w = nm(t) == '_wigner_d_matrix'
            e, l, q = argv(t, 'element', 'l', 'param')
            v = self(e)
            qq = self(q) if q is not None else 'default'
            if not (isinstance(v, tuple) and len(v) == 2 and v[0] == 'rot'):
                raise Unknown('argument of the Wigner matrix')
            self.reads.append((v[1], qq, self.num(l)))
            return S.atom('W' if w else 'chi')
        return None


def so3_one(p, rep, c, f, it, ctors, lab, env, l, j, o3, a):
    feas = []
    for e in ctors:
        if possible(e.facts, lambda x: REval(env, None, l).truth(x)):
            feas.append(e)
    rep.ob('irreducible', lab, len(feas) > 0, f.loc(), 'no irreducible representation is built for these frequencies')
    for e in feas:
        t = e['term']
        d = irrep_args(t)
        ev0 = REval(env, None, l)
        size = ev0.num(d['size'])
        rep.ob('size', lab, size == l * S.c(2) + S.c(1), e.loc(), f'declared size {size!r}, the irreducible representation has size 2l+1')
        rep.ob('type', lab, ev0(d['type']) == 'R', e.loc(), 'irreducible representations of rotations in space are of real type')
        idv = ev0(d['id'])
        w = ((S.c(j),) if o3 else ()) + (l,)
        if isinstance(idv, tuple):
            rep.ob('tags', lab + ' id', len(idv) == len(w) and all(isinstance(u, S) and u == v for u, v in zip(idv, w)), e.loc(), f'the representation is identified as {idv!r}')
        for n, w in (('frequency', l), ('inv_frequency', S.c(j))):
            if n in d:
                v = ev0(d[n])
                rep.ob('tags', lab + ' ' + n, v == w, e.loc(), f'the recorded {n} is {v!r}, requested {w!r}')
        sn = ev0(d['supported_nonlinearities']) if 'supported_nonlinearities' in d else None
        triv = not l.d and j == 0
        if isinstance(sn, tuple):
            for s in ('pointwise', 'gate', 'concatenated'):
                if s in sn:
                    rep.ob('nonlinearity', f'{lab} {s}', triv, e.loc(), f'{s} non-linearities are allowed on a representation that is not trivial')
            rep.ob('nonlinearity', lab, True, e.loc())
        rho_t, _ = it.invoke(d['representation'], (a,))
        chi_t = it.invoke(d['character'], (a,))[0] if d.get('character') not in (None, NONE) else None
        for i in ((0, 1) if o3 else (None,)):
            sgn = S.c(-1 if i and j else 1)
            for what, tt in (('homomorphism', rho_t), ('character', chi_t)):
                if tt is None:
                    continue
                ev = REval(env, i, l)
                try:
                    v = ev(tt)
                except Raises:
                    rep.ob(what, f'{lab} inversion={i}', False, e.loc(), 'evaluating it on an element raises')
                    continue
                while isinstance(v, tuple) and len(v) == 1:
                    v = v[0]
                if isinstance(v, bool):
                    v = S.c(int(v))
                if not isinstance(v, S):
                    raise Unknown('value')
                base = S.c(1) if not l.d and not ev.reads else S.atom('W' if what == 'homomorphism' else 'chi')
                rep.ob(what, f'{lab} inversion={i}', v == base * sgn, e.loc(), f'an element with inversion={i} is mapped to {v!r} times the rotation part, parity {j} requires {sgn!r}')
                for q, qq, lv in ev.reads:
                    rep.ob(what, f'{lab} inversion={i} operand', q == qq, e.loc(), f'reads the rotation given in [{q}] as if given in [{qq}]')
                    rep.ob(what, f'{lab} inversion={i} frequency', lv == l, e.loc(), f'uses frequency {lv!r} for the representation of frequency {l!r}')


# ------------------------------------------------------------------ endomorphisms
def endomorphisms(p, rep):
    """the endomorphism basis of a complex-type irrep: identity and a quarter turn in each plane"""
    c = p.cls('IrreducibleRepresentation')
    f = p.method(c, 'endomorphism_basis')
    it = Interp(p)
    r = it.run(f, c)
    for e in r.of('return'):
        for cd, t in leaves(e['value']):
            facts = tuple(e.facts) + cd
            typ = None
            for l in facts:
                if l.op == 'cmp' and l.args[0] == '==':
                    for u, w in ((l.args[1], l.args[2]), (l.args[2], l.args[1])):
                        if u is attr(SELF, 'type') and w.op == 'const':
                            typ = w.args[1]
            if typ not in ('R', 'C'):
                continue
            ev = EndEval({attr(SELF, 'size'): S.c({'R': 1, 'C': 2}[typ])})
            try:
                b = ev(t)
            except Unknown as x:
                rep.undecide('type', f'endomorphism_basis {typ}', e.loc(), str(x))
                continue
            I = alg.arr(alg.eye({'R': 1, 'C': 2}[typ]))
            if typ == 'R':
                rep.ob('type', 'endomorphism_basis R', len(b) == 1 and b[0] == I, e.loc(), f'the endomorphisms of a real-type representation are multiples of the identity, not {b!r}')
            else:
                x = S.atom('x')
                R = alg.arr(((alg.cos(x), -alg.sin(x)), (alg.sin(x), alg.cos(x))))
                ok = len(b) == 2 and b[0] == I and all(alg.matmul(m, R) == alg.matmul(R, m) for m in b) and alg.arr(alg.matmul(b[1], alg.transpose(b[1]))) == I and b[1] != I and b[1] != alg.elementwise(lambda u, w: -u, I, S.c(0))
                rep.ob('type', 'endomorphism_basis C', ok, e.loc(), f'the endomorphism basis {b!r} does not span the matrices commuting with rotations')


class EndEval(alg.Eval):
    def __init__(self, env):
        super().__init__(env, call=self.hook)

    def hook(self, t, ev):
        if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('numpy.stack', 'torch.stack') and t.args[1]:
            kw = dict(t.args[2])
            if 'axis' in kw and not is_const(kw['axis'], 0):
                raise Unknown('stack axis')
            return alg.arr(tuple(self(t.args[1][0])))
        if t.op == 'sub' and t.args[1].op == 'slice' and len(t.args[1].args) == 3 and is_const(t.args[1].args[2], -1) and t.args[1].args[0] is NONE and t.args[1].args[1] is NONE:
            return Arr(reversed(self(t.args[0])))
        if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == 'reshape':
            v = self(t.args[0].args[0])
            pos = t.args[1]
            if len(pos) == 1 and pos[0].op in ('tuple', 'list'):
                pos = pos[0].args
            dims = [self.num(x).const() for x in pos]
            fl = []

            def go(x):
                if isinstance(x, tuple):
                    for y in x:
                        go(y)
                else:
                    fl.append(x)
            go(v)
            if None in dims or -1 in dims:
                raise Unknown('reshape')

            def mk(ds, xs):
                if not ds:
                    return xs[0]
                n = len(xs) // int(ds[0])
                return Arr(mk(ds[1:], xs[i * n:(i + 1) * n]) for i in range(int(ds[0])))
            return mk(dims, fl)
        if t.op == 'call' and t.args[0] is ext('numpy.kron') and len(t.args[1]) == 2:
            a, b = self(t.args[1][0]), self(t.args[1][1])
            if len(alg.shape(a)) == 3 and len(alg.shape(b)) == 2 and alg.shape(b) == (1, 1):
                return alg.arr(alg.elementwise(lambda u, w: u * w, a, b[0][0]))
        return None
