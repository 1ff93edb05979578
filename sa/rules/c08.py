"""Parametrization discipline and group laws of group elements: operands are read under the
parametrization they are given in and results are handed back under the requested one, conversions
between parametrizations are mutually inverse, and the composition and inversion formulas satisfy the
group axioms (algebraic normal form for planar groups, free words for groups of rotations)."""
from itertools import product
from ..common import *
from .. import alg
from ..alg import S, Arr, Unknown, Raises, Eval

ASSUMPTIONS = ['scipy.spatial.transform.Rotation implements composition, inversion and its from_*/as_* pairs correctly',
               'rotation components of planar groups are exact (floating-point rounding is not modelled)']
CONV = {'_change_param'}
KEEP = {'_change_param', '_to_scipy_rot', '_from_scipy_rot', '_split_param', '_check_param', 'order'}
OPS = ['_inverse', '_combine', '_equal', '_hash_element', '_repr_element', '_is_element']
PAIRS = {'from_quat': 'as_quat', 'from_matrix': 'as_matrix', 'from_rotvec': 'as_rotvec', 'from_euler': 'as_euler', 'from_mrp': 'as_mrp',
         'from_dcm': 'as_dcm'}


def groups(p):
    out = [c for c in p.subclasses('Group') if not p.abstract_methods(c)]
    out = [c for c in out if p.method(c, '_combine') is not None]
    if len(out) < 6:
        raise AnalysisError(f'only {len(out)} groups found')
    return sorted(out, key=lambda c: c.qualname)


def keep(f, recv):
    return False if f.name in KEEP else None


def nm(t):
    """name of the function called by a call term"""
    fn = t.args[0]
    if fn.op == 'bound':
        return fn.args[1].rpartition('.')[2]
    if fn.op == 'func':
        return fn.args[0].rpartition('.')[2]
    if fn.op == 'attr':
        return fn.args[1]
    if fn.op == 'class':
        return fn.args[0].rpartition('.')[2]
    return None


SIG = {'_change_param': ['element', 'p_from', 'p_to'], '_to_scipy_rot': ['element', 'param'], '_from_scipy_rot': ['element', 'param'],
       '_combine': ['e1', 'e2', 'param', 'param1', 'param2'], '_equal': ['e1', 'e2', 'param', 'param1', 'param2'],
       '_inverse': ['element', 'param'], '_invert': ['element', 'param'], '_hash_element': ['element', 'param'], '_hash': ['element', 'param'],
       '_repr_element': ['element', 'param'], '_repr': ['element', 'param'], '_is_element': ['element', 'param', 'verbose'],
       '_check_param': ['element', 'param'], '_split_param': ['param'], '_wigner_d_matrix': ['element', 'l', 'param', 'field'],
       '_character': ['element', 'l', 'param'], 'element': ['element', 'param'], 'GroupElement': ['g', 'group', 'param'], 'to': ['param'],
       '_grid': ['type']}


def bound(t):
    n = nm(t)
    if n not in SIG:
        return None
    d = dict(t.args[2])
    for k, v in zip(SIG[n], t.args[1]):
        d.setdefault(k, v)
    return d


def consumed(t):
    """[(value, tag, how)] of the values a conversion/delegation reads, or None"""
    n = nm(t)
    d = bound(t)
    if d is None:
        return None
    if n == '_change_param':
        return [(d.get('element'), d.get('p_from'))]
    if n in ('_combine', '_equal'):
        q = d.get('param')
        return [(d.get('e1'), orr(d.get('param1'), q)), (d.get('e2'), orr(d.get('param2'), q))]
    if n in ('_to_scipy_rot', '_inverse', '_invert', '_hash_element', '_hash', '_repr_element', '_repr', '_is_element', '_check_param', '_wigner_d_matrix', '_character'):
        return [(d.get('element'), d.get('param'))]
    return None


def orr(a, b):
    if a is not None and a.op == 'sub' and a.args[0].op == 'call' and nm(a.args[0]) == '_split_param' and bound(a.args[0]).get('param') is NONE:
        a = NONE
    return b if a is None or a is NONE else a


SAME = {'numpy.asarray', 'numpy.array', 'builtins.float', 'numpy.float64', 'builtins.int', 'builtins.tuple', 'numpy.ascontiguousarray'}


def same(v):
    """the value behind copies, casts and reshapes"""
    while v is not None:
        if v.op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0] in SAME and v.args[1]:
            v = v.args[1][0]
        elif v.op == 'call' and v.args[0].op == 'attr' and v.args[0].args[1] in ('reshape', 'copy', 'astype', 'flatten', 'squeeze', 'view', 'ravel'):
            v = v.args[0].args[0]
        elif v.op == 'ite':
            a, b = same(v.args[1]), same(v.args[2])
            if a is not b:
                return v
            v = a
        else:
            return v
    return v


def produced(t):
    n = nm(t)
    d = bound(t)
    if d is None:
        return None
    if n == '_change_param':
        return d.get('p_to')
    if n in ('_combine', '_inverse', '_invert', '_from_scipy_rot', 'to'):
        return d.get('param')
    if n == '_grid':
        return d.get('parametrization')
    return None


def run(p, rep, tier):
    rep.rule('operand', 'an element is only read through a conversion from the parametrization it is given in', 30)
    rep.rule('result', 'the product or inverse is handed back under the requested parametrization', 8)
    rep.rule('convert', 'conversions between parametrizations are mutually inverse', 12)
    rep.rule('law', 'composition is associative with two-sided inverses and identity', 8)
    rep.rule('accepts', 'conversions accept rotation matrices, quaternions and angles of their true shape', 4)
    rep.rule('kind', 'a group declares itself continuous or commutative exactly if it is', 7)
    rep.rule('tag', 'a value obtained under one parametrization is only interpreted under the same one', 20)
    flips = {}
    for c in groups(p):
        try:
            flips[c] = passthrough(p, c)
        except Exception as e:
            flips[c] = set()
            rep.undecide('convert', f'{c.name}._change_param', '', repr(e))
        for m in OPS:
            f = p.method(c, m)
            if f is None or f.is_abstract:
                continue
            try:
                operands(p, rep, c, f, m, flips[c])
            except Exception as e:
                rep.undecide('operand', f'{c.name}.{m}', f.loc(), repr(e))
        for r, g in (('convert', conversions), ('law', laws)):
            try:
                g(p, rep, c, flips[c])
            except (Unknown, Raises) as e:
                rep.undecide(r, c.name, c.loc(), 'form not recognised: ' + str(e))
            except Exception as e:
                rep.undecide(r, c.name, c.loc(), repr(e))
    for c in groups(p):
        try:
            kind(p, rep, c)
        except Exception as e:
            rep.undecide('kind', c.name, c.loc(), repr(e))
    try:
        shapes(p, rep)
    except Exception as e:
        rep.undecide('accepts', 'shapes', '', repr(e))
    try:
        scipy_pairs(p, rep)
    except Exception as e:
        rep.undecide('convert', 'so3_utils', '', repr(e))
    tags(p, rep)


# what the groups are: (continuous, commutative); None: depends on the order
KIND = {'SO2': (True, True), 'O2': (True, False), 'CyclicGroup': (False, True), 'DihedralGroup': (False, None), 'SO3': (True, False), 'O3': (True, False),
        'Octahedral': (False, False), 'Icosahedral': (False, False)}


def kind(p, rep, c):
    if c.name not in KIND:
        return
    heap = ctor_heap(p, c)
    for n, want in zip(('continuous', 'abelian'), KIND[c.name]):
        v = heap.get(n)
        if v is None:
            rep.undecide('kind', f'{c.name}.{n}', c.loc(), 'not set')
        elif v.op == 'const' and want is not None:
            rep.ob('kind', f'{c.name}.{n}', bool(v.args[1]) == want, c.loc(), f'{c.name} is declared {n}={v.args[1]}')
        elif want is not None:
            rep.undecide('kind', f'{c.name}.{n}', c.loc(), 'not constant')
        elif v.op == 'const' and v.args[1] is True:
            rep.ob('kind', f'{c.name}.{n}', False, c.loc(), f'{c.name} is declared {n} whatever its order')
        else:
            rep.ob('kind', f'{c.name}.{n}', True, c.loc())


def shapes(p, rep):
    fs = [(c, p.method(c, '_change_param')) for c in groups(p) if c.name in ('SO2', 'O2', 'CyclicGroup', 'DihedralGroup')]
    fs += [(None, f) for f in p.all_functions() if f.cls is None and f.module.name.endswith('so3_utils') and f.name in ('_change_param', '_to_scipy_rot')]
    for c, f in fs:
        if f is None:
            continue
        ok_shapes = {(2, 2)} if c is not None else {(3, 3), (4,), (3,)}
        r = Interp(p, inline=lambda g, rr: False if g.name in KEEP and g is not f else None).run(f, c)
        bad, n = [], 0
        for e in r.events:
            # what an assertion demands, or what a raise leaves
            if e.kind == 'assert':
                ls = [x for x in literals(e['cond'])]
            elif e.kind == 'raise':
                ls = [neg(x) for x in e.facts]
            else:
                continue
            for l in ls:
                if l.op == 'cmp' and l.args[0] in ('==', '!='):
                    for a, b in ((l.args[1], l.args[2]), (l.args[2], l.args[1])):
                        if a.op == 'attr' and a.args[1] == 'shape' and b.op == 'tuple' and all(x.op == 'const' for x in b.args):
                            n += 1
                            sh = tuple(x.args[1] for x in b.args)
                            if (l.args[0] == '==') == (sh not in ok_shapes) and e.kind == 'assert' or l.args[0] == '!=' and sh in ok_shapes and e.kind == 'raise' \
                                    or e.kind == 'raise' and l.args[0] == '==' and sh not in ok_shapes:
                                bad.append((e, sh))
        name = f'{c.name if c else "so3_utils"}.{f.name}'
        if n or bad:
            rep.ob('accepts', name, not bad, bad[0][0].loc() if bad else f.loc(), f'only accepts arrays of shape {bad[0][1]}' if bad else '')


# ------------------------------------------------------------------ operands
def passthrough(p, c):
    """components of an element that its change of parametrization leaves alone"""
    f = p.method(c, '_change_param')
    it = Interp(p, inline=lambda g, r: False if g.name in KEEP and g is not f else None)
    r = it.run(f, c)
    x = arg(f.params[1])
    out = None
    for e in r.of('return'):
        for _, v in leaves(e['value']):
            if v is x:
                continue
            s = {i for i, y in enumerate(v.args) if y is sub(x, const(i))} if v.op == 'tuple' else set()
            out = s if out is None else out & s
    return out or set()


def operands(p, rep, c, f, m, flip):
    two = m in ('_combine', '_equal')
    names = f.params[1:3] if two else f.params[1:2]
    cons = f'{c.name}.{m}'
    for scen in ((0, 1) if two else (0,)):
        args, facts = {}, []
        want = {n: arg('param') for n in names}
        if two:
            for n, q in zip(names, ('param1', 'param2')):
                if scen == 0:
                    args[q] = NONE
                else:
                    want[n] = arg(q)
                    facts += [cmp('is not', arg(q), NONE), arg(q)]
        facts += [cmp('is not', arg('param'), NONE), arg('param')]
        it = Interp(p, inline=lambda g, r: False if g.name in KEEP else None)
        r = it.run(f, c, args=args, facts=facts)
        bad, seen = [], set()
        for e in r.of('return'):
            visit(e['value'], names, want, flip, m, bad, seen)
        for e in r.of('call'):
            # conversions whose result decides an exit
            cs = consumed(e['term'])
            for v, t in cs or ():
                b, i = split(v)
                if b is not None and b.op == 'arg' and b.args[0] in names and i not in flip:
                    if not agrees(t, want[b.args[0]], i):
                        bad.append((b.args[0], t, v))
        for n in names:
            mine = [x for x in bad if x[0] == n]
            if mine:
                _, t, v = mine[0]
                if t == 'raw':
                    msg = f'uses {show(v)[:60]} as it is given, ignoring the parametrization it is given in'
                else:
                    msg = f'reads {show(v)[:60]} as if given in [{show(t)[:60] if t is not None else None}], not in [{show(want[n])}]'
                rep.ob('operand', f'{cons}({n})', False, f.loc(), msg)
            else:
                rep.ob('operand', f'{cons}({n})', True, f.loc())
        if m == '_equal':
            to = {n: set() for n in names}
            for e in r.of('return'):
                for x in e['value'].subterms():
                    if x.op == 'call' and nm(x) == '_change_param':
                        b, i = split(bound(x).get('element'))
                        if b is not None and b.op == 'arg' and b.args[0] in names:
                            to[b.args[0]].add((i, bound(x).get('p_to')))
            a, b = (to[n] for n in names)
            if a and b and all(q is not None and q.op == 'const' for _, q in a | b):
                rep.ob('operand', cons, a == b, f.loc(), f'compares an element in {sorted(str(show(q)) for _, q in a)} with one in {sorted(str(show(q)) for _, q in b)}')
        if m in ('_combine', '_inverse'):
            for e in r.of('return'):
                for cd, v in leaves(e['value']):
                    res = rtag(v, flip)
                    for t, w in res:
                        if t == 'raw':
                            rep.undecide('result', cons, e.loc(), 'result not the outcome of a recognised conversion: ' + show(w)[:80])
                        else:
                            ok = agrees(t[0], arg('param'), t[1])
                            rep.ob('result', cons, ok, e.loc(),
                                   f'the result is handed back in [{show(t[0])[:60] if t[0] is not None else None}], the caller asked for [param]')
                    inner(rep, cons, v, e)


def inner(rep, cons, v, e):
    """a computed value is converted from the parametrization its operands were brought to"""
    for s in v.subterms():
        if s.op == 'call' and nm(s) == '_change_param':
            d = bound(s)
            if d.get('element') is None or d.get('p_from') is None:
                continue
            inn = {produced(x) for x in d['element'].subterms() if x.op == 'call' and nm(x) == '_change_param'}
            inn.discard(None)
            for t in inn:
                if t.op == 'const' and d['p_from'].op == 'const':
                    rep.ob('result', cons, t is d['p_from'], e.loc(),
                           f'computes with values in [{show(t)}] but converts the outcome from [{show(d["p_from"])}]')


def split(v):
    v = same(v)
    if v is None:
        return None, None
    if v.op == 'sub' and v.args[1].op == 'const':
        return v.args[0], v.args[1].args[1]
    return v, None


def agrees(t, want, i):
    """tag t is the wanted parametrization (of component i)"""
    if t is None:
        return False
    if t is want:
        return True
    if t.op == 'sub' and t.args[0].op == 'call' and nm(t.args[0]) == '_split_param':
        d = bound(t.args[0])
        return d.get('param') is want and is_const(t.args[1], i)
    if t.op == 'ite':
        return all(agrees(x, want, i) for _, x in leaves(t))
    if t.op == 'or':
        xs = [x for x in t.args if x is not NONE]      # names of parametrizations are not empty
        return bool(xs) and agrees(xs[0], want, i)
    return False


def visit(t, names, want, flip, m, bad, seen):
    if (t, 0) in seen:
        return
    seen.add((t, 0))
    if t.op == 'arg' and t.args[0] in names:
        if m != '_repr_element':
            bad.append((t.args[0], 'raw', t))
        return
    b, i = split(t)
    if t.op == 'sub' and b is not None and b.op == 'arg' and b.args[0] in names:
        if i not in flip and m != '_repr_element':
            bad.append((b.args[0], 'raw', t))
        return
    if t.op == 'call':
        fn = t.args[0]
        if fn.op == 'ext' and fn.args[0] in ('builtins.isinstance', 'builtins.len', 'builtins.type'):
            return
        cs = consumed(t)
        if cs is not None:
            skip = set()
            for v, tag in cs:
                b, i = split(v)
                if b is not None and b.op == 'arg' and b.args[0] in names:
                    skip.add(v)
                    if i not in flip and not agrees(tag, want[b.args[0]], i):
                        bad.append((b.args[0], tag, v))
                    continue
                if v is not None:
                    visit(v, names, want, flip, m, bad, seen)
            return
        if nm(t) == '_split_param':
            return
    if t.op == 'closure' or t.op == 'bound':
        pass
    for a in t.args:
        for x in ([a] if isinstance(a, T) else flat(a) if isinstance(a, tuple) else []):
            visit(x, names, want, flip, m, bad, seen)


def flat(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from flat(x)


def rtag(v, flip):
    """[((tag, component), value)] of a result"""
    if v.op == 'tuple':
        out = []
        for i, x in enumerate(v.args):
            if i in flip:
                continue
            for _, y in leaves(x):
                t = produced(y) if y.op == 'call' else None
                out.append(((t, i) if t is not None else 'raw', y))
        return out
    t = produced(v) if v.op == 'call' else None
    return [((t, None) if t is not None else 'raw', v)]


# ------------------------------------------------------------------ planar groups
def params_of(p, c):
    def lit(n):
        a = p.class_attr(c, n)
        if a is None:
            return None
        it = Interp(p)
        fr = None
        node = a[1]
        try:
            return ast.literal_eval(node)
        except Exception:
            pass
        if isinstance(node, ast.Name):
            e = p.resolve(a[0].module, node.id)
            if e is not None:
                try:
                    return ast.literal_eval(e[2])
                except Exception:
                    return None
        return None
    return lit('PARAM'), lit('PARAMETRIZATIONS')


def orders(p, c):
    """attributes of the group equal to the number N it is constructed with, and its order"""
    heap = ctor_heap(p, c)
    N = S.atom('N', integer=True)
    env = {}
    for n, v in heap.items():
        if isinstance(n, str) and v is arg('N'):
            env[attr(SELF, n)] = N
    env[arg('N')] = N
    return env, N


def order_hook(c, N, selfs=(SELF,)):
    def hook(t, ev):
        if t.op == 'call' and nm(t) == 'order' and t.args[0].op in ('bound', 'attr') and t.args[0].args[0] in selfs:
            if c.name.startswith('Cyclic'):
                return N
            if c.name.startswith('Dihedral'):
                return N * S.c(2)
        return None
    return hook


UNIT = {'radians': lambda N: alg.TWOPI, 'int': lambda N: N}


def planar(p, c):
    P, Ps = params_of(p, c)
    return P in UNIT and Ps is not None and 'MAT' in Ps


def mod_of(par, N):
    M = UNIT[par](N)

    def modulo(m, x):
        # whole turns: N steps of an integer number of steps, or 2*pi of an angle
        for U, ok in ((N, x.is_int()), (alg.TWOPI, True)):
            try:
                q = m / U
            except Unknown:
                continue
            if ok and q.is_int() and q.d:
                return True
        return False
    return M, modulo


def sym(par, name, N):
    """a rotation in the given parametrization, from the angle/step atom"""
    if par == 'int':
        return S.atom(name, integer=True)
    return S.atom(name)


def runop(p, c, m, args, env, N, par):
    f = p.method(c, m)
    it = Interp(p, inline=lambda g, r: False if g.name in ('order',) else None)
    terms, e2 = {}, dict(env)
    for k, v in args.items():
        if isinstance(v, T):
            terms[k] = v
        else:
            terms[k] = totext(v, e2, k)
    r = it.run(f, c, args=terms)
    if r.ret is None or not r.of('return'):
        raise Raises()
    M, modulo = mod_of(par, N)
    ev = Eval(e2, call=order_hook(c, N), modulo=modulo, cond=typecond)
    return ev(strip_raise(r))


def strip_raise(r):
    return r.ret


def typecond(t, ev):
    if t.op == 'call' and t.args[0] is ext('builtins.isinstance'):
        return True
    return None


def totext(v, env, name):
    """a term standing for a domain value"""
    if isinstance(v, tuple):
        if isinstance(v, Arr):
            t = arg('#' + name)
            env[t] = v
            return t
        return T('tuple', *[totext(x, env, f'{name}.{i}') for i, x in enumerate(v)])
    if isinstance(v, S):
        c = v.const()
        if c is not None and c.denominator == 1:
            return const(int(c))
        t = arg('#' + name)
        env[t] = v
        return t
    raise Unknown('value')


def congr(a, b, M):
    """rotations equal modulo M; flips equal"""
    if isinstance(a, Arr) or isinstance(b, Arr):
        return isinstance(a, tuple) and isinstance(b, tuple) and alg.shape(a) == alg.shape(b) and flatten(a) == flatten(b)
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2):
            return False
        f = a[0] - b[0]
        return f.const() == 0 and congr(a[1], b[1], M)
    d = a - b
    if not d.d:
        return True
    return (d / M).is_int()


def flatten(a):
    out = []
    for x in a:
        out += flatten(x) if isinstance(x, tuple) else [x]
    return out


def mkel(flip, f, r):
    return (S.c(f), r) if flip else r


def cases_of(flip):
    return (0, 1) if flip else (0,)


def conversions(p, rep, c, flip):
    if not planar(p, c):
        return
    f = p.method(c, '_change_param')
    P, Ps = params_of(p, c)
    env, N = orders(p, c)
    fl = 0 in flip
    cons = f'{c.name}._change_param'

    def conv(v, a, b):
        return runop(p, c, '_change_param', {f.params[1]: v, 'p_from': const(a), 'p_to': const(b)}, env, N, b if b in UNIT else P)
    from_flip = cases_of(fl)
    for fv in from_flip:
        x = mkel(fl, fv, sym(P, 'x', N))
        img = {}
        for a in Ps:
            try:
                img[a] = conv(x, P, a)
            except (Unknown, Raises) as e:
                rep.undecide('convert', f'{cons} {P}->{a}', f.loc(), str(e))
        ang = sym(P, 'x', N) * alg.TWOPI / N if P == 'int' else sym(P, 'x', N)
        for a in img:
            # what the parametrization means
            w = {'int': sym(P, 'x', N) if P == 'int' else None, 'radians': ang,
                 'MAT': alg.arr(((alg.cos(ang), -alg.sin(ang)), (alg.sin(ang), alg.cos(ang))))}.get(a)
            if w is not None:
                M = UNIT[a](N) if a in UNIT else alg.TWOPI
                rep.ob('convert', f'{cons} {P}->{a}', congr(img[a], mkel(fl, fv, w), M), f.loc(),
                       f'{("flip %d, " % fv) if fl else ""}rotation x in [{P}] becomes {img[a]!r} in [{a}], expected {mkel(fl, fv, w)!r}'[:300])
            for b in Ps:
                if b not in img:
                    continue
                try:
                    back = conv(img[a], a, b)
                except Unknown as e:
                    rep.undecide('convert', f'{cons} {a}->{b}', f.loc(), str(e))
                    continue
                except Raises:
                    continue
                M = UNIT[b](N) if b in UNIT else alg.TWOPI
                rep.ob('convert', f'{cons} {a}->{b}', congr(back, img[b], M), f.loc(),
                       f'converting [{P}] -> [{a}] -> [{b}] gives {back!r}, converting [{P}] -> [{b}] directly gives {img[b]!r}'[:300])


def laws(p, rep, c, flip):
    if not planar(p, c):
        return words(p, rep, c, flip)
    P, Ps = params_of(p, c)
    env, N = orders(p, c)
    fl = 0 in flip
    M = UNIT[P](N)
    fc, fi = p.method(c, '_combine'), p.method(c, '_inverse')

    def comb(a, b):
        return runop(p, c, '_combine', {fc.params[1]: a, fc.params[2]: b, 'param': const(P), 'param1': NONE, 'param2': NONE}, env, N, P)

    def inv(a):
        return runop(p, c, '_inverse', {fi.params[1]: a, 'param': const(P)}, env, N, P)
    one = mkel(fl, 0, S.c(0))
    k = cases_of(fl)
    cons = f'{c.name}._combine'
    for fa, fb, fd in product(k, k, k):
        a, b, d = (mkel(fl, x, sym(P, n, N)) for x, n in zip((fa, fb, fd), 'abd'))
        l, r = comb(comb(a, b), d), comb(a, comb(b, d))
        rep.ob('law', cons, congr(l, r, M), fc.loc(), f'not associative: with flips {fa},{fb},{fd} (a*b)*d = {l!r} but a*(b*d) = {r!r}'[:300])
    for fa in k:
        a = mkel(fl, fa, sym(P, 'a', N))
        for l, r, w in ((a, one, 'a*1'), (one, a, '1*a')):
            v = comb(l, r)
            rep.ob('law', cons, congr(v, a, M), fc.loc(), f'{w} = {v!r}, not a'[:300])
        i = inv(a)
        for l, r, w in ((a, i, 'a*inverse(a)'), (i, a, 'inverse(a)*a')):
            v = comb(l, r)
            rep.ob('law', f'{c.name}._inverse', congr(v, one, M), fi.loc(), f'with flip {fa}: inverse(a) = {i!r} but {w} = {v!r}'[:300])
    # identity of the class
    heap = ctor_heap(p, c)
    v = heap.get('_identity')
    if v is not None and v.op == 'call' and nm(v) in ('element', 'GroupElement'):
        d = bound(v)
        x = d.get('element', d.get('g'))
        try:
            xv = Eval(env)(x)
            rep.ob('law', f'{c.name}.identity', congr(xv, one, M), c.loc(), f'the identity is {xv!r}')
        except Unknown as e:
            rep.undecide('law', f'{c.name}.identity', c.loc(), str(e))
    # the product is a faithful image of products of rotation matrices
    if 'MAT' in Ps:
        fp = p.method(c, '_change_param')
        mats = {}
        def mat(v):
            m = runop(p, c, '_change_param', {fp.params[1]: v, 'p_from': const(P), 'p_to': const('MAT')}, env, N, P)
            if fl:
                f = alg.arr(((S.c(1), S.c(0)), (S.c(0), S.c(-1)))) if m[0].const() == 1 else alg.arr(alg.eye(2))
                return alg.arr(alg.matmul(m[1], f))
            return m
        for fa, fb in product(k, k):
            a, b = (mkel(fl, x, sym(P, n, N)) for x, n in zip((fa, fb), 'ab'))
            l, r = mat(comb(a, b)), alg.arr(alg.matmul(mat(a), mat(b)))
            rep.ob('law', cons, flatten(l) == flatten(r), fc.loc(),
                   f'the product of flips {fa},{fb} does not compose like the planar transformations the elements stand for')


# ------------------------------------------------------------------ rotations in space, products of groups
def word(t, names, flip):
    """free word of the operands: tuple of (name, component, exponent); flips: ('f', term)"""
    b, i = split(t)
    if b is not None and b.op == 'arg' and b.args[0] in names:
        return ((b.args[0], i, 1),)
    if t.op == 'call':
        n = nm(t)
        d = bound(t)
        if n in ('_from_scipy_rot', '_to_scipy_rot', '_change_param') and d is not None:
            return word(d['element'], names, flip)
        if n == '_combine':
            return word(d['e1'], names, flip) + word(d['e2'], names, flip)
        if n in ('_inverse', '_invert'):
            return winv(word(d['element'], names, flip))
        if n == 'inv' and t.args[0].op == 'attr' and not t.args[1]:
            return winv(word(t.args[0].args[0], names, flip))
        if n in ('copy',) and t.args[0].op == 'attr':
            return word(t.args[0].args[0], names, flip)
    if t.op == 'bin' and t.args[0] == '*':
        return word(t.args[1], names, flip) + word(t.args[2], names, flip)
    if t.op == 'bin' and t.args[0] == '**' and is_const(t.args[2], -1):
        return winv(word(t.args[1], names, flip))
    raise Unknown(show(t)[:80])


def winv(w):
    return tuple((n, i, -e) for n, i, e in reversed(w))


def words(p, rep, c, flip):
    for m in ('_combine', '_inverse'):
        f = p.method(c, m)
        names = f.params[1:3] if m == '_combine' else f.params[1:2]
        it = Interp(p, inline=keep)
        r = it.run(f, c, args={'param1': NONE, 'param2': NONE} if m == '_combine' else {}, facts=[cmp('is not', arg('param'), NONE)])
        cons = f'{c.name}.{m}'
        for e in r.of('return'):
            for _, v in leaves(e['value']):
                comps = list(enumerate(v.args)) if v.op == 'tuple' else [(None, v)]
                for i, x in comps:
                    if i in flip:
                        # flips compose by parity
                        for fs in product((0, 1), repeat=len(names)):
                            env = {sub(arg(n), const(i)): S.c(z) for n, z in zip(names, fs)}
                            try:
                                got = Eval(env)(x)
                            except Unknown as u:
                                rep.undecide('law', cons, e.loc(), str(u))
                                continue
                            w = sum(fs) % 2
                            rep.ob('law', cons, isinstance(got, S) and got.const() == w, e.loc(), f'flips {fs} give flip {got!r}, expected {w}')
                        continue
                    try:
                        w = word(x, names, flip)
                    except Unknown as u:
                        rep.undecide('law', cons, e.loc(), 'form not recognised: ' + str(u))
                        continue
                    exp = tuple((n, i, 1) for n in names) if m == '_combine' else ((names[0], i, -1),)
                    rep.ob('law', cons, w == exp, e.loc(),
                           f'computes {fmt(w)}, expected {fmt(exp)}')


def fmt(w):
    return ' * '.join(n + (f'[{i}]' if i is not None else '') + ('' if e == 1 else '^-1') for n, i, e in w) or '1'


def scipy_pairs(p, rep):
    """rotation <-> parameters: the two converters use mutually inverse scipy methods for every parametrization"""
    fs = {f.name: f for f in p.all_functions() if f.cls is None and f.name in ('_to_scipy_rot', '_from_scipy_rot')}
    if len(fs) < 2:
        raise AnalysisError('rotation converters not found')
    pars = None
    mod = fs['_to_scipy_rot'].module
    b = mod.bind.get('PARAMETRIZATIONS')
    node = b[1] if b else None
    try:
        pars = ast.literal_eval(getattr(node, 'value', node))
    except Exception:
        pars = ['Q', 'MAT', 'EV', 'zyz', 'ZYZ', 'xyz']
    for q in pars:
        out = {}
        for n, f in fs.items():
            it = Interp(p)
            r = it.run(f, None, args={f.params[1]: const(q)})
            out[n] = [x for e in r.of('return') for _, x in leaves(e['value'])]
        cons = f'so3_utils [{q}]'
        to, fr = out['_to_scipy_rot'], out['_from_scipy_rot']
        if len(to) != 1 or len(fr) != 1:
            rep.undecide('convert', cons, fs['_to_scipy_rot'].loc(), 'several alternatives')
            continue
        to, fr = to[0], fr[0]
        tn = to.args[0].args[0].rpartition('.')[2] if to.op == 'call' and to.args[0].op == 'ext' else None
        fn = fr.args[0].args[1] if fr.op == 'call' and fr.args[0].op == 'attr' else None
        if tn not in PAIRS or fn not in PAIRS.values():
            rep.undecide('convert', cons, fs['_to_scipy_rot'].loc(), 'form not recognised')
            continue
        ok = PAIRS[tn] == fn
        msg = f'read with Rotation.{tn} but written with Rotation.{fn}'
        if ok:
            sa = [x for x in to.args[1] if x is not arg(fs['_to_scipy_rot'].params[0])] + [v for k, v in to.args[2]]
            sb = list(fr.args[1]) + [v for k, v in fr.args[2]]
            sa = [x for x in sa if x is not FALSE]
            sb = [x for x in sb if x is not FALSE]
            if sa != sb and not all(x.op == 'const' for x in sa + sb):
                rep.undecide('convert', cons, fs['_to_scipy_rot'].loc(), 'options not recognised')
                continue
            if sa != sb:
                ok = False
                msg = f'read with {tn}({", ".join(map(show, sa))}) but written with {fn}({", ".join(map(show, sb))})'
        rep.ob('convert', cons, ok, fs['_from_scipy_rot'].loc(), msg)


# ------------------------------------------------------------------ values and tags across the repository
def strip_tag(t):
    """parametrization of the rotation part"""
    if t.op == 'const' and isinstance(t.args[1], str):
        s = t.args[1]
        if s.startswith('[int | ') and s.endswith(']'):
            return const(s[7:-1])
    if t.op == 'attr' and t.args[1] == 'param':
        return attr(t.args[0], 'group', 'PARAM')
    return t


def parts(it, q):
    """parametrizations of the two components of a parametrization of a product group, or None"""
    if q.op == 'const' and isinstance(q.args[1], str) and q.args[1].startswith('[') and q.args[1].count(' | ') == 1:
        a, b = q.args[1][1:-1].split(' | ')
        return const(a), const(b)
    if q.op == 'str' and len(q.args) == 5 and is_const(q.args[0], '[') and is_const(q.args[2], ' | ') and is_const(q.args[4], ']'):
        return q.args[1], q.args[3]
    if q.op == 'attr' and q.args[1] == 'PARAM':
        ty = it.typeof(q.args[0])
        if isinstance(ty, ClassInfo) and ty.name == 'DirectProductGroup':
            return attr(q.args[0], 'G1', 'PARAM'), attr(q.args[0], 'G2', 'PARAM')
    return None


def vtag(it, v):
    """tag of a value that is handed on unchanged, or None"""
    if v.op == 'attr' and v.args[1] in ('value', '_element') and gelem(it, v.args[0]):
        return attr(v.args[0], 'param')
    if v.op == 'call' and nm(v) in ('to', '_change_param', '_from_scipy_rot', '_grid', '_inverse', '_combine', '_invert'):
        n = nm(v)
        if n == 'to':
            a = bound(v)['param'] if bound(v) and bound(v).get('param') is not None else None
            if a is None or not (a.op == 'const' and isinstance(a.args[1], str) or a.op in ('arg', 'attr', 'str')):
                return None
            if v.args[0].op == 'attr' and not gelem(it, v.args[0].args[0]) and a.op != 'const':
                return None
            if a.op == 'const' and a.args[1] not in NAMES:
                return None
            return a
        return produced(v)
    if v.op == 'elem' and v.args[0].op == 'call' and nm(v.args[0]) == '_grid':
        return produced(v.args[0])
    if v.op == 'sub' and v.args[0].op == 'call' and nm(v.args[0]) in ('to', '_grid') and v.args[1].op == 'const':
        n = nm(v.args[0])
        t = vtag(it, v.args[0])
        if t is None:
            return None
        if n == '_grid':
            return t
        ps = parts(it, t)
        i = v.args[1].args[1]
        if ps is not None and i in (0, 1):
            return ps[i]
        # component of an element: 0 is a flip
        return t if i == 1 else None
    return None


NAMES = {'Q', 'MAT', 'EV', 'int', 'radians'} | {a + b + c for a in 'xyz' for b in 'xyz' for c in 'xyz'} | {a + b + c for a in 'XYZ' for b in 'XYZ' for c in 'XYZ'} | {'[int | Q]', '[int | radians]', '[int | MAT]'}


def gelem(it, t):
    ty = it.typeof(t)
    return isinstance(ty, ClassInfo) and ty.name == 'GroupElement'


def tags(p, rep):
    words_ = ('.element(', 'GroupElement(', '_change_param(', '_to_scipy_rot(', '_wigner_d_matrix(', '_character(')
    n = 0
    for f in p.all_functions():
        if f.parent is not None or not f.module.name.startswith('escnn.'):
            continue
        try:
            src = ast.unparse(f.node)
        except Exception:
            continue
        if not any(w in src for w in words_):
            continue
        if f.cls is not None and f.name in ('_change_param',):
            continue
        try:
            tag_function(p, rep, f)
        except Exception as e:
            rep.undecide('tag', f.qualname, f.loc(), repr(e))


def tag_function(p, rep, f):
    it = Interp(p, inline=lambda g, r: False, max_stmts=400)
    r = it.run(f, f.cls)
    evs = list(r.of('call'))
    # closures defined by the function
    for cl in list(it.closures):
        try:
            fi = it.closures[cl][0]
            v, st = it.invoke(cl, [typed(it, fi, q) for q in fi.params if q not in fi.defaults])
            evs += [e for e in it.res.of('call')]
        except Exception:
            pass
    for e in evs:
        t = e['term']
        n = nm(t)
        if n in ('element', 'GroupElement'):
            d = bound(t)
            if d is None:
                continue
            v, q = d.get('element', d.get('g')), d.get('param')
            if n == 'element' and not (t.args[0].op in ('bound', 'attr')):
                continue
            G = t.args[0].args[0] if n == 'element' else d.get('group')
            if q is None or q is NONE:
                q = default_param(p, it, G, f)
                if q is None:
                    continue
            check_tag(it, rep, f, e, v, q, 'element')
        else:
            for v, q in consumed(t) or ():
                if v is not None and q is not None and q is not NONE:
                    check_tag(it, rep, f, e, v, q, n)


def typed(it, fi, q):
    t = arg(q)
    ty = it.ann_type(fi, q)
    if ty:
        it.types[t] = ty
    return t


def default_param(p, it, G, f):
    if G is None:
        return None
    ty = it.typeof(G)
    if G is SELF and f.cls is not None:
        ty = f.cls
    if isinstance(ty, ClassInfo) and ty.name != 'Group':
        q, _ = params_of(p, ty)
        if q is not None:
            return const(q)
    return attr(G, 'PARAM')


def check_tag(it, rep, f, e, v, q, n):
    v = same(v)
    if v.op == 'tuple' and len(v.args) == 2:
        ps = parts(it, q)
        if ps is None:
            # flip and rotation: the parametrization is the one of the rotation
            return check_tag(it, rep, f, e, v.args[1], q, n)
        for x, y in zip(v.args, ps):
            check_tag(it, rep, f, e, x, y, n)
        return
    t = vtag(it, v)
    if t is None:
        return
    a, b = strip_tag(t), strip_tag(q)
    ok = a is b or t is q
    if not ok:
        for x in (cmp('==', a, b), cmp('==', b, a)):
            if x in e.facts:
                ok = True
    if not ok:
        known = a.op in ('const', 'arg') and b.op in ('const', 'arg')
        if not known and {a.op, b.op} <= {'const', 'arg', 'attr'} and (a.op == 'attr' and a.args[1] == 'PARAM' or b.op == 'attr' and b.args[1] == 'PARAM'):
            # components of one product group exchanged
            known = a.op == b.op == 'attr' and a.args[0].op == b.args[0].op == 'attr' and a.args[0].args[0] is b.args[0].args[0] \
                and {a.args[0].args[1], b.args[0].args[1]} == {'G1', 'G2'}
        if not known:
            rep.undecide('tag', f.qualname, e.loc(), f'{show(t)[:50]} vs {show(q)[:50]}')
            return
    rep.ob('tag', f'{f.qualname} {show(v)[:60]}', ok, e.loc(),
           f'{show(v)[:80]} is given in [{show(t)[:40]}] but interpreted in [{show(q)[:40]}]')
