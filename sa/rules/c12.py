"""Operands that belong to different groups, spaces or types are never combined: every normal completion
(and every in-place update) of the operations listed is dominated by the equality of what they belong to."""
from ..guards import *

ASSUMPTIONS = ['an assertion or raise statement stops the call (python is not run with -O)',
               'equality of groups, spaces and field types is decided by C07']

# (class or None, function): requirements; a requirement is (left, right) or ('all', iterable, left, right)
# where E stands for the element of the iterable. Alternatives of a side are separated by |
OPS = {
    ('Representation', '__call__'): [('element.group', 'self.group')],
    ('Representation', 'character'): [('e.group', 'self.group')],
    ('Representation', '__add__'): [('other.group', 'self.group')],
    (None, 'directsum'): [('all', 'reprs', 'E.group', 'reprs[0].group')],
    ('Group', '_tensor_product'): [('rho1.group', 'self|rho2.group'), ('rho2.group', 'self|rho1.group')],
    ('Group', 'restrict_representation'): [('repr.group', 'self')],
    ('GroupElement', '__matmul__'): [('other.group', 'self.group')],
    ('GroupElement', '__eq__'): [('other.group', 'self.group')],
    ('HomSpace', 'same_coset'): [('g1.group', 'self.G'), ('g2.group', 'self.G')],
    ('HomSpace', 'scalar_basis'): [('g.group', 'self.G')],
    ('HomSpace', 'basis'): [('g.group', 'self.G'), ('rho.group', 'self.G'), ('psi.group', 'self.H')],
    ('DirectProductGroup', 'inclusion1'): [('g1.group', 'self.G1|self._G1')],
    ('DirectProductGroup', 'inclusion2'): [('g2.group', 'self.G2|self._G2')],
    ('DirectProductGroup', 'pair_elements'): [('g1.group', 'self.G1|self._G1'), ('g2.group', 'self.G2|self._G2')],
    ('DirectProductGroup', 'split_element'): [('g.group', 'self')],
    (None, 'tensor_product_irrep'): [('psi1.group', 'G.G1'), ('psi2.group', 'G.G2')],
    (None, 'tensor_product_irrep_complex'): [('psi1.group', 'G.G1'), ('psi2.group', 'G.G2')],
    (None, 'build_induced_representation'): [('repr.group', '*subgroup')],
    ('Group', '_induced_from_irrep'): [('repr.group', '*subgroup')],
    (None, 'homomorphism_space'): [('rho1.group', 'rho2.group')],
    ('GSpace', 'featurefield_action'): [('repr.group', 'self.fibergroup'), ('element.group', 'self.fibergroup')],
    ('GSpace', '_interpolate_transform_basespace'): [('element.group', 'self.fibergroup')],
    ('GSpace', 'build_kernel_basis'): [('in_repr.group', 'self.fibergroup'), ('out_repr.group', 'self.fibergroup')],
    ('GSpace', 'build_fiber_intertwiner_basis'): [('in_repr.group', 'self.fibergroup'), ('out_repr.group', 'self.fibergroup')],
    ('GSpace0D', '_interpolate_transform_basespace'): [('element.group', 'self.fibergroup')],
    ('GSpace0D', 'build_kernel_basis'): [('in_repr.group', 'self.fibergroup'), ('out_repr.group', 'self.fibergroup')],
    ('SteerableKernelBasis', '__init__'): [('in_repr.group', 'out_repr.group')],
    ('SteerableFiltersBasis', '__init__'): [('action.group', 'G')],
    ('SparseOrbitBasis', '__init__'): [('action.group', 'X.G|self.X.G')],
    ('FieldType', '__init__'): [('all', 'representations', 'E.group', 'gspace.fibergroup')],
    ('FieldType', 'fiber_representation'): [('element.group', 'self.gspace.fibergroup|self.fibergroup')],
    ('FieldType', 'transform_fibers'): [('element.group', 'self.gspace.fibergroup|self.fibergroup')],
    ('FieldType', 'transform'): [('element.group', 'self.gspace.fibergroup|self.fibergroup')],
    ('FieldType', '__add__'): [('self.gspace', 'other.gspace')],
    ('GeometricTensor', '__add__'): [('self.type', 'other.type'), 'coords'],
    ('GeometricTensor', '__sub__'): [('self.type', 'other.type'), 'coords'],
    ('GeometricTensor', '__iadd__'): [('self.type', 'other.type'), 'coords'],
    ('GeometricTensor', '__isub__'): [('self.type', 'other.type'), 'coords'],
    ('GeometricTensor', '__rmatmul__'): [('other.group', 'self.type.fibergroup|self.type.gspace.fibergroup')],
}


def run(p, rep_, tier):
    rep_.rule('same-group', 'the operation completes only if its operands belong to the same group', 30)
    rep_.rule('same-type', 'fields are combined only if they have the same type, or are concatenated only on the same base space', 4)
    rep_.rule('same-coords', 'fields are combined only if they are sampled at the same coordinates', 3)
    rep_.rule('fits', 'a field is built only from data of the size and dimensionality its type prescribes', 2)
    for (cn, fn), reqs in OPS.items():
        try:
            operation(p, rep_, cn, fn, reqs)
        except Exception as e:
            rep_.undecide('same-group', f'{cn}.{fn}', '', repr(e))
    for f in (kernels, concatenation, field, same_coords):
        try:
            f(p, rep_)
        except Exception as e:
            rep_.undecide('fits', f.__name__, '', repr(e))


def func(p, cn, fn):
    if cn:
        c = p.cls(cn)
        return (p.method(c, fn) if c else None), c
    fs = [f for f in p.all_functions() if f.cls is None and f.name == fn]
    return (fs[0] if fs else None), None


def term(path, f, elem=None):
    head, *rest = path.replace('[0]', '.0').split('.')
    if head == 'self':
        t = SELF
    elif head == 'E':
        t = elem
    else:
        t = arg(head)
    for r in rest:
        t = sub(t, const(0)) if r == '0' else attr(t, r)
    return t


def head_param(path):
    return path.replace('[0]', '').split('.')[0]


def belongs(t, a, name):
    """t is `<a>.name` where a may first be replaced by an object it identifies"""
    if t.op == 'attr' and t.args[1] == name:
        b = t.args[0]
        return b is a or (b.op == 'ite' and a in (b.args[1], b.args[2]))
    return False


def eq_found(facts, left, right, f):
    ls = [x for x in left.split('|')]
    rs = [x for x in right.split('|')]
    for fa in facts:
        if fa.op != 'cmp' or fa.args[0] != '==':
            continue
        for x, y in ((fa.args[1], fa.args[2]), (fa.args[2], fa.args[1])):
            for l in ls:
                h = head_param(l)
                lt = term(l, f)
                ok = x is lt or (l.endswith('.group') and l.count('.') == 1 and h != 'self' and belongs(x, arg(h), 'group'))
                if not ok:
                    continue
                for r in rs:
                    if r == '*subgroup':
                        s = show(y)
                        if 'subgroup' in s:
                            return True
                        continue
                    rt = term(r, f)
                    if y is rt or (r.count('.') == 1 and r.endswith('.group') and head_param(r) != 'self' and belongs(y, arg(head_param(r)), 'group')):
                        return True
    return False


def rename(reqs, f):
    """requirements speak of parameters by name; keep them only if the function still has them"""
    ps = set(f.params)
    out = []
    for r in reqs:
        if r == 'coords':
            out.append(r)
            continue
        names = [head_param(s) for x in r if x != 'all' for s in x.split('|')]
        if all(n in ps or n in ('self', 'E', '*subgroup') for n in names):
            out.append(r)
        else:
            out.append(None)
    return out


def completions(p, f, c):
    it = Interp(p, implications=True, max_stmts=400)
    r = it.run(f, c)
    outs = [e for e in r.of('return') if not (e['value'].op in ('ext', 'const') and show(e['value']) in ('NotImplemented', 'False', 'builtins.NotImplemented'))]
    if c is not None and f.name.startswith('__i') and f.name != '__init__':
        outs += [e for e in r.of('aug')]
    return r, outs


def delegated(p, r, a):
    """the operand is handed to another operation of the library that checks it itself"""
    for e in r.of('call'):
        fn = e['fn']
        if fn.op in ('bound', 'func') and any(x is a for x in call_args(e['term'])):
            n = callee_name(fn)
            if any(n == k[1] for k in OPS) or n in ('restrict_representation', 'subgroup'):
                return True
        if fn.op == 'arg' and any(x is a for x in call_args(e['term'])):
            return True
        if fn.op == 'attr' and fn.args[1] in {k[1] for k in OPS} and any(x is a for x in call_args(e['term'])):
            return True
    return False


def operation(p, rep_, cn, fn, reqs):
    f, c = func(p, cn, fn)
    name = f'{cn}.{fn}' if cn else fn
    if f is None:
        rep_.undecide('same-group', name, '', 'not found')
        return
    if f.is_abstract:
        return
    r, outs = completions(p, f, c)
    if not outs:
        rep_.undecide('same-group', name, f.loc(), 'no completion found')
        return
    for q in rename(reqs, f):
        if q is None:
            rep_.undecide('same-group', name, f.loc(), 'parameters renamed')
            continue
        for e in outs:
            if q == 'coords':
                ok = coords_fact(e.facts, SELF, arg('other'))
                rep_.ob('same-coords', name, ok, e.loc(), 'combines fields sampled at different coordinates')
                continue
            rule = 'same-type' if 'type' in q[0] or 'gspace' in q[0] else 'same-group'
            if q[0] == 'all':
                ok = all_found(e.facts, q, f)
                rep_.ob(rule, name, ok, e.loc(), f'completes although the {q[1]} do not all satisfy {q[2]} == {q[3]}')
                continue
            ok = eq_found(e.facts, q[0], q[1], f)
            if not ok:
                a = arg(head_param(q[0]))
                if delegated(p, r, a) or unrecognised(e.facts, a, q[0].split('.')[-1]):
                    ok = None
            rep_.ob(rule, f'{name} {q[0]}', ok, e.loc(), f'completes without having established that {q[0]} equals {q[1].split("|")[0]}')


def is_obj(t, a):
    """t is the operand a, possibly replaced by the object it identifies"""
    return t is a or (t.op == 'ite' and a in t.args[1:])


def path(t):
    while t.op == 'attr':
        t = t.args[0]
    return t.op == 'arg' or t is SELF or (t.op == 'ite' and any(x.op == 'arg' for x in t.args[1:]))


def unrecognised(facts, a, word):
    """a fact about what the operand belongs to, in a form that may amount to the equality required"""
    for fa in facts:
        lits = fa.args if fa.op == 'or' else (fa,)
        rel = any(u.op == 'attr' and u.args[1] == word and is_obj(u.args[0], a) for u in fa.subterms())
        if not rel and not (fa.op == 'call' and any(is_obj(x, a) for x in call_args(fa)) and fa.args[0].op != 'ext'):
            continue
        if any(l.op == 'cmp' and path(l.args[1]) and path(l.args[2]) for l in lits):
            continue            # compared with something else, or one of several groups admitted
        if fa.op == 'cmp' and any(x.op == 'const' for x in fa.args[1:]):
            continue
        return True
    return False


def all_found(facts, q, f):
    base = term(q[1], f)
    unknown = False
    for fa in facts:
        for conds, quants, body in peel(fa):
            if body.op == 'cmp' and body.args[0] == '==' and mentions(body, 'group'):
                for x, y in ((body.args[1], body.args[2]), (body.args[2], body.args[1])):
                    es = [T('elem', base), sub(base, T('idx', base))]
                    if any(x is term(q[2], f, e) for e in es) and any(y is term(s, f) for s in q[3].split('|')):
                        if len(quants) == 1 and same_base(quants[0], base) and not conds:
                            return True
                    if len(quants) == 1 and tail(quants[0], base) and y in [term(s, f) for s in q[3].split('|')] and not conds and q[3].startswith(q[1] + '[0]'):
                        return True     # the first one is the one compared with
            elif mentions(body, 'group') and body.op in ('or', 'exists') and base in body.subterms():
                unknown = True
            elif body.op == 'cmp' and mentions(body, 'group') and any(t.op == 'comp' and t.args[0] == 'set' for t in body.subterms()):
                unknown = True
    return None if unknown else False


def same_base(q, base):
    while q.op == 'call' and q.args[0].op == 'ext' and q.args[0].args[0] in FIELD_WRAPPERS and len(q.args[1]) == 1:
        q = q.args[1][0]
    return q is base


def tail(q, base):
    """all elements but the first"""
    s = show(q)
    b = show(base)
    return s in (f'{b}[1::]', f'range(1, len({b}))')


def coords_fact(facts, a, b):
    """both fields have the same coordinates"""
    ca, cb = attr(a, 'coords'), attr(b, 'coords')
    saw = False
    for f in facts:
        s = f.subterms() | {f}
        if ca in s and cb in s:
            saw = True
        if f.op == 'call' and callee_name(f.args[0]) in ('has_same_coords', 'is_compatible'):
            return True
    return saw


def kernels(p, rep_):
    """builders of kernel bases: input and output representation of one group"""
    for f in p.all_functions():
        if f.cls is not None or not {'in_repr', 'out_repr'} <= set(f.params) or '.kernels.' not in f.module.name + '.':
            continue
        r, outs = completions(p, f, None)
        for e in outs:
            sides = {'in_repr': set(), 'out_repr': set()}
            direct = False
            for fa in e.facts:
                if fa.op == 'cmp' and fa.args[0] == '==':
                    for x, y in ((fa.args[1], fa.args[2]), (fa.args[2], fa.args[1])):
                        for n in sides:
                            if x is attr(arg(n), 'group'):
                                sides[n].add(y)
                                if y in (attr(arg('in_repr'), 'group'), attr(arg('out_repr'), 'group')):
                                    direct = True
            ok = direct or bool(sides['in_repr'] & sides['out_repr'])
            if not ok and handed_on(p, r):
                ok = None
            rep_.ob('same-group', f'{f.name} in/out', ok, e.loc(), 'builds a kernel basis between representations of different groups')


def handed_on(p, r):
    for e in r.of('call'):
        fn = e['fn']
        if fn.op == 'func' or fn.op == 'class':
            a = call_args(e['term'])
            if arg('in_repr') in a and arg('out_repr') in a:
                return True
    return False


def concatenation(p, rep_):
    f, _ = func(p, None, 'tensor_directsum')
    r, outs = completions(p, f, None)
    base = arg(f.params[0])
    for e in outs:
        hit = {'gspace': False, 'coords': False}
        unknown = False
        for fa in e.facts:
            for conds, quants, body in peel(fa):
                if len(quants) != 1 or conds or not (tail(quants[0], base) or same_base(quants[0], base)):
                    if mentions(body, 'gspace') or mentions(body, 'coords'):
                        unknown = True
                    continue
                if body.op == 'cmp' and body.args[0] == '==' and all(x.op == 'attr' and x.args[1] == 'gspace' for x in body.args[1:]):
                    hit['gspace'] = True
                if mentions(body, 'has_same_coords') or mentions(body, 'coords'):
                    hit['coords'] = True
        rep_.ob('same-type', 'tensor_directsum', True if hit['gspace'] else None if unknown else False, e.loc(), 'concatenates fields of different base spaces')
        rep_.ob('same-coords', 'tensor_directsum', True if hit['coords'] else None if unknown else False, e.loc(), 'concatenates fields sampled at different coordinates')


def atoms(t):
    if t.op in ('bin', 'cmp'):
        return {a for x in t.args[1:] for a in atoms(x)}
    return set() if t.op == 'const' else {t}


def same_atoms(a, b):
    return atoms(a) == atoms(b)


def linear(t):
    if t.op == 'const' and isinstance(t.args[1], (int, float)):
        return {1: t.args[1]}
    if t.op == 'bin' and t.args[0] in '+-':
        r = dict(linear(t.args[1]))
        for k, v in linear(t.args[2]).items():
            r[k] = r.get(k, 0) + (v if t.args[0] == '+' else -v)
        return r
    return {t: 1}


def normal(c):
    r = linear(binop('-', c.args[1], c.args[2]) if not all(x.op == 'const' for x in c.args[1:]) else c.args[1])
    return frozenset((k, v) for k, v in r.items() if v)


def equivalent(a, b):
    x, y = normal(a), normal(b)
    return x == y or frozenset((k, -v) for k, v in x) == y


def differs(a, b):
    return all(k == 1 or k.op != 'bin' for k, _ in normal(a)) and not equivalent(a, b)


def field(p, rep_):
    """GeometricTensor(tensor, type, coords)"""
    c = p.cls('GeometricTensor')
    f = p.method(c, '__init__')
    r, outs = completions(p, f, c)
    t, ty, co = arg('tensor'), arg('type'), arg('coords')
    shape = attr(t, 'shape')
    cshape = attr(co, 'shape')
    ln = lambda x: T('call', ext('builtins.len'), (x,), ())
    dim = attr(ty, 'gspace', 'dimensionality')
    none, some = cmp('is', co, NONE), cmp('is not', co, NONE)
    wants = [('the number of channels', cmp('==', sub(shape, const(1)), attr(ty, 'size')), None, 'size'),
             ('the number of axes', cmp('==', ln(shape), binop('+', const(2), dim)), none, 'dimensionality'),
             ('the dimensionality of the coordinates', cmp('==', sub(cshape, const(1)), dim), some, 'dimensionality'),
             ('the number of points', cmp('==', sub(shape, const(0)), sub(cshape, const(0))), some, None)]
    for e in [x for x in outs if x.kind == 'return']:
        for what, want, cond, word in wants:
            ok, unknown = False, False
            for fa in e.facts:
                for conds, quants, body in peel(fa):
                    if body is want and not quants and all(cd is cond for cd in conds):
                        ok = True
                    elif body.op not in ('cmp', 'call') and shape in body.subterms():
                        unknown = True
                    elif body.op == 'cmp' and body.args[0] == '==' and any(x.op == 'bin' for x in body.args[1:]) and same_atoms(body, want) and body is not want:
                        unknown = unknown or not differs(body, want)
                        ok = ok or (equivalent(body, want) and not quants and all(cd is cond for cd in conds))
                    elif body.op == 'cmp' and any(x.op == 'call' and callee_name(x.args[0]) in ('size', 'dim', 'ndimension') for x in body.subterms()):
                        unknown = True
                    elif body.op == 'cmp' and any(x is attr(t, 'ndim') or x is attr(co, 'ndim') for x in body.subterms()):
                        unknown = True
            rep_.ob('fits', f'GeometricTensor {what}', True if ok else None if unknown else False, f.loc(), f'{what} of the data may differ from what the type prescribes')


COMPARES = ('torch.allclose', 'torch.equal', 'numpy.allclose', 'numpy.array_equal')


def same_coords(p, rep_):
    """has_same_coords answers True only for fields without coordinates, or with equal ones"""
    c = p.cls('GeometricTensor')
    f = p.method(c, 'has_same_coords')
    if f is None:
        return
    r = Interp(p, implications=True).run(f, c)
    a, b = attr(SELF, 'coords'), attr(arg(f.params[1] if f.params[0] == 'self' else f.params[0]), 'coords')
    isnone = lambda x: cmp('is', x, NONE)
    for e in r.of('return'):
        for conds, v in branches(e['value']):
            facts = list(e.facts) + conds
            if is_const(v, False):
                continue
            if is_const(v, True):
                ok = cmp('is', a, b) in facts or cmp('is', b, a) in facts or (isnone(a) in facts and isnone(b) in facts)
                if not ok and (isnone(a) in facts or isnone(b) in facts):
                    ok = any(x.op == 'cmp' and x.args[0] == '==' and isnone(a) in x.args and isnone(b) in x.args for x in facts)
                if not ok:
                    ok = any(compared(x, a, b) for x in facts)
                if not ok and any(a in x.subterms() and b in x.subterms() and x.op not in ('or', 'cmp', 'not') for x in facts):
                    ok = None
            elif compared(v, a, b):
                ok = True
            elif v.op == 'cmp' and a not in v.args and b not in v.args and (a in v.subterms() or b in v.subterms()):
                ok = False          # some attribute of the coordinates only
            else:
                ok = None
            rep_.ob('same-coords', 'GeometricTensor.has_same_coords', ok, e.loc(), 'answers True for fields whose coordinates have not been compared')


def branches(v):
    if v.op == 'ite':
        return [(list(literals(v.args[0])) + c, x) for c, x in branches(v.args[1])] + [(list(literals(neg(v.args[0]))) + c, x) for c, x in branches(v.args[2])]
    return [([], v)]


def compared(v, a, b):
    if v.op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0] in COMPARES:
        return {a, b} <= set(v.args[1][:2])
    if v.op == 'call' and v.args[0].op == 'attr' and v.args[0].args[1] in ('allclose', 'equal'):
        return {a, b} <= {v.args[0].args[0], *v.args[1][:1]}
    if v.op == 'call' and v.args[0].op == 'attr' and v.args[0].args[1] == 'all' and v.args[0].args[0].op == 'cmp':
        return v.args[0].args[0] in (cmp('==', a, b), cmp('==', b, a))
    return False
