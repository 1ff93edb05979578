"""G-spaces: constructors, restrictions, factories, kernel dispatch and actions, compared with what the space is.

Subgroup ids are evaluated by case: each id is a tuple of known entries and symbols (an axis that is some float, an
order that is some integer above one, a conjugating element), and the conditions of the dispatch are folded on it."""
from ..common import *
from ..interp import Interp
from .c17 import nm, recv, is_int

ASSUMPTIONS = ['Group.subgroup returns (subgroup, inclusion, restriction) (C10)', 'O(2) and O(3) identify their subgroups as documented']

AMBIENT = {'GSpace2D': ('o2_group', 2), 'GSpace3D': ('o3_group', 3)}
U = object()


def run(p, rep, tier):
    rep.rule('group', 'the fiber group, its inclusion and its restriction are those of the subgroup of O(d) the space is built for', 10)
    rep.rule('action', 'the action on the base space is the standard representation of O(d) restricted to the fiber group, and it is what moves grids', 6)
    rep.rule('restrict', 'restricting a space combines its subgroup with the one asked for, in this order, and hands out the maps of the fiber group', 8)
    rep.rule('kernels', 'kernels are solved for the very group of the space: the whole group, or the subgroup of it with its id, axis and conjugation', 12)
    rep.rule('factory', 'each factory builds the space of the group it is named after, from the order, axis and conjugation it is given', 18)
    rep.rule('delegate', 'representations asked of a space are those of its fiber group', 7)
    rep.rule('solver', 'each kernel solver restricts the harmonics of O(d) to the group it is named after, up to the band where the representations couple', 60)
    cl = {c.name: c for c in p.classes.values() if c.module.relpath.startswith('escnn/gspaces/')}
    for n in ('GSpace', 'GSpace0D', 'GSpace2D', 'GSpace3D'):
        if n not in cl:
            raise AnalysisError(f'{n} not found')
    jobs = []
    for n in AMBIENT:
        jobs += [(ctor_, cl[n]), (restrict, cl[n]), (dispatch, cl[n]), (orders, cl[n])]
    jobs += [(zero, cl['GSpace0D']), (delegate, cl['GSpace']), (moves, cl['GSpace'])]
    for fn, c in jobs:
        try:
            fn(p, rep, c)
        except Exception as e:
            rep.undecide('group', f'{c.name}.{fn.__name__}', c.module.relpath, repr(e)[:90])
    try:
        solvers(p, rep)
    except Exception as e:
        rep.undecide('solver', 'kernels', 'escnn/kernels', repr(e)[:90])
    for f in sorted(p.all_functions(), key=lambda f: f.qualname):
        if f.cls is None and f.module.relpath in (cl['GSpace2D'].module.relpath, cl['GSpace3D'].module.relpath):
            try:
                factory(p, rep, f)
            except Exception as e:
                rep.undecide('factory', f.name, f.module.relpath, repr(e)[:90])


def where(f):
    return f'{f.module.relpath}:{f.node.lineno}'


def helper(g, r):
    """private helpers of the module are looked through"""
    if g.cls is None and g.name in TABLE:
        return True         # a factory defined by another one
    return g.module.relpath.startswith('escnn/gspaces/') and g.name.startswith('_') and not g.name.startswith('__') and g.name not in ('_basis_generator', '_interpolate_transform_basespace')


def exec_(p, c, name):
    f = p.method(c, name)
    if f is None:
        return None, None
    return f, Interp(p, inline=helper, max_stmts=400).run(f, c)


def val(call, name, pos):
    d = dict(call.args[2])
    if name in d:
        return d[name]
    return call.args[1][pos] if len(call.args[1]) > pos else None


def ambient(t):
    """name of the group factory a term is a call of"""
    if t is not None and t.op == 'call' and t.args[0].op == 'func':
        return nm(t)
    return None


def part(t, pos):
    """t as entry of X.subgroup(id): (entry, X, id)"""
    if t.op == 'sub' and is_int(t.args[1]) and t.args[0].op == 'call' and nm(t.args[0]) == 'subgroup':
        c = t.args[0]
        return t.args[1].args[1], recv(c), val(c, 'id', 0)
    return None


def ctor_(p, rep, c):
    amb, dim = AMBIENT[c.name]
    f = p.method(c, '__init__')
    r = Interp(p, inline=helper, max_stmts=400).run(f, c)
    loc, w = where(f), f'{c.name}.__init__'
    heap = {k[1]: v for k, v in r.state.heap.items() if k[0] is SELF}
    raw = arg(f.params[1])
    S = heap.get('_sg_id')
    ok = None
    if S is not None and S.op == 'call' and nm(S) == '_process_subgroup_id':
        ok = ambient(recv(S)) == amb and val(S, 'id', 0) is raw if ambient(recv(S)) else None
    elif S is raw:
        ok = False
    rep.ob('group', w, ok, loc, f'the id of the space is {show(S)[:80] if S is not None else "not kept"}')
    ids = {raw, S}
    sup = [e for e in r.of('call') if e['f'] is not None and e['f'].name == '__init__' and 'fibergroup' in (e['bound'] or {})]
    got = {}
    if sup:
        b = sup[-1]['bound']
        got['fibergroup'] = (b['fibergroup'], 0)
        d = b['dimensionality']
        rep.ob('group', w, d.args[1] == dim if d.op == 'const' else None, loc, f'dimensionality {show(d)[:30]}')
    elif 'fibergroup' in heap:
        got['fibergroup'] = (heap['fibergroup'], 0)
    for k, pos in (('_inclusion', 1), ('_restriction', 2)):
        if k in heap:
            got[k] = (heap[k], pos)
    for k, (v, pos) in got.items():
        q = part(v, pos)
        if q is None or ambient(q[1]) is None:
            rep.undecide('group', w, loc, f'{k} = {show(v)[:60]}')
            continue
        rep.ob('group', w, q[0] == pos and ambient(q[1]) == amb and q[2] in ids, loc, f'{k} is entry {q[0]} of {ambient(q[1])}.subgroup({show(q[2])[:50]})')
    # action on the base space
    f2, r2 = exec_(p, c, 'basespace_action')
    v = r2.ret
    if v.op == 'attr' and v.args[0] is SELF and v.args[1] in heap:
        v = heap[v.args[1]]
    if v.op == 'attr' and v.args[0] is SELF or v.op != 'call' or nm(v) not in ('restrict', 'restrict_representation'):
        rep.undecide('action', f'{c.name}.basespace_action', where(f2), show(v)[:60])
        return
    base, i = (recv(v), val(v, 'id', 0)) if nm(v) == 'restrict' else (val(v, 'repr', 1), val(v, 'id', 0))
    if base is None or base.op != 'call' or recv(base) is None or ambient(recv(base)) is None:
        rep.undecide('action', f'{c.name}.basespace_action', where(f2), show(v)[:60])
        return
    a = [x.args[1] if x.op == 'const' else U for x in base.args[1]]
    good = {'GSpace2D': [('irrep', [1, 1]), ('standard_representation', [])], 'GSpace3D': [('standard_representation', []), ('irrep', [1, 1])]}[c.name]
    ok = (nm(base), a) in good if U not in a and not base.args[2] else None
    if nm(base) not in ('irrep', 'standard_representation'):
        ok = None if nm(base) in ('bl_irreps_representation', 'representation') else False if nm(base) in ('regular_representation', 'trivial_representation') else None
    rep.ob('action', f'{c.name}.basespace_action', ok, loc, f'the action is {nm(base)}({a})')
    rep.ob('action', f'{c.name}.basespace_action', ambient(recv(base)) == amb and i in ids if i is not None else None, loc, f'it is restricted to {show(i)[:60]}')


def restrict(p, rep, c):
    amb, dim = AMBIENT[c.name]
    f, r = exec_(p, c, 'restrict')
    loc, w = where(f), f'{c.name}.restrict'
    own = attr(SELF, '_sg_id')
    i = arg(f.params[1])
    for _, v in leaves(r.ret):
        if v.op != 'tuple' or len(v.args) != 3 or not is_ctor(v.args[0], c.name):
            rep.undecide('restrict', w, loc, show(v)[:60])
            continue
        s = val(v.args[0], 'sg_id', 0)
        if s.op == 'call' and nm(s) == '_combine_subgroups' and ambient(recv(s)):
            a, b = val(s, 'sg_id1', 0), val(s, 'sg_id2', 1)
            ids = {i}
            if b.op == 'call' and nm(b) == '_process_subgroup_id':
                ids.add(b) if val(b, 'id', 0) is i else None
            rep.ob('restrict', w, ambient(recv(s)) == amb, loc, f'combined in {ambient(recv(s))}')
            rep.ob('restrict', w, a is own and b in ids, loc, f'combines {show(a)[:40]} with {show(b)[:40]}')
        elif s is i or s is own:
            rep.ob('restrict', w, False, loc, f'the restricted space is built for {show(s)[:40]}')
        else:
            rep.undecide('restrict', w, loc, show(s)[:60])
        maps_(rep, w, loc, v, i)


def maps_(rep, w, loc, v, i):
    for pos in (1, 2):
        q = part(v.args[pos], pos)
        if q is None:
            t = v.args[pos]
            own = t.op == 'attr' and t.args[0] is SELF and t.args[1] in ('_inclusion', '_restriction')
            rep.ob('restrict', w, False if own else None, loc, f'the maps handed out are {show(t)[:50]}, not those of the subgroup asked for')
            continue
        ok = q[0] == pos and q[2] is i and q[1] is attr(SELF, 'fibergroup')
        rep.ob('restrict', w, ok, loc, f'{"inclusion" if pos == 1 else "restriction"} is entry {q[0]} of {show(q[1])[:40]}.subgroup({show(q[2])[:30]})')


def zero(p, rep, c):
    f, r = exec_(p, c, 'restrict')
    loc, w = where(f), f'{c.name}.restrict'
    i = arg(f.params[1])
    for _, v in leaves(r.ret):
        if v.op != 'tuple' or len(v.args) != 3 or not is_ctor(v.args[0], c.name):
            rep.undecide('restrict', w, loc, show(v)[:60])
            continue
        q = part(val(v.args[0], 'G', 0), 0)
        rep.ob('restrict', w, None if q is None else q[0] == 0 and q[2] is i and q[1] is attr(SELF, 'fibergroup'), loc, show(v.args[0])[:80])
        maps_(rep, w, loc, v, i)
    f = p.method(c, '__init__')
    r = Interp(p, inline=helper, max_stmts=400).run(f, c)
    for e in r.of('call'):
        b = e['bound'] or {}
        if e['f'] is not None and e['f'].name == '__init__' and 'fibergroup' in b:
            rep.ob('group', f'{c.name}.__init__', b['fibergroup'] is arg(f.params[1]) if b['fibergroup'].op in ('arg', 'attr', 'const') else None, where(f), show(b['fibergroup'])[:50])
            d = b['dimensionality']
            rep.ob('group', f'{c.name}.__init__', d.args[1] == 0 if d.op == 'const' else None, where(f), f'dimensionality {show(d)[:30]}')
    f, r = exec_(p, c, '_interpolate_transform_basespace')
    if f is not None and f.cls is c:
        v = r.ret
        ok = True if v is arg(f.params[1]) else None
        if not ok and v.op == 'call' and any(x is arg(f.params[1]) for x in v.args[1]):
            ok = None
        rep.ob('action', f'{c.name}._interpolate_transform_basespace', ok, where(f), show(v)[:60])
    f, r = exec_(p, c, '_basis_generator')
    if f is not None:
        kernel_call(rep, f'{c.name}._basis_generator', where(f), r.ret, 'kernels_on_point', f, {})


# ------------------------------------------------------------------------------------------------- ids by case
class Sym:
    """an unknown entry of an id: a float, an integer other than -1 and 1, or a group element"""
    def __init__(self, name, kind):
        self.name, self.kind = name, kind

    def __repr__(self):
        return self.name


class Half:
    def __init__(self, of, k):
        self.of, self.k = of, k

    def __eq__(self, o):
        return isinstance(o, Half) and (o.of, o.k) == (self.of, self.k)

    __hash__ = None


def same(a, b):
    """equality of two entries: True, False or U"""
    if isinstance(a, Sym) or isinstance(b, Sym):
        if a is b:
            return True
        s, o = (a, b) if isinstance(a, Sym) else (b, a)
        if isinstance(o, (Sym, Half)):
            return U
        if o is None or isinstance(o, (str, tuple)):
            return False
        if s.kind == 'element':
            return False
        if s.kind == 'order' and type(o) is int:
            return False if o in (-1, 0, 1) else U
        if s.kind == 'axis' and isinstance(o, bool):
            return U            # an axis may be 0.0, which equals False
        return U
    if isinstance(a, Half) or isinstance(b, Half):
        return True if a == b else U
    if a is U or b is U:
        return U
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        out = [same(x, y) for x, y in zip(a, b)]
        return False if False in [o for o in out if o is not U] else (U if U in out else True)
    return a == b


def ev(t, env):
    """value of a term when the terms of env have the given values"""
    if t in env:
        return env[t]
    o = t.op
    if o == 'const':
        return t.args[1]
    if o == 'tuple':
        return tuple(ev(x, env) for x in t.args)
    if o == 'sub':
        b = ev(t.args[0], env)
        if b is U or not isinstance(b, tuple):
            return U
        if t.args[1].op == 'slice':
            q = [ev(x, env) for x in t.args[1].args]
            if U in q:
                return U
            return b[slice(*q)]
        i = ev(t.args[1], env)
        return b[i] if type(i) is int and -len(b) <= i < len(b) else U
    if o == 'cmp':
        a, b = ev(t.args[1], env), ev(t.args[2], env)
        k = t.args[0]
        if k in ('is', 'is not'):
            if a is U or b is U:
                return U
            if b is None or a is None:
                r = a is b
            elif isinstance(a, bool) or isinstance(b, bool):
                if isinstance(a, Sym) or isinstance(b, Sym):
                    r = False           # an axis or an order is not the object True or False
                else:
                    r = a is b
            else:
                return U
            return r if k == 'is' else not r
        if k in ('==', '!='):
            r = same(a, b)
            return U if r is U else (r if k == '==' else not r)
        if k in ('<', '>', '<=', '>=') and type(a) in (int, float) and type(b) in (int, float):
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[k]
        if k in ('<', '>', '<=', '>=') and isinstance(a, Sym) and a.kind == 'order' and type(b) is int:
            lo = 2          # an order is at least two
            if k in ('>', '>='):
                return True if (lo > b if k == '>' else lo >= b) else U
            return False if (lo >= b if k == '<' else lo > b) else U
        if k in ('in', 'not in') and isinstance(b, tuple):
            q = [same(a, x) for x in b]
            r = True if True in [x for x in q if x is not U] else (U if U in q else False)
            return U if r is U else (r if k == 'in' else not r)
        return U
    if o == 'not':
        v = ev(t.args[0], env)
        return U if v is U else not v if not isinstance(v, (Sym, Half)) else U
    if o in ('and', 'or'):
        vs = [cond(x, env) for x in t.args]
        vs = [v if v is U or isinstance(v, bool) else bool(v) for v in vs]
        stop = o == 'or'
        if any(v is stop for v in vs):
            return stop
        return (not stop) if all(v is (not stop) for v in vs) else U
    if o == 'ite':
        c = cond(t.args[0], env)
        if c is U:
            return U
        return ev(t.args[1] if c else t.args[2], env)
    if o == 'bin':
        k, a, b = t.args[0], ev(t.args[1], env), ev(t.args[2], env)
        if k == '/' and isinstance(a, Sym) and type(b) in (int, float):
            return Half(a.name, 1.0 / b)
        if k == '*' and (isinstance(a, Sym) or isinstance(b, Sym)):
            s, n = (a, b) if isinstance(a, Sym) else (b, a)
            return Half(s.name, float(n)) if type(n) in (int, float) else U
        if k == '+' and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if type(a) in (int, float) and type(b) in (int, float):
            try:
                return {'+': a + b, '-': a - b, '*': a * b, '/': a / b if b else U}.get(k, U)
            except Exception:
                return U
        return U
    if o == 'add':
        vs = [ev(x, env) for x in t.args]
        if all(isinstance(v, tuple) for v in vs):
            return sum(vs, ())
        return U
    if o == 'call':
        n = nm(t)
        if n == 'isinstance' and len(t.args[1]) == 2:
            a = ev(t.args[1][0], env)
            cls_ = t.args[1][1]
            name = cls_.args[0].rpartition('.')[2] if cls_.op in ('class', 'ext') else None
            if a is U or name is None:
                return U
            kind = a.kind if isinstance(a, Sym) else type(a).__name__
            if name == 'GroupElement':
                return kind == 'element'
            if name in ('bool', 'str', 'int', 'float', 'tuple'):
                return kind == name or (name == 'int' and kind in ('order', 'bool')) or (name == 'float' and kind == 'axis')
            return U
        if n == 'len' and len(t.args[1]) == 1:
            a = ev(t.args[1][0], env)
            return len(a) if isinstance(a, tuple) else U
        if n in ('callable', 'bool') and len(t.args[1]) == 1:
            a = ev(t.args[1][0], env)
            return bool(a) if n == 'bool' and type(a) in (bool, int, type(None)) else U
        # the conjugating element read as an element of SO(3)
        if n == 'element' and ambient(recv(t)) == 'so3_group':
            v = val(t, 'element', 0)
            if v is not None and v.op == 'sub' and is_int(v.args[1]) and v.args[0].op == 'attr' and v.args[0].args[1] in ('value', '_element'):
                e = ev(v.args[0].args[0], env)
                if isinstance(e, Sym) and e.kind == 'element':
                    q = val(t, 'param', 1)
                    same_el = q is not None and q.op == 'attr' and q.args[1] in ('param', '_param') and ev(q.args[0], env) is e
                    return Sym(f'{e.name}[{v.args[1].args[1]}]' + ('' if same_el else '?'), 'element')
        return U
    if o == 'attr' and t.args[1] in ('value', 'param'):
        return U
    return U


def cond(t, env):
    v = ev(t, env)
    if isinstance(v, Sym):
        return U if v.kind == 'axis' else True
    if isinstance(v, Half):
        return U
    return v


AX, N_, ADJ = Sym('axis', 'axis'), Sym('n', 'order'), Sym('adj', 'element')
CASES = {
    'GSpace2D': [((None, -1), 'kernels_SO2_act_R2', {}),
                 ((None, N_), 'kernels_SO2_subgroup_act_R2', {'sg_id': N_}),
                 ((None, 1), 'kernels_SO2_subgroup_act_R2', {'sg_id': 1}),
                 ((AX, -1), 'kernels_O2_act_R2', {'axis': Half('axis', 0.5)}),
                 ((AX, N_), 'kernels_O2_subgroup_act_R2', {'sg_id': (AX, N_), 'axis': 0.0}),
                 ((AX, 1), 'kernels_O2_subgroup_act_R2', {'sg_id': (AX, 1), 'axis': 0.0}),
                 ((0.0, -1), 'kernels_O2_act_R2', {'axis': 0.0}),
                 ((0.0, N_), 'kernels_O2_subgroup_act_R2', {'sg_id': (0.0, N_), 'axis': 0.0}),
                 ((0.0, 1), 'kernels_O2_subgroup_act_R2', {'sg_id': (0.0, 1), 'axis': 0.0})],
    'GSpace3D': [((True, 'so3'), 'kernels_O3_act_R3', {}),
                 ((False, 'so3'), 'kernels_SO3_act_R3', {}),
                 ((False, 'ico'), 'kernels_SO3_subgroup_act_R3', {'sg_id': ('ico',)}),
                 ((False, 'octa'), 'kernels_SO3_subgroup_act_R3', {'sg_id': ('octa',)}),
                 ((True, 'ico'), 'kernels_O3_subgroup_act_R3', {'sg_id': (True, 'ico')}),
                 ((True, 'octa'), 'kernels_O3_subgroup_act_R3', {'sg_id': (True, 'octa')}),
                 ((False, 'ico', ADJ), 'kernels_SO3_subgroup_act_R3', {'sg_id': ('ico', 'adj[1]')}),
                 ((True, 'ico', ADJ), 'kernels_O3_subgroup_act_R3', {'sg_id': (True, 'ico', ADJ)}),
                 ((False, False, N_), 'kernels_SO3_subgroup_act_R3', {'sg_id': (False, N_)}),
                 ((False, False, -1), 'kernels_SO3_subgroup_act_R3', {'sg_id': (False, -1)}),
                 ((False, False, 1), 'kernels_SO3_subgroup_act_R3', {'sg_id': (False, 1)}),
                 ((False, False, N_, ADJ), 'kernels_SO3_subgroup_act_R3', {'sg_id': (False, N_, 'adj[1]')}),
                 ((False, AX, N_), 'kernels_SO3_subgroup_act_R3', {'sg_id': (AX, N_)}),
                 ((False, AX, -1, ADJ), 'kernels_SO3_subgroup_act_R3', {'sg_id': (AX, -1, 'adj[1]')}),
                 ((False, 0.0, N_), 'kernels_SO3_subgroup_act_R3', {'sg_id': (0.0, N_)}),
                 ((True, 0.0, N_), 'kernels_O3_subgroup_act_R3', {'sg_id': (True, 0.0, N_)}),
                 (('cone', 0.0, N_), 'kernels_O3_subgroup_act_R3', {'sg_id': ('cone', 0.0, N_)}),
                 ((True, AX, N_), 'kernels_O3_subgroup_act_R3', {'sg_id': (True, AX, N_)}),
                 ((True, False, N_, ADJ), 'kernels_O3_subgroup_act_R3', {'sg_id': (True, False, N_, ADJ)}),
                 (('cone', AX, N_), 'kernels_O3_subgroup_act_R3', {'sg_id': ('cone', AX, N_)}),
                 (('cone', AX, 1, ADJ), 'kernels_O3_subgroup_act_R3', {'sg_id': ('cone', AX, 1, ADJ)}),
                 (('fulltetra',), 'kernels_O3_subgroup_act_R3', {'sg_id': ('fulltetra',)})],
}


def dispatch(p, rep, c):
    f, r = exec_(p, c, '_basis_generator')
    loc, w = where(f), f'{c.name}._basis_generator'
    own = attr(SELF, '_sg_id')
    for sg, name, want in CASES[c.name]:
        env = {own: sg}
        v = r.ret
        while v.op == 'ite':
            q = cond(v.args[0], env)
            if q is U:
                break
            v = v.args[1] if q else v.args[2]
        if v.op == 'ite':
            rep.undecide('kernels', f'{w} {sg}', loc, f'undecided condition {show(v.args[0])[:60]}')
            continue
        kernel_call(rep, f'{w} {sg}', loc, v, name, f, want, env)


def kernel_call(rep, w, loc, v, name, f, want, env=None):
    if v.op != 'call' or v.args[0].op != 'func' or not nm(v).startswith('kernels_'):
        rep.undecide('kernels', w, loc, show(v)[:60])
        return
    # the kernel space of the whole group may also be reached through its subgroup solver and id
    rep.ob('kernels', w, nm(v) == name, loc, f'solved by {nm(v)} instead of {name}')
    if nm(v) != name:
        return
    d = dict(v.args[2])
    for k, a in (('in_repr', 'in_repr'), ('out_repr', 'out_repr'), ('radii', 'rings'), ('sigma', 'sigma')):
        if k in d:
            t = d[k]
            rep.ob('kernels', w, t is arg(a) if t.op == 'arg' else None, loc, f'{k} = {show(t)[:40]}')
    for k, x in want.items():
        if k not in d:
            continue
        g = ev(d[k], env)
        if k == 'sg_id' and isinstance(x, tuple) and isinstance(g, tuple) and len(x) == len(g):
            out = [(a.name == b if isinstance(a, Sym) else False if a is not U else U) if isinstance(b, str) and b.startswith('adj') else same(a, b) for a, b in zip(g, x)]
            ok = False if any(o is False for o in out) else (None if any(o is U for o in out) else True)
        elif isinstance(x, Half):
            ok = True if g == x else (False if isinstance(g, (Half, Sym)) or type(g) in (int, float) else None)
        else:
            q = same(g, x)
            ok = None if q is U else q
            if ok is None and isinstance(g, (Sym, Half)) and isinstance(x, (Sym, Half)):
                ok = False
            if isinstance(g, tuple) != isinstance(x, tuple) and g is not U:
                ok = False
        rep.ob('kernels', w, ok, loc, f'{k} = {show(d[k])[:60]}, i.e. {g if g is not U else "?"}, must be {x}')


def orders(p, rep, c):
    if c.name != 'GSpace2D':
        return
    own = attr(SELF, '_sg_id')
    for name, want in (('rotations_order', [((None, N_), N_), ((AX, -1), -1)]), ('flips_order', [((None, N_), 0), ((AX, N_), 1), ((AX, 1), 1), ((0.0, N_), 1), ((0.0, 1), 1)])):
        f, r = exec_(p, c, name)
        if f is None:
            continue
        for sg, x in want:
            g = ev(r.ret, {own: sg})
            if isinstance(g, bool):
                g = int(g)
            q = same(g, x)
            rep.ob('group', f'{c.name}.{name}', None if q is U else q, where(f), f'{name} of {sg} is {g if g is not U else "?"}')


# ------------------------------------------------------------------------------------------------- factories
def dbl(x):
    return Half(x, 2.0)


TABLE = {
    'rot2dOnR2': lambda a: (None, a['N']), 'flipRot2dOnR2': lambda a: (dbl('axis'), a['N']), 'flip2dOnR2': lambda a: (dbl('axis'), 1), 'trivialOnR2': lambda a: (None, 1),
    'flipRot3dOnR3': lambda a: 'o3', 'rot3dOnR3': lambda a: 'so3', 'fullIcoOnR3': lambda a: (True, 'ico'), 'icoOnR3': lambda a: (False, 'ico'),
    'fullOctaOnR3': lambda a: (True, 'octa'), 'octaOnR3': lambda a: (False, 'octa'),
    'dihedralOnR3': lambda a: (False, dbl('axis'), a['n']), 'rot2dOnR3': lambda a: (False, False, a['n']), 'conicalOnR3': lambda a: ('cone', dbl('axis'), a['n']),
    'mirOnR3': lambda a: ('cone', dbl('axis'), 1), 'cylindricalOnR3': lambda a: (True, False, a['n']), 'invOnR3': lambda a: (True, False, 1), 'trivialOnR3': lambda a: (False, False, 1),
}
ALT = {'o3': [(True, 'so3')], 'so3': [(False, 'so3')], (True, 'ico'): ['ih'], (True, 'octa'): ['oh']}
KINDS = {'N': 'order', 'n': 'order', 'axis': 'axis', 'adjoint': 'element'}


def factory(p, rep, f):
    if f.name not in TABLE:
        return
    it = Interp(p, inline=helper, max_stmts=400)
    r = it.run(f, None)
    loc = where(f)
    syms = {k: Sym(k, KINDS[k]) for k in f.params if k in KINDS}
    for adj in ([None, 'adj'] if 'adjoint' in syms else [None]):
        for full in ([False, True] if ('N' in syms or 'n' in syms) else [False]):
            env = {arg(k): s for k, s in syms.items()}
            o = next((k for k in ('N', 'n') if k in syms), None)
            if full:
                env[arg(o)] = -1
            if 'adjoint' in syms and adj is None:
                env[arg('adjoint')] = None
            v = r.ret
            while v.op == 'ite':
                q = cond(v.args[0], env)
                if q is U:
                    break
                v = v.args[1] if q else v.args[2]
            w = f'{f.name}' + (' (continuous)' if full else '') + (' conjugated' if adj else '')
            cls_ = 'GSpace2D' if f.name.endswith('R2') else 'GSpace3D'
            if v.op != 'call' or v.args[0].op != 'class' or not nm(v).startswith('GSpace'):
                rep.undecide('factory', w, loc, show(v)[:60])
                continue
            rep.ob('factory', w, nm(v) == cls_, loc, f'builds a {nm(v)}')
            t = val(v, 'sg_id', 0)
            g = ev(t, env)
            x = TABLE[f.name]({k: (env[arg(k)]) for k in syms})
            if adj:
                x = x + (syms['adjoint'],)
            if isinstance(g, str) or isinstance(x, str):
                ok = g == x or (isinstance(g, tuple) and U not in g and g in ALT.get(x, [])) if g is not U else None
            elif isinstance(g, tuple) and any(isinstance(y, Half) for y in x) and len(g) == len(x):
                out = []
                for a, b in zip(g, x):
                    if isinstance(b, Half):
                        out.append(True if isinstance(a, Half) and a == b else (False if isinstance(a, (Half, Sym)) or a is None or type(a) in (int, float, bool) else U))
                    else:
                        out.append(same(a, b))
                ok = False if any(o_ is False for o_ in out) else (None if any(o_ is U for o_ in out) else True)
            elif isinstance(g, tuple) and len(g) == len(x):
                out = [a is b if isinstance(a, Sym) and isinstance(b, Sym) else (type(a) is type(b) and a == b if isinstance(b, bool) and a is not U and not isinstance(a, Sym) else same(a, b)) for a, b in zip(g, x)]
                ok = False if any(o_ is False for o_ in out) else (None if any(o_ is U for o_ in out) else True)
            elif isinstance(g, tuple):
                ok = False
            else:
                ok = None
            for k in syms:
                needs = any(isinstance(y, Half) and y.of == k or isinstance(y, Sym) and y.name == k for y in (x if isinstance(x, tuple) else ()))
                if ok is None and needs and not t.contains(arg(k)):
                    ok = False          # the argument has no say in the id
            rep.ob('factory', w, ok, loc, f'the space is built for {show(t)[:70]}, i.e. {g if g is not U else "?"}')


# ------------------------------------------------------------------------------------------------- GSpace
DELEG = {'irreps': [('irreps', ())], 'representations': [('representations', None)], 'trivial_repr': [('trivial_representation', None)], 'irrep': [('irrep', ('*id',))],
         'regular_repr': [('regular_representation', None)], 'quotient_repr': [('quotient_representation', ('subgroup_id',))], 'induced_repr': [('induced_representation', ('subgroup_id', 'repr'))]}


def delegate(p, rep, c):
    for name, alts in DELEG.items():
        f, r = exec_(p, c, name)
        if f is None:
            rep.undecide('delegate', f'{c.name}.{name}', c.module.relpath, 'not found')
            continue
        v = r.ret
        target, args = alts[0]
        if args is None:
            ok = v is attr(attr(SELF, 'fibergroup'), target) if v.op == 'attr' else (None if v.op != 'call' else None)
            rep.ob('delegate', f'{c.name}.{name}', ok, where(f), show(v)[:60])
            continue
        if v.op != 'call' or recv(v) is None or nm(v) is None:
            rep.undecide('delegate', f'{c.name}.{name}', where(f), show(v)[:60])
            continue
        ok = nm(v) == target and recv(v) is attr(SELF, 'fibergroup')
        vals = list(v.args[1]) + [x for _, x in v.args[2] if x.op in ('arg', 'star')]
        names = [x.args[0] for x in vals if x.op == 'arg']
        plain = [a for a in args if not a.startswith('*')]
        if ok and plain:
            d = dict(v.args[2])
            if d:
                order = {'quotient_representation': ['subgroup_id'], 'induced_representation': ['subgroup_id', 'repr']}[target]
                gotv = [d.get(k) for k in order]
                if all(g is not None and g.op == 'arg' for g in gotv):
                    ok = [g.args[0] for g in gotv] == plain
                else:
                    ok = None
            else:
                ok = names == plain if len(names) == len(vals) else None
        rep.ob('delegate', f'{c.name}.{name}', ok, where(f), show(v)[:80])
    f, r = exec_(p, c, 'type')
    if f is not None:
        v = r.ret
        if is_ctor(v, 'FieldType'):
            g, q = val(v, 'gspace', 0), val(v, 'representations', 1)
            rep.ob('delegate', f'{c.name}.type', g is SELF if g.op in ('self', 'arg', 'attr') else None, where(f), show(v)[:70])


def einsum_parts(t):
    if t.op == 'call' and nm(t) == 'einsum' and t.args[1] and t.args[1][0].op == 'const' and len(t.args[1]) == 3:
        s = t.args[1][0].args[1].replace(' ', '')
        if '->' not in s or s.count(',') != 1:
            return None
        ins, out = s.split('->')
        a, b = ins.split(',')
        return a, b, out, t.args[1][1], t.args[1][2]
    return None


def moves(p, rep, c):
    f, r = exec_(p, c, '_interpolate_transform_basespace')
    w = f'{c.name}._interpolate_transform_basespace'
    v = r.ret
    if v.op == 'call' and nm(v) == 'linear_transform_array_nd':
        x, t = val(v, 'x', 0), val(v, 'trafo', 1)
        ok = None
        if t is not None and t.op == 'call':
            fn, a = t.args[0], t.args[1]
            if fn.op == 'attr' and fn.args[0] is SELF and fn.args[1] == 'basespace_action' and len(a) == 1:
                ok = a[0] is arg(f.params[2]) if a[0].op == 'arg' else (False if 'inv' in show(a[0]) or (a[0].op == 'un') else None)
            elif fn is not None and show(fn).startswith('self.basespace_action'):
                ok = None
        elif t is not None and t.op == 'attr' and t.args[1] == 'T':
            ok = False
        rep.ob('action', w, ok, where(f), f'the grid is moved by {show(t)[:60]}')
        rep.ob('action', w, x is arg(f.params[1]) if x is not None and x.op == 'arg' else None, where(f), show(x)[:40])
    else:
        rep.undecide('action', w, where(f), show(v)[:60])
    f, r = exec_(p, c, 'featurefield_action')
    if f is None:
        return
    w = f'{c.name}.featurefield_action'
    v = r.ret
    if v.op == 'call' and nm(v) == '_interpolate_transform_basespace':
        el = val(v, 'element', 1)
        x = val(v, 'input', 0)
        rep.ob('action', w, el is arg('element') if el.op == 'arg' else None, where(f), f'grid moved by {show(el)[:40]}')
        e = einsum_parts(x)
        if e:
            fiber(rep, 'action', w, where(f), e, 'input', lambda t: t.op == 'call' and t.args[0] is arg('repr') and len(t.args[1]) == 1 and t.args[1][0] is arg('element'))
        else:
            rep.undecide('action', w, where(f), show(x)[:60])


def fiber(rep, rule, w, loc, e, inp, is_mat):
    """einsum of a matrix with the channel axis (the second) of the data"""
    a, b, out, x, y = e
    if is_mat(y) and not is_mat(x):
        a, b, x, y = b, a, y, x
    if not is_mat(x) or y is not arg(inp):
        rep.undecide(rule, w, loc, f'{show(x)[:40]}, {show(y)[:40]}')
        return
    ok = len(a) == 2 and len(b) > 1 and b[1] == a[1] and len(out) > 1 and out == b[0] + a[0] + b[2:] and a[0] != a[1]
    rep.ob(rule, w, ok, loc, f'the matrix is applied as {a},{b}->{out}')


# ------------------------------------------------------------------------------------------------- solvers
# name: (angular basis, symmetry solver, subgroup, entry of an irrep id that is its frequency)
SOLVERS = {
    'kernels_SO2_act_R2': ('CircularShellsBasis', (None, -1), 0), 'kernels_O2_act_R2': ('CircularShellsBasis', None, 1),
    'kernels_SO3_act_R3': ('SphericalShellsBasis', 'so3', 0), 'kernels_O3_act_R3': ('SphericalShellsBasis', None, 1),
    'kernels_O2_subgroup_act_R2': ('CircularShellsBasis', 'own', None), 'kernels_O3_subgroup_act_R3': ('SphericalShellsBasis', 'own', None),
    'kernels_SO2_subgroup_act_R2': ('CircularShellsBasis', ('o2_group', (None, -1)), None), 'kernels_SO3_subgroup_act_R3': ('SphericalShellsBasis', ('o3_group', 'so3'), None),
}
SO3S, O3S, SO2S, O2S = 'kernels_SO3_subgroup_act_R3', 'kernels_O3_subgroup_act_R3', 'kernels_SO2_subgroup_act_R2', 'kernels_O2_subgroup_act_R2'
THIN = {
    'kernels_Ico_act_R3': (SO3S, 'ico'), 'kernels_Octa_act_R3': (SO3S, 'octa'), 'kernels_Tetra_act_R3': (SO3S, 'tetra'), 'kernels_SO2_act_R3': (SO3S, (False, -1)),
    'kernels_CN_act_R3': (SO3S, (False, '#')), 'kernels_O2_conical_act_R3': (O3S, ('cone', -1)), 'kernels_DN_conical_act_R3': (O3S, ('cone', '#r')),
    'kernels_O2_dihedral_act_R3': (SO3S, (True, -1)), 'kernels_DN_dihedral_act_R3': (SO3S, (True, '#r')), 'kernels_full_cylinder_act_R3': (O3S, (True, True, -1)),
    'kernels_full_cylinder_discrete_act_R3': (O3S, (True, True, '#4')), 'kernels_cylinder_act_R3': (O3S, (True, False, -1)), 'kernels_cylinder_discrete_act_R3': (O3S, (True, False, '#2')),
    'kernels_Inv_act_R3': (O3S, (True, False, 1)), 'kernels_CN_act_R2': (SO2S, '#'), 'kernels_DN_act_R2': (O2S, (0.0, '#r')), 'kernels_Flip_act_R2': (O2S, (0.0, 1)), 'kernels_Trivial_act_R2': (SO2S, 1),
}


def order_term(t):
    """the code of an order read from the group of the representations"""
    if t.op == 'call' and nm(t) == 'order' and not t.args[1] and not t.args[2]:
        return '#'
    if t.op == 'attr' and t.args[1] == 'rotation_order':
        return '#r'
    if t.op == 'bin' and t.args[0] == '//' and t.args[2].op == 'const' and order_term(t.args[1]) == '#':
        k = t.args[2].args[1]
        return f'#{k}'
    return None


def match_id(t, want):
    """True, False or None"""
    if isinstance(want, tuple):
        if t.op != 'tuple':
            return False if t.op == 'const' else None
        if len(t.args) != len(want):
            return False
        q = [match_id(a, b) for a, b in zip(t.args, want)]
        return False if False in q else (None if None in q else True)
    if isinstance(want, str) and want.startswith('#'):
        o = order_term(t)
        if o is None:
            return False if t.op == 'const' else None
        if o == '#2' and want == '#r':
            return True             # half the order of a dihedral group
        return o == want
    if t.op == 'const':
        a = t.args[1]
        return a == want and isinstance(a, bool) == isinstance(want, bool)
    return False if order_term(t) is not None or t.op == 'tuple' else None


def solvers(p, rep):
    for f in sorted(p.all_functions(), key=lambda f: f.qualname):
        if f.cls is not None or not f.module.relpath.startswith('escnn/kernels/') or f.name not in SOLVERS and f.name not in THIN:
            continue
        r = Interp(p, inline=lambda g, rr: g.module is f.module and g.name.startswith('_') and 'aliased' not in g.name, max_stmts=400).run(f, None)
        loc = where(f)
        for _, v in leaves(r.ret):
            if f.name in THIN:
                name, want = THIN[f.name]
                if v.op != 'call' or v.args[0].op != 'func' or nm(v) not in SOLVERS:
                    rep.undecide('solver', f.name, loc, show(v)[:60])
                    continue
                rep.ob('solver', f.name, nm(v) == name, loc, f'solved by {nm(v)}')
                t = dict(v.args[2]).get('sg_id')
                if t is not None and nm(v) == name:
                    rep.ob('solver', f.name, match_id(t, want), loc, f'solved for the subgroup {show(t)[:60]}')
                continue
            shell, sg, freq = SOLVERS[f.name]
            b = v
            if is_ctor(b, 'AdjointBasis'):
                b = dict(b.args[2]).get('basis', b)
            if not is_ctor(b, 'SteerableKernelBasis'):
                rep.undecide('solver', f.name, loc, show(v)[:60])
                continue
            d = dict(b.args[2])
            for k in ('in_repr', 'out_repr'):
                rep.ob('solver', f.name, d[k] is arg(k) if d[k].op == 'arg' else None, loc, f'{k} = {show(d[k])[:40]}')
            x = d['basis']
            if x.op != 'call' or x.args[0].op != 'class':
                rep.undecide('solver', f.name, loc, show(x)[:60])
                continue
            rep.ob('solver', f.name, nm(x) == shell, loc, f'angular part from {nm(x)}')
            irr = d['irreps_basis']
            irn = irr.args[0].rpartition('.')[2] if irr.op == 'class' else None
            kw = d.get('kwargs')
            ids = {k.args[1]: val_ for k, val_ in (kw.args if kw is not None and kw.op == 'dict' else ()) if k.op == 'const'} if kw is not None and kw.op == 'dict' else None
            if irn not in ('WignerEckartBasis', 'RestrictedWignerEckartBasis') or ids is None:
                rep.undecide('solver', f.name, loc, show(irr)[:60])
                continue
            t = ids.get('sg_id')
            if sg is None:
                rep.ob('solver', f.name, irn == 'WignerEckartBasis', loc, f'{irn} for the whole group')
            elif irn == 'WignerEckartBasis':
                rep.ob('solver', f.name, False, loc, 'the harmonics are taken as those of the group of the representations, which is a subgroup')
            elif t is None:
                rep.undecide('solver', f.name, loc, 'no subgroup id')
            elif sg == 'own':
                ok = t is arg('sg_id') or (t.op == 'call' and nm(t) == '_process_subgroup_id' and val(t, 'id', 0) is arg('sg_id'))
                rep.ob('solver', f.name, ok or (False if t.op in ('const', 'tuple', 'arg') else None), loc, f'restricted to {show(t)[:60]}')
            elif isinstance(sg, tuple) and sg[0] in ('o2_group', 'o3_group'):
                if t.op == 'call' and nm(t) == '_combine_subgroups' and ambient(recv(t)):
                    a, c_ = val(t, 'sg_id1', 0), val(t, 'sg_id2', 1)
                    rep.ob('solver', f.name, ambient(recv(t)) == sg[0] and match_id(a, sg[1]) is True and c_ is arg('sg_id') if match_id(a, sg[1]) is not None or c_.op == 'const' else None, loc, f'restricted to {show(t)[:90]}')
                else:
                    rep.ob('solver', f.name, False if t is arg('sg_id') else None, loc, f'restricted to {show(t)[:60]}, an id of the smaller group')
            else:
                rep.ob('solver', f.name, match_id(t, sg), loc, f'restricted to {show(t)[:60]}')
            xd = dict(x.args[2])
            if 'axis' in xd and 'axis' in f.params:
                rep.ob('solver', f.name, xd['axis'] is arg('axis') if xd['axis'].op in ('arg', 'const', 'attr') or not xd['axis'].contains(arg('axis')) else None, loc, f'axis = {show(xd["axis"])[:40]}')
            if freq is not None and 'L' in xd:
                band(rep, f, loc, xd['L'], freq)


def band(rep, f, loc, L, freq):
    """the default band limit is the largest frequency that occurs in a product of the two representations"""
    cases = [(c, x) for c, x in leaves(L)]
    for c, x in cases:
        if x is arg('maximum_frequency'):
            continue
        ms = [s for s in x.subterms() if s.op == 'call' and nm(s) == 'max' and len(s.args[1]) == 1 and s.args[1][0].op == 'comp']
        src = {}
        for s in ms:
            body, gens = s.args[1][0].args[1], s.args[1][0].args[2]
            if len(gens) == 1 and not gens[0][1] and gens[0][0].op == 'attr' and gens[0][0].args[1] == 'irreps' and gens[0][0].args[0].op == 'arg' and body.op == 'sub' and is_int(body.args[1]):
                src[gens[0][0].args[0].args[0]] = body.args[1].args[1]
        plain = x.op == 'add' or x.op == 'bin' and x.args[0] == '+'
        if plain and set(src) == {'in_repr', 'out_repr'} and all(y.op == 'call' for y in x.args if isinstance(y, T)):
            idx = {freq, freq - 2} if freq == 1 else {0, -1}
            rep.ob('solver', f.name, all(i in idx for i in src.values()), loc, f'frequencies are read from entries {src} of the irreps')
        elif len(ms) == 1 and x is ms[0] or plain and len(src) == 1 and len(ms) == 2:
            rep.ob('solver', f.name, False, loc, f'default band limit {show(x)[:80]} leaves out one of the representations')
        elif x.op == 'bin' and x.args[0] == '-' and set(src) == {'in_repr', 'out_repr'} and all(y.op == 'call' for y in x.args[1:]):
            rep.ob('solver', f.name, False, loc, f'default band limit {show(x)[:80]}')
        elif x.op == 'call' and nm(x) in ('max', 'min') and set(src) == {'in_repr', 'out_repr'} and all(y in ms for y in x.args[1]):
            rep.ob('solver', f.name, False, loc, f'default band limit {show(x)[:80]}')
        else:
            rep.undecide('solver', f.name, loc, f'default band limit {show(x)[:60]}')
