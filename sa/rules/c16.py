"""Option plumbing: every option of a constructor, factory or kernel-space builder is followed, by abstract
interpretation of its body, to the calls that take an option of the same name and to the attribute that keeps it.
What arrives there has to be computed from the very option the caller gave."""
from ..common import *
from ..interp import Interp
from .c03 import cases

ASSUMPTIONS = ['parameters of the torch layers and operators mean what their documentation says',
               'two callables of the package that both have a parameter of one name mean the same option by it']

FN = 'torch.nn.functional.'
SCOPE = ('nn', 'gspaces', 'kernels')
TYPES = ('in_type', 'out_type', 'in_repr', 'out_repr', 'self', 'cls')
DIM = {'2D': 2, '3D': 3}
DATA = {'input', 'out', 'points', 'x', 'coords', 'tensor'}
# attributes of operators that are not options of the layer
NOT_OPTION = {'input', 'weight', 'bias', 'out', 'data', 'training', 'running_mean', 'running_var'}


def scope(mod):
    parts = mod.relpath.split('/')
    return len(parts) > 2 and parts[0] == 'escnn' and parts[1] in SCOPE


def helper(f):
    return f.name.startswith('_') and not f.name.startswith('__')


def run(p, rep, tier):
    rep.rule('forwarded', 'an option handed on to a constructor, factory or operator that takes an option of that name is the one the caller gave', 300)
    rep.rule('kept', 'the attribute named after an option is computed from that option', 200)
    rep.rule('per-axis', 'a number given for a per-axis option stands for every axis of the base space', 12)
    rep.rule('applied', 'an option kept by a layer reaches the operator it configures in forward', 12)
    rep.rule('crossed', 'an option kept by an object is handed on under its own name', 60)
    rep.rule('filter', 'a filter given by the caller is combined with the built-in ones by conjunction', 4)
    rep.rule('read', 'an option of a public constructor, factory or kernel-space builder has an effect', 300)
    for f in sorted(p.all_functions(), key=lambda f: f.qualname):
        if not scope(f.module) or f.parent is not None:
            continue
        try:
            forwarded(p, rep, f)
            read(p, rep, f)
            filters(p, rep, f)
        except AnalysisError:
            raise
        except Exception as e:      # a form the interpreter does not know
            rep.undecide('forwarded', f.qualname, f.module.relpath, f'not analysed: {e!r}'[:80])
    for c in sorted(p.classes.values(), key=lambda c: c.qualname):
        if not scope(c.module):
            continue
        try:
            kept(p, rep, c)
            applied(p, rep, c)
            crossed(p, rep, c)
        except AnalysisError:
            raise
        except Exception as e:
            rep.undecide('kept', c.qualname, c.module.relpath, f'not analysed: {e!r}'[:80])


def options(f):
    return [k for k in f.params if k not in ('self', 'cls')]


def inline(f, recv):
    return helper(f)


def mentions(t, k):
    return t.contains(arg(k))


def where(f):
    return f.qualname.replace('escnn.', '', 1)


# ------------------------------------------------------------------------------------------------- forwarded
def forwarded(p, rep, f):
    own = set(options(f))
    kwkeys = keyword_options(f)
    if not own and not kwkeys or f.is_abstract:
        return
    r = Interp(p, inline=inline, max_stmts=400).run(f, f.cls)
    for e in r.of('call'):
        g, b = e['f'], e['bound']
        if b is None:
            g, b = by_name(p, e)
        if b is None:
            continue
        if g is not None and b is not e['bound']:
            names, gname = list(b), where(g)
        elif g is not None:
            if g.module.relpath.startswith('escnn/group/') or not (g.name == '__init__' or g.cls is None) or helper(g):
                continue
            names = [k for k in options(g)]
            gname = where(g)
        elif e['fn'].op == 'ext' and e['fn'].args[0].startswith('torch.nn.'):
            names = [k for k in b if k not in NOT_OPTION]
            gname = e['fn'].args[0]
        else:
            continue
        for k in names:
            if k not in b or k in DATA:
                continue
            v = b[k]
            cons = f'{where(f)} -> {gname}'
            if k in kwkeys and k not in own:
                kw = T('kwargs', f.kwarg)
                ok = v.contains(kw) and v.contains(const(k))
                if ok or v.op == 'const' or v.op == 'arg':
                    rep.ob('forwarded', cons, ok, e.loc(), k if ok else f'{gname} gets {k} = {show(v)[:60]}, not the {k} given to {where(f)}')
                else:
                    rep.undecide('forwarded', cons, e.loc(), f'{k} = {show(v)[:60]}')
                continue
            if k not in own:
                continue
            if mentions(v, k):
                alt = [x for _, x in cases(v) if altered(x, k)]
                rep.ob('forwarded', cons, not alt, e.loc(), k if not alt else f'{gname} gets {k} = {show(alt[0])[:60]}, not the {k} given to {where(f)}')
                continue
            if any(l.contains(arg(k)) for l in e.facts):
                continue            # decided by the option: a special case of it
            # the value must be closed: a constant, or made of other options
            others = [a for a in own if a != k and mentions(v, a)]
            if v.op == 'const' or others or v.op in ('tuple', 'list', 'ite', 'bin', 'attr', 'call'):
                what = f'the default {show(v)}' if v.op == 'const' else show(v)[:60]
                rep.ob('forwarded', cons, False, e.loc(), f'{gname.rpartition(".")[2] if gname.startswith("torch") else gname} gets {k} = {what}, not the {k} given to {where(f)}')
            else:
                rep.undecide('forwarded', cons, e.loc(), f'{k} = {show(v)[:60]}')


def keyword_options(f):
    """options taken out of **kwargs by name"""
    if not f.kwarg:
        return set()
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == f.kwarg and isinstance(n.slice, ast.Constant):
            out.add(n.slice.value)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == f.kwarg \
                and n.func.attr in ('get', 'pop') and n.args and isinstance(n.args[0], ast.Constant):
            out.add(n.args[0].value)
    return {k for k in out if isinstance(k, str)}


_methods = {}


def by_name(p, e):
    """arguments of a method call whose receiver is not typed, or that has **kwargs, when every method of the package
    of that name that could take them agrees on the names of its parameters"""
    fn, pos = e['fn'], e['pos']
    if any(x.op == 'star' for x in pos) or not pos:
        return None, None
    if fn.op == 'bound' and e['f'] is not None:
        cand = [e['f']]
    elif fn.op == 'attr':
        if id(p) not in _methods:
            _methods.clear()
            d = _methods[id(p)] = {}
            for f in p.all_functions():
                if f.cls is not None and f.parent is None:
                    d.setdefault(f.name, []).append(f)
        cand = [f for f in _methods[id(p)].get(fn.args[1], []) if scope(f.module)]
    else:
        return None, None
    sigs = {tuple(options(f)[:len(pos)]) for f in cand if len(options(f)) >= len(pos)}
    if len(sigs) != 1:
        return None, None
    b = dict(zip(sigs.pop(), pos))
    b.update({k: v for k, v in e['kw'].items() if k not in b})
    return cand[0], b


def altered(v, k):
    """the option changed by a constant: k + 1, -k, not k"""
    a = arg(k)
    if v.op == 'bin':
        x, y = v.args[1], v.args[2]
        return (x is a and num(y)) or (y is a and num(x))
    return v.op in ('not', 'un') and v.args[-1] is a


def num(t):
    return t.op == 'const' and isinstance(t.args[1], (int, float))


# --------------------------------------------------------------------------------------------------- crossed
def crossed(p, rep, c):
    """methods that hand the options kept by the object to callables of the package or to torch layers"""
    heap = ctor_heap(p, c)
    init = p.method(c, '__init__')
    if init is None:
        return
    for m in sorted(c.methods.values(), key=lambda m: m.name):
        if m.name == '__init__' or m.is_abstract or m.is_static:
            continue
        r = Interp(p, inline=inline, max_stmts=400).run(m, c)
        for e in r.of('call'):
            g, b = e['f'], e['bound']
            if b is None:
                g, b = by_name(p, e)
            if b is None:
                continue
            if g is not None:
                names = options(g)
                gname = where(g)
            elif e['fn'].op == 'ext' and e['fn'].args[0].startswith('torch.nn.'):
                names, gname = list(b), e['fn'].args[0]
            else:
                continue
            for k in names:
                if k in NOT_OPTION or k not in b or not any(a in heap for a in (k, '_' + k)):
                    continue
                v = b[k]
                if not (v.op == 'attr' and v.args[0] is SELF):
                    continue
                o = v.args[1].lstrip('_')
                rep.ob('crossed', f'{c.name}.{m.name} -> {gname}', o == k or o not in names, e.loc(),
                       f'{gname} gets the {o} of {c.name} for its {k}')


# --------------------------------------------------------------------------------------------------- filters
def filters(p, rep, f):
    """a filter given by the caller is combined with the others by conjunction"""
    for k in options(f):
        if 'filter' not in k:
            continue
        names = {k}
        for s in ast.walk(f.node):          # prefilter = filter
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and s.value.id in names:
                names |= {t.id for t in s.targets if isinstance(t, ast.Name)}
        for l in ast.walk(f.node):
            if isinstance(l, ast.Lambda):
                body = l.body
            elif isinstance(l, ast.FunctionDef) and l is not f.node and len(l.body) and isinstance(l.body[-1], ast.Return) and l.body[-1].value is not None:
                body = l.body[-1].value
            else:
                continue
            al = set(names)
            a = l.args
            pos = a.posonlyargs + a.args
            for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
                if isinstance(d, ast.Name) and d.id in names:
                    al.add(x.arg)
            calls = [n for n in ast.walk(body) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in al]
            if not calls:
                continue
            ok = None
            if body in calls:
                ok = True
            elif isinstance(body, ast.BoolOp):
                if isinstance(body.op, ast.And):
                    ok = True if any(v in calls for v in body.values) else None
                    if any(isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not) and v.operand in calls for v in body.values):
                        ok = False
                else:
                    ok = False if any(v in calls for v in body.values) else None
            elif isinstance(body, ast.UnaryOp) and isinstance(body.op, ast.Not) and body.operand in calls:
                ok = False
            rep.ob('filter', where(f), ok, f'{f.module.relpath}:{l.lineno}', f'the filter {k} given by the caller does not restrict the basis: {ast.unparse(body)[:80]}')


# ------------------------------------------------------------------------------------------------------ kept
def kept(p, rep, c):
    f = p.method(c, '__init__')
    if f is None:
        return
    own = [k for k in options(f)]
    heap = ctor_heap(p, c)
    for k in own:
        for a in (k, '_' + k):
            if a not in heap:
                continue
            cons = f'{c.name}.{a}'
            loc = f'{f.module.relpath}:{f.node.lineno}'
            alts = cases(heap[a])
            if not any(mentions(v, k) or any(mentions(x, k) for x in conds) for conds, v in alts):
                if all(closed(v) for _, v in alts):
                    rep.ob('kept', cons, False, loc, f'self.{a} is {show(alts[0][1])[:60]} whatever {k} is given')
                else:
                    rep.undecide('kept', cons, loc, f'{show(alts[0][1])[:60]}')
                continue
            bad = None
            for conds, v in alts:
                if mentions(v, k) or any(special(x, k) for x in conds):
                    continue
                other = [o for o in own if o != k and o not in TYPES and v is arg(o)]
                if other:
                    bad = (conds, v, other[0])
            rep.ob('kept', cons, bad is None, loc, '' if bad is None else f'self.{a} is {show(bad[1])[:60]}, which does not depend on {k}')
            per_axis(p, rep, c, f, k, a, alts, loc)


def special(x, k):
    """a condition that singles out a value of the option (None, a constant, a flag)"""
    a = arg(k)
    if x is a or x.op == 'not' and x.args[0] is a:
        return True
    if x.op in ('cmp', 'is') and any(y is a for y in x.args):
        return any(isinstance(y, T) and y.op == 'const' for y in x.args) and 'not' not in show(x) and '!=' not in show(x)
    return x.op in ('and', 'or') and any(special(y, k) for y in x.args)


def closed(v):
    return v.op == 'const' or v.op == 'arg' or (v.op == 'bin' and v.args[0] == '*' and v.args[1].op in ('tuple', 'list') and closed(v.args[1])) or (v.op in ('tuple', 'list') and all(closed(x) for x in v.args))


def dimension(p, c):
    """number of spatial axes of a layer fixed by its class, or None"""
    heap = ctor_heap(p, c)
    d = heap.get('d')
    if d is not None and d.op == 'const' and isinstance(d.args[1], int):
        return d.args[1]
    for s, n in DIM.items():
        if c.name.endswith(s):
            return n
    if c.name.startswith(('R2Conv', 'R3Conv')):
        return int(c.name[1])
    return None


def per_axis(p, rep, c, f, k, a, alts, loc):
    d = dimension(p, c)
    for conds, v in alts:
        if any(show(x).startswith(f'isinstance({k},') for x in conds) and not mentions(v, k) and not any(special(x, k) for x in conds):
            if closed(v) and v.op != 'arg':
                rep.ob('per-axis', f'{c.name}.{a}', False, loc, f'a number given for {k} becomes {show(v)[:60]}')
            continue
        if v.op == 'tuple' and v.args and any(x is arg(k) for x in v.args):
            num = any(x.op == 'isinstance' or 'isinstance' in x.op or 'isinstance(' in show(x) for x in conds if mentions(x, k))
            if not num:
                continue
            bad = [x for x in v.args if x is not arg(k)]
            if bad and not all(closed(x) for x in v.args):
                rep.undecide('per-axis', f'{c.name}.{a}', loc, show(v)[:60])
                continue
            ok = not bad and (d is None or len(v.args) == d)
            rep.ob('per-axis', f'{c.name}.{a}', ok, loc,
                   f'a number given for {k} becomes {show(v)[:60]}' + (f' on {d} axes' if d else ''))


# --------------------------------------------------------------------------------------------------- applied
def applied(p, rep, c):
    f = p.method(c, 'forward')
    init = p.method(c, '__init__')
    if f is None or init is None or f.is_abstract or not p.is_subclass(c, 'EquivariantModule'):
        return
    own = options(init)
    heap = ctor_heap(p, c)
    held = {k: [a for a in (k, '_' + k) if a in heap and any(mentions(v, k) or any(mentions(x, k) for x in cs) for cs, v in cases(heap[a]))] for k in own}
    held = {k: v for k, v in held.items() if v}
    r = Interp(p).run(f, c)
    seen = {}
    for e in r.of('call'):
        if e['fn'].op != 'ext' or not e['fn'].args[0].startswith(FN) or e['bound'] is None:
            continue
        op = e['fn'].args[0][len(FN):]
        names = set(e['bound'])
        for k, v in e['bound'].items():
            if k in NOT_OPTION or k not in held:
                continue
            hit = any(v.contains(attr(SELF, a)) for a in held[k])
            cross = [o for o in held if o != k and o in names and any(v is attr(SELF, a) for a in held[o])]
            if cross:
                rep.ob('applied', f'{c.name}.forward', False, e.loc(), f'{op} gets the {cross[0]} of the layer for its {k}')
                continue
            seen.setdefault(k, []).append((hit, v, e, op))
    for k, l in seen.items():
        hits = [x for x in l if x[0]]
        if hits:
            rep.ob('applied', f'{c.name}.forward', True, hits[0][2].loc(), k)
        elif len({v for _, v, _, _ in l}) == 1 and l[0][1].op == 'const' and not anywhere(r, [attr(SELF, a) for a in held[k]]):
            _, v, e, op = l[0]
            rep.ob('applied', f'{c.name}.forward', False, e.loc(), f'{op} is run with {k} = {show(v)}; the {k} of the layer is not used by forward')
        else:
            rep.undecide('applied', f'{c.name}.forward', l[0][2].loc(), f'{k} = {show(l[0][1])[:60]}')


def anywhere(r, attrs):
    for e in r.events:
        for v in e.data.values():
            if isinstance(v, T) and any(v.contains(a) for a in attrs):
                return True
    return False


# ------------------------------------------------------------------------------------------------------ read
def read(p, rep, f):
    if f.is_abstract or helper(f) or (f.cls is not None and f.name != '__init__') or f.name.startswith('test'):
        return
    if f.cls is None and f.name.startswith('_'):
        return
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if all(isinstance(s, (ast.Pass, ast.Raise)) for s in body):
        return
    uses = {}

    def go(n, guard):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            uses.setdefault(n.id, []).append(guard)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('locals', 'vars', 'eval', 'exec'):
            uses.setdefault('*', []).append(guard)
        for ch in ast.iter_child_nodes(n):
            go(ch, guard or isinstance(n, ast.Assert))
    for s in body:
        go(s, False)
    if '*' in uses:
        return
    for k in options(f):
        if k.startswith('_'):
            continue
        u = uses.get(k, [])
        ok = bool(u) and (not all(u) or k not in DEFAULTED(f))
        rep.ob('read', where(f), ok, f'{f.module.relpath}:{f.node.lineno}', f'the option {k} is {"never read" if not u else "only looked at by assertions"}')


def DEFAULTED(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    out = {x.arg for x in pos[len(pos) - len(a.defaults):]}
    out |= {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
    return out
