"""Nothing a caller hands in is modified: effect analysis.  Every in-place update, subscript or attribute store
and mutating container method of every function is traced to the storage it writes (views, aliases, slices and
sub-objects followed); the storage may not be that of an argument, nor visible state of a value object, unless
the operation is documented as in-place.  Effects of helpers that are not inlined are summarised and applied at
their call sites."""
import ast
from ..common import *
from .c14 import is_view, step

ASSUMPTIONS = ['a parameter called `out` is an output parameter, an operation called with inplace=True is meant to write its input',
               'initialisers of escnn.nn.init fill the tensor they are given']
VALUE = ['GeometricTensor', 'FieldType', 'Representation', 'GroupElement', 'GSpace', 'KernelBasis']
MUTABLE = ('Tensor', 'ndarray', 'List', 'list', 'Dict', 'dict', 'Set', 'set', 'GeometricTensor', 'Parameter', 'Sequence')
INPLACE_DUNDER = {'__iadd__', '__isub__', '__imul__', '__itruediv__', '__ipow__', '__imatmul__', '__setitem__', '__delitem__', '__setattr__', '__setstate__'}
LOOPS = ('rec', 'recout', 'loopin', 'loopval')


def run(p, rep, tier):
    rep.rule('argument', 'no function writes to the storage of an argument it was not given as output', 300)
    rep.rule('inplace', 'an operator is only applied in place to the input of a layer if the layer was asked to', 3)
    rep.rule('value', 'operations on value objects do not change them', 100)
    sums = {}
    for _ in range(2):
        for f in p.all_functions():
            try:
                sums[f.qualname] = effects(p, f, sums)
            except Exception as e:
                sums[f.qualname] = []
                rep.undecide('argument', f.qualname, f.loc(), repr(e))
    calls = internal_calls(p)
    values = set()
    for v in VALUE:
        try:
            values |= {c.qualname for c in [p.cls(v)] + list(p.subclasses(v))}
        except Exception:
            pass
    for f in p.all_functions():
        effs = sums[f.qualname]
        if f.cls is not None and f.cls.qualname in values and f.name != '__init__' and f.name not in INPLACE_DUNDER and not private(f):
            bad = [x for x in effs if x[1] is SELF and x[2] and not x[2][0].startswith('_') and not x[4]]
            rep.ob('value', f.qualname, not bad, bad[0][0].loc() if bad else f.loc(), f'changes self.{".".join(bad[0][2])}' if bad else '')
        if not public(p, f, calls):
            continue
        bad = [x for x in effs if x[1] is not SELF and not x[4] and certain(f, x)]
        rep.ob('argument', f.qualname, not bad, bad[0][0].loc() if bad else f.loc(), f'writes to the argument {show(bad[0][1])}' if bad else '')
    for c in equivariant_modules(p):
        if concrete(p, c, 'forward'):
            try:
                inplace_ops(p, rep, c)
            except Exception as e:
                rep.undecide('inplace', c.name, c.loc(), repr(e))


def private(f):
    return f.name.startswith('_') and not f.name.startswith('__')


def is_init_module(f):
    return f.module.path.replace('\\', '/').endswith('nn/init.py') if hasattr(f.module, 'path') else '.nn.init.' in f.qualname


def internal_calls(p):
    """names called as self.NAME(...) or NAME(...), per module"""
    out = {}
    for m in p.modules.values():
        s = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('self', 'cls'):
                    s.add(n.func.attr)
                elif isinstance(n.func, ast.Name):
                    s.add(n.func.id)
        out[m.name] = s
    return out


def public(p, f, calls):
    """callable by a user: not a private helper, not a helper of its own class or module"""
    if private(f) or '<lambda>' in f.qualname or '<locals>' in f.qualname or is_init_module(f):
        return False
    if f.parent is not None if hasattr(f, 'parent') else False:
        return False
    if f.name.startswith('__'):
        return f.name not in INPLACE_DUNDER
    if f.cls is None:
        al = exported(f.module)
        if al is not None and f.name not in al:
            return False
    if f.name == 'forward':
        return True
    return f.name not in calls.get(f.module.name, ())


def exported(m):
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in n.targets):
            try:
                return set(ast.literal_eval(n.value))
            except Exception:
                return None
    return None


def certain(f, x):
    """the write certainly reaches an object the caller can see"""
    e, o, path, kind, _ = x
    if kind == 'aug' and not path:
        # rebinding, unless the object is mutable
        n = o.args[0]
        a = f.annotations.get(n) if hasattr(f, 'annotations') else None
        if a is None:
            return False
        s = ast.unparse(a)
        return any(w in s for w in MUTABLE) and not s.startswith('Tuple') and 'int' != s
    return True


def origins(t, alias, depth=0):
    """(argument or self, attribute path) whose storage t shares"""
    out = set()
    if depth > 40:
        return out
    for _, l in leaves(t):
        if l in alias:
            out |= alias[l]
            continue
        if l.op == 'arg' or l is SELF:
            out.add((l, ()))
        elif l.op in ('attr', 'dynattr'):
            n = l.args[1] if isinstance(l.args[1], str) else '*'
            if n in ('data', 'T'):
                out |= origins(l.args[0], alias, depth + 1)
            elif n not in ('shape', 'dtype', 'device'):
                out |= {(o, pth + (n,)) for o, pth in origins(l.args[0], alias, depth + 1)}
        elif l.op == 'sub':
            if is_view(l.args[1]):
                out |= origins(l.args[0], alias, depth + 1)
        elif l.op == 'upd' or l.op in LOOPS:
            out |= origins(l.args[0], alias, depth + 1)
        elif l.op == 'mut':
            out |= origins(l.args[1], alias, depth + 1)
        else:
            n = step(l)
            if n is not None:
                out |= origins(n, alias, depth + 1)
    return out


def allowed(e, o, path, f):
    """documented in-place behaviour"""
    if o.op == 'arg' and o.args[0] in ('out', 'memo', 'memodict'):
        return True
    if any(x.startswith('_') for x in path):
        return True          # memo tables and internals: property C06
    for x in e.facts:
        y = x
        if y.op == 'arg' and 'inplace' in y.args[0] or y.op == 'attr' and 'inplace' in y.args[1]:
            return True
    return False


def effects(p, f, sums):
    """[(event, origin, path, kind, allowed)]"""
    r = Interp(p, max_stmts=400).run(f, f.cls)
    out = []
    alias = {}
    for e in r.events:
        if not feasible(e.facts):
            continue
        k = e.kind
        if k == 'aug':
            os_ = origins(e['target'], alias)
            if os_ and e['name'] is not None:
                alias[binop(e['op'], e['target'], e['value'])] = os_
            if e['name'] is None:
                continue
        elif k == 'storesub':
            os_ = origins(e['base'], alias)
        elif k == 'store':
            os_ = {(o, pth + (e['name'] if isinstance(e['name'], str) else '*',)) for o, pth in origins(e['base'], alias)}
        elif k == 'mutate':
            os_ = origins(e['target'], alias)
        elif k == 'call':
            os_ = set()
            g = e['f']
            if g is not None and e['bound'] is not None and g.qualname in sums:
                for (_, o2, p2, k2, al) in sums[g.qualname]:
                    if al or o2 is SELF or o2.op != 'arg' or (k2 == 'aug' and not p2):
                        continue
                    a = e['bound'].get(o2.args[0])
                    if a is not None:
                        os_ |= {(o, pth + p2) for o, pth in origins(a, alias)}
            if 'out' in e['kw']:
                os_ |= origins(e['kw']['out'], alias)
            if e['fn'].op == 'ext' and e['fn'].args[0].startswith('torch.') and e['fn'].args[0].endswith('_') \
                    and not e['fn'].args[0].endswith('__') and '.init.' not in e['fn'].args[0] and e['pos']:
                os_ |= origins(e['pos'][0], alias)
        else:
            continue
        for o, pth in os_:
            kind = k
            if k == 'store' and o is SELF and f.name == '__init__':
                continue
            out.append((e, o, pth, kind, allowed(e, o, pth, f)))
    return out


def default_of(p, c, flag):
    """default of the constructor argument that is kept in self.<flag> (a constant, or None if there is none)"""
    v = ctor_heap(p, c).get(flag)
    f = p.method(c, '__init__')
    if v is None or v.op != 'arg' or f is None:
        return None
    d = f.defaults.get(v.args[0])
    return d.value if isinstance(d, ast.Constant) else None


def writes_first(v):
    """the callable kept by a constructor overwrites its argument; under which condition"""
    out = []
    for conds, l in cases(v):
        if l.op == 'ext' and l.args[0].endswith('_') and not l.args[0].endswith('__'):
            out.append((conds, l))
        elif l.op == 'call' and l.args[0].op == 'ext' and l.args[0].args[0].startswith('torch.nn.') and len(l.args) > 2:
            w = dict(l.args[2]).get('inplace')
            if w is TRUE:
                out.append((conds, l))
            elif w is not None and w is not FALSE:
                out.append((tuple(conds) + (w,), l))
    return out


def inplace_ops(p, rep, c):
    f = p.method(c, 'forward')
    r = Interp(p).run(f, c)
    heap = ctor_heap(p, c)
    flags = {attr(SELF, k) for k, v in heap.items() if v.op == 'arg' and 'inplace' in v.args[0]}
    used = set()
    for e in r.events:
        for x in e.facts:
            if x in flags and e.kind in ('aug', 'storesub', 'mutate'):
                used.add(x)
    for e in r.of('call'):
        fn = e['fn']
        if fn.op == 'attr' and fn.args[0] is SELF and isinstance(fn.args[1], str) and fn.args[1] in heap and e['pos']:
            if any(o.op == 'arg' for o, pth in origins(e['pos'][0], {})):
                for conds, l in writes_first(heap[fn.args[1]]):
                    fl = [x for x in conds if x.op == 'arg' and 'inplace' in x.args[0]]
                    g = p.method(c, '__init__')
                    d = g.defaults.get(fl[0].args[0]) if fl and g is not None else None
                    ok = bool(fl) and not (isinstance(d, ast.Constant) and d.value is True)
                    rep.ob('inplace', f'{c.name}.forward', ok, e.loc(), f'{show(l)[:60]} overwrites the input of the layer, which was not asked to work in place')
        kw = dict(e['term'].args[2]) if e['term'].op == 'call' and len(e['term'].args) > 2 else {}
        v = kw.get('inplace')
        if v is None:
            # given by position
            for x in e['pos'][1:]:
                if x in flags:
                    v = x
        if v is None or v is FALSE:
            continue
        x = kw.get('input', e['pos'][0] if e['pos'] else None)
        if x is None:
            continue
        os_ = [o for o, pth in origins(x, {}) if o.op == 'arg']
        if not os_:
            continue
        ok = v in flags or v in {arg(n) for n in f.params if 'inplace' in n}
        if v in flags:
            used.add(v)
        if v is TRUE and not any(y in e.facts for y in flags):
            ok = False
        elif v is TRUE:
            ok = True
        elif not ok:
            ok = None
        rep.ob('inplace', f'{c.name}.forward', ok, e.loc(), f'{callee_name(e["fn"])} overwrites the input of the layer, which was not asked to work in place')
    g = p.method(c, '__init__')
    for x in sorted(used, key=show):
        d = default_of(p, c, x.args[1])
        rep.ob('inplace', f'{c.name}.__init__', d is not True, g.loc() if g is not None else c.loc(),
               'the layer works in place, overwriting its input, unless it is asked not to')
