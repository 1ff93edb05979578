"""Declared output type: provenance of the `type` of every geometric tensor that
forward() can return, for every concrete equivariant module (all return paths, helpers
inlined), compared with the module's declared out_type; and provenance of its `coords`:
fibre-wise modules return the coordinates of their input, resampling modules none."""
from ..common import *
from .c01 import guard_facts

ASSUMPTIONS = ['the data stored under the declared type really transforms that way: numerical, not decided here']


def norm_type(p, c, t, params, facts):
    """rewrite equal field types to self.out_type"""
    heap = ctor_heap(p, c)
    same = heap.get('in_type') is not None and heap.get('in_type') is heap.get('out_type')
    it, ot = attr(SELF, 'in_type'), attr(SELF, 'out_type')
    for i, q in enumerate(params):
        if t is attr(arg(q), 'type') and guard_facts(q, i, len(params))[0] in facts:
            t = it
    if same and t is it:
        t = ot
    if t in heap.values() and heap.get('out_type') is t:
        return ot
    # an attribute holding the same value as out_type
    if t.op == 'attr' and t.args[0] is SELF and heap.get(t.args[1]) is not None and heap.get(t.args[1]) is heap.get('out_type'):
        return ot
    return t


def gt_fields(v):
    """(type, tensor, coords) of a term building a geometric tensor, else None"""
    if is_ctor(v, 'GeometricTensor'):
        k = kwargs_of(v)
        return k.get('type'), k.get('tensor'), k.get('coords', NONE)
    # FieldType.__call__(tensor, coords) : GeometricTensor(tensor, self, coords)
    if v.op == 'call' and v.args[0].op in ('attr', 'sub', 'arg') and (v.args[1] or dict(v.args[2]).get('tensor') is not None):
        fn = v.args[0]
        if fn.op == 'attr' and fn.args[1] in ('out_type', 'in_type') or fn.op == 'sub' and fn.args[0].op == 'attr' and fn.args[0].args[1] in ('out_type', 'in_type'):
            k = dict(v.args[2])
            pos = list(v.args[1])
            ten = pos[0] if pos else k.get('tensor')
            co = pos[1] if len(pos) > 1 else k.get('coords', NONE)
            return fn, ten, co
    return None


def run(p, rep, tier):
    rep.rule('out-type', 'every geometric tensor returned by forward() is built with the declared out_type', 60)
    rep.rule('wrap', 'calling a field type on a tensor wraps it with that very field type and the given coordinates', 1)
    for c in equivariant_modules(p):
        if not concrete(p, c, 'forward'):
            continue
        f = p.method(c, 'forward')
        if f is None or f.is_abstract:
            continue
        it = Interp(p)
        r = it.run(f, c)
        params = gt_params(f)
        cons = f'{c.name}.forward'
        for e in r.of('return'):
            for conds, v in leaves(e['value']):
                facts = e.facts | {l for x in conds for l in literals(x)}
                ok, msg = ok_output(p, c, v, params, facts, r)
                if ok is None:
                    rep.undecide('out-type', cons, e.loc(), msg)
                else:
                    rep.ob('out-type', cons, ok, e.loc(), msg)
    ft = p.cls('FieldType')
    if ft is None:
        raise AnalysisError('FieldType not found')
    f = p.method(ft, '__call__')
    it = Interp(p)
    r = it.run(f, ft)
    for e in r.of('return'):
        g = gt_fields(e['value'])
        ok = g is not None and g[0] is SELF and g[1] is arg(f.params[1]) and (len(f.params) < 3 or g[2] is arg(f.params[2]))
        rep.ob('wrap', 'FieldType.__call__', ok, e.loc(), f'returns {show(e["value"])[:120]}')
    from . import coords
    coords.run(p, rep, tier)


def ok_output(p, c, v, params, facts, r):
    ot = attr(SELF, 'out_type')
    g = gt_fields(v)
    if g is not None:
        t = norm_type(p, c, g[0], params, facts)
        return t is ot, f'returned tensor carries type {show(g[0])}, not the declared out_type'
    # the input itself
    if v.op == 'arg' and v.args[0] in params:
        t = norm_type(p, c, attr(v, 'type'), params, facts)
        return t is ot, f'returns {show(v)} unchanged although out_type is not in_type'
    # result explicitly checked against out_type
    if cmp('==', attr(v, 'type'), ot) in facts:
        return True, ''
    # dictionary of tensors, one per label
    if v.op in ('comp',) and v.args[0] == 'dict' and v.args[1].op == 'tuple':
        k, val = v.args[1].args
        g = gt_fields(val)
        ok = g is not None and g[0] is sub(ot, k)
        return ok, f'branch {show(k)} carries type {show(g[0]) if g else show(val)[:80]}, not out_type of that branch'
    # output of a sub-module whose out_type is ours
    if v.op == 'call' and v.args[0].op == 'attr' and v.args[0].args[0] is SELF:
        heap = ctor_heap(p, c)
        m = heap.get(v.args[0].args[1])
        if m is not None and heap.get('out_type') is attr(m, 'out_type'):
            return True, ''
        return False, f'returns the output of {show(v.args[0])}, whose type is not the declared out_type'
    if v.op == 'const':
        return False, f'returns {show(v)}: not a geometric tensor of the declared out_type'
    return None, f'provenance of the returned value not recognised: {show(v)[:100]}'
