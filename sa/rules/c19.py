"""Field types and feature fields: what each operation does with the fields and with the channels that belong to them,
read off the returned value (prefix sums, block-diagonal stacks, slices and index lists in normal form)."""
from ..common import *
from ..interp import Interp
from .c17 import nm, recv, is_int
from .c18 import val, where, einsum_parts, fiber

ASSUMPTIONS = ['sparse.block_diag, torch.cat and einsum as documented', 'representations of a field type are compared by C07 and transform by C09 and C10']

REPS = attr(SELF, 'representations')
WRAP = {'tensor', 'as_tensor', 'array', 'asarray', 'todense', 'toarray', 'tocsc', 'tocoo', 'tocsr', 'contiguous', 'to', 'float', 'double', 'type', 'type_as', 'FloatTensor', 'list', 'tuple', 'clone', 'numpy', 'detach', 'cpu', 'from_numpy', 'ascontiguousarray', 'astype', 'copy'}


def run(p, rep, tier):
    rep.rule('stack', 'the representation of a type, its irreps and its changes of basis stack those of its fields, all of them and in order', 6)
    rep.rule('position', 'a field starts where the channels of the fields before it end, and ends after its own', 2)
    rep.rule('transform', 'a group element acts on the channels by the representation of the type and on the points by the action of the base space, the same element on both', 10)
    rep.rule('select', 'selecting, sorting, grouping, adding or restricting fields keeps the base space and takes the representations that were asked for, in that order', 6)
    rep.rule('slice', 'the channels cut out are those of the fields that the type of the piece lists, and points are cut with the data', 6)
    rep.rule('join', 'fields are stacked in the order of their types', 3)
    rep.rule('arith', 'sums, differences and multiples of fields are those of their data', 6)
    ft, gt = (next((c for c in p.classes.values() if c.name == n and c.module.relpath.startswith('escnn/nn/')), None) for n in ('FieldType', 'GeometricTensor'))
    if ft is None or gt is None:
        raise AnalysisError('FieldType or GeometricTensor not found')
    for fn, c in ((stack, ft), (position, ft), (transform, ft), (select, ft), (gtransform, gt), (split, gt), (item, gt), (arith, gt)):
        try:
            fn(p, rep, c)
        except Exception as e:
            rep.undecide('stack', f'{c.name}.{fn.__name__}', c.module.relpath, repr(e)[:90])
    for f in p.all_functions():
        if f.name == 'tensor_directsum' and f.cls is None:
            try:
                join(p, rep, f)
            except Exception as e:
                rep.undecide('join', f.name, f.module.relpath, repr(e)[:90])


def exec_(p, c, name):
    f = p.method(c, name)
    if f is None:
        return None, None
    return f, Interp(p, inline=lambda g, r: g.name.startswith('_') and not g.name.startswith('__') and g.cls is not None and g.cls.name in ('FieldType', 'GeometricTensor'), max_stmts=600).run(f, c)


def strip(t):
    """through conversions that keep the entries"""
    while t.op == 'call' and nm(t) in WRAP:
        if t.args[0].op == 'attr' and t.args[0].args[0].op not in ('ext', 'mod'):
            t = t.args[0].args[0]
        elif t.args[1]:
            t = t.args[1][0]
        else:
            break
    return t


def items(t):
    """(what, over) when t lists `what` for each of `over`, in order, without a filter"""
    t = strip(t)
    if t.op == 'comp' and t.args[0] in ('list', 'gen', 'tuple') and len(t.args[2]) == 1 and not t.args[2][0][1]:
        return t.args[1], t.args[2][0][0]
    if t.op == 'fold' and t.args[0] == '+' and not t.args[4] and t.args[1].op == 'list' and not t.args[1].args:
        return t.args[2], t.args[3]
    return None


def flat(t):
    """a concatenation of lists for each of `over`"""
    if t.op == 'fold' and t.args[0] == '+' and not t.args[4] and t.args[1].op in ('list', 'tuple') and not t.args[1].args:
        return t.args[2], t.args[3]
    if t.op == 'call' and nm(t) == 'sum' and len(t.args[1]) == 2 and t.args[1][1].op in ('list', 'tuple') and not t.args[1][1].args:
        return items(t.args[1][0])
    if t.op == 'comp' and t.args[0] == 'list' and len(t.args[2]) == 2 and not t.args[2][0][1] and not t.args[2][1][1]:
        outer, inner = t.args[2][0][0], t.args[2][1][0]
        if t.args[1].op == 'elem' and t.args[1].args[0] is inner:
            return inner, outer
    if t.op == 'call' and nm(t) in ('list', 'tuple') and t.args[1]:
        return flat(t.args[1][0])
    if t.op == 'call' and nm(t) == 'chain' and len(t.args[1]) == 1 and t.args[1][0].op == 'star':
        return items(t.args[1][0].args[0])
    if t.op == 'call' and nm(t) == 'from_iterable' and len(t.args[1]) == 1:
        return items(t.args[1][0])
    return None


def over_reps(o):
    """True: all representations in order; False: something else that is known; None"""
    o = strip(o)
    if o is REPS or o is SELF:
        return True
    if o is attr(SELF, '_unique_representations'):
        return False
    if o.op == 'call' and nm(o) in ('reversed', 'set', 'sorted') and len(o.args[1]) == 1 and over_reps(o.args[1][0]) is not None:
        return False
    if o.op == 'sub' and o.args[1].op == 'slice' and over_reps(o.args[0]) is True:
        return False
    return None


def el_of(o):
    return T('elem', o)


def stack(p, rep, c):
    for name, what in (('fiber_representation', None), ('change_of_basis', 'change_of_basis'), ('change_of_basis_inv', 'change_of_basis_inv')):
        f, r = exec_(p, c, name)
        w = f'{c.name}.{name}'
        if f is None:
            rep.undecide('stack', w, c.module.relpath, 'not found')
            continue
        for _, v in leaves(r.ret):
            b = strip(v)
            if b.op == 'attr' and b.args[0] is SELF:
                continue                # kept from an earlier call: C06
            q = items(b.args[1][0]) if b.op == 'call' and nm(b) == 'block_diag' and len(b.args[1]) == 1 and b.args[1][0].op != 'star' else items(b.args[1][0].args[0]) if b.op == 'call' and nm(b) == 'block_diag' and b.args[1] else None
            if q is None:
                rep.undecide('stack', w, where(f), show(v)[:60])
                continue
            body, ov = q
            ok = over_reps(ov)
            body = strip(body)
            if ok:
                e = el_of(ov)
                if what:
                    ok = body is attr(e, what) if body.op == 'attr' else None
                else:
                    el = arg(f.params[1])
                    if body.op == 'call' and body.args[0] is e and len(body.args[1]) == 1:
                        x = body.args[1][0]
                        ok = True if x is el else (False if x.op in ('un', 'inv') or 'identity' in show(x) else None)
                    elif body.op == 'call' and nm(body) in ('__call__',):
                        ok = None
                    elif body.op == 'attr' and body.args[1] == 'T':
                        ok = False
                    else:
                        ok = None
            rep.ob('stack', w, ok, where(f), f'stacks {show(body)[:50]} for each of {show(ov)[:50]}')
    f, r = exec_(p, c, 'irreps')
    if f is not None:
        for _, v in leaves(r.ret):
            q = flat(v)
            if q is None:
                rep.undecide('stack', f'{c.name}.irreps', where(f), show(v)[:60])
                continue
            ok = over_reps(q[1])
            if ok:
                ok = strip(q[0]) is attr(el_of(q[1]), 'irreps') or None
            rep.ob('stack', f'{c.name}.irreps', ok, where(f), f'lists {show(q[0])[:50]} for each of {show(q[1])[:50]}')
    f, r = exec_(p, c, 'representation')
    if f is not None:
        for _, v in leaves(r.ret):
            if v.op == 'call' and nm(v) == 'directsum':
                q = strip(val(v, 'reprs', 0))
                rep.ob('stack', f'{c.name}.representation', over_reps(q), where(f), f'direct sum of {show(q)[:60]}')
            elif not (v.op == 'attr' and v.args[0] is SELF):
                rep.undecide('stack', f'{c.name}.representation', where(f), show(v)[:60])
    f = p.method(c, '__init__')
    r = Interp(p, max_stmts=400).run(f, c)
    heap = {k[1]: v for k, v in r.state.heap.items() if k[0] is SELF}
    s = heap.get('size')
    reps = heap.get('representations')
    if s is not None and s.op == 'fold' and s.args[0] == '+' and s.args[2].op == 'attr' and s.args[2].args[0].op == 'elem':
        good = s.args[1].op == 'const' and s.args[1].args[1] == 0 and not s.args[4] and s.args[2].args[1] == 'size' and s.args[3] in (reps, arg(f.params[2]))
        rep.ob('stack', f'{c.name}.size', good if s.args[3] in (reps, arg(f.params[2])) or s.args[3].op == 'call' and nm(s.args[3]) == 'set' else None, where(f), show(s)[:80])
    else:
        rep.undecide('stack', f'{c.name}.size', where(f), show(s)[:60] if s is not None else 'no size')
    if reps is not None:
        base = {strip(x) for _, x in leaves(reps)}
        ok = base == {arg(f.params[2])}
        if not ok:
            ok = False if any(x.op == 'call' and nm(x) in ('sorted', 'set', 'reversed', 'frozenset') for x in base) else None
        rep.ob('stack', f'{c.name}.representations', ok, where(f), show(reps)[:60])


def position(p, rep, c):
    for name, after in (('fields_start', False), ('fields_end', True)):
        f, r = exec_(p, c, name)
        w = f'{c.name}.{name}'
        if f is None:
            rep.undecide('position', w, c.module.relpath, 'not found')
            continue
        for _, v in leaves(r.ret):
            b = strip(v)
            if b.op == 'attr' and b.args[0] is SELF:
                continue
            rep.ob('position', w, prefix(b, after), where(f), f'positions are {show(b)[:90]}')


def prefix(b, after, reps=(REPS,)):
    """True when b lists the sizes before (and including, if after) each representation"""
    q = items(b)
    if q is not None:
        body, ov = q
        if strip(ov) not in reps and over_reps(ov) is not True:
            return None
        size = attr(el_of(ov), 'size')
        run_ = [s for s in body.subterms() if s.op == 'run']
        if len(run_) == 1 and run_[0].args[0] == '+' and run_[0].args[3] is ov and not run_[0].args[4]:
            r_ = run_[0]
            start0 = r_.args[1].op == 'const' and r_.args[1].args[1] == 0
            step = r_.args[2] is size
            if r_.args[2] is not size and r_.args[2].op not in ('attr', 'const', 'call'):
                return None
            if body is r_:
                return start0 and step and not after
            if body.op in ('add', 'bin') and set(x for x in body.args if isinstance(x, T)) == {r_, size} and (body.op == 'add' or body.args[0] == '+'):
                return start0 and step and after
            return None
        if not run_ and body is size:
            return False
        return None
    if b.op == 'call' and nm(b) == 'cumsum':
        q = items(b.args[1][0]) if b.args[1] else None
        if q and (strip(q[1]) in reps or over_reps(q[1])) and q[0] is attr(el_of(q[1]), 'size'):
            return after
    return None


def transform(p, rep, c):
    f, r = exec_(p, c, 'transform_fibers')
    if f is not None:
        w = f'{c.name}.transform_fibers'
        for _, v in leaves(r.ret):
            e = einsum_parts(strip(v))
            el = arg(f.params[2])
            if e:
                fiber(rep, 'transform', w, where(f), e[:3] + (strip(e[3]), strip(e[4])), f.params[1], lambda t: is_rho(t, el) is not None)
                for m in (strip(e[3]), strip(e[4])):
                    if is_rho(m, el) is not None:
                        rep.ob('transform', w, is_rho(m, el), where(f), f'channels are transformed by {show(m)[:60]}')
            else:
                rep.undecide('transform', w, where(f), show(v)[:60])
    f, r = exec_(p, c, 'transform')
    if f is None:
        return
    w, loc = f'{c.name}.transform', where(f)
    el, inp = arg(f.params[2]), arg(f.params[1])
    for conds, v in leaves(r.ret):
        if v.op == 'tuple' and len(v.args) == 2:
            x, y = strip(v.args[0]), strip(v.args[1])
            on_fibers(rep, w, loc, x, el, inp)
            e = einsum_parts(y)
            if e is None:
                rep.undecide('transform', w, loc, show(y)[:60])
                continue
            a, b, out, m, d = e[0], e[1], e[2], strip(e[3]), strip(e[4])
            if d is not arg('coords') and m is arg('coords'):
                a, b, m, d = b, a, d, m
            if d is not arg('coords') or m.op != 'call':
                rep.undecide('transform', w, loc, show(y)[:60])
                continue
            rep.ob('transform', w, len(a) == 2 and len(b) == 2 and len(out) == 2 and b[1] == a[1] and out == b[0] + a[0] and a[0] != a[1], loc, f'points are moved as {a},{b}->{out}')
            base_action(rep, w, loc, m, el)
        else:
            x = strip(v)
            if x.op == 'call' and nm(x) == '_interpolate_transform_basespace':
                q = recv(x)
                rep.ob('transform', w, val(x, 'element', 1) is el if val(x, 'element', 1) is not None and val(x, 'element', 1).op in ('arg', 'attr') else None, loc, f'the grid is moved by {show(val(x, "element", 1))[:40]}')
                rep.ob('transform', w, q is attr(SELF, 'gspace') if q is not None and q.op == 'attr' else None, loc, f'by the action of {show(q)[:40]}')
                on_fibers(rep, w, loc, strip(val(x, 'input', 0)), el, inp)
            elif x.op == 'call' and nm(x) == 'transform_fibers' or x is inp:
                rep.ob('transform', w, False, loc, 'the grid is not moved')
            else:
                rep.undecide('transform', w, loc, show(v)[:60])


def is_rho(t, el):
    """True/False: t is the representation of the type at the element / at another element; None: something else"""
    if t.op == 'call' and nm(t) == 'fiber_representation':
        x = val(t, 'element', 0)
    elif t.op == 'call' and t.args[0] is attr(SELF, 'representation') and len(t.args[1]) == 1:
        x = t.args[1][0]
    else:
        return None
    if x is el:
        return True
    return False if x.op in ('un', 'inv') or x.op == 'call' else None


def on_fibers(rep, w, loc, x, el, inp):
    if x.op == 'call' and nm(x) == 'transform_fibers':
        e, i = val(x, 'element', 1), val(x, 'input', 0)
        rep.ob('transform', w, e is el and i is inp if e.op == 'arg' and i.op in ('arg', 'attr') else (False if e.op == 'un' else None), loc, f'channels are transformed by {show(x)[:70]}')
    elif x is inp:
        rep.ob('transform', w, False, loc, 'the channels are not transformed')
    else:
        rep.undecide('transform', w, loc, show(x)[:60])


def base_action(rep, w, loc, m, el):
    fn = m.args[0]
    if fn.op == 'attr' and fn.args[1] == 'basespace_action' and len(m.args[1]) == 1:
        x = m.args[1][0]
        rep.ob('transform', w, x is el if x.op == 'arg' else (False if x.op == 'un' else None), loc, f'points are moved by {show(m)[:60]}')
    else:
        rep.undecide('transform', w, loc, show(m)[:60])


def select(p, rep, c):
    GS = attr(SELF, 'gspace')

    def each(name):
        f, r = exec_(p, c, name)
        if f is None:
            return None, []
        return f, [v for _, v in leaves(r.ret)]
    f, vs = each('__add__')
    for v in vs:
        w = f'{c.name}.__add__'
        if is_ctor(v, 'FieldType'):
            g, q = val(v, 'gspace', 0), val(v, 'representations', 1)
            other = attr(arg(f.params[1]), 'representations')
            rep.ob('select', w, g in (GS, attr(arg(f.params[1]), 'gspace')) or None, where(f), show(g)[:40])
            parts = concat(q)
            rep.ob('select', w, parts == [REPS, other] if parts and set(parts) <= {REPS, other} else None, where(f), f'fields {show(q)[:60]}')
        elif v.op != 'const':
            rep.undecide('select', w, where(f), show(v)[:60])
    f, vs = each('index_select')
    for v in vs:
        w = f'{c.name}.index_select'
        if is_ctor(v, 'FieldType'):
            q = items(val(v, 'representations', 1))
            i = arg(f.params[1])
            ok = None
            if q is not None:
                body, ov = q
                if strip(ov) is i:
                    ok = body is sub(REPS, el_of(ov)) if body.op == 'sub' and body.args[0] is REPS else None
                elif ov.op == 'call' and nm(ov) in ('sorted', 'set', 'reversed') and ov.args[1] and strip(ov.args[1][0]) is i:
                    ok = False
                elif over_reps(ov) is True or ov.op == 'call':
                    ok = None
            elif strip(val(v, 'representations', 1)).op == 'comp' and strip(val(v, 'representations', 1)).args[2][0][1]:
                ok = False              # filtered: repeated or reordered indices are lost
            rep.ob('select', w, ok, where(f), show(v)[:90])
            g = val(v, 'gspace', 0)
            rep.ob('select', w, g is GS if g.op == 'attr' else None, where(f), show(g)[:40])
        else:
            rep.undecide('select', w, where(f), show(v)[:60])
    f, vs = each('restrict')
    for v in vs:
        w = f'{c.name}.restrict'
        if v.op == 'call' and (nm(v) == 'type' or is_ctor(v, 'FieldType')):
            sp = recv(v) if nm(v) == 'type' else val(v, 'gspace', 0)
            q = v.args[1][0].args[0] if nm(v) == 'type' and len(v.args[1]) == 1 and v.args[1][0].op == 'star' else val(v, 'representations', 1)
            i = arg(f.params[1])
            ok = None
            if sp.op == 'sub' and is_int(sp.args[1]) and sp.args[0].op == 'call' and nm(sp.args[0]) == 'restrict' and recv(sp.args[0]) is GS:
                ok = sp.args[1].args[1] == 0 and val(sp.args[0], 'id', 0) is i
            elif sp is GS:
                ok = False
            rep.ob('select', w, ok, where(f), f'base space {show(sp)[:60]}')
            q = items(q) if q is not None else None
            if q is None:
                rep.undecide('select', w, where(f), show(v)[:60])
                continue
            body, ov = q
            ok = over_reps(ov)
            if ok:
                e = el_of(ov)
                if body.op == 'sub' and body.args[0].op == 'comp' and body.args[0].args[0] == 'dict':
                    kv = body.args[0].args[1]
                    d_over = body.args[0].args[2][0][0]
                    de = el_of(d_over)
                    if body.args[1].op == 'attr' and body.args[1].args[0] is e or body.args[1] is e:
                        key = subst(body.args[1], {e: de})
                        ok = True if kv.args[0] is key else None
                        body = subst(kv.args[1], {de: e})
                    else:
                        ok = None
                if ok:
                    ok = restricted(body, e, i)
            rep.ob('select', w, ok, where(f), f'fields are {show(body)[:80]} for each of {show(ov)[:40]}')
        else:
            rep.undecide('select', w, where(f), show(v)[:60])
    f, vs = each('sorted')
    for v in vs:
        w = f'{c.name}.sorted'
        if v.op == 'call' and nm(v) == 'index_select':
            x = strip(val(v, 'index', 0))
            rep.ob('select', w, sort_perm(x), where(f), show(x)[:80])
        else:
            rep.undecide('select', w, where(f), show(v)[:60])
    f, vs = each('group_by_labels')
    for v in vs:
        w = f'{c.name}.group_by_labels'
        lab = arg(f.params[1])
        ok = None
        if v.op == 'comp' and v.args[0] == 'dict' and v.args[1].op == 'tuple' and len(v.args[1].args) == 2:
            k, x = v.args[1].args
            if x.op == 'call' and nm(x) == 'index_select':
                i = val(x, 'index', 0)
                if i.op == 'sub' and i.args[0].op == 'recout':
                    rec = i.args[0]
                    body = rec.args[1]
                    el = T('elem', lab)
                    # every index is filed under its own label
                    if body.op == 'upd' and body.args[2].op == 'mut' and body.args[2].args[0] == 'append':
                        filed, what = body.args[1], body.args[2].args[2]
                        one = what.args[0] if isinstance(what, T) and what.op == 'tuple' else what[0] if isinstance(what, tuple) else what
                        ok = filed is el and one is T('idx', lab) and i.args[1] is k
                        if not ok:
                            # another way to walk through the labels: decided only if one of the two stands still
                            still = filed.op == 'sub' and filed.args[0] is lab and filed.args[1].op == 'const' or one.op == 'const' or one is el and filed is el
                            ok = False if still or filed is T('idx', lab) and one is el else None
        rep.ob('select', w, ok, where(f), f'types by label: {show(v)[:80]}')


def restricted(body, e, i):
    if body.op == 'call' and nm(body) == 'restrict_representation':
        g = recv(body)
        own = g in (attr(attr(SELF, 'gspace'), 'fibergroup'), attr(SELF, 'fibergroup'), attr(e, 'group'))
        a, b = val(body, 'id', 0), val(body, 'repr', 1)
        if a.op in ('arg', 'const', 'attr') and b.op in ('elem', 'arg', 'attr'):
            return a is i and b is e if own else None
        return None
    if body.op == 'call' and nm(body) == 'restrict':
        return recv(body) is e and val(body, 'id', 0) is i if recv(body) is not None and recv(body).op == 'elem' else None
    if body is e:
        return False
    return None


def concat(t):
    if t.op == 'add':
        return [strip(x) for x in t.args]
    if t.op == 'bin' and t.args[0] == '+':
        a, b = concat(t.args[1]), concat(t.args[2])
        return a + b if a and b else None
    if t.op in ('list', 'tuple') and all(x.op == 'star' for x in t.args):
        return [strip(x.args[0]) for x in t.args]
    return [strip(t)]


def sort_perm(x):
    """a permutation of the fields, sorted by size"""
    q = items(x)
    if q is None:
        if x.op == 'call' and nm(x) == 'sorted' and len(x.args[1]) == 1 and x.args[1][0].op == 'call' and nm(x.args[1][0]) == 'range':
            return True if dict(x.args[2]).get('key') is not None else False
        return None
    body, ov = q
    if ov.op == 'call' and nm(ov) == 'sorted' and body.op == 'sub' and is_int(body.args[1]) and body.args[0] is T('elem', ov):
        k = items(ov.args[1][0])
        if k is None or k[0].op != 'tuple':
            return None
        if over_reps(k[1]) is not True:
            return None
        want = k[0].args
        i = body.args[1].args[1]
        if not -len(want) <= i < len(want):
            return None
        if any(y.op == 'un' for y in want) or dict(ov.args[2]):
            return None
        return want[i] is T('idx', k[1]) and want[0] is attr(el_of(k[1]), 'size')
    return None


# ------------------------------------------------------------------------------------------------- feature fields
TY, DATA, XY = attr(SELF, 'type'), attr(SELF, 'tensor'), attr(SELF, 'coords')


def gt_ops(v):
    return val(v, 'tensor', 0), val(v, 'type', 1), val(v, 'coords', 2)


def gtransform(p, rep, c):
    for name in ('transform_fibers', '__rmatmul__'):
        f, r = exec_(p, c, name)
        if f is None:
            continue
        w = f'{c.name}.{name}'
        for _, v in leaves(r.ret):
            if not is_ctor(v, 'GeometricTensor'):
                if v.op == 'call':
                    rep.undecide('transform', w, where(f), show(v)[:60])
                continue
            d, t, xy = gt_ops(v)
            d = strip(d)
            if d.op == 'call' and nm(d) in ('transform_fibers', 'transform') and recv(d) is TY:
                ok = nm(d) == 'transform_fibers' and val(d, 'input', 0) is DATA and val(d, 'element', 1) is arg(f.params[1])
                if val(d, 'element', 1).op == 'call':
                    ok = None
                rep.ob('transform', w, ok, where(f), f'data {show(d)[:60]}')
            else:
                rep.undecide('transform', w, where(f), show(d)[:60])
            rep.ob('transform', w, (t is TY) if t.op in ('attr', 'arg') else None, where(f), f'type {show(t)[:40]}')
            rep.ob('transform', w, (xy is XY) if xy is not None and xy.op in ('attr', 'const') else None, where(f), f'coordinates {show(xy)[:40]}')
    f, r = exec_(p, c, 'transform')
    if f is None:
        return
    w, loc = f'{c.name}.transform', where(f)
    no = cmp('is', XY, NONE)
    for case in (no, neg(no)):
        v = assume(r.ret, [case])
        if not is_ctor(v, 'GeometricTensor'):
            rep.undecide('transform', w, loc, show(v)[:60])
            continue
        d, t, xy = (strip(assume(x, [case])) for x in gt_ops(v))
        rep.ob('transform', w, t is TY if t.op in ('attr', 'arg') else None, loc, f'type {show(t)[:40]}')
        pts = case is not no

        def src(x, pos):
            if x.op == 'sub' and is_int(x.args[1]) and x.args[0].op == 'call':
                if x.args[1].args[1] != pos:
                    return False
                x = x.args[0]
            elif pos == 1:
                return False if x is XY or x is NONE else None
            if x.op == 'call' and nm(x) == 'transform' and recv(x) is TY:
                e = val(x, 'element', 1)
                if e.op not in ('arg', 'un'):
                    return None
                co = val(x, 'coords', 2)
                if pts and (co is NONE or co is None):
                    return False
                return val(x, 'input', 0) is DATA and e is arg(f.params[1])
            return None
        rep.ob('transform', w, src(d, 0), loc, f'data {show(d)[:70]}')
        if pts:
            rep.ob('transform', w, src(xy, 1), loc, f'coordinates {show(xy)[:70]}')
        else:
            rep.ob('transform', w, True if xy in (NONE, XY) else None, loc, show(xy)[:40])
    f, r = exec_(p, c, 'restrict')
    if f is not None:
        for _, v in leaves(r.ret):
            if is_ctor(v, 'GeometricTensor'):
                d, t, xy = gt_ops(v)
                w = f'{c.name}.restrict'
                ok = t.op == 'call' and nm(t) == 'restrict' and recv(t) is TY and val(t, 'id', 0) is arg(f.params[1])
                rep.ob('transform', w, ok or (False if t is TY else None), where(f), f'type {show(t)[:50]}')
                rep.ob('transform', w, d is DATA if d.op in ('attr', 'arg') else None, where(f), f'data {show(d)[:50]}')
                rep.ob('transform', w, xy is XY if xy is not None and xy.op in ('attr', 'const') else None, where(f), f'coordinates {show(xy)[:50]}')


def split(p, rep, c):
    f, r = exec_(p, c, 'split')
    if f is None:
        return
    w, loc = f'{c.name}.split', where(f)
    for _, v in leaves(r.ret):
        q = items(v)
        if q is None or not is_ctor(q[0], 'GeometricTensor'):
            rep.undecide('slice', w, loc, show(v)[:60])
            continue
        d, t, xy = gt_ops(q[0])
        rep.ob('slice', w, xy is XY if xy is not None and xy.op in ('attr', 'const') else None, loc, f'coordinates {show(xy)[:40]}')
        ch = channel_slice(d)
        if ch is None or not is_ctor(t, 'FieldType'):
            rep.undecide('slice', w, loc, show(d)[:60])
            continue
        g, rs = val(t, 'gspace', 0), val(t, 'representations', 1)
        rep.ob('slice', w, g is attr(TY, 'gspace') if g.op == 'attr' else None, loc, show(g)[:40])
        TR = attr(TY, 'representations')
        if rs.op != 'sub' or rs.args[0] is not TR or rs.args[1].op != 'slice':
            rep.undecide('slice', w, loc, show(rs)[:60])
            continue
        lo, hi = rs.args[1].args[0], rs.args[1].args[1]
        a, b = ch
        pos = []
        for x, want in ((a, lo), (b, hi)):
            if x.op == 'sub':
                pos.append((x.args[0], x.args[1], want))
        if len(pos) != 2:
            rep.undecide('slice', w, loc, show(d)[:60])
            continue
        for (tab, i, want), end in zip(pos, (False, True)):
            kind = table_kind(tab, TR)
            if kind is None:
                rep.undecide('slice', w, loc, f'table {show(tab)[:60]}')
                continue
            # start of field i, or end of field i - 1
            if kind in ('start', 'start+'):
                ok = i is want
                if end and kind == 'start':
                    ok = None
            else:
                ok = (i.op in ('add', 'bin') and show(i) in (f'({show(want)} - 1)', f'({show(want)} + -1)', f'(-1 + {show(want)})')) if end else None
            if ok is False and i.op not in ('loopin', 'elem', 'const', 'add', 'bin'):
                ok = None
            rep.ob('slice', w, ok, loc, f'channels {"up to" if end else "from"} {kind}[{show(i)[:40]}] for fields {"up to" if end else "from"} {show(want)[:40]}')


def table_kind(t, TR):
    if t is attr(TY, 'fields_start'):
        return 'start'
    if t is attr(TY, 'fields_end'):
        return 'end'
    closing = False
    if t.op == 'mut' and t.args[0] == 'append':
        x = t.args[2]
        x = x.args[0] if isinstance(x, T) and x.op == 'tuple' else x[0] if isinstance(x, tuple) else x
        tot = x.op == 'fold' and x.args[0] == '+' and x.args[1].op == 'const' and x.args[1].args[1] == 0 and x.args[3] is TR and x.args[2] is attr(T('elem', TR), 'size') or x is attr(TY, 'size')
        if not tot:
            return None
        closing = True
        t = t.args[1]
    if prefix(t, False, (TR,)):
        return 'start+' if closing else 'start'
    if prefix(t, True, (TR,)) and not closing:
        return 'end'
    return None


def channel_slice(d):
    """(start, stop) of a slice of the channel axis of the data"""
    if d.op == 'sub' and d.args[0] is DATA and d.args[1].op == 'tuple' and len(d.args[1].args) >= 2:
        first, second = d.args[1].args[0], d.args[1].args[1]
        if first.op == 'slice' and all(x is NONE for x in first.args) and second.op == 'slice' and (len(second.args) < 3 or second.args[2] is NONE):
            return second.args[0], second.args[1]
    if d.op == 'call' and nm(d) == 'narrow' and recv(d) is DATA:
        return None
    return None


def item(p, rep, c):
    f, r = exec_(p, c, '__getitem__')
    if f is None:
        return
    w, loc = f'{c.name}.__getitem__', where(f)
    TR = attr(TY, 'representations')
    ST, EN = attr(TY, 'fields_start'), attr(TY, 'fields_end')
    seen = set()
    # channel ranges: from the start of a field to the end of a field
    rets = [e['value'] for e in r.of('return')] or [r.ret]
    for v in rets:
        for s in v.subterms():
            if s in seen:
                continue
            seen.add(s)
            if s.op == 'call' and nm(s) in ('range', 'slice') and len(s.args[1]) >= 2 or s.op == 'slice' and len(s.args) >= 2:
                lo, hi = (s.args[1][0], s.args[1][1]) if s.op == 'call' else (s.args[0], s.args[1])
                tabs = [x.args[0] if isinstance(x, T) and x.op == 'sub' else None for x in (lo, hi)]
                if not any(t in (ST, EN) for t in tabs):
                    continue
                if tabs == [ST, EN]:
                    i, j = lo.args[1], hi.args[1]
                    # j is the last field: equal to i for a single field, else the stop minus one
                    if s.op == 'call' and nm(s) == 'range':
                        rep.ob('slice', w, i is j, loc, f'channels of one field from {show(i)[:40]} to {show(j)[:40]}')
                    else:
                        m1 = j.op in ('add', 'bin') and any(x.op == 'const' and x.args[1] in (1, -1) for x in j.args if isinstance(x, T))
                        leaf = j.op in ('ite', 'attr', 'loopin', 'elem')
                        rep.ob('slice', w, True if m1 else (False if leaf else None), loc, f'channels up to the end of field {show(j)[:50]}, the stop of the slice is exclusive')
                elif all(t in (ST, EN) for t in tabs):
                    rep.ob('slice', w, False, loc, f'channels from {show(tabs[0])} to {show(tabs[1])}')
    # points follow the first index of the data
    for v in rets:
        for _, x in leaves(v):
            if not is_ctor(x, 'GeometricTensor'):
                continue
            d, t, xy = gt_ops(x)
            if d.op == 'sub' and d.args[0] is DATA:
                idx = d.args[1]
                for conds, y in leaves(xy):
                    if y is NONE:
                        continue
                    if y is XY:
                        rep.ob('slice', w, False, loc, 'the coordinates of all points are kept with the points selected')
                        continue
                    ok = None
                    if y.op == 'sub' and y.args[0] is XY:
                        k = y.args[1].args[0] if y.args[1].op == 'tuple' else y.args[1]
                        if k.op == 'sub' and k.args[0] is idx and is_int(k.args[1]):
                            ok = k.args[1].args[1] == 0
                        elif k.op == 'slice' and all(z is NONE for z in k.args):
                            ok = False
                    rep.ob('slice', w, ok, loc, 'points are selected by another index than the data')
            # the types: built from the fields whose channels are taken, on the same space
            for s in t.subterms():
                if is_ctor(s, 'FieldType'):
                    g = val(s, 'gspace', 0)
                    rep.ob('slice', w, g is attr(TY, 'gspace') if g.op == 'attr' else None, loc, show(g)[:40])
                    for _, z in leaves(val(s, 'representations', 1)):
                        q = items(z)
                        if q is not None and q[0].op == 'sub':
                            rep.ob('slice', w, q[0].args[0] is TR and q[0].args[1] is el_of(q[1]) if q[0].args[0] is TR else None, loc, f'fields {show(q[0])[:50]}')


def join(p, rep, f):
    r = Interp(p, inline=lambda g, rr: g.name.startswith('_') and g.module is f.module, max_stmts=400).run(f, None)
    loc = where(f)
    ts = arg(f.params[0])
    for _, v in leaves(r.ret):
        if not is_ctor(v, 'GeometricTensor'):
            rep.undecide('join', f.name, loc, show(v)[:60])
            continue
        d, t, xy = gt_ops(v)
        order_d = None
        d = strip(d)
        if d.op == 'call' and nm(d) in ('cat', 'concat', 'concatenate') and d.args[1]:
            q = items(d.args[1][0])
            dim = dict(d.args[2]).get('dim', d.args[1][1] if len(d.args[1]) > 1 else None)
            rep.ob('join', f.name, dim.args[1] == 1 if dim is not None and dim.op == 'const' else (False if dim is None else None), loc, f'joined along axis {show(dim) if dim is not None else 0}')
            if q is not None and q[0] is attr(el_of(q[1]), 'tensor'):
                order_d = q[1]
        order_t = None
        if is_ctor(t, 'FieldType'):
            q = flat(val(t, 'representations', 1))
            if q is not None and strip(q[0]) is attr(attr(el_of(q[1]), 'type'), 'representations'):
                order_t = q[1]
            g = val(t, 'gspace', 0)
            rep.ob('join', f.name, True if g.op == 'attr' and g.args[1] == 'gspace' else None, loc, show(g)[:40])
        if order_d is None or order_t is None:
            rep.undecide('join', f.name, loc, f'{show(d)[:50]}')
        else:
            rep.ob('join', f.name, order_d is order_t, loc, f'data in the order of {show(order_d)[:50]}, types in the order of {show(order_t)[:50]}')
            rep.ob('join', f.name, strip(order_d) is ts or (False if order_d.op == 'sub' else None), loc, f'joins {show(order_d)[:50]}')
        good = xy is not None and xy.op == 'attr' and xy.args[1] == 'coords'
        rep.ob('join', f.name, True if good else (False if xy is None or xy is NONE else None), loc, f'coordinates {show(xy)[:40] if xy is not None else None}')


OPS = {'__add__': '+', '__sub__': '-', '__mul__': '*', '__iadd__': '+', '__isub__': '-', '__imul__': '*'}


def arith(p, rep, c):
    for name, op in OPS.items():
        f, r = exec_(p, c, name)
        if f is None:
            continue
        w, loc = f'{c.name}.{name}', where(f)
        o = arg(f.params[1])
        rhs = {attr(o, 'tensor')} if op != '*' else {o}
        if name.startswith('__i'):
            vals = [v for k, v in (r.state.heap.items() if r.state is not None else ()) if k[0] is SELF and k[1] == 'tensor']
            cand = vals
        else:
            cand = []
            for _, v in leaves(r.ret):
                if is_ctor(v, 'GeometricTensor'):
                    d, t, xy = gt_ops(v)
                    cand.append(d)
                    rep.ob('arith', w, t is TY or t is attr(o, 'type') or None, loc, f'type {show(t)[:40]}')
        for d in cand:
            for _, x in leaves(d):
                if x is DATA:
                    continue
                rep.ob('arith', w, binary(x, op, rhs), loc, f'the data of the result are {show(x)[:60]}')


def binary(x, op, rhs):
    if x.op in ('add', 'mul') and len(x.args) == 2:
        k = '+' if x.op == 'add' else '*'
        a, b = x.args
        neg_ = [y for y in (a, b) if y.op == 'un' and y.args[0] == '-']
        if k == '+' and neg_:
            k = '-'
        inside = {y.args[1] if y.op == 'un' else y for y in (a, b)}
        if inside == {DATA} | rhs:
            return k == op
        if inside <= {DATA} | rhs:
            return False
        return None
    if x.op == 'bin':
        k, a, b = x.args
        if {a, b} == {DATA} | rhs:
            if k != op:
                return False
            return True if k != '-' else a is DATA
        if {a, b} <= {DATA} | rhs:
            return False
        return None
    if x.op == 'call' and nm(x) in ('add', 'sub', 'mul') and recv(x) is DATA and len(x.args[1]) == 1 and not x.args[2]:
        return {'add': '+', 'sub': '-', 'mul': '*'}[nm(x)] == op if x.args[1][0] in rhs else None
    if x.op == 'mut':
        return None
    return None
