"""The non-linearities a representation admits commute with it: every tag a constructed representation is given
is justified by what it is constructed from (a small type system over the tags)."""
import ast
from ..guards import *

ASSUMPTIONS = ['the representation of a regular or quotient action permutes the channels', 'concatenated non-linearities check the matrices themselves, so that tag is not judged',
               'tags a caller passes explicitly are the responsibility of the caller']

CTORS = ('Representation', 'IrreducibleRepresentation')
SN = 'supported_nonlinearities'
BASIS = ('pointwise', 'vectorfield')          # meaningful only for a particular basis
PLANAR = ('SO2', 'O2', 'CyclicGroup', 'DihedralGroup')


class Unknown(Exception):
    pass


def run(p, rep_, tier):
    rep_.rule('sum', 'a direct sum admits what all its parts admit and its change of basis preserves', 1)
    rep_.rule('tensor', 'a tensor product admits what both factors admit', 1)
    rep_.rule('induced', 'an induced representation admits what the inducing one admits', 2)
    rep_.rule('inherited', 'a restriction or a part of a representation admits no more than the representation, unless it is trivial', 1)
    rep_.rule('basis-change', 'a change of basis admits nothing by default', 1)
    rep_.rule('built', 'a representation built from irreps admits only what its matrices commute with', 5)
    rep_.rule('own-set', 'a representation keeps its own copy of the set', 1)
    rep_.rule('grant', 'a tag is granted afterwards only where it is justified', 1)
    rep_.rule('trivial', 'only an irreducible representation equal to the trivial one counts as trivial', 1)
    for g in (constructions, grants, copies, trivial_test):
        try:
            g(p, rep_)
        except Exception as e:
            rep_.undecide('built', g.__name__, '', repr(e))


def builds(f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
            if nm in CTORS or nm == 'change_basis':
                return True
    return False


def entries(t, conds=()):
    """[(tag, conditions)]; tag is a string, ('all', X): the tags X admits, ('inter', it): those all of them admit,
    ('given', name), ('ind', kind, X)"""
    o = t.op
    if o in ('list', 'tuple', 'set'):
        out = []
        for x in t.args:
            if x.op == 'star':
                out += entries(x.args[0], conds)
            else:
                out += one(x, conds)
        return out
    if o == 'const' and t.args[1] is None or t is NONE:
        return []
    if o == 'ite':
        return entries(t.args[1], conds + tuple(literals(t.args[0]))) + entries(t.args[2], conds + tuple(literals(neg(t.args[0]))))
    if o == 'mut':
        m, base, args = t.args
        r = entries(base, conds)
        if m in ('append', 'add'):
            return r + one(args[0], conds)
        if m in ('extend', 'update'):
            for a in args:
                r = r + entries(a, conds)
            return r
        if m in ('discard', 'remove', 'clear'):
            return r
        if m == 'intersection_update':
            return narrowed(r, args)
        raise Unknown(m)
    if o == 'bin':
        op, a, b = t.args
        if op in ('+', '|'):
            return entries(a, conds) + entries(b, conds)
        if op == '&':
            return narrowed(entries(a, conds), (b,))
        if op == '-':
            return entries(a, conds)
        raise Unknown(op)
    if o == 'attr' and t.args[1] == SN:
        return [(('all', t.args[0]), conds)]
    if o == 'comp' and t.args[0] in ('list', 'set', 'gen', 'generator') and len(t.args[2]) == 1:
        it, cs = t.args[2][0]
        if t.args[1] is T('elem', it):
            if it.op in ('list', 'tuple', 'set'):
                out = []
                for x in it.args:
                    out += one(x, conds + tuple(l for c in cs for l in literals(subst(c, {t.args[1]: x}))))
                return out
            return narrowed_by(entries(it, conds), cs)
        raise Unknown('comprehension')
    if o == 'call':
        fn, pos = t.args[0], t.args[1]
        if fn.op == 'ext' and fn.args[0] in ('builtins.set', 'builtins.list', 'builtins.sorted', 'builtins.frozenset', 'builtins.tuple', 'copy.copy', 'copy.deepcopy'):
            return entries(pos[0], conds) if pos else []
        n = fn.args[1] if fn.op == 'attr' else callee_name(fn)
        n = n.split('.')[-1] if isinstance(n, str) else ''
        if fn.op == 'attr' and fn.args[0].op != 'ext':
            if n == 'copy' and not pos:
                return entries(fn.args[0], conds)
            if n == 'union':
                r = entries(fn.args[0], conds)
                for a in pos:
                    r = r + entries(a, conds)
                return r
            if n == 'intersection':
                return narrowed(entries(fn.args[0], conds), pos)
            if n == 'difference':
                return entries(fn.args[0], conds)
        if n == 'intersection' and len(pos) == 1 and pos[0].op == 'star' and pos[0].args[0].op == 'comp':
            _, elt, gens = pos[0].args[0].args
            if len(gens) == 1 and not gens[0][1] and elt is attr(T('elem', gens[0][0]), SN):
                return [(('inter', gens[0][0]), conds)]
        if n == 'union' and len(pos) == 1 and pos[0].op == 'star' and pos[0].args[0].op == 'comp':
            _, elt, gens = pos[0].args[0].args
            if len(gens) == 1:
                return [(('all', T('elem', gens[0][0])), conds)]
        raise Unknown(n)
    if o == 'arg':
        return [(('given', t.args[0]), conds)]
    raise Unknown(o)


def one(x, conds):
    if x.op == 'const' and isinstance(x.args[1], str):
        return [(x.args[1], conds)]
    if x.op == 'str' and x.args[0].op == 'const' and str(x.args[0].args[1]).startswith('induced_'):
        return [(('ind', x.args[0].args[1], x.args[1]), conds)]
    if x.op == 'elem' and x.args[0].op == 'attr' and x.args[0].args[1] == SN:
        return [(('all', x.args[0].args[0]), conds)]
    raise Unknown('tag')


def narrowed(es, terms):
    extra = tuple(T('within', x) for x in terms)
    return [(t, c + extra) for t, c in es]


def narrowed_by(es, cs):
    return [(t, c + tuple(cs)) for t, c in es]


def tagset(t, x):
    if t is attr(x, SN):
        return True
    if t.op == 'bin' and t.args[0] == '&':
        return tagset(t.args[1], x) or tagset(t.args[2], x)
    if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in ('intersection', 'copy'):
        return tagset(t.args[0].args[0], x) or any(tagset(y, x) for y in t.args[1])
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('builtins.set', 'builtins.list', 'builtins.frozenset') and len(t.args[1]) == 1:
        return tagset(t.args[1][0], x)
    return False


def admits(conds, x, *tags):
    return any(c.op == 'cmp' and c.args[0] == 'in' and tagset(c.args[2], x) and c.args[1].op == 'const' and c.args[1].args[1] in tags for c in flat(conds))


def flat(conds):
    for c in conds:
        if c.op == 'and':
            yield from flat(c.args)
        else:
            yield c
            if c.op == 'or':
                # both alternatives name an acceptable tag
                pass


def vague(conds, *xs):
    """a condition on the operands that is not of a recognised form"""
    for c in flat(conds):
        if c.op == 'cmp' and c.args[0] in ('in', 'not in'):
            if any(tagset(c.args[2], x) for x in xs) or not any(x in c.subterms() for x in xs):
                continue
            return True
        if c.op == 'cmp' and c.args[0] in ('is', 'is not', '==', '!=') or c.op == 'not':
            continue
        if c.op == 'or' and not vague(c.args, *xs):
            continue
        if any(x in c.subterms() for x in xs):
            return True
    return False


def constructions(p, rep_):
    seen = set()
    for f in p.all_functions():
        if '.group' not in f.module.name and 'group' != f.module.name.split('.')[-1]:
            continue
        if not builds(f):
            continue
        c = f.cls
        try:
            r = Interp(p, implications=True, max_stmts=400).run(f, c)
        except Exception as e:
            rep_.undecide('built', f.qualname if hasattr(f, 'qualname') else f.name, f.loc(), repr(e))
            continue
        try:
            basis_calls(p, rep_, f, c)
        except Exception as e:
            rep_.undecide('basis-change', f.name, f.loc(), repr(e))
        for e in r.of('call'):
            if e['fn'].op != 'class' or callee_name(e['fn']) not in CTORS:
                continue
            kw = dict(e['term'].args[2])
            if SN not in kw:
                continue
            name = f'{c.name}.{f.name}' if c else f.name
            key = (name, e.loc())
            if key in seen:
                continue
            seen.add(key)
            try:
                es = entries(kw[SN])
            except Unknown as u:
                rep_.undecide('built', name, e.loc(), f'tags in an unrecognised form: {u}')
                continue
            except Exception as u:
                rep_.undecide('built', name, e.loc(), repr(u))
                continue
            judge(p, rep_, f, c, e, kw, es, name)


def basis_calls(p, rep_, f, c):
    r = Interp(p, implications=True, max_stmts=400, inline=lambda fn, recv: False if fn.name in ('change_basis', 'irrep', 'trivial_representation') else None).run(f, c)
    for e in r.of('call'):
        if e['f'] is not None and e['f'].name == 'change_basis' and e['f'].cls is None and e['bound'] is not None:
            basis_call(rep_, f, c, e)


def basis_call(rep_, f, c, e):
    name = (f'{c.name}.{f.name}' if c else f.name) + ' change_basis'
    base, tags = e['bound'].get('repr'), e['bound'].get(SN)
    if base is None or tags is None:
        return
    try:
        es = entries(tags)
    except Exception as u:
        rep_.undecide('basis-change', name, e.loc(), f'tags in an unrecognised form: {u}')
        return
    for tag, conds in es:
        if isinstance(tag, tuple) and tag[0] == 'all':
            ok = tag[1] is base
            if not ok and (conds or any(not plain_rep(x) for x in (tag[1], base))):
                ok = None
            rep_.ob('basis-change', name, ok, e.loc(), f'the representation gets the tags of another one, {show(tag[1])[:60]}')
        elif isinstance(tag, str) and tag in ('pointwise', 'gate', 'vectorfield'):
            rep_.ob('basis-change', f'{name} {tag}', None if conds else False, e.loc(), f'{tag} is admitted in another basis')


def plain_rep(t):
    """an irrep named by constants, an argument or an attribute"""
    if t.op == 'arg' or t is SELF or t.op == 'attr' and (t.args[0] is SELF or t.args[0].op == 'arg'):
        return True
    if t.op == 'call' and callee_name(t.args[0]) in ('irrep', 'trivial_representation'):
        return all(x.op == 'const' for x in t.args[1]) and all(v.op == 'const' for _, v in t.args[2])
    return False


def judge(p, rep_, f, c, e, kw, es, name):
    n, loc = f.name, e.loc()
    where = e.func_name() if hasattr(e, 'func_name') else None
    if callee_name(e['fn']) == 'IrreducibleRepresentation':
        irrep(p, rep_, f, c, e, kw, es, name)
        return
    reprs = [arg(x) for x in f.params]
    if n == 'directsum' and c is None:
        direct_sum(rep_, f, e, es, name)
    elif n == '_tensor_product':
        if not es and kw.get('change_of_basis') is not None:
            rep_.ob('tensor', name, True, loc)
            return
        a, b = [arg(x) for x in f.params if x != 'self'][:2]
        for tag, conds in es:
            ok = None
            if isinstance(tag, str):
                if tag in ('pointwise', 'gate', 'norm', 'vectorfield') or tag.startswith('induced'):
                    ok = admits(conds, a, tag) and admits(conds, b, tag)
                    if not ok and vague(conds, a, b):
                        ok = None
                else:
                    ok = True
            elif tag[0] == 'all':
                ok = any(x.op == 'within' for x in conds) or None
                if tag[1] in (a, b) and not conds:
                    ok = False
            rep_.ob('tensor', f'{name} {show_tag(tag)}', ok, loc, f'{show_tag(tag)} is admitted although one of the factors may not admit it')
    elif n in ('induced_representation', 'quotient_representation') and c is not None and c.name == 'Group':
        induced(rep_, f, e, es, name)
    elif n in ('restrict_representation', 'disentangle'):
        a = arg('repr') if 'repr' in f.params else arg([x for x in f.params if x not in ('self', 'id')][0])
        for tag, conds in es:
            if isinstance(tag, tuple) and tag[0] == 'all':
                rep_.ob('inherited', name, True if tag[1] is a else None, loc)
            elif isinstance(tag, str):
                ok = tag in ('gated', 'concatenated') or admits(conds, a, tag) or (None if conds else False)
                rep_.ob('inherited', f'{name} {tag}', ok, loc, f'{tag} is admitted although the representation may not admit it')
            else:
                rep_.undecide('inherited', name, loc, 'unrecognised')
        if not es:
            rep_.ob('inherited', name, True, loc)
    elif n == 'change_basis':
        for tag, conds in es:
            if isinstance(tag, tuple) and tag[0] == 'given':
                rep_.ob('basis-change', name, True, loc)
            elif isinstance(tag, str) and tag in ('gated', 'gate', 'concatenated'):
                rep_.ob('basis-change', name, True, loc)
            elif isinstance(tag, tuple) and tag[0] == 'all':
                ok = None if any(x.op == 'within' for x in conds) or vague(conds, arg('change_of_basis')) else False
                rep_.ob('basis-change', name, ok, loc, 'the tags of the representation are kept in another basis')
            else:
                ok = None if vague(conds, arg('change_of_basis')) else False
                rep_.ob('basis-change', name, ok, loc, f'{show_tag(tag)} is admitted in an arbitrary basis')
        rep_.ob('basis-change', name, True, loc)
    elif n == 'regular_representation' and c is not None and c.name == 'Group':
        if kw.get('group') is not SELF:
            return              # the sum of irreps the regular representation is computed from
        for tag, conds in es:
            ok = tag in ('pointwise', 'norm', 'gated', 'concatenated') if isinstance(tag, str) else None
            rep_.ob('built', f'{name} {show_tag(tag)}', ok, loc, f'{show_tag(tag)} is admitted on a regular representation')
    elif n == 'induced_representation' and c is not None and c.name == 'HomSpace':
        for tag, conds in es:
            ok = tag in ('norm', 'gated', 'concatenated') if isinstance(tag, str) else None
            if ok is False and tag in ('pointwise', 'gate') and conds:
                ok = None
            rep_.ob('built', f'{name} {show_tag(tag)}', ok, loc, f'{show_tag(tag)} is admitted on a sum of arbitrary irreps')


def show_tag(t):
    return t if isinstance(t, str) else 'tags' if t[0] in ('all', 'inter', 'given') else t[1] + '*'


def direct_sum(rep_, f, e, es, name):
    reprs = arg(f.params[0])
    q = arg('change_of_basis') if 'change_of_basis' in f.params else None
    loc = e.loc()
    for tag, conds in es:
        if isinstance(tag, tuple) and tag[0] == 'inter' and tag[1] is reprs:
            rep_.ob('sum', f'{name} common tags', True, loc)
        elif isinstance(tag, tuple) and tag[0] == 'all':
            ok = None if any(x.op == 'within' or reprs in x.subterms() for x in conds) else False
            rep_.ob('sum', f'{name} common tags', ok, loc, 'tags are admitted that only some of the parts admit')
            continue
        elif isinstance(tag, str):
            ok = tag in ('gated', 'concatenated') or (None if any(reprs in x.subterms() for x in conds) else False)
            rep_.ob('sum', f'{name} {tag}', ok, loc, f'{tag} is admitted whatever the parts admit')
            continue
        else:
            rep_.undecide('sum', name, loc, 'unrecognised')
            continue
        if q is None or cmp('is', q, NONE) in conds:
            continue
        # with a change of basis
        filt = [x.args[0] for x in conds if x.op == 'within']
        if not filt:
            ok = None if vague(conds, q) else False
            rep_.ob('sum', f'{name} in another basis', ok, loc, 'a change of basis keeps tags that hold only in the original basis')
            continue
        for t in filt:
            try:
                kept = entries(t)
            except Unknown:
                rep_.undecide('sum', name, loc, 'unrecognised filter')
                continue
            for k, cs in kept:
                ok = None
                if isinstance(k, str):
                    ok = k in ('gated', 'gate', 'concatenated') or any(q in x.subterms() and positive(x) for x in cs)
                rep_.ob('sum', f'{name} keeps {show_tag(k)}', ok, loc, f'{show_tag(k)} is kept under an arbitrary change of basis')


def positive(x):
    return not (x.op == 'not' or x.op == 'or' and all(y.op == 'not' for y in x.args) or x.op == 'cmp' and NONE in x.args)


def induced(rep_, f, e, es, name):
    loc = e.loc()
    src = None
    for tag, conds in es:
        for c in flat(conds):
            if c.op == 'cmp' and c.args[0] in ('in', 'not in') and c.args[2].op == 'attr' and c.args[2].args[1] == SN:
                src = src or c.args[2].args[0]
    trivial = src is not None and src.op == 'attr' and src.args[1] == 'trivial_representation'
    for tag, conds in es:
        ok = None
        if isinstance(tag, str):
            need = {'pointwise': ('pointwise',), 'norm': ('norm',), 'gate': (), 'induced_gate': ('gate', 'induced_gate'), 'vectorfield': ()}.get(tag)
            if need is None:
                ok = True
            elif need == ():
                ok = False
            elif src is None:
                ok = None if f.name == 'quotient_representation' else False
            else:
                ok = admits(conds, src, *need) or any(c.op == 'or' and all(admits((a,), src, *need) for a in c.args) for c in flat(conds))
                if not ok and (vague(conds, src) or any(c.op == 'or' and admits(c.args, src, *need) for c in flat(conds))):
                    bad = any(c.op == 'or' and not all(admits((a,), src, *need) for a in c.args) for c in flat(conds))
                    ok = False if bad else None
        elif tag[0] == 'ind':
            kind = tag[1]
            want = {'induced_norm_': 'norm', 'induced_gated_': 'gated'}.get(kind)
            if want and src is not None:
                ok = (admits(conds, src, want) or (want == 'gated')) and tag[2] is attr(src, 'size')
        elif tag[0] == 'all':
            ok = True if any(mentions_start(c) for c in conds) else False if tag[1] is src and not conds else None
        rep_.ob('induced', f'{name} {show_tag(tag)}', ok, loc, f'{show_tag(tag)} is admitted although the inducing representation may not justify it')


def mentions_start(c):
    return any(x.op == 'attr' and x.args[1] == 'startswith' for x in c.subterms())


def irrep(p, rep_, f, c, e, kw, es, name):
    """pointwise and gate only on the trivial representation"""
    if c is None or c.name in PLANAR:
        return                  # decided in C09 from the matrices
    fn = kw.get('representation')
    loc = e.loc()
    for tag, conds in es:
        if isinstance(tag, str) and tag in ('pointwise', 'gate', 'vectorfield'):
            ok = None
            node = closure_node(p, fn)
            if node is not None:
                ok = constant(node)
                if not ok and any(x.op == 'cmp' and x.args[0] == '==' and any(y.op == 'const' for y in x.args[1:]) for x in conds):
                    ok = None
                if not ok and node.name in ('irrep',) and is_const(kw.get('size'), 1) and any(
                        x.op == 'cmp' and x.args[0] == '==' and any(is_const(y, 0) for y in x.args[1:]) for x in e.facts):
                    ok = False if sign(e.facts) else None
            elif fn is not None and fn.op == 'ite':
                ok = False if not is_const(kw.get('size'), 1) else None
            elif fn is not None and fn.op == 'comp':
                ok = False
            rep_.ob('built', f'{name} {tag}', ok, loc, f'{tag} non-linearities are admitted on an irrep that is not trivial')
        elif isinstance(tag, str):
            rep_.ob('built', f'{name} {tag}', tag in ('norm', 'gated', 'concatenated', 'pointwise', 'gate') or None, loc)


def sign(facts):
    """the parity label is the odd one"""
    return any(x.op == 'cmp' and x.args[0] == '==' and any(is_const(y, 1) for y in x.args[1:]) for x in facts)


def closure_node(p, fn):
    if fn is None or fn.op != 'closure':
        return None
    q = str(fn.args[0])
    for f in p.all_functions():
        for n in ast.walk(f.node):
            if isinstance(n, ast.FunctionDef) and n is not f.node and q.endswith(f'{f.name}.{n.name}') and f.module.name.split('.')[-1] in q:
                return n
    return None


def constant(node):
    ps = [a.arg for a in node.args.posonlyargs + node.args.args][:1]
    body = node.body
    for n in body:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in ps and not isinstance(x.ctx, ast.Store):
                par = None
                # uses inside an assertion only do not matter
                if any(isinstance(s, ast.Assert) and x in list(ast.walk(s)) for s in ast.walk(n)):
                    continue
                return False
    return True


MUT = ('add', 'append', 'extend', 'update', '__ior__')


def grants(p, rep_):
    for f in p.all_functions():
        if f.module.name.split('.')[0] == 'test' or SN not in ast.dump(f.node):
            continue
        if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == SN
                   for n in ast.walk(f.node)):
            continue
        r = Interp(p, implications=True, max_stmts=400).run(f, f.cls)
        name = f'{f.cls.name}.{f.name}' if f.cls else f.name
        for e in r.of('call'):
            fn = e['fn']
            if fn.op != 'attr' or fn.args[1] not in MUT or fn.args[0].op != 'attr' or fn.args[0].args[1] != SN:
                continue
            obj = fn.args[0].args[0]
            for a in e['term'].args[1]:
                tag = a.args[1] if a.op == 'const' else None
                if tag is None:
                    rep_.undecide('grant', name, e.loc(), 'not a literal tag')
                    continue
                if tag in ('gated', 'concatenated'):
                    ok = True
                elif tag == 'vectorfield':
                    ok = "'regular'" in show(obj) or 'regular' in show(obj) or None
                else:
                    ok = any(method_call(x, obj, 'is_trivial') for x in e.facts)
                    if not ok and any(trivial_fact(x, obj) for x in e.facts):
                        ok = True
                    if not ok and any(obj in x.subterms() and x.op not in ('cmp', 'not', 'attr', 'exists', 'forall') and callee_name(x.args[0] if x.op == 'call' else x) != 'contains_trivial'
                                      for x in e.facts):
                        ok = None
                rep_.ob('grant', f'{name} {tag}', ok, e.loc(), f'{tag} is granted to a representation that is not known to be trivial')


def trivial_fact(x, obj):
    """is_trivial() expanded: its only irrep is the trivial one"""
    return x.op == 'cmp' and x.args[0] == '==' and x.op != 'exists' and mentions(x, 'trivial_representation', 'id') and (obj in x.subterms() or mentions(x, 'irreps'))


def copies(p, rep_):
    c = p.cls('Representation')
    f = p.method(c, '__init__')
    r = Interp(p, max_stmts=400).run(f, c)
    a = arg(SN)
    for e in r.of('store') if hasattr(r, 'of') else []:
        t = e.data.get('target') or e.data.get('attr')
    val = None
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            if any(isinstance(t, ast.Attribute) and t.attr == SN for t in ts):
                val = n.value
    if val is None:
        rep_.undecide('own-set', 'Representation', f.loc(), 'assignment not found')
        return
    direct = isinstance(val, ast.Name) and val.id == SN
    rebound = any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == SN for t in n.targets) for n in ast.walk(f.node))
    rep_.ob('own-set', 'Representation.__init__', None if direct and rebound else not direct, f.loc(), 'the set is shared with the caller, so granting a tag to a restriction grants it to the original')


def trivial_test(p, rep_):
    c = p.cls('Representation')
    f = p.method(c, 'is_trivial')
    r = Interp(p).run(f, c)
    for e in r.of('return'):
        v = e['value']
        if is_const(v, False):
            continue
        lits = list(literals(v)) + list(e.facts)
        words = [x for x in lits if mentions(x, 'trivial_representation') or 'trivial' in show(x)]
        one_ = [x for x in lits if mentions(x, 'irreducible') or 'len' in show(x)]
        if words and one_:
            ok = True
        elif any(x.op in ('or', 'ite', 'call', 'exists', 'forall') for x in lits):
            ok = None if words else None if any('irrep' in show(x) for x in lits) else False
        else:
            ok = False
        rep_.ob('trivial', 'Representation.is_trivial', ok, e.loc(), 'answers True for representations that are not the trivial irrep')
