"""Constructor guards: every normal completion of a layer's constructor is dominated by the facts its
equivariance relies on (must-facts of the abstract interpretation, quantified over the fields)."""
from ..guards import *

ASSUMPTIONS = ['an assertion or raise statement stops the call (python is not run with -O)',
               'the non-linearities a representation declares as supported are decided by C09 for the planar groups, trusted otherwise']

SUP = 'supported_nonlinearities'
POINTWISE = ['ReLU', 'ELU', 'LeakyReLU', 'PointwiseNonLinearity', 'PointwiseDropout', 'GroupPooling', 'InnerBatchNorm',
             '_PointwiseMaxPoolND', '_PointwiseAdaptiveMaxPoolND']
TAGS = {'NormNonLinearity': 'norm', 'NormBatchNorm': 'norm', 'ConcatenatedNonLinearity': 'concatenated', 'VectorFieldNonLinearity': 'vectorfield'}
TAGS.update({n: 'pointwise' for n in POINTWISE})
INDUCED = ['InducedNormNonLinearity', 'InducedNormBatchNorm', 'InducedNormPool']
TWO_TYPES = ['_RdConv', '_RdConvTransposed', '_RdPointConv', 'Linear', 'TensorProductModule']
SPACES = {'R2Conv': 'GSpace2D', 'R2ConvTransposed': 'GSpace2D', 'R3Conv': 'GSpace3D', 'R3ConvTransposed': 'GSpace3D',
          'R3IcoConv': 'GSpace3D', 'R3IcoConvTransposed': 'GSpace3D', 'Linear': 'GSpace0D'}
GROUPS = {'VectorFieldNonLinearity': 'CyclicGroup', 'R3IcoConv': 'Icosahedral', 'R3IcoConvTransposed': 'Icosahedral'}
DIMS = {'R2PointConv': 2, 'R3PointConv': 3, 'NormMaxPool': 2, 'PointwiseAvgPool2D': 2, 'PointwiseAvgPool3D': 3,
        'PointwiseMaxPool2D': 2, 'PointwiseMaxPool3D': 3, 'PointwiseAdaptiveAvgPool2D': 2, 'PointwiseAdaptiveAvgPool3D': 3,
        'PointwiseAdaptiveMaxPool2D': 2, 'PointwiseAdaptiveMaxPool3D': 3, 'R2Upsampling': 2, 'R3Upsampling': 3,
        'PointwiseMaxPoolAntialiased2D': 2, 'PointwiseMaxPoolAntialiased3D': 3}
GROUPED = ['_RdConv', '_RdConvTransposed', '_RdPointConv']

IN, OUT = arg('in_type'), arg('out_type')
LAB = T('label')


def run(p, rep_, tier):
    rep_.rule('nonlinearity', 'the constructor completes only if every field supports the operation the layer applies', 15)
    rep_.rule('gates', 'fields used as gates and gated fields are told apart and checked one by one', 4)
    rep_.rule('space', 'the constructor completes only if both types live on one base space of the kind the layer handles', 20)
    rep_.rule('groups', 'with several groups of channels, every group carries the same representations', 8)
    rep_.rule('chain', 'modules are chained, merged and run side by side only if their types fit', 2)
    for c in equivariant_modules(p):
        if not concrete(p, c, 'forward'):
            continue
        try:
            layer(p, rep_, c)
        except Exception as e:
            rep_.undecide('space', c.name, c.loc(), repr(e))
    for f in (sequential, merge, multiple):
        try:
            f(p, rep_)
        except Exception as e:
            rep_.undecide('chain', f.__name__, '', repr(e))


def completions(p, c, name='__init__'):
    f = p.method(c, name)
    it = Interp(p, implications=True, max_stmts=400)
    r = it.run(f, c)
    return f, r.of('return')


def layer(p, rep_, c):
    names = [k.name for k in p.mro(c) if isinstance(k, ClassInfo)]
    f, rets = completions(p, c)
    if not rets:
        return
    loc = f.loc()
    for e in rets:
        facts = e.facts
        for n in names:
            if n in TAGS:
                ob_sup(rep_, c, facts, IN, TAGS[n], loc)
            if n in INDUCED:
                v = need_field(facts, IN, lambda b, r: prefix_test(b, r, 'induced_norm'), [SUP])
                rep_.ob('nonlinearity', f'{c.name}', v, loc, 'can be constructed for fields that do not support the induced norm non-linearity')
            if n in TWO_TYPES:
                v = need_fact(facts, cmp('==', attr(IN, 'gspace'), attr(OUT, 'gspace')), ['gspace'], bad=two_spaces)
                rep_.ob('space', f'{c.name} one space', v, loc, 'can be constructed with input and output types of different base spaces')
            if n in SPACES:
                v = isinstance_fact(p, facts, attr(IN, 'gspace'), SPACES[n]) or isinstance_fact(p, facts, attr(OUT, 'gspace'), SPACES[n])
                rep_.ob('space', f'{c.name} kind', v, loc, f'can be constructed for a base space that is not a {SPACES[n]}')
            if n in GROUPS:
                v = isinstance_fact(p, facts, attr(IN, 'gspace', 'fibergroup'), GROUPS[n])
                rep_.ob('space', f'{c.name} group', v, loc, f'can be constructed for a group that is not a {GROUPS[n]}')
            if n in DIMS:
                v = need_fact(facts, cmp('==', attr(IN, 'gspace', 'dimensionality'), const(DIMS[n])), ['dimensionality'], bad=lambda f: f.op == 'cmp')
                rep_.ob('space', f'{c.name} dimensionality', v, loc, f'can be constructed for a base space of dimensionality other than {DIMS[n]}')
            if n in GROUPED:
                for x, lab in ((IN, 'input'), (OUT, 'output')):
                    v = grouped(facts, x)
                    rep_.ob('groups', f'{c.name} {lab}', v, loc, f'can be constructed with groups > 1 although the groups of the {lab} type differ')
                    v = divisible(facts, x)
                    rep_.ob('groups', f'{c.name} {lab} divisible', v, loc, f'can be constructed although the number of {lab} fields is no multiple of the number of groups')
            if n == 'TensorProductModule':
                v = need_fact(facts, cmp('==', *LENS(IN, OUT)), ['out_type'], bad=lambda f: f.op == 'cmp')
                rep_.ob('gates', f'{c.name} number of fields', v or count_any(facts, IN, OUT), loc, 'can be constructed with input and output types of different numbers of fields')
        if 'GatedNonLinearity2' in names:
            v = count_any(facts, sub(IN, const(0)), sub(IN, const(1)))
            rep_.ob('gates', f'{c.name} number of gates', v, loc, 'can be constructed with another number of gates than gated fields')
            g, d = sub(IN, const(0)), sub(IN, const(1))
            v = need_field(facts, g, lambda b, r: method_call(b, r, 'is_trivial'), ['is_trivial'])
            rep_.ob('gates', f'{c.name} gates', v, loc, 'can be constructed with gates that are not trivial')
            ob_sup(rep_, c, facts, d, 'gated', loc, 'gates')
            v = need_fact(facts, cmp('==', attr(g, 'gspace'), attr(d, 'gspace')), ['gspace'], bad=two_spaces)
            rep_.ob('space', f'{c.name} one space', v, loc, 'can be constructed with gates and gated fields of different base spaces')
        if 'GatedNonLinearity1' in names:
            v = labelled(facts, IN, 'gate', 'gated', lambda b, r: method_call(b, r, 'is_trivial'), ['is_trivial'])
            rep_.ob('gates', f'{c.name} gates', v, loc, 'can be constructed with gates that are not trivial')
            v = labelled(facts, IN, 'gated', 'gate', lambda b, r: b is cmp('in', const('gated'), attr(r, SUP)), ['gated', SUP])
            rep_.ob('gates', f'{c.name} gated', v, loc, 'can be constructed with gated fields that do not support gating')
        if 'InducedGatedNonLinearity1' in names:
            v = labelled(facts, IN, 'gate', 'gated', lambda b, r: b is cmp('in', const('induced_gate'), attr(r, SUP)), ['induced_gate', SUP])
            rep_.ob('gates', f'{c.name} gates', v, loc, 'can be constructed with gates that are not induced gates')
            v = labelled(facts, IN, 'gated', 'gate', lambda b, r: prefix_test(b, r, 'induced_gated'), ['induced_gated', SUP])
            rep_.ob('gates', f'{c.name} gated', v, loc, 'can be constructed with gated fields that do not support induced gating')
        if 'GatedNonLinearityUniform' in names:
            v = True if attr(IN, 'uniform') in facts or any(is_uniform(x) for x in facts) else (None if any(mentions(x, 'uniform') for x in facts) else False)
            rep_.ob('gates', f'{c.name} uniform', v, loc, 'can be constructed for a type whose fields differ')
            v = any(x.op == 'forall' and mentions(x.args[1], 'is_trivial') and x.args[1].op == 'call' for x in facts)
            if not v and any(mentions(x, 'is_trivial') for x in facts):
                v = None
            rep_.ob('gates', f'{c.name} gates', v, loc, 'can be constructed with gates that are not trivial')


def is_uniform(x):
    return x.op == 'call' and x.args[0].op == 'bound' and callee_name(x.args[0]) == 'uniform'


def ob_sup(rep_, c, facts, x, tag, loc, rule='nonlinearity'):
    v = need_field(facts, x, lambda b, r: b is cmp('in', const(tag), attr(r, SUP)), [SUP])
    rep_.ob(rule, f'{c.name} {tag}', v, loc, f'can be constructed for fields that do not support "{tag}" non-linearities')


def recognised(body, words):
    """the body is of a form that is understood (so that it is known not to be the wanted fact)"""
    b = body.args[0] if body.op == 'not' else body
    if b.op == 'cmp' and b.args[0] in ('in', 'not in', '==', '!='):
        return not any(t.op in ('call', 'ite', 'comp', 'rec', 'recout', 'phi') for t in b.subterms())
    if b.op in ('exists', 'or', 'attr'):
        return True
    if b.op == 'call':
        return b.args[0] is ext('builtins.any') or (b.args[0].op in ('attr', 'bound') and not b.args[1])
    return False


def need_field(facts, x, test, words):
    unknown = False
    for f in facts:
        if not mentions(f, *words):
            continue
        for conds, quants, body in peel(canon(f, [x])):
            if test(body, rep(x)):
                qs = [q for q in quants if covers(q, x, facts)]
                if len(quants) == 1 and qs and not conds:
                    return True
                if any(has_loop(c) for c in conds) or any(not slice_of(q, x) and not covers(q, x, facts) for q in quants):
                    unknown = True
            elif any(q is attr(rep(x), SUP) for q in quants):
                continue            # says something about each supported kind, not that one is there
            elif mentions(body, *words) and not recognised(body, words):
                unknown = True
    return None if unknown else False


def labelled(facts, x, lab, other, test, words):
    """for every field of x with label lab: test"""
    unknown = False
    for f in facts:
        if not mentions(f, *words):
            continue
        for conds, quants, body in peel(canon(f, [x])):
            if test(body, rep(x)):
                if len(quants) == 1:
                    q = quants[0]
                    m = {T('elem', q): LAB}
                    cs = [subst(c, m) for c in conds]
                    good = {cmp('==', LAB, const(lab)), cmp('!=', LAB, const(other)), cmp('==', const(lab), LAB), cmp('!=', const(other), LAB)}
                    if all(c in good for c in cs) and covers(q, x, facts):
                        return True
                    if any(LAB not in c.subterms() and c is not LAB for c in cs):
                        unknown = True
                else:
                    unknown = True
            elif any(q is attr(rep(x), SUP) for q in quants):
                continue
            elif mentions(body, *words) and not recognised(body, words):
                unknown = True
    return None if unknown else False


def has_loop(t):
    return any(s.op in ('phi', 'rec', 'recout', 'fold', 'run', 'phiself') for s in t.subterms()) or t.op in ('rec', 'recout')


def slice_of(q, x):
    return q.op == 'sub' and q.args[0] in bases_of(x)


def need_fact(facts, want, words, bad):
    if want in facts:
        return True
    ms = [f for f in facts if mentions(f, *words) and f.op != 'implies']
    # a fact about the same quantities in a form that is not understood
    if any(not bad(f) for f in ms if f.op in ('call', 'or', 'ite', 'not')):
        if any(f.op in ('or', 'ite') for f in ms):
            return None
    return False


def two_spaces(f):
    return f.op == 'cmp'


def isinstance_fact(p, facts, t, cls):
    for f in facts:
        if f.op == 'call' and f.args[0] is ext('builtins.isinstance') and f.args[1][0] is t:
            k = f.args[1][1]
            ks = [k] if k.op == 'class' else list(k.args) if k.op == 'tuple' else []
            ok = ks and all(x.op == 'class' and subclass(p, x.args[0], cls) for x in ks)
            if ok:
                return True
    return False


def subclass(p, q, cls):
    n = q.rpartition('.')[2]
    c = p.cls(n)
    return c is not None and (n == cls or p.is_subclass(c, cls))


def grouped(facts, x):
    """groups > 1 implies representations[i] == representations[i mod (len // groups)]"""
    g = arg('groups')
    n = [T('call', ext('builtins.len'), (b,), ()) for b in (x, attr(x, 'representations'))]
    per = [T('bin', '//', l, g) for l in n]
    conds_ok = {cmp('>', g, const(1)), cmp('<', const(1), g), cmp('>=', g, const(2)), cmp('!=', g, const(1)), cmp('!=', const(1), g), cmp('<=', const(2), g)}
    unknown = False
    found = False
    reps = [attr(x, 'representations'), x]
    for f in facts:
        for conds, quants, body in peel(f):
            if body.op != 'cmp' or body.args[0] != '==' or any(t.op == 'class' for t in body.subterms()):
                continue
            a, b = body.args[1], body.args[2]
            if a.op == 'sub' and b.op == 'sub' and a.args[0] in reps and b.args[0] in reps and quants:
                i, j = a.args[1], b.args[1]
                if i.op != 'idx' and j.op == 'idx':
                    i, j = j, i
                ok = j.op == 'bin' and j.args[0] == '%' and j.args[1] is i and j.args[2] in per
                if ok and len(quants) == 1 and covers(quants[0], x, facts) and all(c in conds_ok for c in conds):
                    found = True
                elif not ok and not (j.op == 'bin' and j.args[0] == '%'):
                    unknown = True
            elif all(reps[0] in t.subterms() or t is reps[0] for t in (a, b)) and (g in body.subterms() or any(g in c.subterms() for c in conds)):
                unknown = True      # the groups are compared in another way
    if found:
        return True
    return None if unknown else False


def LENS(a, b):
    return [T('call', ext('builtins.len'), (x,), ()) for x in (a, b)]


def count_any(facts, a, b):
    """len(a) == len(b) holds (lengths of the types or of their lists of representations)"""
    alts = lambda x: [T('call', ext('builtins.len'), (y,), ()) for y in (x, attr(x, 'representations'))]
    for x in alts(a):
        for y in alts(b):
            if cmp('==', x, y) in facts:
                return True
    if any(l.op not in ('cmp', 'forall', 'exists', 'implies') and l.contains(a) and l.contains(b) for l in facts):
        return None
    for l in facts:
        if l.op == 'cmp' and l.args[0] == '==' and l.contains(a) and l.contains(b) and not mentions(l, 'gspace') \
                and not (set(l.args[1:]) <= set(alts(a) + alts(b))):
            return None
    return False


def divisible(facts, x):
    g = arg('groups')
    n = [T('call', ext('builtins.len'), (b,), ()) for b in (x, attr(x, 'representations'))]
    conds_ok = {cmp('>', g, const(1)), cmp('<', const(1), g), cmp('>=', g, const(2)), cmp('!=', g, const(1)), cmp('!=', const(1), g), cmp('<=', const(2), g)}
    unknown = False
    for f in facts:
        for conds, quants, body in peel(f):
            b = body.args[0] if body.op == 'not' else body
            if not any(l in b.subterms() for l in n) or g not in b.subterms() or quants or any(t.op in ('bound', 'new', 'inst', 'closure', 'ite', 'obj') for t in b.subterms()):
                continue
            if body.op == 'cmp' and body.args[0] == '==' and const(0) in body.args[1:]:
                o = body.args[2] if body.args[1] is const(0) else body.args[1]
                if o.op == 'bin' and o.args[0] == '%' and o.args[1] in n and o.args[2] is g and all(c in conds_ok for c in conds):
                    return True
            if not (body.op == 'cmp' and any(t.op == 'bin' and t.args[0] == '%' for t in body.args[1:])):
                unknown = True
    return None if unknown else False


def mod_fact(body, n, g):
    return any(t.op == 'bin' and t.args[0] == '%' for t in (body.args[1], body.args[2]))


# ------------------------------------------------------------------ containers
def sequential(p, rep_):
    c = p.cls('SequentialModule')
    f, rets = completions(p, c, 'add_module')
    mod = arg([a for a in f.params if a not in ('self', 'name')][0])
    want = {cmp('==', attr(SELF, 'out_type'), attr(mod, 'in_type'))}
    for e in rets:
        ok, unknown = False, False
        for fa in e.facts:
            for conds, quants, body in peel(fa):
                if body in want and not quants:
                    # the only condition allowed is that something was added before
                    if all(nonempty(x) for x in conds):
                        ok = True
                    elif any(not x.op == 'cmp' for x in conds):
                        unknown = True
                elif mentions(body, 'in_type') and mentions(body, 'out_type') and body.op != 'cmp':
                    unknown = True
        rep_.ob('chain', 'SequentialModule.add_module', True if ok else (None if unknown else False), f.loc(),
                'a module can be appended although its input type is not the output type of the one before it')
    # every way to add goes through add_module
    g, rets = completions(p, c, '__init__')
    it = Interp(p, inline=lambda fn, recv: False if fn.name == 'add_module' else None)
    r = it.run(g, c)
    stores = [e for e in r.of('storesub', 'mutate') if '_modules' in show(e.data.get('base', e.data.get('target', SELF)))]
    calls = [e for e in r.of('call') if callee_name(e['fn']) == 'add_module']
    rep_.ob('chain', 'SequentialModule.__init__', bool(calls) and not stores if calls or stores else None, g.loc(), 'modules are added without the check of the types')


def nonempty(c):
    """the condition says that the container is not empty / already has an output type"""
    s = show(c)
    return c.op == 'cmp' and c.args[0] in ('!=', '>', '<', '>=', '<=', 'is not') and ('_modules' in s or 'len(self)' in s or 'type' in s and 'None' in s)


def merge(p, rep_):
    c = p.cls('MergeModule')
    f, rets = completions(p, c)
    for e in rets:
        hit, unknown = set(), False
        for fa in e.facts:
            for conds, quants, body in peel(fa):
                if not mentions(body, 'gspace'):
                    continue
                if body.op == 'cmp' and body.args[0] == '==' and sides(body, 'gspace'):
                    if quants and '0' not in str(len(quants)):
                        hit.add(len(quants))
                elif body.op not in ('cmp',) and not (body.op == 'call' and body.args[0] is ext('builtins.isinstance')):
                    unknown = True
        ok = True if {1, 2} <= hit else (None if unknown else False)
        rep_.ob('chain', 'MergeModule', ok, f.loc(), 'modules whose inputs live on different base spaces can be merged')


def sides(b, name):
    return all(x.op == 'attr' and x.args[1] == name for x in b.args[1:])


def multiple(p, rep_):
    c = p.cls('MultipleModule')
    f, rets = completions(p, c)
    for e in rets:
        single, several, unknown = False, False, False
        for fa in e.facts:
            for conds, quants, body in peel(fa):
                if not (mentions(body, 'in_type') and mentions(body, 'out_type')):
                    continue
                if body.op == 'cmp' and body.args[0] == '==':
                    for a, b in ((body.args[1], body.args[2]), (body.args[2], body.args[1])):
                        if b.op == 'sub' and b.args[0].op == 'attr' and b.args[0].args[1] == 'out_type':
                            if a.op == 'attr' and a.args[1] == 'in_type' and len(quants) == 1:
                                single = True
                            elif a.op == 'sub' and a.args[0].op == 'attr' and a.args[0].args[1] == 'in_type' and len(quants) == 2:
                                several = True
                else:
                    unknown = True
        for ok, what in ((single, 'one label'), (several, 'several labels')):
            rep_.ob('chain', f'MultipleModule {what}', True if ok else (None if unknown else False), f.loc(),
                    f'a module taking {what} can be run on a branch of another type')
