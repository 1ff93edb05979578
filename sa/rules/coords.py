"""Coordinates: provenance of the `coords` of every geometric tensor a module's
forward() returns.  Fibre-wise modules must return the coordinates of their input;
modules that resample a grid must return none (and reject or ignore input coordinates)."""
from ..common import *
from .c02 import gt_fields

ASSUMPTIONS = ['whether a class resamples the base space is decided by its family (table RESAMPLING), confirmed by reading']

# families whose output lives on another sampling grid than the input: input coordinates are meaningless there
RESAMPLING = ('_RdConv', '_RdConvTransposed', 'NormMaxPool', '_PointwiseAdaptiveAvgPoolND', '_PointwiseAdaptiveMaxPoolND',
              'PointwiseAvgPool2D', 'PointwiseAvgPool3D', 'PointwiseAvgPoolAntialiased2D', 'PointwiseAvgPoolAntialiased3D',
              '_PointwiseMaxPoolND', '_PointwiseMaxPoolAntialiasedND', '_RdUpsampling')


def run(p, rep, tier):
    rep.rule('keep-coords', 'a module that acts on fibres only returns exactly the coordinates of its input', 40)
    rep.rule('drop-coords', 'a module that resamples the grid returns a tensor without coordinates', 20)
    for c in equivariant_modules(p):
        if not concrete(p, c, 'forward'):
            continue
        f = p.method(c, 'forward')
        if f is None or f.is_abstract:
            continue
        resampling = any(p.is_subclass(c, n) for n in RESAMPLING)
        r = Interp(p).run(f, c)
        params = gt_params(f)
        cons = f'{c.name}.forward'
        for e in r.of('return'):
            for conds, v in leaves(e['value']):
                facts = e.facts | {l for x in conds for l in literals(x)}
                decide(p, rep, c, cons, e, v, params, facts, resampling)


def decide(p, rep, c, cons, e, v, params, facts, resampling):
    rule = 'drop-coords' if resampling else 'keep-coords'
    if v.op == 'arg' and v.args[0] in params:
        rep.ob(rule, cons, not resampling, e.loc(), 'returns the input itself')
        return
    if v.op == 'comp' and v.args[0] == 'dict' and v.args[1].op == 'tuple':
        v = v.args[1].args[1]
    g = gt_fields(v)
    if g is None:
        if v.op == 'call' and v.args[0].op in ('attr', 'dynattr') or v.op in ('rec', 'recout'):
            rep.undecide(rule, cons, e.loc(), 'delegates to sub-modules, which are checked themselves')
            return
        rep.undecide(rule, cons, e.loc(), f'provenance not recognised: {show(v)[:80]}')
        return
    for conds, co in leaves(g[2]):
        fc = facts | {l for x in conds for l in literals(x)}
        if resampling:
            ok = co is NONE
            rep.ob(rule, cons, ok, e.loc(), f'output carries coordinates {show(co)[:60]} of another sampling grid')
            continue
        good = [attr(arg(q), 'coords') for q in params]
        ok = co in good
        if co is NONE and any(cmp('is', gd, NONE) in fc for gd in good):
            ok = True
        if not ok and co.op == 'attr' and co.args[1] == 'coords' and from_submodule(co.args[0], params):
            ok = True
        rep.ob(rule, cons, ok, e.loc(), f'output carries coordinates {show(co)[:60]} instead of those of its input')


def from_submodule(t, params):
    """t is (an alternative of) the input or the output of a sub-module on it"""
    for _, x in leaves(t):
        if x.op == 'arg' and x.args[0] in params:
            continue
        if x.op == 'call' and (x.args[0].op == 'attr' and x.args[0].args[0] is SELF or x.args[0].op == 'dynattr'):
            continue
        if x.op in ('rec', 'recout', 'loopval', 'last'):
            continue
        if x is NONE:
            continue
        return False
    return True
