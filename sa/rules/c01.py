"""Input-type guard: dominance (must-facts) of the comparison of the input's field
type with the module's declared input type over every normal exit and every side
effect of forward(), for every concrete equivariant module, helpers inlined."""
from ..common import *

ASSUMPTIONS = ['an assertion or raise statement stops the call (python is not run with -O)',
               'field-type equality itself is decided by C08']


def run(p, rep, tier):
    rep.rule('guard-exit', 'every normal exit of forward() is dominated by the fact input.type == self.in_type', 50)
    rep.rule('guard-effect', 'every write to the module state or to the input in forward() is dominated by the same fact', 5)
    rep.rule('delegate', 'a forward() over a collection of tensors hands every tensor only to a sub-module that guards it', 1)
    for c in equivariant_modules(p):
        if not concrete(p, c, 'forward'):
            continue
        f = p.method(c, 'forward')
        if f is None or f.is_abstract:
            continue
        params = gt_params(f)
        it = Interp(p)
        r = it.run(f, c)
        cons = f'{c.name}.forward'
        if not params:
            delegate(p, rep, c, f, r, cons)
            continue
        for i, q in enumerate(params):
            want = guard_facts(q, i, len(params))
            for e in r.of('return'):
                ok = any(w in e.facts for w in want)
                rep.ob('guard-exit', f'{cons}({q})', ok, e.loc(),
                       f'can return without having established that {q}.type equals the declared input type')
            for e in r.of('store', 'storesub', 'aug', 'mutate'):
                tgt = e.data.get('base', e.data.get('target'))
                rt = root(tgt)
                hits = rt.contains(SELF) or rt.contains(arg(q))
                if e.kind == 'store' and rt is not SELF and not hits:
                    continue
                if not hits or rt.op not in ('self', 'arg', 'attr', 'dynattr'):
                    continue
                ok = any(w in e.facts for w in want)
                rep.ob('guard-effect', f'{cons}({q})', ok, e.loc(),
                       f'writes {show(tgt)[:80]} before having established that {q}.type equals the declared input type')
        if not r.of('return'):
            rep.ob('guard-exit', cons, False, f.loc(), 'forward never returns')


def guard_facts(q, i, n):
    t = attr(arg(q), 'type')
    it = attr(SELF, 'in_type')
    if n == 1:
        return [cmp('==', t, it)]
    return [cmp('==', t, sub(it, const(i)))]


def delegate(p, rep, c, f, r, cons):
    """MergeModule: dict of tensors"""
    # every use of an element of the input must be as an argument of a sub-module call
    args = [arg(n) for n in f.params[1:]]
    bad = None
    calls = 0
    for e in r.of('call'):
        t = e['term']
        fn = e['fn']
        for a in call_args(t):
            if any(a.contains(x) for x in args):
                if fn.op in ('dynattr',) or (fn.op in ('attr',) and fn.args[0] is SELF) or fn.op == 'sub':
                    calls += 1
                elif fn.op == 'ext' and fn.args[0].startswith('builtins.'):
                    pass
                elif is_ctor(t, 'GeometricTensor') or fn.op == 'ext':
                    # allowed only on results of sub-modules
                    if raw_use(a, args):
                        bad = e
    ok = calls > 0 and bad is None
    rep.ob('delegate', cons, ok, (bad.loc() if bad else f.loc()),
           'uses an input tensor without passing it through an equivariant sub-module')


def raw_use(t, args):
    """an input element occurs outside a sub-module call"""
    if t.op == 'call' and (t.args[0].op == 'dynattr' or t.args[0].op == 'attr' and t.args[0].args[0] is SELF or t.args[0].op == 'sub'):
        return False
    if t.op == 'attr' and t.args[1] in ('shape', 'device', 'dtype', 'coords', 'type'):
        return False      # metadata, not data
    if t.op == 'call' and callee_name(t.args[0]) in ('evaluate_output_shape', 'size', 'dim'):
        return False
    if t in args:
        return True
    for a in t.args:
        if isinstance(a, T) and raw_use(a, args):
            return True
        if isinstance(a, tuple):
            for x in flat(a):
                if raw_use(x, args):
                    return True
    return False


def flat(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from flat(x)
