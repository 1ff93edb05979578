"""Expanded filters and biases follow the mode switch.  Typestate analysis of the layers that
override train(): the heap left by train(False) is fed to forward() in evaluation mode and the
result is compared, as a provenance term, with the result of forward() in training mode; the
switch must always reach nn.Module.train with the same flag; train(True) must drop every copy
that train(False) makes; forward() must not read such a copy while training."""
from ..common import *
from .c02 import gt_fields

ASSUMPTIONS = ['parameters are not modified while a layer is in evaluation mode',
               'nn.Module.train(mode) sets self.training and recurses into sub-modules']
TR = (SELF, 'training')
SYN = {'view': 'reshape'}
DROP = {'contiguous', 'clone', 'detach', 'requires_grad_'}


def run(p, rep, tier):
    rep.rule('same-result', 'forward right after the switch to evaluation mode computes what forward computes in training mode', 6)
    rep.rule('switch', 'every path of train() reaches the base-class switch with the same flag and returns the module', 4)
    rep.rule('discard', 'leaving evaluation mode drops every expanded copy made by the switch', 4)
    rep.rule('fresh', 'no expanded copy is read while training', 6)
    rep.rule('live', 'parameters enter the training-mode computation without being detached', 6)
    rep.rule('no-memo', 'no forward pass stores a value derived from the parameters for a later pass', 40)
    for c in equivariant_modules(p):
        f = p.method(c, 'train')
        if not concrete(p, c, 'forward', 'evaluate_output_shape'):
            continue
        for what, fn in (('train', check_train), ('memo', check_memo)):
            try:
                if what == 'memo' or (f is not None and not f.is_abstract):
                    fn(p, rep, c, f)
            except AnalysisError:
                raise
            except Exception as e:
                rep.undecide('same-result', f'{c.name}.{what}', '', f'{type(e).__name__}: {e}')


def super_train(fn, pos):
    """the call is the base-class implementation of train()"""
    if fn.op == 'attr' and fn.args[1] == 'train' and fn.args[0].op == 'super':
        return True
    if fn.op == 'ext' and fn.args[0].endswith('.train') and pos and pos[0] is SELF:
        return True
    return False


def switch_arg(fn, pos, kw):
    if fn.op == 'ext':
        pos = pos[1:]
    return pos[0] if pos else kw.get('mode', TRUE)


def nm(e):
    n = e['name']
    return n.args[1] if isinstance(n, T) and n.op == 'const' else n


def run_train(p, c, f, mode, training):
    it = Interp(p)

    def eff(fn, pos, kw, st):
        if super_train(fn, pos):
            st.heap[TR] = switch_arg(fn, pos, kw)
    it.on_call = eff
    flag = [n for n in f.params[1:]]
    if not flag:
        return None
    return it.run(f, c, args={flag[0]: mode}, heap={TR: training})


def params_of(p, c):
    """names of the attributes registered as parameters by the constructor"""
    it, r = ctor(p, c)
    out = set()
    if r is None:
        return out
    for e in r.events:
        if e.kind == 'register' and e['how'] == 'register_parameter':
            out.add(nm(e))
        if e.kind == 'store' and e['base'] is SELF and any(
                x.op == 'call' and callee_name(x.args[0]) == 'Parameter' for x in e['value'].subterms()):
            out.add(nm(e))
    return out


def norm(t):
    """forget layout-only and gradient-only differences"""
    memo = {}

    def go(t):
        if not isinstance(t, T):
            return tuple(go(x) for x in t) if isinstance(t, tuple) else t
        if t in memo:
            return memo[t]
        if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in DROP:
            r = go(t.args[0].args[0])
        elif t.op == 'attr' and t.args[1] == 'data':
            r = go(t.args[0])
        else:
            a = tuple(go(x) for x in t.args)
            if t.op == 'attr' and t.args[1] in SYN:
                a = (a[0], SYN[t.args[1]])
            r = T(t.op, *a)
        memo[t] = r
        return r
    return go(t)


def result(p, c, heap):
    f = p.method(c, 'forward')
    it = Interp(p, record_reads=True)
    r = it.run(f, c, heap=heap)
    return r


def tensor_alts(r):
    out = []
    for e in r.of('return'):
        for cs, v in cases(e['value']):
            facts = frozenset(e.facts) | frozenset(cs)
            if not feasible(facts):
                continue
            g = gt_fields(v)
            if g is None:
                out.append((facts, v))
            else:
                for cs2, x in cases(g[1]):
                    ff = facts | frozenset(cs2)
                    if feasible(ff):
                        out.append((ff, x))
    return out


def flat(facts):
    """facts split into literals that survive the substitution of conditionals inside them"""
    out = set()
    todo = [frozenset(facts)]
    alts = [()]
    for l in facts:
        alts = [a + cs + (x,) for a in alts for cs, x in cases(l)]
        if len(alts) > 64:
            return None
    return [frozenset(a) for a in alts if feasible(frozenset(a)) and not any(x is FALSE for x in a)]


def alts_flat(r):
    out = []
    for facts, v in tensor_alts(r):
        fl = flat(facts)
        if fl is None:
            return None
        for ff in fl:
            ff = frozenset(x for x in ff if x is not TRUE)
            out.append((ff, norm(v)))
    return out


def compatible(a, b):
    return feasible(a | b) and not any(neg(x) in b for x in a)


def stale_reads(t, names):
    return sorted({x.args[1] for x in t.subterms() if x.op == 'attr' and x.args[0] is SELF and x.args[1] in names})


def check_train(p, rep, c, f):
    where = f'{c.name}.train'
    r_ev = run_train(p, c, f, FALSE, TRUE)
    if r_ev is None or r_ev.state is None:
        return rep.undecide('switch', where, f.loc(), 'unrecognised signature')
    # --- train() without argument switches to training
    import ast
    ps = [x for x in f.params if x != 'self']
    d = f.defaults.get(ps[0]) if ps else None
    if isinstance(d, ast.Constant):
        rep.ob('switch', where, d.value is True, f.loc(), f'train() without argument switches to mode {d.value}')
    # --- the switch itself, in the four typestates
    for mode in (TRUE, FALSE):
        for tr in (TRUE, FALSE):
            r = run_train(p, c, f, mode, tr)
            sw = [e for e in r.events if e.kind == 'call' and super_train(e['fn'], e['pos'])]
            if r.state is None:
                rep.ob('switch', where, False, f.loc(), f'train({mode}) never returns normally')
                continue
            good = [e for e in sw if not e.facts and not e.loops and switch_arg(e['fn'], e['pos'], e['kw']) is mode]
            final = r.state.heap.get(TR)
            ok = bool(good) or (final is mode and bool(sw))
            if not sw and any(e.kind == 'call' and callee_name(e['fn']) in ('train', 'apply', 'children', 'modules') for e in r.events):
                rep.undecide('switch', where, f.loc(), 'hand-written mode switch')
                continue
            rep.ob('switch', where, ok, (sw[0] if sw else f).loc(),
                   f'train({mode}) from training={tr} does not always hand {mode} to the base class')
            rets = [v for e in r.of('return') for _, v in cases(e['value'])]
            badret = [v for v in rets if v is not SELF and not (v.op == 'call' and super_train(v.args[0], v.args[1]))]
            rep.ob('switch', where, False if any(v is NONE for v in badret) else (None if badret else True), f.loc(), 'train() does not return the module')
    stored = {}
    for e in r_ev.events:
        if e.kind in ('register', 'store') and e['base'] is SELF and nm(e) != 'training' and isinstance(nm(e), str):
            stored.setdefault(nm(e), e)
    heap = {k: v for k, v in r_ev.state.heap.items()}
    heap[TR] = FALSE
    # --- leaving evaluation mode
    r_tr = run_train(p, c, f, TRUE, FALSE)
    for n, e in sorted(stored.items()):
        v = r_tr.state.heap.get((SELF, n)) if r_tr.state else None
        kept = None
        if v is None:
            kept = True
        else:
            kept = any(x is attr(SELF, n) for cs, x in cases(v) if not any(l.op == 'not' and 'hasattr' in str(l) for l in cs))
        rep.ob('discard', f'{where}: {n}', not kept, f.loc(), f'switching to training keeps the stale copy {n} made by the switch to evaluation')
    # --- forward
    fw = p.method(c, 'forward')
    r1 = result(p, c, {TR: TRUE})
    r2 = result(p, c, heap)
    used = set()
    for e in r1.of('return'):
        used |= set(stale_reads(e['value'], stored))
    rep.ob('fresh', f'{c.name}.forward', not used, fw.loc(), f'while training the forward pass reads {sorted(used)}, which is only refreshed by the switch to evaluation mode')
    a1, a2 = alts_flat(r1), alts_flat(r2)
    if a1 is None or a2 is None or not a1 or not a2:
        return rep.undecide('same-result', f'{c.name}.forward', fw.loc(), 'too many alternatives')
    n = 0
    for fa, va in a1:
        for fb, vb in a2:
            if not compatible(fa, fb):
                continue
            n += 1
            bad = None if va is vb else first_diff(va, vb)
            rep.ob('same-result', f'{c.name}.forward', bad is None, fw.loc(),
                   '' if bad is None else f'training computes {show(bad[0])[:140]} but evaluation mode uses {show(bad[1])[:140]}')
    if n == 0:
        rep.undecide('same-result', f'{c.name}.forward', fw.loc(), 'no comparable path')
    # --- gradients
    ps = params_of(p, c)
    for e in r1.of('return'):
        for x in e['value'].subterms():
            base = None
            if x.op == 'attr' and x.args[1] == 'data':
                base = x.args[0]
            elif x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] == 'detach':
                base = x.args[0].args[0]
            if base is not None:
                hit = [q for q in ps if base.contains(attr(SELF, q))]
                if hit:
                    rep.ob('live', f'{c.name}.forward', False, fw.loc(), f'{hit[0]} enters the training computation detached: {show(x)[:100]}')
    ng = [e for e in r1.events if e.kind == 'call' and any('no_grad' in str(x) or 'inference_mode' in str(x) for x in e.ctx)
          and any(e['term'].contains(attr(SELF, q)) for q in ps)]
    rep.ob('live', f'{c.name}.forward', not ng, (ng[0] if ng else fw).loc(), 'parameters are expanded under no_grad while training')


def first_diff(a, b):
    if a is b:
        return None
    if not isinstance(a, T) or not isinstance(b, T):
        return (a, b)
    if a.op == 'attr' and a.args[0] is SELF or b.op == 'attr' and b.args[0] is SELF:
        return (a, b)
    if a.op != b.op or len(a.args) != len(b.args):
        return (a, b)

    def go(x, y):
        if x is y or x == y:
            return None
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            for u, v in zip(x, y):
                d = go(u, v)
                if d:
                    return d
            return None
        if isinstance(x, T) and isinstance(y, T):
            return first_diff(x, y)
        return (a, b)
    for x, y in zip(a.args, b.args):
        d = go(x, y)
        if d:
            return d
    return None


def check_memo(p, rep, c, _):
    """forward() must not leave parameter-derived values on the module that it reads back"""
    fw = p.method(c, 'forward')
    if fw is None or fw.is_abstract:
        return
    ps = params_of(p, c)
    r = result(p, c, {TR: TRUE})
    bad = None
    for e in r.events:
        if e.kind in ('store', 'register') and e['base'] is SELF and isinstance(nm(e), str) and nm(e) not in ps:
            v = e['value']
            src = [q for q in ps if v.contains(attr(SELF, q))]
            if src and any(x['value'].contains(attr(SELF, nm(e))) for x in r.of('return')):
                bad = (e, src[0])
    rep.ob('no-memo', f'{c.name}.forward', bad is None, (bad[0] if bad else fw).loc(),
           '' if bad is None else f'{nm(bad[0])} keeps a value computed from {bad[1]} and is reused by later passes')
