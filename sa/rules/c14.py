"""State and randomness follow the mode: forward() is interpreted with the mode fixed to evaluation (nothing of
the module may be written, nothing random drawn, running statistics are what normalises) and to training (each
running statistic moves towards the batch statistic by the momentum factor); resets restore the values the
constructor registers; what is registered under a setting is only read under that setting."""
from ..common import *
from ..arith import poly, Poly, Quot, akey
from .c05 import nm

ASSUMPTIONS = ['sub-modules that are torch.nn modules follow the mode they are switched to',
               'in-place operations of torch write the storage of the tensor they are called on and of its base if it is a view']
TRAIN = (SELF, 'training')
RANDOM_M = {'uniform_', 'bernoulli_', 'normal_', 'random_', 'exponential_', 'cauchy_', 'log_normal_', 'geometric_', 'multinomial', 'bernoulli'}
RANDOM_F = {'rand', 'randn', 'randint', 'rand_like', 'randn_like', 'randint_like', 'bernoulli', 'normal', 'randperm', 'multinomial', 'poisson'}
MODED = {'dropout', 'dropout1d', 'dropout2d', 'dropout3d', 'alpha_dropout', 'feature_dropout', 'feature_alpha_dropout', 'batch_norm', 'rrelu',
         'instance_norm'}
REDUCE = {'mean', 'var', 'std', 'sum', 'var_mean', 'std_mean', 'nanmean'}


def run(p, rep, tier):
    rep.rule('eval-pure', 'in evaluation mode, forward writes nothing that belongs to the module', 40)
    rep.rule('eval-exact', 'in evaluation mode, forward draws no random number', 40)
    rep.rule('eval-running', 'in evaluation mode, tracked running statistics normalise and batch statistics do not', 4)
    rep.rule('update', 'while training, a running statistic r becomes (1-m)*r + m*s for the batch statistic s', 4)
    rep.rule('count', 'while training, the batch counter counts every pass once, before a cumulative average is taken', 4)
    rep.rule('train-random', 'while training, dropout does draw its mask', 2)
    rep.rule('reset', 'resetting statistics or parameters restores the values they are constructed with', 4)
    rep.rule('conditional', 'state registered only under a setting is only accessed under that setting', 10)
    for c in equivariant_modules(p):
        if not concrete(p, c, 'forward'):
            continue
        for fn in (evaluation, training, reset, conditional):
            try:
                fn(p, rep, c)
            except Exception as e:
                rep.undecide('eval-pure', c.name, c.loc(), f'{fn.__name__}: {e!r}')


def runs(p, c, mode):
    f = p.method(c, 'forward')
    heap = {TRAIN: const(mode)}
    h = ctor_heap(p, c)
    if 'track_running_stats' in h:
        heap[(SELF, 'track_running_stats')] = TRUE
    it = Interp(p, implications=True)
    return f, it, it.run(f, c, heap=heap)


def self_attr(t):
    """(True, name term) if t is an attribute of self"""
    if t.op == 'attr' and t.args[0] is SELF:
        return const(t.args[1])
    if t.op == 'dynattr' and t.args[0] is SELF:
        return t.args[1]
    return None


def template(n):
    """constant pieces of an attribute name"""
    if n.op == 'const':
        return (n.args[1],)
    if n.op == 'str':
        return tuple(x.args[1] if x.op == 'const' else '*' for x in n.args)
    return None


def is_view(idx):
    """True when indexing with idx yields a view, False when it copies, None when unknown"""
    if idx.op in ('slice', 'const'):
        return True
    if idx.op == 'tuple':
        vs = [is_view(x) for x in idx.args]
        return None if None in vs else all(vs)
    if idx.op in ('list', 'cmp'):
        return False
    return None


def owners(t, alias, depth=0):
    """attributes of self whose storage an in-place update of t would write"""
    out = set()
    if depth > 40:
        return out
    for _, l in leaves(t):
        if l in alias:
            out |= owners(alias[l], {}, depth + 1)
            continue
        if self_attr(l) is not None:
            out.add(l)
            continue
        if l.op == 'sub':
            if is_view(l.args[1]):
                out |= owners(l.args[0], alias, depth + 1)
            continue
        nxt = l.args[0] if l.op == 'upd' else l.args[1] if l.op == 'mut' else None
        if nxt is None:
            r = step(l)
            nxt = r
        if nxt is not None and nxt is not l:
            out |= owners(nxt, alias, depth + 1)
    return out


VIEW = {'view', 'reshape', 'transpose', 'permute', 'squeeze', 'unsqueeze', 'expand', 'detach', 'flatten', 'narrow', 't', 'contiguous',
        'expand_as', 'view_as', 'select', 'diagonal', 'swapaxes'}


def step(t):
    if t.op == 'attr' and t.args[1] in ('data', 'T'):
        return t.args[0]
    if t.op == 'call' and t.args[0].op == 'attr':
        n = t.args[0].args[1]
        if n in VIEW or (n.endswith('_') and not n.endswith('__')):
            return t.args[0].args[0]
    return None


def scalar_attr(p, c, owner):
    n = self_attr(owner)
    if n.op != 'const':
        return False
    v = ctor_heap(p, c).get(n.args[1])
    return v is not None and v.op == 'const' and isinstance(v.args[1], (int, float, bool, str, type(None)))


def writes(p, c, r):
    """(event, owner, new value or None) for every write to what belongs to self, in order"""
    alias = {}
    out = []
    for e in r.events:
        if not feasible(e.facts):
            continue
        k = e.kind
        if k == 'store' and e['base'] is SELF:
            n = nm(e)
            out.append((e, attr(SELF, n) if isinstance(n, str) else T('dynattr', SELF, n), e['value']))
        elif k == 'aug':
            own = [o for o in owners(e['target'], alias) if not scalar_attr(p, c, o)]
            new = binop(e['op'], e['target'], e['value'])
            if len(own) == 1:
                alias[new] = own[0]
            for o in own:
                if e['name'] is None:
                    continue          # reported as the store it ends in
                out.append((e, o, new))
        elif k == 'storesub':
            for o in owners(e['base'], alias):
                whole = e['idx'].op in ('slice', 'const') and (e['idx'] is const(Ellipsis) or e['idx'].op == 'slice' and all(x is NONE for x in e['idx'].args))
                out.append((e, o, e['value'] if whole else None))
        elif k == 'mutate':
            own = [o for o in owners(e['target'], alias)]
            new = inplace(e)
            if len(own) == 1:
                alias[e['value']] = own[0]
                if new is not None:
                    alias[new] = own[0]
            for o in own:
                out.append((e, o, new))
        elif k == 'call' and e['fn'].op == 'ext' and e['fn'].args[0].startswith('torch.nn.init.') and e['fn'].args[0].endswith('_') and e['term'].args[1]:
            n, a = e['fn'].args[0].rpartition('.')[2], e['term'].args[1]
            new = {'ones_': const(1), 'zeros_': const(0)}.get(n) or (a[1] if n == 'constant_' and len(a) > 1 else None)
            for o in owners(a[0], alias):
                out.append((e, o, new))
        elif k == 'call' and 'out' in e['kw']:
            for o in owners(e['kw']['out'], alias):
                out.append((e, o, None))
    return out


def inplace(e):
    """value after an in-place method"""
    t, how, v = e['target'], e['how'], e['value']
    a = v.args[1]
    kw = dict(v.args[2])
    if how in ('mul_', 'div_') and len(a) == 1 and not kw:
        return binop('*' if how == 'mul_' else '/', t, a[0])
    if how in ('add_', 'sub_') and len(a) == 1 and set(kw) <= {'alpha'}:
        x = a[0] if not kw else binop('*', kw['alpha'], a[0])
        return binop('+' if how == 'add_' else '-', t, x)
    if how == 'lerp_' and len(a) == 2 and not kw:
        return binop('+', t, binop('*', a[1], binop('-', a[0], t)))
    if how == 'copy_' and len(a) == 1:
        return a[0]
    if how == 'fill_' and len(a) == 1:
        return a[0]
    if how == 'zero_':
        return const(0)
    return None


def tname(o):
    return show(self_attr(o)) if self_attr(o).op != 'const' else self_attr(o).args[1]


def evaluation(p, rep, c):
    f, it, r = runs(p, c, False)
    if not r.of('return'):
        return
    bad = [(e, o) for e, o, _ in writes(p, c, r)]
    if bad:
        e, o = bad[0]
        rep.ob('eval-pure', f'{c.name}.forward', False, e.loc(), f'in evaluation mode the forward pass writes {tname(o)}, which belongs to the module')
    else:
        rep.ob('eval-pure', f'{c.name}.forward', True, f.loc())
    rep.ob('eval-exact', f'{c.name}.forward', not list(random_draws(r, False)), *next(random_draws(r, False), (f.loc(), '')))
    run_bufs = running(p, c)
    if not run_bufs:
        return
    names = {template(self_attr(o)) for o in run_bufs} - {None}
    used, batch = set(), None
    vals = [(e, e['value']) for e in r.of('return')] + [(e, e['value']) for e in r.of('storesub')]
    for e, v in vals:
        for s in v.subterms():
            n = self_attr(s)
            if n is not None and template(n) in names:
                used.add(template(n))
            if batch_reduction(s) and batch is None:
                batch = (e, s)
    for n in sorted(names, key=str):
        if 'num_batches_tracked' in n:
            continue
        rep.ob('eval-running', f'{c.name} {"".join(n)}', n in used, f.loc(),
               f'in evaluation mode the result does not depend on the running statistic {"".join(n)}')
    if names:
        rep.ob('eval-running', f'{c.name} batch statistics', batch is None, batch[0].loc() if batch else f.loc(),
               'in evaluation mode the result depends on statistics of the batch')


def batch_reduction(s):
    """reduction that provably averages over the batch axis of the input"""
    if s.op != 'call' or s.args[0].op != 'attr' or s.args[0].args[1] not in REDUCE:
        return False
    if not any(x.op == 'attr' and x.args[1] == 'tensor' and x.args[0] is arg('input') for x in s.args[0].args[0].subterms()):
        return False
    kw = dict(s.args[2])
    d = kw.get('dim', s.args[1][0] if s.args[1] else None)
    if d is None:
        return not s.args[1]
    if d.op in ('tuple', 'list'):
        return const(0) in d.args
    if d.op == 'bin' and d.args[0] == '+':
        return d.args[1].op == 'tuple' and const(0) in d.args[1].args
    return d is const(0)


def random_draws(r, mode):
    for e in r.of('call'):
        if not feasible(e.facts):
            continue
        fn = e['fn']
        if fn.op == 'attr' and fn.args[1] in RANDOM_M:
            yield e.loc(), f'{fn.args[1]}() is called in evaluation mode'
        elif fn.op == 'ext':
            mod, _, n = fn.args[0].rpartition('.')
            if n in RANDOM_F and mod in ('torch', 'numpy.random', 'random') or mod in ('numpy.random', 'random'):
                yield e.loc(), f'{fn.args[0]}() is called in evaluation mode'
            elif n in MODED and mod == 'torch.nn.functional':
                kw = dict(e['term'].args[2])
                t = kw.get('training')
                if t is None:
                    i = {'dropout': 2, 'batch_norm': 5}.get(n)
                    a = e['term'].args[1]
                    t = a[i] if i is not None and len(a) > i else (TRUE if n.endswith('dropout') or n.startswith('dropout') else FALSE)
                if t is not FALSE and (t is TRUE):
                    yield e.loc(), f'{n} is applied in evaluation mode as if training'


_running = {}


def running(p, c):
    k = (id(p), c.qualname)
    if k not in _running:
        f, it, r = runs(p, c, True)
        _running[k] = []
        reg = {template(n) for n, _, _ in registered(p, c)} - {None}
        for e, o, v in writes(p, c, r):
            n = template(self_attr(o))
            if n in reg and o not in _running[k]:
                _running[k].append(o)
    return _running[k]


def registered(p, c):
    """(name term, value, event) of the buffers the constructor registers"""
    it, r = ctor(p, c)
    out = []
    if r is None:
        return out
    for e in r.events:
        if e.kind == 'register' and e['how'] == 'register_buffer':
            n = e['name']
            out.append((n if isinstance(n, T) else const(n), e['value'], e))
    return out


def training(p, rep, c):
    f, it, r = runs(p, c, True)
    if not r.of('return'):
        return
    if 'Dropout' in c.name:
        ok = any(True for _ in random_draws(r, True)) or any(
            callee_name(e['fn']) in MODED and dict(e['term'].args[2]).get('training') is TRUE for e in r.of('call'))
        x = arg('input')
        same = all(e['value'] is x or data_of(e['value']) in (attr(x, 'tensor'), x) for e in r.of('return')) and not any(
            e.kind in ('mutate', 'aug', 'storesub') for e in r.events)
        rep.ob('train-random', c.name, True if ok and not same else False if same else None, f.loc(),
               'while training the input is handed on unchanged' if same else 'no random draw recognised')
    bufs = running(p, c)
    if not bufs:
        return
    ws = writes(p, c, r)
    cnt = attr(SELF, 'num_batches_tracked')
    if cnt in bufs:
        vs = [(e, v) for e, o, v in ws if o is cnt]
        total = Poly.a(cnt)
        ok = True
        if len(vs) != 1 or vs[0][1] is None:
            ok = None
        else:
            ok = poly(vs[0][1]) == Poly.a(cnt) + Poly.c(1)
            if ok and [x for x in vs[0][0].facts if x not in common_facts(r)]:
                ok = None
            if ok and in_loop(vs[0][0]):
                ok = False
        rep.ob('count', f'{c.name}.num_batches_tracked', ok, vs[0][0].loc() if vs else f.loc(), 'the batch counter is not increased by one per pass')
    for o in bufs:
        if o is cnt:
            continue
        counted = any(e.kind == 'mutate' for e, x, v in ws if x is cnt)
        update(p, rep, c, f, o, [(e, v) for e, x, v in ws if x is o], cnt, counted)


def data_of(v):
    """data a returned geometric tensor is built from"""
    if v.op == 'call' and callee_name(v.args[0]) == 'GeometricTensor':
        return dict(v.args[2]).get('tensor', v.args[1][0] if v.args[1] else None)
    return None


def common_facts(r):
    fs = [e.facts for e in r.of('return')]
    out = set(fs[0])
    for x in fs[1:]:
        out &= set(x)
    return out


def in_loop(e):
    return bool(getattr(e, 'loops', ()))


def update(p, rep, c, f, o, ws, cnt, counted):
    con = f'{c.name} {"".join(template(self_attr(o)))}'
    loc = ws[0][0].loc()
    if any(v is None for _, v in ws):
        return rep.undecide('update', con, loc, 'unrecognised in-place update')
    # the last write of every alternative carries the value
    e, v = ws[-1]
    try:
        q = poly(v)
    except Exception as x:
        return rep.undecide('update', con, loc, repr(x))
    a, b = {}, {}
    for m, k in q.d.items():
        hit = [x for x in m if x is o]
        if len(hit) > 1:
            return rep.undecide('update', con, loc, 'not linear')
        if hit:
            rest = list(m)
            rest.remove(o)
            a[tuple(rest)] = k
        else:
            if any(isinstance(x, T) and o in set(x.subterms()) for x in m):
                return rep.undecide('update', con, loc, 'the statistic occurs inside a subexpression')
            b[m] = k
    fpoly = Poly.c(1) - Poly(a)
    if len(fpoly.d) == 1 and list(fpoly.d.values())[0] == 1 and len(list(fpoly.d)[0]) == 1:
        fa = list(fpoly.d)[0][0]
    else:
        kept = Poly(a)
        if fpoly.const() is not None:
            msg = f'the running statistic keeps the constant share {kept!r} of its value'
            return rep.ob('update', con, False, e.loc(), msg)
        if all(isinstance(x, T) and (x is attr(SELF, 'momentum') or factor(x, cnt)) for m in kept.d for x in m):
            return rep.ob('update', con, False, e.loc(), f'the share {kept!r} of the old value is kept instead of 1 - momentum')
        return rep.undecide('update', con, loc, f'share {kept!r}')
    ok = bool(b) and all(any(akey(x) == akey(fa) for x in m) for m in b)
    if not ok:
        return rep.ob('update', con, False, e.loc(), 'the weights of the old value and of the batch statistic do not add up to one')
    fv = factor(fa, cnt, counted)
    if fv is None:
        return rep.undecide('update', con, loc, f'averaging factor {show(fa) if isinstance(fa, T) else fa}')
    rep.ob('update', con, fv is True, e.loc(), f'the averaging factor is not the momentum, or one over the number of batches: {fv}')


def factor(t, cnt, counted=False):
    """True: momentum if given, else 1 over the number of batches seen (this one included)"""
    if not isinstance(t, T):
        return None
    mom = attr(SELF, 'momentum')
    for cs, l in leaves(t):
        none = cmp('is', mom, NONE)
        if none in cs:
            if l.op == 'bin' and l.args[0] == '/' and l.args[1].op == 'const' and l.args[1].args[1] == 1:
                d = l.args[2]
                while d.op == 'call' and (d.args[0].op == 'attr' and d.args[0].args[1] in ('item', 'float') or d.args[0].op == 'ext' and d.args[0].args[0] == 'builtins.float'):
                    d = d.args[0].args[0] if d.args[0].op == 'attr' else d.args[1][0]
                q = poly(d)
                if q == Poly.a(cnt) + Poly.c(1):
                    continue
                if q == Poly.a(cnt) and not counted:
                    return '1/number of batches before this one'
            return f'{show(l)} without momentum' if l is mom else None
        if l is mom:
            continue
        if l.op == 'bin' and l.args[0] == '/' and cnt in set(l.subterms()) and neg(none) in cs:
            return f'{show(l)} although a momentum is given'
        if l.op == 'const' or all(x is mom for m in poly(l).d for x in m):
            return show(l)
        return None
    return True


def value_of(t):
    """constant a tensor is filled with"""
    if t.op != 'call':
        return None
    n = callee_name(t.args[0])
    if n == 'Parameter':
        d = dict(t.args[2]).get('data', t.args[1][0] if t.args[1] else None)
        return None if d is None else value_of(d)
    if n in ('ones', 'ones_like'):
        return 1
    if n in ('zeros', 'zeros_like'):
        return 0
    if n in ('tensor', 'full', 'full_like', 'as_tensor'):
        x = t.args[1][0 if n in ('tensor', 'as_tensor') else 1] if t.args[1] and (n not in ('full', 'full_like') or len(t.args[1]) > 1) else None
        if x is not None and x.op == 'const' and isinstance(x.args[1], (int, float)):
            return x.args[1]
    return None


def reset(p, rep, c):
    bufs = running(p, c)
    f = p.method(c, 'reset_running_stats')
    init = {}
    for n, v, e in registered(p, c):
        init.setdefault(template(n), set()).add(value_of(v))
    if f is not None:
        restores(p, rep, c, f, [template(self_attr(o)) for o in bufs], init)
    f = p.method(c, 'reset_parameters')
    if f is None:
        return
    names = []
    it, r = ctor(p, c)
    if r is None:
        return
    for e in r.events:
        if e.kind == 'register' and e['how'] == 'register_parameter':
            n = template(e['name'] if isinstance(e['name'], T) else const(e['name']))
            v = e['value']
            if n is not None and isinstance(v, T) and v.op == 'call' and callee_name(v.args[0]) == 'Parameter':
                init.setdefault(n, set()).add(value_of(v))
                if n not in names:
                    names.append(n)
    if p.method(c, 'reset_running_stats') is not None:
        names += [template(self_attr(o)) for o in bufs]
    restores(p, rep, c, f, names, init)


def restores(p, rep, c, f, names, init):
    heap = {}
    h = ctor_heap(p, c)
    for k in ('affine', 'track_running_stats'):
        if k in h:
            heap[(SELF, k)] = TRUE
    it = Interp(p, implications=True)
    r = it.run(f, c, heap=heap)
    done = {}
    opaque = [e for e in r.of('call') if e['fn'].op == 'bound' or (e['f'] is None and e['fn'].op not in ('ext', 'attr', 'class'))]
    for e, o, v in writes(p, c, r):
        n = template(self_attr(o))
        if v is not None and v.op == 'const' and isinstance(v.args[1], (int, float)):
            done.setdefault(n, []).append((e, v.args[1]))
        elif v is not None and value_of(v) is not None:
            done.setdefault(n, []).append((e, value_of(v)))
        elif v is None and (e.kind == 'mutate' and e['how'] in RANDOM_M or e.kind == 'call' and callee_name(e['fn']) in ('uniform_', 'normal_')):
            done.setdefault(n, []).append((e, 'random values'))
        else:
            done.setdefault(n, []).append((e, None))
    for n in names:
        con = f'{c.name}.{f.name} {"".join(n)}'
        want = init.get(n)
        if want is None or len(want) != 1 or None in want:
            rep.undecide('reset', con, f.loc(), 'initial value not recognised')
            continue
        want = list(want)[0]
        got = done.get(n)
        if not got:
            rep.ob('reset', con, None if opaque or None in done else False, f.loc(), f'is not restored by {f.name}()')
        else:
            e, v = got[-1]
            rep.ob('reset', con, None if v is None else v == want, e.loc(), f'is constructed with {want} but reset to {v}')


def settings(p, c):
    """constructor argument -> self attribute that stores it"""
    h = ctor_heap(p, c)
    return {v: attr(SELF, k) for k, v in h.items() if v.op == 'arg'}


def conditional(p, rep, c):
    it, r = ctor(p, c)
    if r is None:
        return
    sett = settings(p, c)
    conds = {}
    for e in r.events:
        if e.kind == 'register':
            n = e['name'] if isinstance(e['name'], T) else const(e['name'])
            v = e.data.get('value')
        elif e.kind == 'store' and e['base'] is SELF:
            n = e['name'] if isinstance(e['name'], T) else const(e['name'])
            v = e['value']
        else:
            continue
        tn = template(n)
        if tn is None:
            continue
        fs = set()
        for x in e.facts:
            if x in sett:
                fs.add(sett[x])
            elif x.op == 'not' and x.args[0] in sett:
                fs.add(neg(sett[x.args[0]]))
        conds.setdefault(tn, []).append(fs)
    need = {}
    for tn, alts in conds.items():
        common = set.intersection(*alts)
        # registered under the setting and never otherwise
        if common and all(a & common for a in alts):
            need[tn] = common
    if not need:
        return
    for m in methods_of(p, c):
        if m.name == '__init__':
            continue
        it2 = Interp(p, implications=True, record_reads=True)
        r2 = it2.run(m, c)
        for e in r2.of('read'):
            if e['base'] is SELF and feasible(e.facts):
                n = e['name'] if isinstance(e['name'], T) else const(e['name'])
                tn = template(n)
                if tn in need:
                    ok = need[tn] <= set(e.facts) or any(mentions_hasattr(x, n) for x in e.facts)
                    s = ', '.join(show(x) for x in need[tn])
                    rep.ob('conditional', f'{c.name}.{m.name} {"".join(tn)}', ok, e.loc(),
                           f'{"".join(tn)} only exists under "{s}" but is accessed without that condition')


def mentions_hasattr(x, n):
    return x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] == 'builtins.hasattr' and len(x.args[1]) == 2 and x.args[1][1] is n


def methods_of(p, c):
    out = {}
    for k in p.mro(c):
        if isinstance(k, ClassInfo):
            for n, m in k.methods.items():
                out.setdefault(n, m)
    return [m for n, m in sorted(out.items()) if n in ('forward', 'reset_parameters', 'reset_running_stats', 'export', '_export', 'expand_parameters', 'train')]
