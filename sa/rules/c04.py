"""Exported modules: the PyTorch module returned by export() is compared, operand by
operand, with the operator that forward() applies in evaluation mode; the tensors copied
into it must be the ones forward() reads in evaluation mode, fetched after the switch to
evaluation mode; per-channel batch-norm state must be laid out field by field."""
import re
from ..common import *
from ..interp import Interp
from .. import torchsig
from .c02 import gt_fields
from .c03 import Gen, opname, FN

ASSUMPTIONS = ['semantics of the torch.nn modules and of the functionals of the same name coincide',
               'representability of a normalisation by a channel-wise batch norm is not decided numerically']

TR = attr(SELF, 'training')
NNP = 'torch.nn.'
PARAMS = {'conv': ('stride', 'padding', 'dilation', 'groups'),
          'conv_transpose': ('stride', 'padding', 'output_padding', 'dilation', 'groups'),
          'max_pool': ('kernel_size', 'stride', 'padding', 'dilation', 'ceil_mode', 'return_indices'),
          'avg_pool': ('kernel_size', 'stride', 'padding', 'ceil_mode', 'count_include_pad', 'divisor_override'),
          'adaptive_avg_pool': ('output_size',), 'adaptive_max_pool': ('output_size', 'return_indices'),
          'relu': (), 'elu': ('alpha',), 'leaky_relu': ('negative_slope',),
          'interpolate': ('size', 'scale_factor', 'mode', 'align_corners'), 'linear': ()}
MOD = {'Conv': 'conv', 'ConvTranspose': 'conv_transpose', 'MaxPool': 'max_pool', 'AvgPool': 'avg_pool',
       'AdaptiveAvgPool': 'adaptive_avg_pool', 'AdaptiveMaxPool': 'adaptive_max_pool', 'ReLU': 'relu', 'ELU': 'elu',
       'LeakyReLU': 'leaky_relu', 'Upsample': 'interpolate', 'Linear': 'linear', 'Identity': 'identity', 'Dropout': 'identity',
       'BatchNorm': 'batch_norm', 'Sequential': 'sequential'}


def run(p, rep, tier):
    rep.rule('operator', 'the exported module applies the operator that forward applies in evaluation mode', 12)
    rep.rule('operand', 'every operand of that operator has, in the exported module, the value forward passes', 30)
    rep.rule('state', 'weights and biases copied into the exported module are those forward reads in evaluation mode', 6)
    rep.rule('eval-first', 'cached tensors are read only after the switch to evaluation mode', 6)
    rep.rule('bn-state', 'each batch-norm statistic/parameter is copied from its counterpart, at the indices of its fields, field-major', 16)
    rep.rule('bn-config', 'exported batch norms have the channel count, eps, affine flag and dimensionality of the layer', 12)
    rep.rule('container', 'the exported container holds the export of every sub-module, in order', 1)
    seen = 0
    for c in equivariant_modules(p):
        f = p.method(c, 'export')
        if f is None or f.is_abstract or f.cls.name == 'EquivariantModule' or not concrete(p, c, 'export', 'forward'):
            continue
        seen += 1
        try:
            check(p, rep, c, f)
        except AnalysisError:
            raise
        except Exception as e:                  # an idiom the rule does not understand: no verdict
            rep.undecide('operator', f'{c.name}.export', f.loc(), f'{type(e).__name__}: {e}')


def recanon(t):
    """bind the arguments of a library call once its callee is known"""
    if t.op == 'call' and t.args[0].op == 'ext':
        name = torchsig.canonical(t.args[0].args[0])
        kw = {k: v for k, v in t.args[2]}
        if '**' in kw:
            return t
        b = torchsig.bind(name, list(t.args[1]), kw)
        if b is not None:
            kk = dict(b[0])
            kk.update({n: const(v) for n, v in b[1].items()})
            return T('call', ext(name), (), tuple(sorted(kk.items())))
    return t


def strip_eval(t):
    while t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in ('eval', 'train', 'requires_grad_', 'to', 'cpu'):
        t = t.args[0].args[0]
    return t


def modname(t):
    """(kind, dim) of a torch.nn constructor call"""
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0].startswith(NNP):
        n = t.args[0].args[0][len(NNP):]
        m = re.match(r'^([A-Za-z]+?)([123])d$', n)
        if m and m.group(1) in MOD:
            return MOD[m.group(1)], int(m.group(2))
        if n in MOD:
            return MOD[n], None
    return None, None


def fname(t):
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0].startswith((FN, 'torch.')):
        n = t.args[0].args[0]
        n = n[len(FN):] if n.startswith(FN) else n[len('torch.'):]
        m = re.match(r'^([a-z_]+?)([123])d$', n)
        if m and m.group(1) in PARAMS:
            return m.group(1), int(m.group(2))
        if n in PARAMS:
            return n, None
        if n in ('dropout', 'dropout2d', 'dropout3d'):
            return 'dropout', None
    return None, None


def consistent(a, b):
    return not any(neg(x) in b for x in a)


def eval_mode(t):
    return subst(t, {TR: FALSE})


def forward_alternatives(p, c, fr, params):
    """(facts, tensor term) of the results of forward in evaluation mode"""
    out = []
    for e in fr.of('return'):
        if TR in e.facts:
            continue
        for conds, v in cases(eval_mode(e['value'])):
            facts = {x for x in e.facts} | {l for x in conds for l in literals(x)}
            if TR in facts or not feasible(facts):
                continue
            if v.op == 'arg' and v.args[0] in params:
                out.append((facts, attr(v, 'tensor'), e))
                continue
            g = gt_fields(v)
            if g is not None:
                out.append((facts, g[1], e))
    return out


def same(p, c, a, b):
    """equality of configuration operands (per axis)"""
    from ..arith import poly
    if a is b:
        return True
    g = Gen(p, c, None, None)
    return poly(a, g.atom) == poly(b, g.atom)


def simple(t):
    """configuration operand of certain meaning"""
    return t.op in ('const', 'attr', 'tuple', 'arg') or t.op == 'sub' and t.args[0].op == 'attr'


def check(p, rep, c, f):
    cons = f'{c.name}.export'
    r = Interp(p, record_reads=True).run(f, c)
    params = gt_params(p.method(c, 'forward'))
    fr = Interp(p).run(p.method(c, 'forward'), c)
    fwd = None
    for e in r.of('return'):
        v = strip_eval(e['value'])
        if modname(v)[0] == 'sequential':
            sequential(p, rep, c, cons, e, v, r)
            continue
        for conds, v in cases(v):
            facts = set(e.facts) | {l for x in conds for l in literals(x)}
            if not feasible(facts):
                continue
            v = recanon(strip_eval(v))
            kind, dim = modname(v)
            if kind is None:
                if is_ctor(v, 'MaxPoolChannels'):
                    gpool(p, rep, c, cons, e, v)
                elif v is NONE:
                    rep.ob('operator', cons, False, e.loc(), 'exports nothing')
                else:
                    rep.undecide('operator', cons, e.loc(), f'exported module not recognised: {show(v)[:80]}')
                continue
            if kind == 'batch_norm':
                batch_norm(p, rep, c, cons, e, v, facts, r, dim, fr)
                continue
            if fwd is None:
                fwd = forward_alternatives(p, c, fr, params)
            operator(p, rep, c, cons, e, v, facts, kind, dim, fwd, params, r)


def operator(p, rep, c, cons, e, v, facts, kind, dim, fwd, params, r):
    inp = attr(arg(params[0]), 'tensor') if params else None
    K = dict(v.args[2])
    alts = [(fc, t, ev) for fc, t, ev in fwd if consistent(facts, fc) and consistent(fc, facts)]
    if not alts:
        rep.undecide('operator', cons, e.loc(), 'no matching path of forward')
        return
    for fc, t, ev in alts:
        fk, fd = fname(t)
        if fk == 'dropout' and dict(t.args[2]).get('training') in (TR, FALSE):
            t = dict(t.args[2])['input']
            fk = None
        if t is inp:
            fk = 'identity'
        if fk is None:
            rep.undecide('operator', cons, e.loc(), f'operator of forward not recognised: {show(t)[:80]}')
            continue
        d_known = dim is None or fd is None or dim == fd
        if not d_known:
            # the number of spatial axes selects the operator; compare only alternatives of the same number
            dd = [x for x in facts | fc if x.op == 'cmp' and x.args[0] == '==' and attr(SELF, 'd') in x.args]
            if kind == fk and not dd and len({fname(x[1])[1] for x in alts}) > 1:
                continue
        rep.ob('operator', cons, kind == fk and d_known, e.loc(),
               f'exports {kind}{dim or ""} but forward applies {fk}{fd or ""}')
        if kind != fk or kind == 'identity':
            continue
        FK = dict(t.args[2])
        padded = FK.get('input')
        mode = None
        if kind == 'conv' and opname(padded) == 'pad':
            pk = dict(padded.args[2])
            mode = pk['mode']
            padded = pk['input']
        if padded is not inp:
            rep.undecide('operator', cons, e.loc(), f'operand of the operator is {show(padded)[:60]}')
        for a in PARAMS[kind]:
            if a not in FK or a not in K:
                continue
            if a == 'padding' and mode is not None:
                continue
            w, g = FK[a], K[a]
            ok = same(p, c, w, g)
            # an operand left at its default on both sides
            if not ok and a == 'align_corners' and {w, g} == {NONE, attr(SELF, '_align_corners')} and cmp('is', attr(SELF, '_align_corners'), NONE) in (fc | facts):
                ok = True
            if not ok and not (simple(w) and simple(g)):
                ok = None
            rep.ob('operand', cons, ok, e.loc(), f'{a}: exported {show(g)} but forward uses {show(w)}')
        if kind == 'conv':
            if mode is not None:
                g = K['padding_mode']
                rep.ob('operand', cons, g is mode or (None if not simple(g) else False), e.loc(),
                       f'padding_mode: exported {show(g)} but forward pads with {show(mode)}')
                rep.ob('operand', cons, pad_amounts(p, c, pk.get('pad')), e.loc(), 'forward does not pad each axis by the padding of that axis on both sides')
            elif K.get('padding_mode') is attr(SELF, 'padding_mode'):
                pm, z = attr(SELF, 'padding_mode'), const('zeros')
                ms = [x for x in fc if x.contains(pm)]
                other = [m for m in ('circular', 'reflect', 'replicate') if all(admits(x, pm, m) for x in ms)]
                known = all(admits(x, pm, 'zeros') is not None for x in ms)
                rep.ob('operand', cons, None if not known else not other, ev.loc(),
                       f'padding_mode: forward pads with zeros although {other[:1]} may have been asked for and is exported')
        if kind in ('conv', 'conv_transpose', 'linear'):
            a, b = ('in_features', 'out_features') if kind == 'linear' else ('in_channels', 'out_channels')
            for n, ty in ((a, 'in_type'), (b, 'out_type')):
                w = attr(attr(SELF, ty), 'size')
                rep.ob('operand', cons, K[n] is w or (False if K[n].op in ('attr', 'const') else None), e.loc(), f'{n}: {show(K[n])}')
            if kind != 'linear':
                w = attr(SELF, 'kernel_size')
                rep.ob('operand', cons, K['kernel_size'] is w or (False if K['kernel_size'].op in ('attr', 'const') else None), e.loc(),
                       f'kernel_size: {show(K["kernel_size"])}')
            weights(p, rep, c, cons, e, v, K, FK, r)


def admits(x, pm, m):
    """does the fact x allow pm to be the string m; None if unknown"""
    if x.op == 'not':
        r = admits(x.args[0], pm, m)
        return None if r is None else not r
    if x.op == 'cmp' and x.args[0] in ('==', '!='):
        o = [y for y in x.args[1:] if y is not pm]
        if len(o) == 1 and is_const(o[0]):
            return (o[0].args[1] == m) == (x.args[0] == '==')
    if x.op == 'cmp' and x.args[0] in ('in', 'not in') and x.args[1] is pm and x.args[2].op in ('tuple', 'list', 'set') and all(is_const(y) for y in x.args[2].args):
        return (m in [y.args[1] for y in x.args[2].args]) == (x.args[0] == 'in')
    if x.op in ('and', 'or'):
        rs = [admits(y, pm, m) for y in x.args]
        return None if None in rs else (all if x.op == 'and' else any)(rs)
    return None


def pad_amounts(p, c, t):
    """True: (last axis, last axis, ..., first axis, first axis) of the padding, False: another recognised arrangement"""
    h = ctor_heap(p, c)
    if t is not None and t.op == 'attr' and t.args[0] is SELF:
        t = h.get(t.args[1])
    if t is None:
        return None
    while t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('builtins.tuple', 'builtins.list') and len(t.args[1]) == 1:
        t = t.args[1][0]
    if t.op != 'comp' or len(t.args[2]) != 2 or any(g[1] for g in t.args[2]):
        return None
    (it, _), (rg, _) = t.args[2]
    if t.args[1] is not T('elem', it) or not (rg.op == 'call' and rg.args[0] is ext('builtins.range') and len(rg.args[1]) == 1 and is_const(rg.args[1][0])):
        return None
    if rg.args[1][0].args[1] != 2:
        return False
    rev = it.op == 'call' and it.args[0] is ext('builtins.reversed')
    if rev:
        it = it.args[1][0]
    elif it.op == 'sub' and it.args[1].op == 'slice' and is_const(it.args[1].args[2]) and it.args[1].args[2].args[1] == -1:
        rev, it = True, it.args[0]
    base = h.get('padding')
    for _, l in cases(it):
        for x in (l.args if l.op in ('tuple', 'list') else (l,)):
            if x is not base and x is not attr(SELF, 'padding'):
                return False if x.op == 'arg' else None
    return rev


def data_root(t):
    """tensor whose values t holds"""
    while True:
        if t.op == 'attr' and t.args[1] == 'data':
            t = t.args[0]
        elif t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in ('detach', 'clone', 'contiguous', 'to', 'cpu'):
            t = t.args[0].args[0]
        elif t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('torch.nn.Parameter', 'torch.clone', 'torch.detach', 'copy.deepcopy'):
            k = dict(t.args[2])
            t = k.get('data') or (t.args[1][0] if t.args[1] else t)
            if not isinstance(t, T):
                return t
        else:
            return t


def module_stores(r, v, name):
    """(event, value, index) writes to <exported>.<name>"""
    out = []
    target = attr(v, name)
    for e in r.events:
        if e.kind == 'store':
            b, n = e['base'], e['name']
            if is_same_module(b, v) and n == name:
                out.append((e, e['value'], None))
            elif n == 'data' and b.op == 'attr' and b.args[1] == name and is_same_module(b.args[0], v):
                out.append((e, e['value'], None))
        elif e.kind in ('storesub', 'mutate'):
            b = e['base'] if e.kind == 'storesub' else e['target']
            idx = e['idx'] if e.kind == 'storesub' else None
            if e.kind == 'mutate':
                if e['how'] not in ('copy_', 'fill_', 'zero_'):
                    continue
                if b.op == 'sub':
                    idx, b = b.args[1], b.args[0]
            b = strip_writes(b)
            if b.op == 'attr' and b.args[1] == name and is_same_module(b.args[0], v):
                if e.kind == 'mutate':
                    val = e['value'].args[1][0] if e['value'].args[1] else const(0.0)
                else:
                    val = e['value']
                out.append((e, val, idx))
    return out


def strip_writes(t):
    while True:
        if t.op in ('overlay', 'rec', 'recout', 'upd', 'loopval'):
            t = t.args[0]
        elif t.op == 'attr' and t.args[1] == 'data':
            t = t.args[0]
        elif t.op == 'ite':
            a, b = strip_writes(t.args[1]), strip_writes(t.args[2])
            if a is b:
                t = a
            else:
                return t
        else:
            return t


def is_same_module(t, v):
    t = strip_writes(t)
    if t is v:
        return True
    return any(recanon(x) is v for _, x in cases(t))


def weights(p, rep, c, cons, e, v, K, FK, r):
    loaded = any(ev.kind == 'call' and callee_name(ev['fn']) in ('load_state_dict', 'copy_', 'vector_to_parameters') for ev in r.events)
    for name in ('weight', 'bias'):
        want = data_root(eval_mode(FK[name]))
        st = module_stores(r, v, name)
        if not st:
            rep.ob('state', cons, None if loaded else False, e.loc(), f'the {name} of the exported module is never set')
            continue
        ev, val, idx = st[-1]
        got = data_root(eval_mode(val))
        whole = idx is None or idx.op == 'slice' and all(x is NONE for x in idx.args) or idx is const(Ellipsis) or idx.op == 'ellipsis'
        ok = got is want
        if not ok and not (got.op == 'attr' and want.op == 'attr'):
            ok = None
        rep.ob('state', cons, ok if whole else None, ev.loc(), f'{name}: exported {show(got)[:70]} but forward uses {show(want)[:70]}')
        if name == 'bias':
            flag = K['bias']
            nn = {cmp('is not', attr(SELF, 'bias'), NONE), cmp('is not', want, NONE)}
            if flag.op == 'const':
                rep.ob('state', cons, False if flag is FALSE else None, e.loc(), 'the exported module never has a bias')
            else:
                rep.ob('state', cons, flag in nn or (False if neg(flag) in nn else None), e.loc(), f'bias flag {show(flag)}')
            cond = [x for x in ev.facts if x.op == 'cmp' and NONE in x.args]
            bad = [x for x in cond if neg(x) in nn]
            rep.ob('state', cons, not bad, ev.loc(), 'the bias is copied only when there is none')
    # freshness
    sw = [ev.seq for ev in r.events if ev.kind == 'call' and callee_name(ev['fn']) in ('eval', 'train') and recv_self(ev)]
    ent = [ev.seq for ev in r.events if ev.kind == 'enter' and ev.data.get('f') is not None and ev['f'].name in ('eval', 'train')] if not sw else []
    first = min(sw + ent) if sw + ent else None
    for name in ('weight', 'bias'):
        want = data_root(eval_mode(FK[name]))
        if want.op == 'attr' and want.args[0] is SELF:
            reads = [ev for ev in r.events if ev.kind == 'read' and ev['base'] is SELF and ev['name'] == want.args[1] and ev.func.name == 'export' or
                     ev.kind == 'read' and ev['base'] is SELF and ev['name'] == want.args[1] and ev.func.name not in ('train', 'eval', 'expand_parameters')]
            for ev in reads:
                rep.ob('eval-first', cons, first is not None and first < ev.seq, ev.loc(),
                       f'self.{want.args[1]} is read before the layer is switched to evaluation mode (stale or missing)')


def recv_self(ev):
    fn = ev['fn']
    if fn.op == 'attr' and fn.args[0] is SELF:
        return True
    return fn.op == 'bound' and (fn.args[0] is SELF)


# ------------------------------------------------------------------ batch norm
STATE = ('running_mean', 'running_var', 'weight', 'bias')


def state_leaves(t):
    out = set()
    for s in t.subterms():
        n = None
        if s.op == 'attr' and s.args[1] in STATE:
            n = s.args[1]
        elif s.op == 'dynattr':
            k = s.args[1]
            last = k.args[-1] if k.op == 'str' else k
            if last.op == 'const' and isinstance(last.args[1], str):
                for a in STATE:
                    if last.args[1] == a or last.args[1].endswith('_' + a):
                        n = a
        if n:
            out.add(n)
    return out


def batch_norm(p, rep, c, cons, e, v, facts, r, dim, fr):
    K = dict(v.args[2])
    loc = e.loc()
    size = {attr(attr(SELF, 'in_type'), 'size'), attr(attr(SELF, 'out_type'), 'size')}
    rep.ob('bn-config', cons, K['num_features'] in size or (False if K['num_features'].op in ('attr', 'const') else None), loc, f'num_features {show(K["num_features"])}')
    rep.ob('bn-config', cons, K['eps'] is attr(SELF, 'eps') or (False if K['eps'].op in ('attr', 'const') else None), loc, f'eps: exported {show(K["eps"])}')
    rep.ob('bn-config', cons, K['affine'] is attr(SELF, 'affine') or (False if K['affine'].op in ('attr', 'const') else None), loc, f'affine: exported {show(K["affine"])}')
    rep.ob('bn-config', cons, False if K['track_running_stats'] is FALSE else True, loc, 'the exported batch norm does not keep running statistics')
    m = re.search(r'([123])d$', c.name)
    if m:
        rep.ob('bn-config', cons, dim == int(m.group(1)), loc, f'exports BatchNorm{dim}d')
    else:
        dm = attr(attr(attr(SELF, 'in_type'), 'gspace'), 'dimensionality')
        for l in facts:
            if l.op == 'cmp' and l.args[0] == '==' and dm in l.args:
                k = [x for x in l.args[1:] if x is not dm][0]
                if k.op == 'const':
                    rep.ob('bn-config', cons, dim == max(1, k.args[1]), loc, f'exports BatchNorm{dim}d on a base space of dimension {k.args[1]}')
    # forward in evaluation mode uses running statistics: refuse to export without them
    rep.ob('bn-config', cons, attr(SELF, 'track_running_stats') in e.facts, loc, 'exports although no running statistics are tracked')
    for a in STATE:
        st = module_stores(r, v, a)
        if not st:
            rep.ob('bn-state', cons, False, loc, f'{a} of the exported batch norm is never set')
            continue
        guarded_ok = True
        for ev, val, idx in st:
            src = state_leaves(val)
            if val.op == 'const':
                okc = a in ('running_mean', 'bias') and val.args[1] == 0 or a in ('running_var', 'weight') and val.args[1] == 1
                rep.ob('bn-state', cons, okc, ev.loc(), f'{a} is set to {val.args[1]}')
                continue
            if not src:
                rep.undecide('bn-state', cons, ev.loc(), f'source of {a} not recognised')
                continue
            rep.ob('bn-state', cons, src == {a}, ev.loc(), f'{a} of the exported batch norm is computed from {", ".join(sorted(src))}')
            aff = attr(SELF, 'affine')
            if a in ('running_mean', 'running_var'):
                rep.ob('bn-state', cons, aff not in ev.facts and neg(aff) not in ev.facts, ev.loc(), f'{a} is copied only for some values of affine')
            else:
                rep.ob('bn-state', cons, neg(aff) not in ev.facts, ev.loc(), f'{a} is copied only when there are no affine parameters')
            lay = layout(val)
            if lay is not None:
                rep.ob('bn-state', cons, lay, ev.loc(), f'{a}: values are not laid out field by field (channels of one field contiguous)')
            ix = index_ok(idx)
            rep.ob('bn-state', cons, ix, ev.loc(), f'{a}: written at {show(idx)[:80] if idx is not None else "whole tensor"}')


def index_ok(idx):
    """start:end of the field indices, or the index tensor itself"""
    if idx is None:
        return None
    if idx.op == 'slice':
        a, b, s = idx.args
        if a.op == 'sub' and b.op == 'sub' and a.args[0] is b.args[0] and s is NONE:
            return a.args[1] is const(0) and b.args[1] is const(1)
        return None
    return True if idx.op in ('call', 'attr', 'dynattr') else None


def is_n(t):
    return t.op == 'sub' and t.args[0].op == 'attr' and 'nfields' in t.args[0].args[1]


def layout(t):
    """True: values flattened with the field index major and the component minor; False: component major; None: unknown"""
    axes = None          # list of 'n','s','1'
    chain = []
    while t.op == 'call' and t.args[0].op == 'attr':
        chain.append((t.args[0].args[1], t.args[1], dict(t.args[2])))
        t = t.args[0].args[0]
    chain.reverse()

    def shape(a):
        if len(a) == 1 and a[0].op in ('tuple', 'list'):
            a = a[0].args
        out = []
        for x in a:
            if is_n(x):
                out.append('n')
            elif x is const(1):
                out.append('1')
            elif x is const(-1):
                out.append('*')
            else:
                out.append('s')
        return out
    flat = 'n'
    for name, a, k in chain:
        if name in ('view', 'reshape'):
            s = shape(a)
            if s == ['*']:
                if axes is not None:
                    flat = ''.join(x for x in axes if x != '1')
                axes = None
                continue
            core = [x for x in s if x != '1']
            if flat == 'n' and core in (['n'], ['*']):
                axes = ['n' if x == '*' else x for x in s]
            elif core == ['n', 's'] or core == ['*', 's'] or core == ['n', '*']:
                axes = ['n' if x == '*' and core[0] == '*' else 's' if x == '*' else x for x in s]
                flat = 'ns'
            else:
                return None
        elif name in ('expand', 'repeat') and axes is not None:
            s = shape(a)
            if len(s) != len(axes):
                return None
            new = []
            for x, y in zip(axes, s):
                if x == '1':
                    new.append(y)
                elif name == 'expand' and y in (x, '*') or name == 'repeat' and y == '1':
                    new.append(x)
                elif name == 'expand' and {x, y} == {'n', 's'}:
                    return False         # fits only if there are as many fields as components, and then it is transposed
                else:
                    return None
            axes = new
        elif name in ('t', 'T') and axes is not None:
            axes = axes[::-1]
        elif name == 'repeat' and axes is None and flat == 'n':
            flat = 'sn'
        elif name == 'repeat_interleave':
            if flat == 'n':
                flat = 'ns'
            else:
                return None
        elif name == 'flatten':
            if axes is not None:
                flat = ''.join(x for x in axes if x != '1')
            axes = None
        elif name in ('detach', 'clone', 'contiguous'):
            pass
        else:
            return None
    if axes is not None:
        flat = ''.join(x for x in axes if x != '1')
    return {'ns': True, 'sn': False}.get(flat)


# ------------------------------------------------------------------ group pooling, containers
def view_axis(shape, k):
    """axis of extent k in a view over (batch, fields, ...); None if unknown"""
    items = []
    if shape.op == 'bin' and shape.args[0] == '+':
        shape = shape.args[1]
    if shape.op in ('tuple', 'list'):
        items = list(shape.args)
    for i, x in enumerate(items):
        if x is k:
            return i
    return None


def holds(x, n, k):
    """truth of a comparison of n with a constant, for n = k"""
    a, b = [k if y is n else y.args[1] for y in x.args[1:]]
    return {'<': a < b, '<=': a <= b, '==': a == b, '!=': a != b, '>': a > b, '>=': a >= b}.get(x.args[0], True)


def gpool(p, rep, c, cons, e, v):
    k = kwargs_of(v)['kernel_size']
    keys = attr(SELF, '_contiguous')
    rep.ob('operator', cons, (k.contains(keys) or k.contains(attr(SELF, 'in_type'))) or None, e.loc(), f'pooling window {show(k)}')
    one = cmp('<=', T('call', ext('builtins.len'), (keys,), ()), const(1))
    alt = cmp('==', T('call', ext('builtins.len'), (keys,), ()), const(1))
    alt2 = cmp('<', T('call', ext('builtins.len'), (keys,), ()), const(2))
    mentions = [x for x in e.facts if x.contains(keys)]
    ok = True if {one, alt, alt2} & e.facts else (None if mentions else False)
    if ok is None:
        n = T('call', ext('builtins.len'), (keys,), ())
        # facts that bound the number of sizes, none of which excludes two of them
        if all(x.op == 'cmp' and n in x.args[1:] and all(y is n or is_const(y) for y in x.args[1:]) for x in mentions) and all(holds(x, n, 2) for x in mentions):
            ok = False
    rep.ob('operator', cons, ok, e.loc(), 'fields of different sizes would all be pooled with one window')
    m = p.cls('MaxPoolChannels')
    f = p.method(m, 'forward')
    r = Interp(p).run(f, m)
    ks = attr(SELF, 'kernel_size')
    for ev in r.of('return'):
        t = ev['value']
        t = t.args[0] if t.op == 'sub' else t
        if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in ('max', 'amax', 'min', 'mean', 'sum') and t.args[0].args[0].op == 'call':
            vw = t.args[0].args[0]
            dimarg = t.args[1][0] if t.args[1] else dict(t.args[2]).get('dim')
            if callee_name(vw.args[0]) in ('view', 'reshape') and dimarg is not None and dimarg.op == 'const':
                sh = vw.args[1][0] if len(vw.args[1]) == 1 else T('tuple', *vw.args[1])
                ax = view_axis(sh, ks)
                ok = t.args[0].args[1] in ('max', 'amax') and ax == dimarg.args[1] == 2
                rep.ob('operator', 'MaxPoolChannels.forward', ok if ax is not None else None, ev.loc(),
                       'does not take the maximum over groups of consecutive channels')
                continue
        rep.undecide('operator', 'MaxPoolChannels.forward', ev.loc(), 'form not recognised')


def sequential(p, rep, c, cons, e, v, r):
    a = [x for x in v.args[1]] + [x for _, x in v.args[2]]
    ok = None
    mods = attr(SELF, '_modules')
    for t in a:
        for s in t.subterms():
            if s.op == 'comp' and len(s.args[2]) == 1 and s.args[2][0][0] is mods:
                elt = s.args[1]
                if s.args[2][0][1]:
                    ok = False        # filtered
                    continue
                m = sub(mods, T('elem', mods))
                ex = [x for x in elt.subterms() if x.op == 'call' and callee_name(x.args[0]) == 'export' and x.args[0].args[0] is m]
                ok = bool(ex)
            if s.op == 'call' and s.args[0] in (ext('builtins.reversed'), ext('builtins.sorted')):
                ok = False
    rep.ob('container', cons, ok, e.loc(), 'the exported sequence is not the export of every sub-module in order')
