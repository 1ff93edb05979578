"""Output-shape prediction: the symbolic shape returned by evaluate_output_shape() is
brought to a canonical form (polynomials with floor/ceil quotients) and compared with
the shape law of the resampling operator that forward() really applies, with the very
stride / padding / dilation / kernel operands forward() passes to it."""
from ..common import *
from ..arith import *
from .c02 import gt_fields
from .coords import RESAMPLING
from ..interp import Interp

ASSUMPTIONS = ['shape laws of the torch operators (conv, transposed conv, pooling, interpolation) as documented',
               'pooling windows that would start beyond the right padding in ceil mode are not modelled']

X = T('sym', 'X')
FN = 'torch.nn.functional.'
# modules whose output type has, by construction, the size of their input type
SAME_SIZE = ('DisentangleModule', 'RestrictionModule', 'ReshuffleModule', 'MaskModule', 'TensorProductModule')


def run(p, rep, tier):
    rep.rule('batch', 'predicted batch extent is the input batch extent', 50)
    rep.rule('channels', 'predicted channel extent is the size of the declared out_type', 50)
    rep.rule('spatial-kept', 'fibre-wise modules predict unchanged spatial extents', 28)
    rep.rule('spatial-law', 'resampling modules predict the extent law of the operator applied by forward, axis by axis', 20)
    rep.rule('rank', 'the prediction accepts exactly the input ranks that forward accepts', 8)
    rep.rule('accepts', 'the prediction refuses no input shape that forward accepts (channels of the input type, any batch, any number of spatial axes)', 40)
    rep.rule('scalar-use', 'a configuration value accepted as a per-axis tuple is never used as a scalar by the prediction', 2)
    rep.rule('compose', 'containers predict by composing the predictions of their parts', 2)
    for c in equivariant_modules(p):
        if not concrete(p, c, 'evaluate_output_shape', 'forward'):
            continue
        f = p.method(c, 'evaluate_output_shape')
        if f is None or f.is_abstract:
            continue
        check(p, rep, c, f)


def check(p, rep, c, f):
    r = Interp(p).run(f, c)
    cons = f'{c.name}.evaluate_output_shape'
    resampling = any(p.is_subclass(c, n) for n in RESAMPLING)
    if c.name in ('SequentialModule', 'MergeModule', 'MultipleModule'):
        if not f.vararg and len(f.params) > 1:
            accepts(p, rep, c, f, r, cons, arg(f.params[1]), False)
        return container(p, rep, c, f, r, cons)
    if f.vararg or f.kwarg:
        shape = None
        params = []
        if f.vararg:
            va = T('vararg', f.vararg)
            ins = [sub(va, const(i)) for i in range(2)]
            shape = ins[-1]
    else:
        shape = arg(f.params[1])
        accepts(p, rep, c, f, r, cons, shape, resampling)
    for e in r.of('return'):
        for conds, v in cases(e['value']):
            facts = e.facts | {l for x in conds for l in literals(x)}
            if v.op == 'comp' and v.args[0] == 'dict':      # one shape per branch
                k, v2 = v.args[1].args
                ax = axes(v2, shape)
                if ax is not None:
                    rank(p, rep, c, cons, e, ax, shape, facts, resampling)
                branch_ok(p, rep, c, cons, e, ax, k, v.args[2], shape)
                continue
            ax = axes(v, shape)
            if ax is None:
                rep.undecide('channels', cons, e.loc(), f'shape not recognised: {show(v)[:90]}')
                continue
            scalar_use(p, rep, c, cons, e, v, facts)
            one(p, rep, c, cons, e, ax, shape, facts, resampling)


def branch_ok(p, rep, c, cons, e, ax, k, gens, shape):
    if ax is None or len(ax) < 2 or ax[0][0] != 'axis' or ax[1][0] != 'axis':
        rep.undecide('channels', cons, e.loc(), 'branch shape not recognised')
        return
    ok = ax[0][1] is sub(shape, const(0))
    rep.ob('batch', cons, ok or (False if plain(ax[0][1], shape) else None), e.loc(), f'batch extent {show(ax[0][1])}')
    ot = attr(SELF, 'out_type')
    ok = ax[1][1] is attr(sub(ot, k), 'size')
    rep.ob('channels', cons, ok, e.loc(), f'channel extent {show(ax[1][1])} of branch {show(k)}')
    kept(rep, cons, e, ax, shape)


def seg_slice(t, shape):
    """input_shape[a:b] with constant bounds"""
    if t.op == 'sub' and t.args[0] is shape and t.args[1].op == 'slice':
        a, b, s = t.args[1].args
        if s is not NONE:
            return None
        lo = 0 if a is NONE else a.args[1] if a.op == 'const' else None
        hi = None if b is NONE else b.args[1] if b.op == 'const' else 'x'
        if lo is None or hi == 'x':
            return None
        if hi is None:
            return [('rest', lo)]
        if hi >= 0:
            return [('axis', sub(shape, const(i))) for i in range(lo, hi)]
    return None


def axes(t, shape):
    """list of ('axis', term) | ('rest', k) | ('gen', term) | ('all', term)"""
    if t is shape:
        return [('rest', 0)]
    s = seg_slice(t, shape)
    if s is not None:
        return s
    if t.op in ('tuple', 'list'):
        out = []
        for x in t.args:
            if x.op == 'star':
                y = axes(x.args[0], shape)
                if y is None:
                    return None
                out += y
            else:
                out.append(('axis', x))
        return out
    if t.op == 'bin' and t.args[0] == '+':
        a, b = axes(t.args[1], shape), axes(t.args[2], shape)
        return a + b if a is not None and b is not None else None
    if t.op == 'call' and t.args[0] in (ext('builtins.tuple'), ext('builtins.list'), ext('torch.Size')) and len(t.args[1]) == 1:
        return axes(t.args[1][0], shape)
    if t.op == 'comp' and t.args[0] in ('list', 'gen') and len(t.args[2]) == 1 and not t.args[2][0][1]:
        return [('gen', t.args[1], t.args[2][0][0])]
    if t.op == 'overlay' and t.args[1].op == 'comp' and t.args[1].args[0] == 'dict':
        k, v = t.args[1].args[1].args
        return [('gen', v, t.args[1].args[2][0][0])]
    if t.op == 'attr' and t.args[0] is SELF:
        return [('all', t)]
    if t.op == 'star':
        return axes(t.args[0], shape)
    return None


def one(p, rep, c, cons, e, ax, shape, facts, resampling):
    heap = ctor_heap(p, c)
    # expand 'rest 0' heads
    ax = list(ax)
    while ax and ax[0][0] == 'rest' and ax[0][1] < 2:
        k = ax[0][1]
        ax = [('axis', sub(shape, const(i))) for i in range(k, 2)] + [('rest', 2)] + ax[1:]
    if len(ax) < 2 or ax[0][0] != 'axis' or ax[1][0] != 'axis':
        rep.undecide('channels', cons, e.loc(), 'shape not recognised')
        return
    ok = ax[0][1] is sub(shape, const(0))
    rep.ob('batch', cons, ok or (False if plain(ax[0][1], shape) else None), e.loc(), f'batch extent {show(ax[0][1])}')
    ot, it = attr(SELF, 'out_type'), attr(SELF, 'in_type')
    ch = ax[1][1]
    same = heap.get('in_type') is not None and heap.get('in_type') is heap.get('out_type') \
        or any(p.is_subclass(c, n) for n in SAME_SIZE) or cmp('==', it, ot) in facts
    chan_in = sub(shape, const(1))
    ok = ch is attr(ot, 'size')
    if not ok and same and (ch is attr(it, 'size') or ch is chan_in):
        ok = True
    if not ok and not plain(ch, shape):
        ok = None
    rep.ob('channels', cons, ok, e.loc(), f'channel extent {show(ch)} is not the size of the declared out_type')
    rank(p, rep, c, cons, e, ax, shape, facts, resampling)
    if not resampling:
        kept(rep, cons, e, ax, shape)
        return
    law(p, rep, c, cons, e, ax, shape, facts)


def plain(t, shape):
    """a form whose meaning is certain: a constant, an input extent, or the size of a declared type"""
    if t.op == 'const' or t.op == 'sub' and t.args[0] is shape and t.args[1].op == 'const':
        return True
    if t.op == 'attr' and t.args[1] == 'size':
        b = t.args[0]
        while b.op == 'sub':
            b = b.args[0]
        return b.op == 'attr' and b.args[0] is SELF and b.args[1] in ('in_type', 'out_type')
    if t.op == 'bin' and t.args[0] in ('+', '-', '*', '//'):
        return all(plain(x, shape) for x in t.args[1:])
    return False


def rank_fact(shape, facts):
    for l in facts:
        if l.op == 'cmp' and l.args[0] == '==':
            for a, b in ((l.args[1], l.args[2]), (l.args[2], l.args[1])):
                if a.op == 'call' and a.args[0] is ext('builtins.len') and a.args[1] == (shape,):
                    return b
    return None


def rank(p, rep, c, cons, e, ax, shape, facts, resampling):
    k = rank_fact(shape, facts)
    if k is None:
        return
    if k.op == 'const' and not resampling:
        n = k.args[1]
        if n <= 2:
            rep.ob('rank', cons, True, e.loc())
            return
        fr = Interp(p, record_reads=True).run(p.method(c, 'forward'), c)
        known = False
        for ev in fr.events:
            for l in ev.facts:
                if l.op == 'cmp' and const(n) in l.args:
                    known = True
        f = p.method(c, 'forward')
        for nd in ast.walk(f.node):
            if isinstance(nd, ast.Assign) and isinstance(nd.targets[0], ast.Tuple) and len(nd.targets[0].elts) == n \
                    and not any(isinstance(x, ast.Starred) for x in nd.targets[0].elts) and 'shape' in ast.unparse(nd.value):
                known = True
        rep.ob('rank', cons, known, e.loc(), f'the prediction insists on inputs with {n} axes although forward works on any number of spatial axes')
    elif resampling:
        segs = ax[2:]
        if all(s[0] == 'axis' for s in segs) and k.op == 'const':
            rep.ob('rank', cons, k.args[1] == 2 + len(segs), e.loc(), f'insists on {k.args[1]} axes but predicts {len(segs)} spatial extents')
        elif len(segs) == 1 and segs[0][0] == 'gen' and segs[0][2].op == 'call' and segs[0][2].args[0] is ext('builtins.range') and len(segs[0][2].args[1]) == 1:
            want = poly(segs[0][2].args[1][0]) + Poly.c(2)
            got = poly(k)
            rep.ob('rank', cons, got == want, e.loc(), f'insists on {got!r} axes but predicts {want!r}')


def same_types(p, c, facts=()):
    heap = ctor_heap(p, c)
    return heap.get('in_type') is not None and heap.get('in_type') is heap.get('out_type') \
        or any(p.is_subclass(c, n) for n in SAME_SIZE) or cmp('==', attr(SELF, 'in_type'), attr(SELF, 'out_type')) in facts


def forward_mentions(p, c, n):
    """forward itself restricts the number of axes to a bound that involves n"""
    fr = Interp(p, record_reads=True).run(p.method(c, 'forward'), c)
    for ev in fr.events:
        for l in ev.facts:
            if l.op == 'cmp' and any(const(k) in l.args for k in (n, n - 1, n + 1)) \
                    and any(w in show(l) for w in ('len(', 'shape', '.dim', 'ndim', '.size(')):
                return True
    f = p.method(c, 'forward')
    for nd in ast.walk(f.node):
        if isinstance(nd, ast.Assign) and isinstance(nd.targets[0], ast.Tuple) \
                and ast.unparse(nd.value).endswith(('.shape', '.size()')) and not any(isinstance(x, ast.Starred) for x in nd.targets[0].elts):
            return True
    return False


def accepts(p, rep, c, f, r, cons, shape, resampling):
    """what is required of the input shape whatever way the prediction ends"""
    rets = r.of('return')
    if not rets:
        return
    facts = set.intersection(*[set(e.facts) for e in rets])
    same = same_types(p, c, facts)
    size_in, size_out = attr(attr(SELF, 'in_type'), 'size'), attr(attr(SELF, 'out_type'), 'size')
    ln = call_len(shape)
    bad = []
    n = 0
    for l in facts:
        if not l.contains(shape) or l.op != 'cmp':
            continue
        o, a, b = l.args[0], l.args[1], l.args[2]
        n += 1
        if b is ln and o in ('<', '<=') and a.op == 'const' and isinstance(a.args[1], int):
            lo = a.args[1] + (o == '<')
            if lo > 2 and not resampling and not forward_mentions(p, c, lo):
                bad.append(f'requires at least {lo} axes, forward works on any number of spatial axes')
            continue
        if a is ln and o in ('<', '<=') and b.op == 'const' and isinstance(b.args[1], int) and not resampling:
            hi = b.args[1] - (o == '<')
            if not forward_mentions(p, c, hi):
                bad.append(f'accepts at most {hi} axes, forward works on any number of spatial axes')
            continue
        for x, y in ((a, b), (b, a)):
            if x.op == 'sub' and x.args[0] is shape and x.args[1].op == 'const' and isinstance(x.args[1].args[1], int):
                k = x.args[1].args[1]
                if y.contains(shape) or not plain(y, shape):
                    break
                if o == '==' and k == 1:
                    if not (y is size_in or y is size_out and same):
                        bad.append(f'requires {show(l)}: the channels of an input are those of in_type')
                elif o == '!=' and k == 1 and (y is size_in or y is size_out and same):
                    bad.append(f'requires {show(l)}: the channels of an input are those of in_type')
                elif o == '==' and (k == 0 or k >= 2 and y.op != 'const'):
                    bad.append(f'requires {show(l)}: axis {k} of an input is arbitrary')
                break
    rep.ob('accepts', cons, not bad, f.loc() if hasattr(f, 'loc') else rets[0].loc(), '; '.join(bad))


def call_len(t):
    return T('call', ext('builtins.len'), (t,), ())


def tuple_attrs(p, c):
    """attributes that keep a constructor argument which the constructor accepts as a tuple"""
    out = set()
    it, r = ctor(p, c)
    if r is None:
        return out
    tested = set()
    for ev in r.events:
        for l in list(ev.facts) + list(ev.pc or ()):
            for t in l.subterms():
                if t.op == 'call' and t.args[0] is ext('builtins.isinstance') and len(t.args[1]) == 2 and t.args[1][0].op == 'arg' \
                        and any(x is ext('builtins.tuple') for x in t.args[1][1].subterms()):
                    tested.add(t.args[1][0])
    for k, v in ctor_heap(p, c).items():
        if v in tested and isinstance(k, str):
            out.add(k)
    return out


def scalar_use(p, rep, c, cons, e, v, facts):
    for a in sorted(tuple_attrs(p, c)):
        t = attr(SELF, a)
        if not v.contains(t):
            continue
        if any(l.contains(t) for l in facts):      # the scalar / tuple cases are separated
            rep.ob('scalar-use', cons, True, e.loc())
            continue
        bad = [x for x in v.subterms() if x.op == 'bin' and x.args[0] in ('+', '-', '*', '/', '//') and t in x.args[1:]]
        rep.ob('scalar-use', cons, not bad, e.loc(), f'self.{a} may be a tuple but is used as a number')


def kept(rep, cons, e, ax, shape):
    rest = ax[2:]
    ok = True
    i = 2
    for s in rest:
        if s[0] == 'rest':
            ok = ok and s[1] == i
            i = None
        elif s[0] == 'axis':
            same = i is not None and s[1] is sub(shape, const(i))
            if not same and not plain(s[1], shape):
                rep.undecide('spatial-kept', cons, e.loc(), f'extent {show(s[1])[:80]}')
                return
            ok = ok and same
            i = i + 1 if i is not None else None
        else:
            rep.undecide('spatial-kept', cons, e.loc(), 'form of the spatial extents not recognised')
            return
    rep.ob('spatial-kept', cons, ok, e.loc(), 'predicted spatial extents are not those of the input')


# ---------------------------------------------------------------- operator laws
OPS = ('conv', 'conv_transpose', 'max_pool', 'avg_pool', 'adaptive_avg_pool', 'adaptive_max_pool', 'interpolate', 'pad')


def opname(t):
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0].startswith(FN):
        n = t.args[0].args[0][len(FN):]
        if n in ('interpolate', 'pad'):
            return n
        if n[-1:] == 'd' and n[-2:-1] in '123':
            if n[:-2] in OPS:
                return n[:-2]
    return None


class Gen:
    """per-axis (generic) reading of configuration terms"""

    def __init__(self, p, c, shape, axis, itvar=None):
        self.heap = ctor_heap(p, c)
        self.shape, self.axis, self.itvar = shape, axis, itvar

    def atom(self, t):
        sh = self.shape
        # input extents
        if sh is not None:
            if t.op == 'sub' and t.args[0] is sh:
                if self.axis is not None and t.args[1] is const(2 + self.axis):
                    return X
                i = t.args[1]
                if self.axis is not None and i.op == 'const':
                    return T('sym', 'X', i.args[1])                 # extent of another axis
                if self.itvar is not None and i.op == 'bin' and i.args[0] == '+' and {i.args[1], i.args[2]} == {self.itvar, const(2)}:
                    return X
            if t.op == 'sub' and t.args[0].op == 'sub' and t.args[0].args[0] is sh and t.args[0].args[1] is T('slice', const(2), NONE, NONE):
                if self.itvar is not None and t.args[1] is self.itvar:
                    return X
                if self.axis is not None and t.args[1] is const(self.axis):
                    return X
            if self.itvar is not None and t is self.itvar and t.op == 'elem' and t.args[0] is sub(sh, T('slice', const(2), NONE, NONE)):
                return X
        # configuration: per-axis component of an attribute
        if t.op == 'sub' and t.args[0].op == 'attr' and t.args[0].args[0] is SELF:
            if self.axis is not None and t.args[1] is const(self.axis) or self.itvar is not None and t.args[1] is self.itvar:
                return self.conf(t.args[0])
            if t.args[1].op == 'const':
                return T('conf', t.args[0].args[1], t.args[1].args[1])      # component of another axis
            return None
        if t.op == 'attr' and t.args[0] is SELF:
            return self.conf(t)
        if t.op == 'elem' and t.args[0].op == 'attr' and t.args[0].args[0] is SELF:
            return self.conf(t.args[0])
        if t.op == 'ite':
            a, b = poly(t.args[1], self.atom), poly(t.args[2], self.atom)
            if a == b:
                return a
            return t
        return None

    def conf(self, t):
        """canonical name of a configuration attribute; attributes computed by the constructor
        are replaced by their (per-axis) definition"""
        h = self.heap.get(t.args[1])
        if h is None:
            return T('conf', t.args[1])
        alts = set()
        for _, l in leaves(h):
            x = self.component(l)
            if x is None or any(y.op == 'arg' and y.args[0] == t.args[1].lstrip('_') for y in x.subterms()):
                return T('conf', t.args[1])
            alts.add(x)
        if len(alts) != 1:
            return T('conf', t.args[1])
        x = alts.pop()
        if x.op in ('arg', 'attr', 'ext') or x.op == 'call' and x.args[0].op != 'ext':
            return T('conf', t.args[1])
        return poly(x, self.ctor_atom)

    def component(self, l):
        if l.op == 'call' and l.args[0] in (ext('builtins.tuple'), ext('builtins.list')) and len(l.args[1]) == 1:
            l = l.args[1][0]
        if l.op in ('tuple', 'list') and l.args and all(x is l.args[0] for x in l.args):
            return l.args[0]
        if l.op == 'bin' and l.args[0] == '*' and l.args[1].op in ('tuple', 'list') and len(l.args[1].args) == 1:
            return l.args[1].args[0]
        if l.op == 'comp' and len(l.args[2]) == 1 and not l.args[2][0][1]:
            return l.args[1]
        if l.op in ('tuple', 'list', 'comp', 'overlay', 'loopval'):
            return None
        return l

    def ctor_atom(self, t):
        back = None
        base = t.args[0] if t.op in ('elem', 'sub') else t
        for k, v in self.heap.items():
            if isinstance(k, str) and v is base:
                back = k
        if back is not None:
            return T('conf', back)
        return None


def filter_size(heap):
    """side of a fixed blur filter built from torch.arange(side)"""
    f = heap.get('filter')
    if f is None:
        return None
    for t in f.subterms():
        if t.op == 'call' and t.args[0] is ext('torch.arange') and len(t.args[1]) == 1:
            return t.args[1][0]
    return None


def op_extent(t, g, ceil):
    """extent law of the operator call t (for a generic axis); ceil: value of ceil_mode assumed"""
    n = opname(t)
    k = kwargs_of(t)
    inp = k['input']
    inner = [x for x in inp.subterms() if opname(x)]
    inner = [x for x in inner if not any(y is not x and y.contains(x) for y in inner)]
    if inner:
        es = {op_extent(x, g, ceil).key(): op_extent(x, g, ceil) for x in inner}
        if len(es) != 1:
            return Poly.a(T('opaque', 'branches'))
        x = list(es.values())[0]
    else:
        x = Poly.a(X)
    P = lambda a: poly(k[a], g.atom)
    one = Poly.c(1)
    two = Poly.c(2)
    if n == 'pad':
        return x + two * Poly.a(T('conf', 'padding')) if k['pad'] is attr(SELF, '_reversed_padding_repeated_twice') else Poly.a(T('opaque', 'pad'))
    if n == 'conv':
        K = kernel(g)
        return quot('f', x + two * P('padding') - P('dilation') * (K - one) - one, P('stride')) + one
    if n == 'conv_transpose':
        K = kernel(g)
        return (x - one) * P('stride') - two * P('padding') + P('dilation') * (K - one) + P('output_padding') + one
    if n in ('max_pool', 'avg_pool'):
        K = P('kernel_size')
        D = P('dilation') if n == 'max_pool' else one
        S = P('stride') if k['stride'] is not NONE else K
        cm = k['ceil_mode']
        kind = 'f'
        if cm is TRUE or (cm.op == 'attr' and ceil):
            kind = 'c'
        return quot(kind, x + two * P('padding') - D * (K - one) - one, S) + one
    if n in ('adaptive_avg_pool', 'adaptive_max_pool'):
        return P('output_size')
    return Poly.a(T('opaque', n))


def kernel(g):
    fs = filter_size(g.heap)
    if fs is not None:
        return poly(fs, g.ctor_atom)
    return Poly.a(T('conf', 'kernel_size'))


def law(p, rep, c, cons, e, ax, shape, facts):
    f = p.method(c, 'forward')
    it = Interp(p)
    fr = it.run(f, c)
    ops = [ev['term'] for ev in fr.of('call') if opname(ev['term'])]
    outer = [t for t in ops if not any(o is not t and o.contains(t) for o in ops)]
    if not outer:
        rep.undecide('spatial-law', cons, e.loc(), 'no resampling operator recognised in forward')
        return
    ceil_attrs = {kwargs_of(t).get('ceil_mode') for t in ops} - {None, FALSE, TRUE}
    cm = list(ceil_attrs)[0] if ceil_attrs else None
    d = None
    segs = ax[2:]
    for j, s in enumerate(segs):
        if s[0] == 'axis':
            g = Gen(p, c, shape, j)
            term = s[1]
        elif s[0] == 'gen':
            g = Gen(p, c, shape, None, T('elem', s[2]))
            term = s[1]
        elif s[0] == 'all':
            g = Gen(p, c, shape, None, None)
            term = s[1]
        else:
            rep.ob('spatial-law', cons, False, e.loc(), 'predicts unchanged spatial extents although forward resamples the grid')
            continue
        got = poly(term, g.atom)
        for ceil in ((True, False) if cm is not None else (False,)):
            if cm is not None:
                if ceil and neg(cm) in facts or not ceil and cm in facts:
                    continue
            for t in outer:
                if opname(t) == 'interpolate':
                    k = kwargs_of(t)
                    size, sc = k['size'], k['scale_factor']
                    if cmp('is', size, NONE) in facts:
                        want = rounded_scale(g, sc)
                    elif cmp('is not', size, NONE) in facts:
                        want = poly(size, g.atom)
                    else:
                        rep.undecide('spatial-law', cons, e.loc(), 'size/scale case not separated')
                        continue
                else:
                    want = op_extent(t, g, ceil)
                ok = got == want
                if not ok and not (normal(got) and normal(want)):
                    ok = None
                rep.ob('spatial-law', cons, ok, e.loc(),
                       f'axis {j}: predicted {got!r} but forward ({opname(t)}{", ceil_mode" if ceil else ""}) yields {want!r}')


def normal(q):
    """polynomial over input extents, configuration values and arithmetic on them only"""
    for k in q.d:
        for a in k:
            if isinstance(a, Quot):
                if not (normal(a.n) and normal(a.d)):
                    return False
            elif a.op not in ('sym', 'conf') and not arithmetic(a):
                return False
    return True


def arithmetic(t):
    if t.op in ('sym', 'conf', 'const'):
        return True
    if t.op == 'arg':
        return True
    if t.op in ('bin', 'un'):
        return all(arithmetic(x) for x in t.args[1:])
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('builtins.round', 'builtins.int', 'math.ceil', 'math.floor') and not t.args[2]:
        return all(arithmetic(x) for x in t.args[1])
    return False


def rounded_scale(g, sc):
    return poly(T('call', ext('math.floor'), (T('bin', '*', X, sc),), ()), g.atom)


# ---------------------------------------------------------------- containers
def container(p, rep, c, f, r, cons):
    if c.name == 'SequentialModule':
        shape = arg(f.params[1])
        for e in r.of('return'):
            v = e['value']
            # out = input_shape; for m in modules: out = m.evaluate_output_shape(out)
            ok = v.op == 'recout' and v.args[0] is shape and v.args[2] is attr(SELF, '_modules')
            if ok:
                cc = call_of(v.args[1])
                ok = bool(cc) and cc[1] == 'evaluate_output_shape' and T('phiself') in call_args(v.args[1])
            if ok is False and v.op not in ('recout', 'arg', 'loopval', 'tuple', 'sub'):
                rep.undecide('compose', cons, e.loc(), 'form not recognised')
                continue
            rep.ob('compose', cons, ok, e.loc(), 'does not thread the shape through every sub-module in order')
    elif c.name == 'MultipleModule':
        shape = arg(f.params[1])
        for e in r.of('return'):
            v = e['value']
            cc = call_of(v)
            ok = bool(cc) and cc[1] == 'evaluate_output_shape' and any(
                a.contains(shape) and any(call_of(x, 'evaluate_output_shape') and call_of(x)[0] is attr(SELF, 'branching') for x in a.subterms())
                for a in call_args(v))
            recv_ok = bool(cc) and cc[0] is attr(SELF, 'merging')
            g = p.method(p.cls('MergeModule'), 'evaluate_output_shape')
            if ok and g is not None and g.kwarg and g.params == ['self'] and v.args[1]:
                rep.ob('compose', cons, False, e.loc(), 'passes the branch shapes positionally to a method taking them by keyword')
                continue
            rep.ob('compose', cons, ok and recv_ok, e.loc(), 'does not compose branching and merging predictions')
    elif c.name == 'MergeModule':
        calls = [e for e in r.of('call') if callee_name(e['fn']) == 'evaluate_output_shape']
        rep.ob('compose', cons, bool(calls), f.loc(), 'does not ask its sub-modules for their shapes')
        adds = [e for e in r.of('aug', 'storesub') if e.kind == 'aug' and e['op'] == '+']
