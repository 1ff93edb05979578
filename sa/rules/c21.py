"""Filters: the weights, the sampled basis and the channels of the fields, followed axis by axis from the weight vector to
the filter and to the messages (axis typing over the value terms; the side of every table is read off the constructor)."""
from ..common import *
from ..interp import Interp
from ..layout import Layout, Bad, Unk, integer, sh
from .c17 import nm, recv, is_int
from .c18 import val, where

ASSUMPTIONS = ['view, permute, einsum, meshgrid and index assignment of torch as documented',
               'KernelBasis.sample returns (points, basis elements, output, input), which is what its documentation says']

OUT, IN = ('g', 'u', 'o'), ('ic', 'i')


def run(p, rep, tier):
    rep.rule('sides', 'counts, sizes and indices of the input fields are looked up by the input representation, those of the output fields by the output representation', 8)
    rep.rule('ranges', 'the weights of a pair of representations are a slice of their own, one weight per basis element and pair of fields', 4)
    rep.rule('layout', 'the weights are read as (output field, input field, basis element) and every product pairs equal axes', 4)
    rep.rule('place', 'the block of a pair of representations is written to the rows of those output channels and the columns of those input channels', 4)
    rep.rule('block', 'a block is the sum of weight times basis element, laid out as (output, input, points)', 3)
    rep.rule('info', 'the description of a weight names the fields and irreps that this weight connects', 8)
    rep.rule('indices', 'the channels of a representation are those of its fields, in order', 3)
    rep.rule('layer', 'a layer applies the filter expanded from its own weights, reshaped to (output, input, grid)', 3)
    rep.rule('bias', 'the bias of a trivial irrep goes to the channels of its field along the matching column of the change of basis', 3)
    seen = 0
    for c in sorted((c for c in p.classes.values() if c.name in ('BlocksBasisExpansion', 'BlocksBasisSampler')), key=lambda c: c.qualname):
        seen += 1
        try:
            Blocks(p, rep, c).run()
        except Exception as e:
            rep.undecide('layout', c.name, c.module.relpath, repr(e)[:120])
    if not seen:
        raise AnalysisError('the classes that assemble filters were not found')
    for c in sorted((c for c in p.classes.values() if c.name in ('SingleBlockBasisExpansion', 'SingleBlockBasisSampler')), key=lambda c: c.qualname):
        for fn in (single, singleinfo):
            try:
                fn(p, rep, c)
            except Exception as e:
                rep.undecide('block', c.name, c.module.relpath, repr(e)[:120])
    for f in p.all_functions():
        if f.cls is None and f.module.relpath.startswith('escnn/nn/modules/'):
            fn = {'retrieve_indices': tables, 'normalize_basis': normalise, 'block_basisexpansion': masks, 'block_basissampler': masks, 'check_consecutive_numbers': None}.get(f.name)
            if fn is not None:
                try:
                    fn(p, rep, f)
                except Exception as e:
                    rep.undecide('indices', f.name, where(f), repr(e)[:120])
    for c in sorted(p.classes.values(), key=lambda c: c.qualname):
        if c.module.relpath.startswith('escnn/nn/modules/') and (c.name in ('_RdConv', '_RdConvTransposed', 'Linear', '_RdPointConv')):
            for fn in (layer, bias):
                try:
                    fn(p, rep, c)
                except Exception as e:
                    rep.undecide('layer', c.name, c.module.relpath, repr(e)[:120])


def private(g, r):
    return g.name.startswith('_') and not g.name.startswith('__') and g.cls is not None


def conjuncts(t):
    return [y for x in t.args for y in conjuncts(x)] if t.op == 'and' else [t]


def unwrap(t):
    while t.op == 'call' and nm(t) in ('list', 'sorted', 'tuple', 'keys', 'int', 'item', 'LongTensor', 'tensor', 'as_tensor', 'long', 'to', 'contiguous', 'values'):
        t = t.args[1][0] if t.args[1] and t.args[0].op != 'attr' else recv(t) if t.args[0].op == 'attr' and t.args[0].args[0].op not in ('ext', 'mod') else t.args[1][0] if t.args[1] else None
        if t is None:
            return NONE
    return t


class Blocks:
    def __init__(self, p, rep, c):
        self.p, self.rep, self.c = p, rep, c
        self.heap = {}
        r = self.init = Interp(p, inline=private, max_stmts=600).run(p.method(c, '__init__'), c)
        for k, v in r.state.heap.items():
            if k[0] is SELF:
                self.heap[k[1]] = v
        self.sampler = 'Sampler' in c.name

    def side_arg(self, t):
        """'in' / 'out' when t is the list of input / output representations"""
        t = unwrap(t) if t.op == 'call' and nm(t) in ('list', 'tuple') else t
        for s in ('in', 'out'):
            if t is arg(s + '_reprs') or t.op == 'attr' and t.args[0] is SELF and self.heap.get(t.args[1]) is arg(s + '_reprs'):
                return s
        return None

    def run(self):
        c, rep = self.c, self.rep
        w = c.name
        loc = where(self.p.method(c, '__init__'))
        # order of the pairs
        self.pos = None
        for v in self.heap.values():
            for t in v.subterms():
                if t.op == 'tuple' and len(t.args) == 2 and all(x.op == 'attr' and x.args[1] == 'name' and x.args[0].op == 'elem' for x in t.args):
                    ss = [self.side_arg(self.unset(x.args[0].args[0])) for x in t.args]
                    if sorted(map(str, ss)) == ['in', 'out']:
                        self.pos = {s: i for i, s in enumerate(ss)}
        if self.pos is None:
            rep.undecide('sides', w, loc, 'pairs of representations not recognised')
            return
        self.generator(w, loc)
        self.tabs = {}
        for k, v in self.heap.items():
            if isinstance(k, str):
                s = self.table(v)
                if s:
                    self.tabs[k] = s
        self.ranges(w, loc)
        self.bufs = {}
        for k, v in self.heap.items():
            if isinstance(k, T) and k.op == 'str' and k.args and k.args[0].op == 'const':
                b = self.buffer(v)
                if b:
                    self.bufs[k.args[0].args[1]] = b
        self.scan('__init__', [v for v in self.heap.values()])
        self.forward()
        if self.sampler:
            self.messages()
        for m in ('get_basis_info', 'get_element_info'):
            try:
                self.info(m)
            except Exception as e:
                rep.undecide('info', f'{w}.{m}', '', repr(e)[:120])

    def unset(self, t):
        while t.op == 'call' and nm(t) in ('set', 'list', 'sorted', 'tuple', 'frozenset', 'unique') and t.args[1]:
            t = t.args[1][0]
        return t

    def generator(self, w, loc):
        for e in self.init.of('call'):
            t = e['term'] if 'term' in e.data else None
            if t is not None and t.args[0] is arg('basis_generator') and len(t.args[1]) == 2:
                ss = [self.side_arg(self.unset(x.args[0])) if x.op == 'elem' else None for x in t.args[1]]
                if None in ss:
                    self.rep.undecide('sides', f'{w}: basis generator', e.loc(), show(t)[:80])
                else:
                    self.rep.ob('sides', f'{w}: basis generator', ss == ['in', 'out'], e.loc(), f'the kernels of a pair are built with {ss[0]}put representation first')

    def table(self, v):
        """(what, side) of a table keyed by representation name"""
        if v.op == 'sub' and is_int(v.args[1]) and v.args[0].op == 'call' and nm(v.args[0]) == 'retrieve_indices':
            s = self.side_arg(val(v.args[0], 'reprs', 0))
            k = v.args[1].args[1]
            if s and 0 <= k < 3:
                return (('count', 'indices', 'contiguous')[k], s)
        if v.op == 'comp' and v.args[0] == 'dict' and v.args[1].op == 'tuple' and len(v.args[2]) == 1:
            k, x = v.args[1].args
            over = v.args[2][0][0]
            s = self.side_arg(self.unset(over))
            e = T('elem', over)
            if s and k is attr(e, 'name') and x is attr(e, 'size'):
                return ('size', s)
        return None

    def tab(self, t):
        if t.op == 'attr' and t.args[0] is SELF:
            return self.tabs.get(t.args[1])
        return self.table(t)

    def scan(self, name, terms):
        """every look-up of a table by an entry of a pair"""
        found = {}
        todo, seen = [x for x in terms if isinstance(x, T)], set()
        for t in todo:
            for x in t.subterms():
                if x in seen:
                    continue
                seen.add(x)
                if x.op == 'sub' and x.args[1].op == 'sub' and is_int(x.args[1].args[1]):
                    tb = self.tab(x.args[0])
                    if tb:
                        found.setdefault(tb, set()).add(x.args[1].args[1].args[1] % 2)
        for (what, s), ks in sorted(found.items()):
            self.rep.ob('sides', f'{self.c.name}.{name}: {what} of the {s}put fields', ks == {self.pos[s]}, where(self.p.method(self.c, name)),
                        f'the {what} of {s}put fields are looked up by the representation of the {"out" if s == "in" else "in"}put')

    # ------------------------------------------------------------------------------------------------- weight ranges
    def lookup(self, t):
        """(what, side) of table[pair[k]]"""
        if t.op == 'sub' and t.args[1].op == 'sub' and is_int(t.args[1].args[1]):
            tb = self.tab(t.args[0])
            if tb and t.args[1].args[1].args[1] % 2 == self.pos[tb[1]]:
                return tb
            if tb:
                raise Bad(f'{tb[0]} of {tb[1]}put fields by the other representation')
        return None

    def factors(self, t):
        if t.op == 'bin' and t.args[0] == '*':
            return self.factors(t.args[1]) + self.factors(t.args[2])
        if t.op == 'call' and nm(t) == 'dimension':
            return ['dim']
        l = self.lookup(t)
        if l:
            return ['-'.join(l)]
        if is_int(t):
            return [str(t.args[1])]
        raise Unk(show(t)[:60])

    def ranges(self, w, loc):
        self.rng = None
        steps = {}
        for k, v in self.heap.items():
            if isinstance(k, str) and v.op == 'comp' and v.args[0] == 'dict' and v.args[1].op == 'tuple' and v.args[1].args[1].op == 'tuple' and len(v.args[1].args[1].args) == 2:
                lo, hi = v.args[1].args[1].args
                if lo.op == 'run' or hi.op == 'bin':
                    self.rng = k
                    over = v.args[2][0][0]
                    if lo.op != 'run' or lo.args[0] != '+' or lo.args[3] is not over or lo.args[4]:
                        self.rep.undecide('ranges', f'{w}.{k}', loc, show(lo)[:60])
                        continue
                    steps['step'] = lo.args[2]
                    from ..arith import poly
                    width = None
                    if hi.op == 'bin' and hi.args[0] == '+' and lo in hi.args[1:]:
                        width = hi.args[2] if hi.args[1] is lo else hi.args[1]
                    if width is None or not is_int(lo.args[1]):
                        self.rep.undecide('ranges', f'{w}.{k}', loc, show(hi)[:60])
                        continue
                    self.rep.ob('ranges', f'{w}: start', lo.args[1].args[1] == 0, loc, f'the first range starts at {lo.args[1].args[1]}')
                    try:
                        a, b = sorted(self.factors(width)), sorted(self.factors(lo.args[2]))
                        want = ['count-in', 'count-out', 'dim']
                        self.rep.ob('ranges', f'{w}: length', a == want, loc, f'the weights of a pair are {" * ".join(a)}')
                        self.rep.ob('ranges', f'{w}: next start', b == want, loc, f'the next range starts {" * ".join(b)} further')
                    except Bad as e:
                        self.rep.ob('ranges', f'{w}: length', False, loc, str(e))
                    except Unk as e:
                        self.rep.undecide('ranges', f'{w}: length', loc, str(e))
        for k, v in self.heap.items():
            if isinstance(k, str) and v.op == 'fold' and v.args[0] == '+' and not v.args[4]:
                try:
                    a = sorted(self.factors(v.args[2]))
                except (Bad, Unk):
                    continue
                self.rep.ob('ranges', f'{w}: total', a == ['count-in', 'count-out', 'dim'] and v.args[1] is const(0), loc, f'the number of weights adds up {" * ".join(a)}')

    # ------------------------------------------------------------------------------------------------- index buffers
    def source(self, t):
        """side of the channel indices that t is: retrieve_indices(..)[1][pair[k]]"""
        t = unwrap(t) if t.op == 'call' and nm(t) in ('to', 'long', 'contiguous', 'LongTensor') else t
        try:
            l = self.lookup(t)
        except Bad:
            tb = self.tab(t.args[0])
            l = tb
        return l[1] if l and l[0] == 'indices' else None

    def end(self, t):
        """('min' | 'max+1' | 'size', side)"""
        if t.op == 'call' and nm(t) in ('min', 'max', 'numel', 'len', 'amin', 'amax'):
            x = recv(t) if t.args[0].op == 'attr' and t.args[0].args[0].op != 'ext' else t.args[1][0]
            s = self.source(x)
            n = nm(t)
            return (('size' if n in ('numel', 'len') else n.lstrip('a') if n != 'max' else 'max', s) if s else None)
        if t.op == 'call' and nm(t) in ('int', 'item'):
            return self.end(t.args[1][0] if t.args[1] else recv(t))
        if t.op == 'sub' and t.args[0].op == 'attr' and t.args[0].args[1] == 'shape' and self.source(t.args[0].args[0]):
            return 'size', self.source(t.args[0].args[0])
        if t.op == 'bin' and t.args[0] in '+-':
            from ..arith import poly as _p
            terms = {}

            def go(x, s):
                if x.op == 'bin' and x.args[0] in '+-':
                    go(x.args[1], s)
                    go(x.args[2], s if x.args[0] == '+' else -s)
                elif is_int(x):
                    terms['1'] = terms.get('1', 0) + s * x.args[1]
                else:
                    e = self.end(x)
                    if e is None:
                        raise Unk('')
                    terms[e] = terms.get(e, 0) + s
            try:
                go(t, 1)
            except Unk:
                return None
            terms = {k: v for k, v in terms.items() if v}
            ss = {k[1] for k in terms if k != '1'}
            if len(ss) == 1:
                s = ss.pop()
                if terms == {('max', s): 1, '1': 1}:
                    return 'max+1', s
                if terms in ({('max', s): 1, ('min', s): -1, '1': 1}, {('max+1', s): 1, ('min', s): -1}):
                    return 'size', s
                return 'other', s
        return None

    def buffer(self, v):
        """{'list': [(kind, side)..], 'index': ('plain', side) | ('mesh', side, order)}"""
        out = {}
        for conds, l in leaves(v):
            if l.op in ('dynattr', 'phiself') or l.op == 'call' and nm(l) == 'getattr':
                continue
            if l.op in ('list', 'tuple'):
                out['list'] = [self.end(x) for x in l.args]
                continue
            m = self.mesh(l)
            if m:
                out['index'] = m
            elif self.source(l):
                out['index'] = ('plain', self.source(l))
        return out

    def mesh(self, l, src=None):
        src = src or self.source
        if l.op == 'call' and nm(l) in ('reshape', 'view', 'flatten', 'ravel') and l.args[0].op == 'attr':
            x = recv(l)
            if x.op == 'sub' and is_int(x.args[1]) and x.args[0].op == 'call' and nm(x.args[0]) == 'meshgrid':
                m = x.args[0]
                a = list(m.args[1][0].args) if len(m.args[1]) == 1 and m.args[1][0].op in ('list', 'tuple') else list(m.args[1])
                ss = [src(y) for y in a]
                ind = dict(m.args[2]).get('indexing')
                if len(a) == 2 and None not in ss and (ind is None or ind.op == 'const'):
                    ij = ind is None or ind.args[1] == 'ij'
                    return ('mesh', ss[x.args[1].args[1] % 2], tuple(ss if ij else ss[::-1]))
        return None

    def buf(self, t):
        if t.op == 'dynattr' and t.args[0] is SELF and t.args[1].op == 'str' and t.args[1].args[0].op == 'const':
            return self.bufs.get(t.args[1].args[0].args[1])
        return None

    def atoms(self, s):
        return OUT if s == 'out' else IN

    # ------------------------------------------------------------------------------------------------- axis typing
    def layout(self, uniform):
        whole = {'in': IN if uniform else ('I',), 'out': OUT if uniform else ('g', 'O')}
        sizes = {k: whole['in' if v.args[2].args[0].args[0] is arg('in_reprs') else 'out'] for k, v in self.heap.items()
                 if isinstance(k, str) and v.op == 'fold' and v.args[2].op == 'attr' and v.args[2].args[1] == 'size' and v.args[2].args[0].op == 'elem' and v.args[2].args[0].args[0] in (arg('in_reprs'), arg('out_reprs'))}
        pts = {k for k, v in self.heap.items() if isinstance(k, str) and v.op == 'sub' and v.args[0].op == 'attr' and v.args[0].args[1] == 'shape' and v.args[0].args[0] is arg('points') and v.args[1] is const(0)}

        def size(t):
            if t.op == 'attr' and t.args[0] is SELF:
                if t.args[1] in sizes:
                    return list(sizes[t.args[1]])
                if t.args[1] in pts:
                    return ['p']
            if t is arg('groups'):
                return ['g']
            if t.op == 'sub' and t.args[0].op == 'attr' and t.args[0].args[1] == 'shape' and t.args[1] is const(0) and t.args[0].args[0] in (arg('points'), arg('input')):
                return ['p']
            l = self.lookup(t)
            if l:
                return {('count', 'in'): ['ic'], ('count', 'out'): ['g', 'u'], ('size', 'in'): ['i'], ('size', 'out'): ['o']}.get(l)
            if t.op == 'call' and nm(t) == 'dimension' and self.block(recv(t)):
                return ['b']
            if t.op == 'sub' and is_int(t.args[1]):
                b = self.buf(t.args[0])
                if b and 'list' in b and -len(b['list']) <= t.args[1].args[1] < len(b['list']):
                    e = b['list'][t.args[1].args[1]]
                    if e and e[0] == 'size':
                        return list(self.atoms(e[1]))
                    if e:
                        raise Bad(f'entry {t.args[1].args[1]} of the index list of the {e[1]}put channels is no size')
            if t.op == 'bin' and t.args[0] == '-':
                a = [self.entry(x) for x in t.args[1:]]
                if a[0] and a[1] and a[0][0] == 'max+1' and a[1][0] == 'min' and a[0][1] == a[1][1]:
                    return list(self.atoms(a[0][1]))
            return None

        def base(t):
            if t is arg('input'):
                return [('p',), ('g',) + whole['in']]
            if t is arg('points'):
                return [('p',), ('d',)]
            if t.op == 'sub' and t.args[0] is arg('weights') and t.args[1].op == 'slice':
                lo, hi, st = t.args[1].args
                if st is NONE and lo.op == hi.op == 'sub' and lo.args[0] is hi.args[0] and is_int(lo.args[1]) and is_int(hi.args[1]) and lo.args[0].op == 'sub' and lo.args[0].args[0] is attr(SELF, self.rng or ''):
                    if (lo.args[1].args[1], hi.args[1].args[1] % 2) == (0, 1):
                        return [('g', 'u', 'ic', 'b')]
                    raise Bad('the weights of a pair are not cut from the start to the end of its range')
            return None

        def index(i, a):
            if i.op == 'slice' and i.args[2] is NONE:
                lo, hi = self.entry(i.args[0]), self.entry(i.args[1])
                if lo and hi:
                    if (lo[0], hi[0]) != ('min', 'max+1') or lo[1] != hi[1]:
                        raise Bad(f'channels are cut from {lo[0]} of the {lo[1]}put to {hi[0]} of the {hi[1]}put channels')
                    return self.chan(lo[1], a, whole)
            b = self.buf(i)
            if b and b.get('index', (None,))[0] == 'plain':
                return self.chan(b['index'][1], a, whole)
            return None

        def call(t, n, L):
            f = t.args[0]
            if f is SELF:
                return [('p',), whole['out'], whole['in']] if self.sampler else [whole['out'], whole['in'], ('p',)]
            if self.block(f):
                if self.sampler:
                    return [('p',), ('o',), ('i',), ('b',)]
                l = L.of(t.args[1][0])
                if len(l) != 2 or l[1] != ('b',):
                    raise Bad(f'a block is expanded with weights laid out as {sh(l)}')
                return [l[0], ('o',), ('i',), ('p',)]
            return None
        return Layout(base, size, index, call)

    def entry(self, t):
        if t.op == 'sub' and is_int(t.args[1]):
            b = self.buf(t.args[0])
            if b and 'list' in b and -len(b['list']) <= t.args[1].args[1] < len(b['list']):
                return b['list'][t.args[1].args[1]]
        return None

    def chan(self, s, a, whole):
        if a == whole[s]:
            return [self.atoms(s)]
        raise Bad(f'an axis laid out as {"·".join(a)} is indexed with the {s}put channels')

    def block(self, t):
        return t is not None and t.op == 'dynattr' and t.args[0] is SELF and t.args[1].op == 'str' and t.args[1].args[0].op == 'const' and t.args[1].args[0].args[1].startswith('block_')

    def uniform(self, conds):
        """1 pair only (True), any number (False), None when a condition is not recognised"""
        for c in conds:
            pos = True
            if c.op == 'not':
                c, pos = c.args[0], False
            cs = conjuncts(c)
            for x in list(cs):
                if x.op == 'attr' and x.args[0] is SELF and isinstance(self.heap.get(x.args[1]), T):
                    cs += conjuncts(self.heap[x.args[1]])
            for x in cs:
                if x.op == 'cmp' and x.args[0] == '==' and const(1) in x.args[1:]:
                    y = x.args[2] if x.args[1] is const(1) else x.args[1]
                    if y.op == 'attr' and y.args[0] is SELF:
                        y = self.heap.get(y.args[1], y)
                    if y.op == 'bin' and y.args[0] == '*' and all(z.op == 'call' and nm(z) == 'len' for z in y.args[1:]) and pos:
                        return True
        return False

    def forward(self):
        f = self.p.method(self.c, 'forward')
        r = Interp(self.p, inline=private, max_stmts=600).run(f, self.c)
        self.scan('forward', [r.ret])
        want = lambda w: [('p',), w['out'], w['in']] if self.sampler else [w['out'], w['in'], ('p',)]
        self.values('forward', f, r.ret, want)

    def messages(self):
        f = self.p.method(self.c, 'compute_messages')
        r = Interp(self.p, inline=private, max_stmts=900).run(f, self.c)
        self.scan('compute_messages', [r.ret])
        self.values('compute_messages', f, r.ret, lambda w: [('p',), w['out']])

    def values(self, name, f, ret, want):
        w = f'{self.c.name}.{name}'
        n = 0
        done = set()
        for conds, v in leaves(ret):
            if v is NONE or v in done:
                continue
            done.add(v)
            n += 1
            uni = self.uniform(conds)
            L = self.layout(uni)
            whole = {'in': IN if uni else ('I',), 'out': OUT if uni else ('g', 'O')}
            if v.op == 'recout':
                self.loop(w, f, v, uni, L, whole, want(whole))
                continue
            try:
                l = L.of(v)
                self.rep.ob('layout', f'{w}: {"one block" if uni else "whole"}', l == want(whole), where(f), f'the result is laid out as {sh(l)} instead of {sh(want(whole))}')
            except Bad as e:
                self.rep.ob('layout', f'{w}: {"one block" if uni else "whole"}', False, where(f), str(e))
            except Unk as e:
                self.rep.undecide('layout', f'{w}: value {n}', where(f), str(e))

    def zeros(self, t):
        """the tensor that is filled"""
        for _, x in leaves(t):
            if x.op == 'call' and nm(x) in ('zeros', 'new_zeros'):
                return x
        return None

    def loop(self, w, f, v, uni, L, whole, want):
        init, body, over = v.args[:3]
        ups = []

        def go(t, conds):
            if t.op == 'ite':
                go(t.args[1], conds + (t.args[0],))
                go(t.args[2], conds + (neg(t.args[0]),))
            elif t.op == 'upd':
                ups.append((conds, t))
                go(t.args[0], conds)
            elif t.op == 'loopval':
                go(t.args[1], conds)
        go(body, ())
        target = self.zeros(init) or next((z for z in (self.zeros(u.args[0]) for _, u in ups) if z is not None), None)
        if target is None or not ups:
            self.rep.undecide('place', w, where(f), 'target of the blocks not recognised')
            return
        try:
            tl = L.of(target)
            self.rep.ob('place', f'{w}: target', tl == want, where(f), f'the tensor that is filled is laid out as {sh(tl)} instead of {sh(want)}')
        except Bad as e:
            self.rep.ob('place', f'{w}: target', False, where(f), str(e))
            return
        except Unk as e:
            self.rep.undecide('place', f'{w}: target', where(f), str(e))
            return
        for conds, u in ups:
            base, ix, value = u.args
            acc = False
            if value.op == 'bin' and value.args[0] == '+':
                for a, b in ((value.args[1], value.args[2]), (value.args[2], value.args[1])):
                    if a.op == 'sub' and a.args[1] is ix:
                        value, acc = b, True
                        break
            kind = 'slices' if any(x.op == 'slice' and x.args[0] is not NONE for x in (ix.args if ix.op == 'tuple' else (ix,))) else 'indices'
            ww = f'{w}: {kind}'
            try:
                tgt = self.target(tl, ix, L, whole)
                l = L.of(value)
                self.rep.ob('place', ww, l == tgt, where(f), f'a block laid out as {sh(l)} is written to {sh(tgt)}')
                if name_is(w, 'compute_messages'):
                    self.rep.ob('place', ww + ' add', acc, where(f), 'the messages from one input representation replace those of another')
            except Bad as e:
                self.rep.ob('place', ww, False, where(f), str(e))
            except Unk as e:
                self.rep.undecide('place', ww, where(f), str(e))

    def target(self, tl, ix, L, whole):
        ixs = list(ix.args) if ix.op == 'tuple' else [ix]
        out, k, joint = [], 0, []
        for i in ixs:
            if i is NONE or i.op == 'const':
                raise Unk('index')
            if i.op == 'slice' and all(x is NONE for x in i.args):
                out.append(tl[k])
                k += 1
                continue
            b = self.buf(i)
            m = b.get('index') if b else None
            if m is None or m[0] != 'mesh':
                m2 = self.mesh(i, lambda t: (self.buf(t) or {}).get('index', (None, None))[1] if (self.buf(t) or {}).get('index', (None,))[0] == 'plain' else None)
                m = m2 or m
            if m and m[0] == 'mesh':
                if tl[k] != whole[m[1]]:
                    raise Bad(f'an axis laid out as {"·".join(tl[k])} is indexed with the {m[1]}put channels')
                joint.append((k, m))
                if len(joint) == 2:
                    if joint[0][1][2] != m[2] or joint[0][0] != k - 1:
                        raise Unk('index pairs')
                    out.append(tuple(x for s in m[2] for x in self.atoms(s)))
                k += 1
                continue
            a = L.index(i, tl[k])
            if a is None:
                raise Unk(f'index {show(i)[:50]}')
            out += a
            k += 1
        if len(joint) == 1:
            raise Unk('one flattened index')
        return out + tl[k:]

    # ------------------------------------------------------------------------------------------------- descriptions
    def sides_in(self, t):
        """sides mentioned by t, outside of what the block module says"""
        out, seen, todo = set(), set(), [t]
        while todo:
            x = todo.pop()
            if not isinstance(x, T):
                if isinstance(x, tuple):
                    todo += list(x)
                continue
            if x in seen:
                continue
            seen.add(x)
            s = self.side_arg(x) if x.op == 'attr' else None
            if s:
                out.add(s)
            elif x.op == 'const':
                if x.args[1] in ('in_irrep_idx', 'in_irrep'):
                    out.add('in')
                if x.args[1] in ('out_irrep_idx', 'out_irrep'):
                    out.add('out')
            elif x.op == 'call' and (nm(x) in ('get_element_info', 'get_basis_info') or nm(x) == 'copy'):
                continue
            elif x.op in ('recout',) and not any(self.side_arg(y) for y in x.subterms() if y.op == 'attr'):
                continue
            else:
                todo += list(x.args)
        return out

    def prefix(self, t):
        """step of the running count in a position: its terms"""
        out = []
        parts, todo = [], [t]
        while todo:
            x = todo.pop()
            if x.op == 'bin' and x.args[0] == '+':
                todo += x.args[1:]
            else:
                parts.append(x.args[0] if x.op == 'sub' else x)
        for x in parts:
            if x.op == 'run' and x.args[0] == '+':
                out.append((x.args[1], x.args[2], x.args[3]))
            if x.op == 'recout' and x.args[1].op == 'mut' and x.args[1].args[0] == 'append' and x.args[0].op == 'list' and len(x.args[0].args) == 1:
                a = x.args[1].args[2][0] if x.args[1].args[2] else None
                if a is not None and a.op == 'bin' and a.args[0] == '+':
                    for q, s in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
                        if q.op == 'sub' and q.args[0].op == 'phiself' and integer(q.args[1]) == -1:
                            out.append((x.args[0].args[0], s, x.args[2]))
        return out

    def info(self, m):
        f = self.p.method(self.c, m)
        w = f'{self.c.name}.{m}'
        r = Interp(self.p, inline=private, max_stmts=600).run(f, self.c)
        evs = [e for e in r.events if e.kind == 'yield'] if m == 'get_basis_info' else [e for e in r.events if e.kind == 'return' and e['value'] is not NONE]
        if not evs:
            self.rep.undecide('info', w, where(f), 'nothing returned')
            return
        for e in evs:
            v = e['value']
            d, t = {}, v
            while t.op in ('upd', 'mut'):
                if t.op == 'upd':
                    if t.args[1].op == 'const':
                        d.setdefault(t.args[1].args[1], t.args[2])
                    t = t.args[0]
                else:
                    if t.args[0] == 'update' and t.args[2] and t.args[2][0].op == 'dict':
                        for kv in t.args[2][0].args:
                            k, x = (kv.args if isinstance(kv, T) else kv)
                            if k.op == 'const':
                                d.setdefault(k.args[1], x)
                    t = t.args[1]
            for k, x in sorted(d.items(), key=lambda y: str(y[0])):
                s = str(k).partition('_')[0]
                if s not in ('in', 'out'):
                    continue
                if k in ('in_repr', 'out_repr'):
                    if x.op == 'sub' and is_int(x.args[1]):
                        self.rep.ob('info', f'{w}: {k}', x.args[1].args[1] % 2 == self.pos[s], e.loc(), f'{k} is the other entry of the pair')
                    else:
                        self.rep.undecide('info', f'{w}: {k}', e.loc(), show(x)[:60])
                    continue
                ss = self.sides_in(x)
                if not ss:
                    self.rep.undecide('info', f'{w}: {k}', e.loc(), show(x)[:60])
                    continue
                self.rep.ob('info', f'{w}: {k}', ss == {s}, e.loc(), f'{k} is computed from the {" and ".join(sorted(y + "put" for y in ss))} side')
                if k.endswith('irreps_position'):
                    pr = [(a, st, ov) for a, st, ov in self.prefix(x) if self.side_arg(ov)]
                    for a, st, ov in pr:
                        good = st.op == 'call' and nm(st) == 'len' and st.args[1][0] is attr(T('elem', ov), 'irreps')
                        known = st.op == 'attr' and st.args[0] is T('elem', ov) or is_int(st) or st.op == 'call' and nm(st) == 'len'
                        if good or known:
                            self.rep.ob('info', f'{w}: {k} prefix', good and a is const(0), e.loc(), f'{k} counts {show(st)[:50]} from {show(a)[:10]}')
            # order of the loops
            ov = [x for x in (self.loopside(l) for l in e.loops) if x]
            if ov in (['out', 'in'], ['in', 'out']):
                self.rep.ob('info', f'{w}: order', ov == ['out', 'in'], e.loc(), 'the input field is the outer index of the weights')
            else:
                self.rep.undecide('info', f'{w}: order', e.loc(), str(ov))
            if m == 'get_element_info':
                for x in v.subterms():
                    if x.op == 'call' and nm(x) == 'get_element_info' and self.block(recv(x)) and x.args[1]:
                        a = x.args[1][0]
                        if a.op == 'bin' and a.args[0] in ('%', '//') and a.args[2].op == 'call' and nm(a.args[2]) == 'dimension':
                            self.rep.ob('info', f'{w}: element', a.args[0] == '%', e.loc(), 'the element of the block is the quotient by its dimension')
                for c in e.facts:
                    for x in (c.subterms()):
                        if x.op == 'bin' and x.args[0] in ('%', '//') and x.args[2].op == 'call' and nm(x.args[2]) == 'dimension' and c.op == 'cmp':
                            self.rep.ob('info', f'{w}: block', x.args[0] == '//', e.loc(), 'the pair of fields is the remainder by the dimension of the block')
            if m == 'get_basis_info' and 'id' in d:
                x = d['id']
                if x.op == 'run' and x.args[0] == '+':
                    self.rep.ob('info', f'{w}: id', x.args[2] is const(1), e.loc(), f'the id of a weight advances by {show(x.args[2])[:30]}')

    def loopside(self, l):
        over = l[0] if isinstance(l, tuple) else l
        if not isinstance(over, T):
            return None
        ss = {self.side_arg(x) for x in over.subterms() if x.op == 'attr'} - {None}
        return ss.pop() if len(ss) == 1 else None


def name_is(w, n):
    return w.endswith('.' + n)


# ----------------------------------------------------------------------------------------------------- one block
def single(p, rep, c):
    heap = ctor_heap_private(p, c)
    sampler = 'Sampler' in c.name
    mask = [heap.get('_mask')] + [attr(SELF, '_mask')]
    loc = where(p.method(c, '__init__'))

    def is_mask(i):
        return any(m is not None and i is m for m in mask)

    def size(t):
        return None

    def attrs_of(t):
        """list of one number per element of the basis"""
        if t.op == 'call' and nm(t) in ('tensor', 'array', 'as_tensor', 'FloatTensor') and t.args[1]:
            return attrs_of(t.args[1][0])
        if t.op == 'comp' and t.args[0] in ('list', 'gen') and len(t.args[2]) == 1 and not t.args[2][0][1]:
            return t.args[2][0][0] is arg('basis')
        if t.op == 'fold' and t.args[0] == '+' and not t.args[4]:
            return t.args[3] is arg('basis')
        return False

    def base(t):
        if t is arg('weights') and not sampler:
            return [('k',), ('b',)]
        if t is arg('points'):
            return [('p',), ('d',)]
        if t.op == 'attr' and t.args[0] is SELF and isinstance(heap.get(t.args[1]), T) and heap[t.args[1]].op in ('call', 'bin', 'sub', 'ite', 'upd', 'mut'):
            v = heap[t.args[1]]
            return L.of(v)
        if t.op == 'call' and attrs_of(t):
            return [('b0',)]
        if t.op == 'ite' and t.args[0].op == 'cmp' and NONE in t.args[0].args[1:] and any(is_mask(x) for x in t.args[0].args[1:]):
            return L.of(t.args[2 if t.args[0].args[0] in ('is', '==') else 1])       # the mask is never None
        return None

    def index(i, a):
        if is_mask(i):
            if a != ('b0',):
                raise Bad(f'the mask over basis elements selects entries of the axis {"·".join(a)}')
            return [('b',)]
        if i.op == 'call' and nm(i) in ('tensor', 'as_tensor', 'to') and i.args[1] and is_mask(i.args[1][0]):
            return index(i.args[1][0], a)
        return None

    def call(t, n, LL):
        if n == 'sample' and (recv(t) is arg('basis') or recv(t) is attr(SELF, 'basis')):
            return [('p',), ('b0',), ('o',), ('i',)]
        if n == 'normalize_basis':
            x = val(t, 'basis', 0)
            l = LL.of(x)
            s = LL.of(val(t, 'sizes', 1))
            if l[:1] != s:
                raise Bad(f'a basis laid out as {sh(l)} is normalised with one size per {"·".join(s[0]) if s else "number"}')
            return l
        return None
    L = Layout(base, size, index, call)
    f = p.method(c, 'forward')
    r = Interp(p, inline=private, max_stmts=300).run(f, c)
    want = [('p',), ('o',), ('i',), ('b',)] if sampler else [('k',), ('o',), ('i',), ('p',)]
    done = set()
    for conds, v in leaves(r.ret):
        if any(x.op == 'cmp' and x.args[0] in ('is', '==') and attr(SELF, '_mask') in x.args[1:] and NONE in x.args[1:] for x in conds):
            continue        # the mask is never None
        try:
            l = L.of(v)
            rep.ob('block', f'{c.name}.forward', l == want, where(f), f'the result is laid out as {sh(l)} instead of {sh(want)}')
        except Bad as e:
            rep.ob('block', f'{c.name}.forward', False, where(f), str(e))
        except Unk as e:
            rep.undecide('block', f'{c.name}.forward', where(f), str(e))
    # dimension = number of elements kept
    d = p.method(c, 'dimension')
    v = Interp(p, max_stmts=50).run(d, c).ret
    try:
        if v.op == 'sub' and v.args[0].op == 'attr' and v.args[0].args[1] == 'shape':
            n = L.size(v)
            rep.ob('block', f'{c.name}.dimension', n == ['b'], where(d), f'the dimension is the size of {"·".join(n)}')
        elif v.op == 'call' and nm(v) == 'sum' or v.op == 'call' and nm(v) in ('int', 'item', 'count_nonzero'):
            rep.ob('block', f'{c.name}.dimension', v.contains(attr(SELF, '_mask')), where(d), 'the dimension does not count the elements kept')
        else:
            rep.undecide('block', f'{c.name}.dimension', where(d), show(v)[:60])
    except Bad as e:
        rep.ob('block', f'{c.name}.dimension', False, where(d), str(e))
    except Unk as e:
        rep.undecide('block', f'{c.name}.dimension', where(d), str(e))


def ctor_heap_private(p, c):
    r = Interp(p, inline=private, max_stmts=400).run(p.method(c, '__init__'), c)
    return {k[1]: v for k, v in r.state.heap.items() if k[0] is SELF and isinstance(k[1], str)}


def singleinfo(p, rep, c):
    """elements dropped by the mask are skipped, the others numbered in order"""
    for m in ('get_basis_info', 'get_element_info'):
        f = p.method(c, m)
        r = Interp(p, inline=private, max_stmts=200).run(f, c)
        evs = [e for e in r.events if e.kind == 'yield'] if m == 'get_basis_info' else [e for e in r.events if e.kind == 'return' and e['value'] is not NONE]
        for e in evs:
            w = f'{c.name}.{m}'
            fs = [x for cnd in e.facts for x in conjuncts(cnd)]
            want = T('sub', attr(SELF, '_mask'), T('idx', attr(SELF, 'basis')))
            if any(x is want for x in fs):
                rep.ob('info', f'{w}: mask', True, e.loc())
            elif any(x is T('not', want) for x in fs):
                rep.ob('info', f'{w}: mask', False, e.loc(), 'the elements described are those the mask drops')
            else:
                rep.undecide('info', f'{w}: mask', e.loc(), ' '.join(show(x)[:40] for x in fs))
            v = e['value']
            if v.op == 'upd' and v.args[1] is const('id') and v.args[2].op in ('run', 'rec') and v.args[2].op == 'run':
                n = v.args[2]
                ok = n.args[1] is const(0) and n.args[2] is const(1) and any(x is want for cnd in n.args[4] for x in conjuncts(cnd))
                if n.args[4] == () or any(x is want for cnd in n.args[4] for x in conjuncts(cnd)):
                    rep.ob('info', f'{w}: id', ok, e.loc(), f'the id is {show(n)[:80]}')


# ----------------------------------------------------------------------------------------------------- tables
def tables(p, rep, f):
    r = Interp(p, max_stmts=200).run(f, None)
    v = r.ret
    if v.op != 'tuple' or len(v.args) != 3:
        rep.undecide('indices', f.name, where(f), show(v)[:60])
        return
    R = arg(f.params[0])
    e = T('elem', R)
    name = attr(e, 'name')

    def groups(t, kind):
        """what is added to the entry of each representation"""
        if t.op == 'overlay':
            return groups(t.args[0], kind)
        if t.op == 'recout' and t.args[2] is R:
            b = t.args[1]
            if b.op == 'upd' and b.args[1] is name:
                x = b.args[2]
                if x.op == 'bin' and x.args[0] == '+':
                    for a, y in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                        if a.op == 'sub' and a.args[0].op == 'phiself' and a.args[1] is name:
                            return y
                if x.op == 'mut' and x.args[0] == 'extend':
                    return x.args[2][0]
        return None
    n = groups(v.args[0], 'count')
    if n is not None and is_int(n):
        rep.ob('indices', f'{f.name}: count', n.args[1] == 1, where(f), f'every field counts {n.args[1]}')
    else:
        rep.undecide('indices', f'{f.name}: count', where(f), show(v.args[0])[:80])
    x = groups(v.args[1], 'indices')
    x = unwrap(x) if x is not None else None
    if x is not None and x.op == 'call' and nm(x) in ('range', 'arange') and len(x.args[1]) == 2:
        lo, hi = x.args[1]
        if lo.op == 'run' and lo.args[0] == '+' and lo.args[3] is R:
            st = lo.args[2]
            rep.ob('indices', f'{f.name}: start', lo.args[1] is const(0) and st is attr(e, 'size') and not lo.args[4], where(f), f'a field starts at the sum of {show(st)[:40]} before it')
            w = hi.args[2] if hi.op == 'bin' and hi.args[0] == '+' and hi.args[1] is lo else hi.args[1] if hi.op == 'bin' and hi.args[0] == '+' and hi.args[2] is lo else None
            if w is not None:
                rep.ob('indices', f'{f.name}: length', w is attr(e, 'size'), where(f), f'a field has {show(w)[:40]} channels')
            else:
                rep.undecide('indices', f'{f.name}: length', where(f), show(hi)[:60])
            return
        if is_int(lo) or lo.op == 'idx':
            rep.ob('indices', f'{f.name}: start', False, where(f), f'every field starts at {show(lo)[:40]}')
            return
    rep.undecide('indices', f'{f.name}: channels', where(f), show(v.args[1])[:80])


def normalise(p, rep, f):
    """every element of the basis is divided by a number"""
    B = arg(f.params[0])
    r = Interp(p, max_stmts=200).run(f, None)

    def base(t):
        if t is B:
            return [('b',), ('o',), ('i',), ('p',)]
        if t is arg('sizes'):
            return [('b',)]
        return None

    def size(t):
        if t.op == 'bin' and t.args[0] == '-' and t.args[1].op == 'call' and nm(t.args[1]) == 'len':
            return None
        return None

    class LL(Layout):
        def einsum(self, spec, ops):
            s = spec.args[1].replace(' ', '')
            if len(ops) == 1 and ops[0].op in ('tuple', 'list'):
                ops = list(ops[0].args)
            if len(ops) == 2 and s == 'bop...,bpq...->boq...' and ops[0] is B:
                return [('b',), ('o',), ('o',), ('p',)] if self.of(ops[1]) == [('b',), ('i',), ('o',), ('p',)] else self.bad(s)
            return Layout.einsum(self, spec, ops)

        def bad(self, s):
            raise Bad(f'einsum {s} does not multiply every element with its transpose')

        def sizes(self, args):
            if len(args) == 2 and args[1].op == 'star':
                v = args[1].args[0]
                if v.op == 'bin' and v.args[0] == '*' and any(x.op == 'list' and x.args == (const(1),) for x in v.args[1:]):
                    return [self.size(args[0]), [], [], []]
            return Layout.sizes(self, args)
    L = LL(base, size)
    v = r.ret
    if v.op == 'bin' and v.args[0] == '/' and v.args[1] is B:
        try:
            l = L.of(v.args[2])
            rep.ob('block', f.name, l in ([('b',), (), (), ()],), where(f), f'the basis is divided by a tensor laid out as {sh(l)}')
        except Bad as e:
            rep.ob('block', f.name, False, where(f), str(e))
        except Unk as e:
            rep.undecide('block', f.name, where(f), str(e))
    else:
        rep.undecide('block', f.name, where(f), show(v)[:80])


def masks(p, rep, f):
    """the filter is asked about the element it selects"""
    r = Interp(p, max_stmts=200).run(f, None)
    for t in r.ret.subterms():
        if t.op == 'overlay' and t.args[1].op == 'comp' and t.args[1].args[0] == 'dict' and t.args[1].args[1].op == 'tuple':
            k, v = t.args[1].args[1].args
            while v.op == 'call' and nm(v) == 'bool' and v.args[1]:
                v = v.args[1][0]
            if k.op == 'idx' and v.op == 'call' and v.args[0] is arg('basis_filter') and len(v.args[1]) == 1:
                rep.ob('block', f'{f.name}: filter', v.args[1][0] is T('elem', k.args[0]) and k.args[0] is arg('basis'), where(f), 'the filter is asked about another element')
            elif v.op in ('not', 'un') and k.op == 'idx' and any(x.op == 'call' and x.args[0] is arg('basis_filter') for x in v.subterms()):
                rep.ob('block', f'{f.name}: filter', False, where(f), 'the elements kept are those the filter rejects')
            else:
                rep.undecide('block', f'{f.name}: filter', where(f), show(v)[:60])


# ----------------------------------------------------------------------------------------------------- layers
def layer(p, rep, c):
    heap = ctor_heap_private(p, c)
    transposed = 'Transposed' in c.name

    def is_basis(t):
        return t.op == 'attr' and t.args[0] is SELF and t.args[1].lstrip('_') in ('basisexpansion', 'basissampler')

    def wts(t, w, loc):
        if t is attr(SELF, 'weights'):
            rep.ob('layer', f'{w}: weights', True, loc)
        elif t is not None and t.op == 'attr' and t.args[0] is SELF:
            rep.ob('layer', f'{w}: weights', False, loc, f'the filter is expanded from {show(t)}')
        else:
            rep.undecide('layer', f'{w}: weights', loc, show(t)[:50] if t is not None else '')
    for e in ctor_calls(p, c):
        t = e['term']
        if t.op == 'call' and nm(t) in ('BlocksBasisExpansion', 'BlocksBasisSampler'):
            for k, (s, i) in {'in_reprs': ('in_type', 0), 'out_reprs': ('out_type', 1)}.items():
                x = val(t, k, i)
                while x is not None:
                    if x.op == 'attr' and x.args[1] == 'representations':
                        x = x.args[0]
                    elif x.op == 'ite' and {origin(x.args[1]), origin(x.args[2])} & {arg(s), attr(SELF, s)} and origin(x.args[1]) is origin(x.args[2]):
                        x = origin(x.args[1])
                    else:
                        x = origin(x)
                        break
                if x is not None and any(x is y for y in (arg('in_type'), arg('out_type'), attr(SELF, 'in_type'), attr(SELF, 'out_type'))):
                    rep.ob('layer', f'{c.name}: {k}', x in (arg(s), attr(SELF, s)), e.loc(), f'the {k} of the filter are those of {show(x)}')
                else:
                    rep.undecide('layer', f'{c.name}: {k}', e.loc(), show(x)[:50] if x is not None else '')
    f = p.method(c, 'expand_parameters')
    if f is None:
        return
    w = f'{c.name}.expand_parameters'
    r = Interp(p, inline=lambda g, q: g.cls is not None and g.name in ('expand_filter', 'expand_bias') or private(g, q), max_stmts=200).run(f, c)
    sampler = 'Point' in c.name

    def base(t):
        return None

    def size(t):
        if t.op == 'bin' and t.args[0] == '*' and any(x.op == 'tuple' for x in t.args[1:]):
            return ['p']
        return None

    def call(t, n, L):
        if is_basis(t.args[0]):
            return [('p',), ('O',), ('I',)] if sampler else [('O',), ('I',)] if c.name == 'Linear' else [('O',), ('I',), ('p',)]
        return None
    L = Layout(base, size, None, call)
    for conds, v in leaves(r.ret):
        if v.op != 'tuple' or len(v.args) != 2:
            rep.undecide('layer', w, where(f), show(v)[:60])
            continue
        fl, b = v.args
        for t in fl.subterms():
            if t.op == 'call' and is_basis(t.args[0]):
                wts(t.args[1][0] if t.args[1] else dict(t.args[2]).get('weights'), w, where(f))
        want = [('p',), ('O',), ('I',)] if sampler else [('O',), ('I',)] if c.name == 'Linear' else [('I',), ('O',), ('p',)] if transposed else [('O',), ('I',), ('p',)]
        try:
            l = L.of(fl)
            rep.ob('layer', f'{w}: filter', l == want, where(f), f'the filter is laid out as {sh(l)} instead of {sh(want)}')
        except Bad as e:
            rep.ob('layer', f'{w}: filter', False, where(f), str(e))
        except Unk as e:
            rep.undecide('layer', f'{w}: filter', where(f), str(e))
        for _, bb in leaves(b):
            if bb is NONE:
                continue
            if bb.op == 'bin' and bb.args[0] == '@' or bb.op == 'call' and nm(bb) in ('matmul', 'mv'):
                x, y = bb.args[1:] if bb.op == 'bin' else ([recv(bb)] + list(bb.args[1]))[:2] if bb.args[0].op == 'attr' else bb.args[1][:2]
                if {x, y} <= {attr(SELF, 'bias'), attr(SELF, 'bias_expansion')}:
                    rep.ob('bias', f'{w}: bias', x is attr(SELF, 'bias_expansion'), where(f), 'the bias is multiplied from the other side')
                    continue
            rep.undecide('bias', f'{w}: bias', where(f), show(bb)[:60])
    m = p.method(c, 'message')
    if m is not None and m.cls is c:
        v = Interp(p, inline=private, max_stmts=100).run(m, c).ret
        if v.op == 'call' and nm(v) == 'compute_messages':
            wts(val(v, 'weights', 0), f'{c.name}.message', where(m))
            for k, i, x in (('input', 1, 'x_j'), ('points', 2, 'edge_delta')):
                y = val(v, k, i)
                if y is not None and y.op == 'arg':
                    rep.ob('layer', f'{c.name}.message: {k}', y is arg(x), where(m), f'the {k} of the messages are {show(y)}')
            g = val(v, 'groups', 4)
            if g is None or g.op in ('const', 'attr'):
                rep.ob('layer', f'{c.name}.message: groups', g is attr(SELF, 'groups'), where(m), f'the groups of the messages are {show(g) if g is not None else 1}')


def origin(t):
    """the type some of whose fields t takes"""
    while True:
        if t.op == 'attr' and t.args[1] == 'representations':
            t = t.args[0]
        elif t.op == 'call' and nm(t) == 'index_select' and recv(t) is not None:
            t = recv(t)
        elif t.op == 'ite' and origin(t.args[1]) is origin(t.args[2]):
            t = origin(t.args[1])
        else:
            return t


def ctor_calls(p, c):
    r = Interp(p, inline=private, max_stmts=400).run(p.method(c, '__init__'), c)
    return [e for e in r.of('call') if 'term' in e.data]


def bias(p, rep, c):
    heap = ctor_heap_private(p, c)
    v = heap.get('bias_expansion')
    loc = where(p.method(c, '__init__'))
    w = f'{c.name}: bias_expansion'
    if v is None:
        rep.undecide('bias', w, loc, 'not found')
        return
    done = False
    for conds, l in leaves(v):
        for t in l.subterms():
            if t.op != 'comp' or t.args[0] != 'dict' or t.args[1].op != 'tuple' or t.args[1].args[0].op != 'tuple':
                continue
            key, x = t.args[1].args
            if len(key.args) != 2 or key.args[0].op != 'slice' or done:
                continue
            done = True
            (lo, hi, st), col = key.args[0].args, key.args[1]
            irreps, conds2 = t.args[2][0]
            if irreps.op != 'attr' or irreps.args[1] != 'irreps' or irreps.args[0].op != 'elem':
                rep.undecide('bias', w, loc, show(irreps)[:50])
                return
            r = irreps.args[0]
            over = r.args[0]
            if lo.op == 'run' and lo.args[0] == '+' and lo.args[3] is over:
                rep.ob('bias', f'{w}: start', lo.args[1] is const(0) and lo.args[2] is attr(r, 'size') and not lo.args[4], loc, f'the channels of a field start after {show(lo.args[2])[:50]} for each field before it')
                wd = hi.args[2] if hi.op == 'bin' and hi.args[0] == '+' and hi.args[1] is lo else None
                if wd is not None:
                    rep.ob('bias', f'{w}: length', wd is attr(r, 'size'), loc, f'a field has {show(wd)[:50]} channels')
                else:
                    rep.undecide('bias', f'{w}: length', loc, show(hi)[:50])
            elif lo.op in ('const', 'run'):
                rep.undecide('bias', f'{w}: start', loc, show(lo)[:50])
            y = unwrap(x)
            if y.op == 'sub' and y.args[0].op == 'attr' and y.args[0].args[0] is r and y.args[1].op == 'tuple' and len(y.args[1].args) == 2:
                a, b = y.args[1].args
                full = lambda z: z.op == 'slice' and all(q is NONE for q in z.args)
                rep.ob('bias', f'{w}: matrix', y.args[0].args[1] == 'change_of_basis' and full(a) and not full(b) or y.args[0].args[1] == 'change_of_basis_inv' and False, loc, f'the bias of a trivial irrep is spread by {show(y)[:70]}')
                if full(a) and b.op == 'run' and b.args[0] == '+' and b.args[3] is irreps:
                    s = b.args[2]
                    size_ok = s.op == 'attr' and s.args[1] == 'size' and s.args[0].contains(T('elem', irreps))
                    known = size_ok or is_int(s)
                    if known:
                        rep.ob('bias', f'{w}: column', size_ok and b.args[1] is const(0) and not b.args[4], loc, 'the column of a trivial irrep is not the sum of the sizes of all irreps before it')
            else:
                rep.undecide('bias', f'{w}: matrix', loc, show(y)[:60])
            triv = [q for q in conds2]
            if len(triv) == 1:
                q = triv[0]
                if q.op == 'call' and nm(q) == 'is_trivial' and q.contains(T('elem', irreps)):
                    rep.ob('bias', f'{w}: trivial', True, loc)
                elif q.op == 'not' and q.args[0].op == 'call' and nm(q.args[0]) == 'is_trivial':
                    rep.ob('bias', f'{w}: trivial', False, loc, 'a bias is learnt for the irreps that are not trivial')
                if col.op == 'run' and col.args[4] != (q,) and col.args[4] == ():
                    rep.ob('bias', f'{w}: which bias', False, loc, 'the column advances for irreps that have no bias')
            elif not triv:
                rep.ob('bias', f'{w}: trivial', False, loc, 'a bias is learnt for irreps that are not trivial')
    if not done:
        rep.undecide('bias', w, loc, show(v)[:60])
