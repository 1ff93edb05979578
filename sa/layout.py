"""Axis typing of tensors.

The layout of a tensor is a list of axes, each a tuple of named factors (row-major: the last one varies fastest), e.g. a
filter is [('oc','o'), ('ic','i'), ('p',)].  Layouts are propagated through views, permutations, einsum, reductions,
broadcasting and indexing as read off the value terms.  `Bad` is raised when every factor involved is recognised and
they do not agree; `Unk` when something is not recognised."""
from .common import *

STAR = '*'          # stands for any number of further (spatial) axes
REST = object()
SAME = {'contiguous', 'clone', 'to', 'float', 'double', 'half', 'type', 'type_as', 'detach', 'cuda', 'cpu', 'requires_grad_', 'sqrt', 'exp', 'abs', 'relu',
        'sigmoid', 'tanh', 'elu', 'sqrt_', 'exp_', 'abs_', 'relu_', 'sigmoid_', 'tanh_', 'clamp', 'clamp_', 'clamp_min', 'clamp_max', 'pow', 'square', 'neg', 'reciprocal', 'rsqrt', 'bool', 'int', 'long', 'nan_to_num', 'softplus', 'leaky_relu', 'logical_not', 'as_tensor', 'asarray', 'ascontiguousarray', 'astype', 'copy', 'log', 'isnan'}
REDUCE = {'sum', 'mean', 'norm', 'prod', 'any', 'all', 'var', 'std', 'amax', 'amin', 'logsumexp', 'nansum'}
REDUCE2 = {'max', 'min'}


class Bad(Exception):
    pass


class Unk(Exception):
    pass


def sh(axes):
    return '[' + ', '.join('·'.join(map(str, a)) if a else '1' for a in axes) + ']'


def _name(t):
    f = t.args[0]
    if f.op in ('bound', 'func', 'class'):
        return f.args[-1].rpartition('.')[2]
    if f.op == 'attr':
        return f.args[1]
    if f.op == 'ext':
        return f.args[0].rpartition('.')[2]
    return None


def integer(t):
    if t.op == 'const' and type(t.args[1]) is int:
        return t.args[1]
    if t.op == 'un' and t.args[0] == '-' and t.args[1].op == 'const' and type(t.args[1].args[1]) is int:
        return -t.args[1].args[1]
    return None


class Layout:
    def __init__(self, base, size, index=None, call=None):
        """base(term): axes of a tensor that is given, or None; size(term): factors of a number that is given, or None;
        index(term, axis): axis after indexing by `term`, or None; call(term, name, self): axes of a call, or None"""
        self.base, self.usize, self.index, self.call = base, size, index, call
        self.memo = {}

    # ------------------------------------------------------------------------------------------------- numbers
    def size(self, t):
        """list of factors of the number t"""
        n = integer(t)
        if n == 1:
            return []
        if n is not None:
            raise Unk(f'number {n}')
        u = self.usize(t)
        if u is not None:
            return list(u)
        if t.op == 'bin' and t.args[0] == '*':
            return self.size(t.args[1]) + self.size(t.args[2])
        if t.op == 'bin' and t.args[0] == '//':
            a, b = self.size(t.args[1]), self.size(t.args[2])
            for x in b:
                if x not in a:
                    raise Unk(f'{show(t)[:60]}')
                a.remove(x)
            return a
        if t.op == 'call' and _name(t) in ('int', 'item') and t.args[0].op == 'ext' and len(t.args[1]) == 1:
            return self.size(t.args[1][0])
        ax = None
        if t.op == 'sub' and t.args[0].op == 'attr' and t.args[0].args[1] == 'shape':
            ax, x = integer(t.args[1]), t.args[0].args[0]
        elif t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == 'size' and len(t.args[1]) == 1:
            ax, x = integer(t.args[1][0]), t.args[0].args[0]
        elif t.op == 'call' and _name(t) == 'len' and len(t.args[1]) == 1:
            ax, x = 0, t.args[1][0]
        if ax is not None:
            l = self.of(x)
            return list(self.axis(l, ax))
        raise Unk(f'number {show(t)[:60]}')

    def axis(self, l, k):
        stars = [i for i, a in enumerate(l) if a == (STAR,)]
        if stars and (k >= stars[0] or k < 0 and len(l) + k <= stars[-1]):
            raise Unk('spatial axis')
        if not -len(l) <= k < len(l):
            raise Bad(f'axis {k} of {sh(l)}')
        return l[k]

    def pos(self, l, k):
        self.axis(l, k)
        return k % len(l)

    def sizes(self, args):
        """sizes asked of a view"""
        if len(args) == 1 and args[0].op in ('tuple', 'list'):
            args = args[0].args
        out = []
        for a in args:
            if a.op == 'star':
                v = a.args[0]
                if v.op in ('tuple', 'list'):
                    out += self.sizes(v.args)
                    continue
                out.append(self.spatial(v))
            elif integer(a) == -1:
                out.append(REST)
            else:
                out.append(self.size(a))
        return out

    def spatial(self, v):
        """*x.shape[2:] and the like"""
        if v.op == 'call' and _name(v) in ('list', 'tuple') and v.args[1]:
            return self.spatial(v.args[1][0])
        u = self.usize(v)
        if u is not None:
            return u
        if v.op == 'sub' and v.args[0].op == 'attr' and v.args[0].args[1] == 'shape' and v.args[1].op == 'slice' and v.args[1].args[1] is NONE and v.args[1].args[2] is NONE:
            l, lo = self.of(v.args[0].args[0]), integer(v.args[1].args[0])
            if lo is not None and l[lo:] == [(STAR,)]:
                return [STAR]
        raise Unk(f'sizes {show(v)[:50]}')

    def shape(self, t):
        """sizes of a shape given as one value"""
        if t.op in ('tuple', 'list'):
            return self.sizes(t.args)
        if t.op == 'attr' and t.args[1] == 'shape':
            return [sorted(a) for a in self.of(t.args[0])]
        if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == 'size' and not t.args[1]:
            return [sorted(a) for a in self.of(t.args[0].args[0])]
        raise Unk(f'shape {show(t)[:50]}')

    def view(self, l, sizes):
        flat = [x for a in l for x in a]
        out = [None] * len(sizes)

        def take(seq, s, what):
            n = len(s)
            if sorted(seq[:n]) != sorted(s):
                raise Bad(f'a tensor laid out as {sh(l)} is viewed with an axis of size {"·".join(s) or 1} where {"·".join(seq[:max(n, 1)]) or "nothing"} comes {what}')
            return tuple(seq[:n]), seq[n:]
        k = next((i for i, s in enumerate(sizes) if s is REST), None)
        for i in range(len(sizes) if k is None else k):
            out[i], flat = take(flat, sizes[i], 'next')
        if k is None:
            if flat:
                raise Bad(f'a tensor laid out as {sh(l)} is viewed with sizes that leave {"·".join(flat)} over')
            return out
        flat = flat[::-1]
        for i in range(len(sizes) - 1, k, -1):
            a, flat = take(flat, sizes[i], 'last')
            out[i] = a[::-1]
        out[k] = tuple(flat[::-1])
        return out

    # ------------------------------------------------------------------------------------------------- tensors
    def of(self, t):
        if t in self.memo:
            r = self.memo[t]
            if isinstance(r, Exception):
                raise r
            return list(r)
        try:
            r = self._of(t)
        except (Bad, Unk) as e:
            self.memo[t] = e
            raise
        self.memo[t] = r
        return list(r)

    def broadcast(self, ls, what=''):
        if any((STAR,) in l for l in ls) and len({len(l) for l in ls if l}) > 1:
            raise Unk('broadcast of spatial axes')
        n = max(len(l) for l in ls)
        out = []
        for k in range(n):
            xs = {l[len(l) - n + k] for l in ls if len(l) - n + k >= 0} - {()}
            if len(xs) > 1:
                raise Bad(f'{" and ".join(sh(l) for l in ls)} are combined entry by entry')
            out.append(xs.pop() if xs else ())
        return out

    def _of(self, t):
        b = self.base(t)
        if b is not None:
            return list(b)
        o = t.op
        if o == 'const' and isinstance(t.args[1], (int, float, bool)):
            return []
        if o == 'ite':
            a, b = self.of(t.args[1]), self.of(t.args[2])
            if a != b:
                raise Unk('alternatives of different layout')
            return a
        if o == 'upd':
            return self.of(t.args[0])
        if o == 'mut':
            return self.of(t.args[1])
        if o == 'loopval':
            return self.of(t.args[1])
        if o == 'un':
            return self.of(t.args[1])
        if o in ('bin', 'cmp'):
            if o == 'bin' and t.args[0] == '@':
                raise Unk('matrix product')
            return self.broadcast([self.of(t.args[1]), self.of(t.args[2])])
        if o == 'attr' and t.args[1] in ('data', 'real', 'imag'):
            return self.of(t.args[0])
        if o == 'attr' and t.args[1] == 'T':
            return self.of(t.args[0])[::-1]
        if o == 'sub':
            return self.indexed(self.of(t.args[0]), t.args[1])
        if o == 'call':
            return self.called(t)
        raise Unk(f'tensor {show(t)[:60]}')

    def indexed(self, l, ix):
        ixs = list(ix.args) if ix.op == 'tuple' else [ix]
        out, k = [], 0
        n = sum(1 for i in ixs if i is not NONE and not (i.op == 'const' and i.args[0] == 'ellipsis'))
        for i in ixs:
            if i is NONE:
                out.append(())
                continue
            if i.op == 'const' and i.args[0] == 'ellipsis':
                m = len(l) - n
                out += l[k:k + m]
                k += m
                continue
            if k >= len(l):
                raise Bad(f'{sh(l)} is indexed on {n} axes')
            if i.op == 'slice' and all(x is NONE for x in i.args):
                out.append(l[k])
                k += 1
                continue
            a = self.index(i, l[k]) if self.index else None
            if a is None:
                raise Unk(f'index {show(i)[:50]}')
            out += a
            k += 1
        return out + l[k:]

    def called(self, t):
        n = _name(t)
        if self.call is not None:
            r = self.call(t, n, self)
            if r is not None:
                return list(r)
        f = t.args[0]
        kw = dict(t.args[2])
        if f.op == 'attr' and f.args[0].op not in ('ext', 'mod'):
            x, args = f.args[0], list(t.args[1])
        elif f.op == 'ext' and t.args[1]:
            x, args = t.args[1][0], list(t.args[1][1:])
        elif f.op == 'ext' and 'input' in kw:
            x, args = kw['input'], []
        else:
            raise Unk(f'call {show(t)[:60]}')
        method = f.op == 'attr'
        if n == 'einsum':
            return self.einsum(x, args)
        if n in ('zeros', 'ones', 'empty', 'full', 'randn', 'rand') and not method:
            if n == 'full':
                args = []
            s = self.sizes([x] + args)
            return [tuple(a) for a in s]
        if n in ('zeros_like', 'ones_like', 'empty_like', 'randn_like', 'rand_like'):
            return self.of(x)
        if n in SAME:
            return self.of(x)
        if n in ('view', 'reshape'):
            if not method and len(args) == 1 and args[0].op not in ('tuple', 'list') or 'shape' in kw:
                s = self.shape(kw.get('shape', args[0] if args else None))
            elif len(args) == 1 and args[0].op in ('attr', 'call', 'sub') and (args[0].op == 'attr' and args[0].args[1] == 'shape' or args[0].op == 'call' and _name(args[0]) == 'size' and not args[0].args[1]):
                s = self.shape(args[0])
            else:
                s = self.sizes(args)
            return self.view(self.of(x), s)
        if n in ('view_as', 'reshape_as'):
            return self.view(self.of(x), [sorted(a) for a in self.of(args[0])])
        if n == 'flatten':
            l = self.of(x)
            a = integer(args[0]) if args else integer(kw['start_dim']) if 'start_dim' in kw else 0
            b = integer(args[1]) if len(args) > 1 else integer(kw['end_dim']) if 'end_dim' in kw else -1
            if a is None or b is None:
                raise Unk('flatten')
            b = len(l) - 1 if b == -1 and not (STAR,) in l[:-1] else self.pos(l, b)
            a = self.pos(l, a) if a else 0
            return l[:a] + [tuple(y for z in l[a:b + 1] for y in z)] + l[b + 1:]
        if n == 'permute':
            l = self.of(x)
            if len(args) == 1 and args[0].op in ('tuple', 'list'):
                args = list(args[0].args)
            ks = [integer(a) for a in args]
            if None in ks or not ks:
                raise Unk('permute')
            if (STAR,) in l:
                raise Unk('permute')
            if sorted(k % len(l) for k in ks) != list(range(len(l))):
                raise Bad(f'{sh(l)} is permuted by {ks}')
            return [l[k] for k in ks]
        if n in ('transpose', 'swapaxes', 'swapdims', 'transpose_'):
            l = self.of(x)
            a, b = (integer(v) for v in args[:2]) if len(args) > 1 else (None, None)
            if a is None or b is None:
                raise Unk('transpose')
            a, b = self.pos(l, a), self.pos(l, b)
            l[a], l[b] = l[b], l[a]
            return l
        if n == 't' and not args:
            return self.of(x)[::-1]
        if n in ('unsqueeze', 'unsqueeze_'):
            l = self.of(x)
            k = integer(args[0]) if args else integer(kw['dim']) if 'dim' in kw else None
            if k is None or (STAR,) in l and (k < 0 or k > l.index((STAR,))):
                raise Unk('unsqueeze')
            k = k if k >= 0 else len(l) + 1 + k
            return l[:k] + [()] + l[k:]
        if n == 'squeeze':
            l = self.of(x)
            k = integer(args[0]) if args else integer(kw['dim']) if 'dim' in kw else None
            if k is None:
                raise Unk('squeeze')
            k = self.pos(l, k)
            if l[k]:
                raise Unk('squeeze of an axis that is not 1')
            return l[:k] + l[k + 1:]
        if n in ('expand', 'broadcast_to'):
            l = self.of(x)
            s = self.sizes(args)
            if len(s) != len(l):
                raise Unk('expand')
            out = []
            for a, b in zip(l, s):
                if b is REST or sorted(a) == sorted(b):
                    out.append(a)
                elif not a and len(b) <= 1:
                    out.append(tuple(b))
                elif not a:
                    raise Unk('expand')
                else:
                    raise Bad(f'{sh(l)} is expanded to an axis of size {"·".join(b)}')
            return out
        if n == 'expand_as':
            return self.broadcast([self.of(x), self.of(args[0])])
        if n in REDUCE or n in REDUCE2 and ('dim' in kw or 'axis' in kw or args and integer(args[-1]) is not None):
            l = self.of(x)
            d = kw.get('dim', kw.get('axis'))
            if d is None:
                d = args[0 if n != 'norm' else 1] if len(args) > (0 if n != 'norm' else 1) else None
            if d is None or d is NONE:
                return []
            ks = [integer(y) for y in (d.args if d.op in ('tuple', 'list') else (d,))]
            if None in ks:
                raise Unk(f'reduction over {show(d)[:40]}')
            ks = [self.pos(l, k) for k in ks]
            keep = kw.get('keepdim', kw.get('keepdims'))
            if keep is not None and keep not in (TRUE, FALSE):
                raise Unk('keepdim')
            r = [() if i in ks else a for i, a in enumerate(l)] if keep is TRUE else [a for i, a in enumerate(l) if i not in ks]
            if n in REDUCE2 and method:
                raise Unk('values and indices')
            return r
        if n in ('add', 'sub', 'mul', 'div', 'true_divide', 'add_', 'sub_', 'mul_', 'div_', 'maximum', 'minimum', 'where', 'eq', 'ne', 'lt', 'gt', 'multiply', 'divide', 'subtract') and args:
            return self.broadcast([self.of(x)] + [self.of(a) for a in args])
        raise Unk(f'call {show(t)[:60]}')

    def einsum(self, spec, ops):
        if spec.op != 'const' or not isinstance(spec.args[1], str):
            raise Unk('einsum')
        if len(ops) == 1 and ops[0].op in ('tuple', 'list'):
            ops = list(ops[0].args)
        s = spec.args[1].replace(' ', '')
        if '->' not in s:
            raise Unk('einsum')
        ins, out = s.split('->')
        ins = ins.split(',')
        if len(ins) != len(ops):
            raise Bad(f'einsum {s} of {len(ops)} tensors')
        env, ell = {}, None
        for sp, t in zip(ins, ops):
            l = self.of(t)
            pre, dots, post = sp.partition('...')
            if not dots and len(pre) != len(l):
                if (STAR,) in l:
                    raise Unk('einsum')
                raise Bad(f'einsum {s}: {sp} is a tensor laid out as {sh(l)}')
            if dots:
                if (STAR,) in l[:len(pre)] or post:
                    raise Unk('einsum')
                e = l[len(pre):]
                if ell is None:
                    ell = e
                elif ell != e:
                    ell = self.broadcast([ell, e])
            for c, a in zip(pre, l):
                if c in env and env[c] != a:
                    if not a or not env[c]:
                        env[c] = env[c] or a
                        continue
                    raise Bad(f'einsum {s} contracts {c} = {"·".join(env[c])} with {"·".join(a)}')
                env[c] = a
        res = []
        pre, dots, post = out.partition('...')
        for c in pre:
            if c not in env:
                raise Unk('einsum')
            res.append(env[c])
        if dots:
            res += ell or []
            res += [env[c] for c in post]
        return res
