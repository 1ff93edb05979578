"""Algebraic abstract domain: scalars are Laurent polynomials over symbolic atoms with
Gaussian-rational coefficients, multiplied by complex exponentials of such polynomials
(so products of sines and cosines of sums of angles have one canonical form), arrays are
nested tuples of scalars, group elements of planar groups are (flip, angle) pairs.
Terms of the source are mapped into the domain; anything unrecognised raises Unknown."""
from fractions import Fraction
from .terms import *


class Unknown(Exception):
    pass


class Raises(Exception):
    """the expression stops with an error"""


F0, F1 = Fraction(0), Fraction(1)


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def mono_mul(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(((k, e) for k, e in d.items() if e), key=repr))


INT = set()          # atom names known to be integers


class S:
    """scalar: {(monomial, exponent): (re, im)}; exponent = ((monomial, Fraction), ...): the factor exp(i*sum)"""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = {k: v for k, v in d.items() if v != (0, 0)}

    @staticmethod
    def c(x, y=0):
        return S({((), ()): (Fraction(x), Fraction(y))})

    @staticmethod
    def atom(name, integer=False):
        if integer:
            INT.add(name)
        return S({(((name, 1),), ()): (F1, F0)})

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            w = d.get(k, (F0, F0))
            d[k] = (w[0] + v[0], w[1] + v[1])
        return S(d)

    def __neg__(self):
        return S({k: (-v[0], -v[1]) for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        d = {}
        for (m, e), v in self.d.items():
            for (m2, e2), v2 in o.d.items():
                k, f = expo(mono_mul(m, m2), exp_add(e, e2))
                w = cmul(cmul(v, v2), f)
                x = d.get(k, (F0, F0))
                d[k] = (x[0] + w[0], x[1] + w[1])
        return S(d)

    def inv(self):
        if len(self.d) != 1:
            raise Unknown('division by a sum')
        ((m, e), v), = self.d.items()
        n = v[0] * v[0] + v[1] * v[1]
        return S({(tuple((k, -x) for k, x in m), tuple((k, -x) for k, x in e)): (v[0] / n, -v[1] / n)})

    def __truediv__(self, o):
        if not o.d:
            raise Unknown('division by zero')
        return self * o.inv()

    def key(self):
        return tuple(sorted(self.d.items(), key=repr))

    def __eq__(self, o):
        return isinstance(o, S) and (self.key() == o.key() or zero(self - o))

    def __hash__(self):
        return hash(self.key())

    def const(self):
        if not self.d:
            return F0
        if set(self.d) == {((), ())}:
            v = self.d[((), ())]
            return v[0] if v[1] == 0 else None
        return None

    def plain(self):
        """no exponential, real"""
        return all(e == () and v[1] == 0 for (m, e), v in self.d.items())

    def linear(self):
        if not self.plain():
            raise Unknown('angle')
        return tuple(sorted(((m, v[0]) for (m, e), v in self.d.items()), key=repr))

    def is_int(self):
        return self.plain() and all(v[0].denominator == 1 and all(x > 0 and k in INT for k, x in m) for (m, e), v in self.d.items())

    def sub(self, name, val):
        """substitute an atom by a scalar"""
        out = S({})
        for (m, e), v in self.d.items():
            t = S({((), ()): v})
            for k, x in m:
                b = val if k == name else S.atom(k)
                t = t * power(b, x)
            if e:
                ang = S({})
                for mm, f in e:
                    u = S.c(f)
                    for k, x in mm:
                        u = u * power(val if k == name else S.atom(k), x)
                    ang = ang + u
                t = t * cis(ang)
            out = out + t
        return out

    def __repr__(self):
        out = []
        for (m, e), v in self.d.items():
            c = str(v[0]) if v[1] == 0 else f'({v[0]}+{v[1]}i)'
            s = '*'.join(f'{k}' + (f'^{x}' if x != 1 else '') for k, x in m)
            if e:
                s += ('*' if s else '') + 'e^i(' + '+'.join(f'{f}' + ''.join(f'*{k}' + (f'^{x}' if x != 1 else '') for k, x in mm) for mm, f in e) + ')'
            out.append(c + ('*' + s if s else ''))
        return ' + '.join(out) or '0'


def zero(s):
    """vanishes identically: relations between roots of unity in the coefficients are taken into account"""
    groups = {}
    for (m, e), v in s.d.items():
        r, q = [], F0
        for mm, f in e:
            if mm == (('pi', 1),):
                q = f
            else:
                r.append((mm, f))
        groups.setdefault((m, tuple(r)), []).append((q, v))
    for ts in groups.values():
        n = 4
        for q, _ in ts:
            d = (q / 2).denominator
            n = n * d // gcd(n, d)
        pol = [F0] * n
        for q, (re, im) in ts:
            k = int(q / 2 * n) % n
            pol[k] += re
            pol[(k + n // 4) % n] += im
        if any(rem(pol, cyclotomic(n))):
            return False
    return True


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def rem(p, d):
    p = list(p)
    while len(p) >= len(d):
        c = p[-1] / d[-1]
        if c:
            for i in range(len(d)):
                p[len(p) - len(d) + i] -= c * d[i]
        p.pop()
    return p


_cyc = {}


def cyclotomic(n):
    """coefficients, lowest degree first"""
    if n not in _cyc:
        p = [F0] * (n + 1)
        p[0], p[n] = -F1, F1
        for d in range(1, n):
            if n % d == 0:
                p = quo(p, cyclotomic(d))
        _cyc[n] = p
    return _cyc[n]


def quo(p, d):
    p, out = list(p), []
    while len(p) >= len(d):
        c = p[-1] / d[-1]
        out.append(c)
        for i in range(len(d)):
            p[len(p) - len(d) + i] -= c * d[i]
        p.pop()
    return out[::-1]


def power(b, x):
    r = S.c(1)
    for _ in range(abs(x)):
        r = r * b
    return r if x >= 0 else r.inv()


def exp_add(a, b):
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, F0) + v
    return tuple(sorted(((k, v) for k, v in d.items() if v), key=repr))


def expo(m, e):
    """reduce multiples of 2*pi, quarter turns to powers of i"""
    f = (F1, F0)
    out = []
    for mm, v in e:
        d = dict(mm)
        if d.get('pi') == 1:
            rest = [(k, x) for k, x in mm if k != 'pi']
            if not rest:
                v = v % 2
                q = v * 2
                if q.denominator == 1:
                    f = cmul(f, [(F1, F0), (F0, F1), (-F1, F0), (F0, -F1)][int(q) % 4])
                    continue
            elif all(x > 0 and k in INT for k, x in rest):
                v = v % 2
                if v == 0:
                    continue
        out.append((mm, v))
    return (m, tuple(sorted(out, key=repr))), f


def cis(ang):
    k, f = expo((), ang.linear())
    return S({k: f})


def cos(a):
    return (cis(a) + cis(-a)) * S.c(Fraction(1, 2))


def sin(a):
    return (cis(a) - cis(-a)) * S.c(0, Fraction(-1, 2))


PI = S.atom('pi')
TWOPI = PI * S.c(2)


def arctan2(y, x):
    """the angle (mod 2*pi) of x + i*y when that is a positive multiple of one exponential"""
    z = x + y * S.c(0, 1)
    if len(z.d) == 1:
        ((m, e), v), = z.d.items()
        if m == () and v[1] == 0 and v[0] != 0:
            a = S({(mm, ()): (f, F0) for mm, f in e})
            return a if v[0] > 0 else a + PI
        if m == () and v[0] == 0:
            a = S({(mm, ()): (f, F0) for mm, f in e})
            return a + PI * S.c(Fraction(1, 2) if v[1] > 0 else Fraction(-1, 2))
    if len(z.d) > 1 and all(m == () for m, e in z.d):
        return S.atom(('arctan2', y.key(), x.key()))
    raise Unknown('arctan2')


# ------------------------------------------------------------------ arrays
def shape(a):
    s = []
    while isinstance(a, tuple):
        s.append(len(a))
        if not a:
            break
        a = a[0]
    return tuple(s)


def matmul(a, b):
    sa, sb = shape(a), shape(b)
    if len(sa) != 2 or len(sb) != 2 or sa[1] != sb[0]:
        raise Unknown('matmul shapes')
    out = []
    for i in range(sa[0]):
        row = []
        for j in range(sb[1]):
            t = S({})
            for k in range(sa[1]):
                t = t + a[i][k] * b[k][j]
            row.append(t)
        out.append(tuple(row))
    return tuple(out)


def elementwise(f, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            raise Unknown('broadcast')
        return tuple(elementwise(f, x, y) for x, y in zip(a, b))
    if isinstance(a, tuple):
        return tuple(elementwise(f, x, b) for x in a)
    if isinstance(b, tuple):
        return tuple(elementwise(f, a, y) for y in b)
    return f(a, b)


def eye(n):
    return tuple(tuple(S.c(1 if i == j else 0) for j in range(n)) for i in range(n))


def transpose(a):
    if len(shape(a)) != 2:
        raise Unknown('transpose')
    return tuple(zip(*a))


def trace(a):
    t = S({})
    for i in range(len(a)):
        t = t + a[i][i]
    return t


class Arr(tuple):
    """numpy array (elementwise operators), as opposed to a python tuple or list"""


def arr(x):
    return Arr(arr(y) for y in x) if isinstance(x, tuple) else x


def getitem(b, ix):
    if not ix:
        return b
    i, rest = ix[0], ix[1:]
    if not isinstance(b, tuple):
        raise Unknown('index')
    if isinstance(i, slice):
        return type(b)(getitem(x, rest) for x in tuple(b)[i])
    try:
        return getitem(b[i], rest)
    except IndexError:
        raise Raises()


def setitem(b, ix, v):
    if not ix:
        if isinstance(b, tuple) and not isinstance(v, tuple):
            return Arr(setitem(x, (), v) for x in b)
        if isinstance(b, tuple) and shape(b) != shape(v):
            raise Unknown('assignment shapes')
        return v
    i, rest = ix[0], ix[1:]
    if not isinstance(b, tuple):
        raise Unknown('index')
    out = list(b)
    if isinstance(i, slice):
        pos = range(len(b))[i]
        for q, j in enumerate(pos):
            out[j] = setitem(b[j], rest, v[q] if isinstance(v, tuple) else v)
    else:
        out[i] = setitem(b[i], rest, v)
    return Arr(out)


# ------------------------------------------------------------------ evaluation of terms
COS = {'numpy.cos', 'math.cos', 'torch.cos'}
SIN = {'numpy.sin', 'math.sin', 'torch.sin'}
ATAN2 = {'numpy.arctan2', 'math.atan2'}
PIS = {'numpy.pi', 'math.pi'}
ARR = {'numpy.array', 'numpy.asarray', 'torch.tensor'}


class Eval:
    """maps terms into the domain.
    env: {term: value}; call: hook(t, ev) -> value or None; modulo(m, x): True when reduction by m keeps the
    meaning of the result; rounds: True when rounding may be dropped (value known to be integral)"""

    def __init__(self, env, call=None, modulo=None, rounds=None, cond=None):
        self.env, self.call, self.modulo, self.rounds, self.cond = env, call, modulo, rounds, cond
        self.memo = {}

    def __call__(self, t):
        if t in self.memo:
            return self.memo[t]
        v = self.ev(t)
        self.memo[t] = v
        return v

    def num(self, t):
        v = self(t)
        if isinstance(v, bool):
            v = S.c(int(v))
        if not isinstance(v, S):
            raise Unknown('scalar expected: ' + show(t)[:60])
        return v

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        if self.call is not None:
            r = self.call(t, self)
            if r is not None:
                return r
        op = t.op
        if op == 'const':
            v = t.args[1]
            if isinstance(v, bool) or v is None or isinstance(v, str):
                return v
            if isinstance(v, int):
                return S.c(v)
            if isinstance(v, float):
                return S.c(Fraction(v))
            raise Unknown('constant')
        if op == 'ext':
            if t.args[0] in PIS:
                return PI
            raise Unknown(t.args[0])
        if op == 'tuple' or op == 'list':
            return tuple(self(x) for x in t.args)
        if op == 'un':
            v = self(t.args[1])
            if t.args[0] == '-':
                return elementwise(lambda a, b: -a, v, S.c(0)) if isinstance(v, (S, Arr)) else self.bad(t)
            if t.args[0] == '+':
                return v
            raise Unknown('un')
        if op == 'bin':
            return self.binary(t)
        if op == 'sub':
            return self.index(self(t.args[0]), t.args[1])
        if op == 'ite':
            return self(t.args[1]) if self.truth(t.args[0]) else self(t.args[2])
        if op in ('cmp', 'not', 'and', 'or'):
            return self.truth(t)
        if op == 'call':
            return self.ecall(t)
        if op == 'attr' and t.args[1] == 'T':
            return arr(transpose(self(t.args[0])))
        if op == 'bottom':
            raise Raises()
        if op == 'mut' and t.args[0] in ('append', 'extend', 'insert'):
            b = self(t.args[1])
            rest = [x for a in t.args[2:] for x in (a if isinstance(a, tuple) else (a,)) if isinstance(x, T)]
            if not isinstance(b, tuple) or isinstance(b, Arr):
                raise Unknown('mut')
            v = [self(x) for x in rest]
            if t.args[0] == 'append' and len(v) == 1:
                return b + (v[0],)
            if t.args[0] == 'extend' and len(v) == 1 and isinstance(v[0], tuple):
                return b + tuple(v[0])
            if t.args[0] == 'insert' and len(v) == 2 and isinstance(v[0], S) and v[0].const() is not None:
                k = int(v[0].const())
                return b[:k] + (v[1],) + b[k:]
            raise Unknown('mut')
        if op == 'upd' and len(t.args) == 3:
            b = self(t.args[0])
            if isinstance(b, Arr):
                return setitem(b, self.idx(t.args[1]), self(t.args[2]))
        raise Unknown(op + ' ' + show(t)[:80])

    def bad(self, t):
        raise Unknown(show(t)[:80])

    def idx(self, i):
        """index term -> list of ints and slices"""
        out = []
        for x in (i.args if i.op == 'tuple' else (i,)):
            if x.op == 'slice':
                ab = []
                for y in x.args:
                    if y is None or y is NONE:
                        ab.append(None)
                        continue
                    c = self.num(y).const()
                    if c is None or c.denominator != 1:
                        raise Unknown('slice')
                    ab.append(int(c))
                out.append(slice(*ab))
            else:
                c = self.num(x).const()
                if c is None or c.denominator != 1:
                    raise Unknown('index')
                out.append(int(c))
        return out

    def index(self, b, i):
        if isinstance(b, (S, bool)) or b is None or not isinstance(b, tuple):
            raise Unknown('index')
        if i.op == 'slice' or (i.op == 'tuple' and any(x.op == 'slice' for x in i.args)):
            return getitem(b, self.idx(i))
        if i.op == 'tuple':
            for x in i.args:
                b = self.index(b, x)
            return b
        if i.op == 'const' and isinstance(i.args[1], int):
            try:
                return b[i.args[1]]
            except IndexError:
                raise Raises()
        v = self(i)
        c = v.const() if isinstance(v, S) else None
        if c is None or c.denominator != 1:
            raise Unknown('index')
        return b[int(c)]

    def truth(self, c):
        if c is TRUE or c is FALSE:
            return c is TRUE
        if self.cond is not None:
            r = self.cond(c, self)
            if r is not None:
                return r
        if c.op == 'not':
            return not self.truth(c.args[0])
        if c.op in ('and', 'or'):
            unk = None
            for x in c.args:
                try:
                    v = self.truth(x)
                except Unknown as e:
                    unk = e
                    continue
                if v is (c.op == 'or'):
                    return v
            if unk is not None:
                raise unk
            return c.op == 'and'
        if c.op == 'cmp':
            o, a, b = c.args
            if o in ('in', 'not in') and b.op in ('list', 'tuple', 'set'):
                r = False
                va = self(a)
                for x in b.args:
                    if self.same(va, self(x)):
                        r = True
                return r is (o == 'in')
            va, vb = self(a), self(b)
            if o in ('==', 'is'):
                return self.same(va, vb)
            if o in ('!=', 'is not'):
                return not self.same(va, vb)
            if isinstance(va, S) and isinstance(vb, S):
                d = (va - vb).const()
                if d is not None:
                    return {'<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0}[o]
            raise Unknown('cmp')
        v = self(c)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, S):
            k = v.const()
            if k is not None:
                return k != 0
        raise Unknown('truth ' + show(c)[:60])

    def same(self, a, b):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, bool):
            a = S.c(int(a))
        if isinstance(b, bool):
            b = S.c(int(b))
        if isinstance(a, S) and isinstance(b, S):
            d = (a - b)
            if d.const() is not None:
                return d.const() == 0
            raise Unknown('equality of symbols')
        raise Unknown('equality')

    def binary(self, t):
        o, a, b = t.args
        va, vb = self(a), self(b)
        if isinstance(va, bool):
            va = S.c(int(va))
        if isinstance(vb, bool):
            vb = S.c(int(vb))
        if o == '@':
            if isinstance(va, Arr) and isinstance(vb, Arr):
                return arr(matmul(va, vb))
            raise Unknown('@')
        ok = (S, Arr)
        if not isinstance(va, ok) or not isinstance(vb, ok):
            if o == '+' and isinstance(va, tuple) and isinstance(vb, tuple):
                return va + vb
            raise Unknown('operands')
        if o in ('+', '-', '*', '/'):
            f = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y}[o]
            r = elementwise(f, va, vb)
            return arr(r) if isinstance(r, tuple) else r
        if not isinstance(va, S) or not isinstance(vb, S):
            raise Unknown('operands')
        if o == '%':
            ca, cb = va.const(), vb.const()
            if ca is not None and cb is not None and cb != 0:
                return S.c(ca % cb)
            if self.modulo is not None and self.modulo(vb, va):
                return va
            q = None
            try:
                q = va / vb
            except Unknown:
                pass
            if q is not None and q.is_int():
                return S.c(0)
            return S.atom(('mod', va.key(), vb.key()), integer=va.is_int() and vb.is_int())
        if o == '//':
            ca, cb = va.const(), vb.const()
            if ca is not None and cb is not None and cb != 0:
                return S.c(ca // cb)
            q = va / vb
            if q.is_int():
                return q
            return S.atom(('floor', q.key()), integer=True)
        if o == '**':
            k = vb.const()
            if k is not None and k.denominator == 1 and abs(k) < 8:
                return power(va, int(k))
            c = va.const()
            if c == -1 and vb.is_int():
                return cis(PI * vb)
        if o in ('^', '&', '|'):
            ca, cb = va.const(), vb.const()
            if ca is not None and cb is not None and ca.denominator == cb.denominator == 1:
                ca, cb = int(ca), int(cb)
                return S.c({'^': ca ^ cb, '&': ca & cb, '|': ca | cb}[o])
        raise Unknown('operator ' + o)

    def ecall(self, t):
        fn = t.args[0]
        pos, kw = list(t.args[1]), dict(t.args[2])
        if fn.op == 'attr' and not kw and not pos:
            n = fn.args[1]
            if n in ('copy', 'item', 'astype', 'tolist'):
                return self(fn.args[0])
            if n == 'transpose':
                return arr(transpose(self(fn.args[0])))
            if n == 'trace':
                return trace(self(fn.args[0]))
        if fn.op == 'attr' and fn.args[1] in ('dot',) and len(pos) == 1:
            a, b = self(fn.args[0]), self(pos[0])
            if isinstance(a, Arr) and isinstance(b, Arr):
                return arr(matmul(a, b))
        if fn.op != 'ext':
            raise Unknown('call ' + show(fn)[:80])
        n = fn.args[0]
        if n in ARR and pos:
            return arr(self(pos[0]))
        if n in COS and len(pos) == 1:
            return cos(self.num(pos[0]))
        if n in SIN and len(pos) == 1:
            return sin(self.num(pos[0]))
        if n in ATAN2 and len(pos) == 2:
            return arctan2(self.num(pos[0]), self.num(pos[1]))
        if n in ('numpy.eye', 'numpy.identity') and len(pos) == 1:
            k = self.num(pos[0]).const()
            if k is not None and k.denominator == 1 and 0 < k < 10:
                return arr(eye(int(k)))
        if n in ('numpy.zeros', 'numpy.ones') and len(pos) == 1:
            v = self(pos[0])
            dims = v if isinstance(v, tuple) else (v,)
            dims = [int(x.const()) if isinstance(x, S) and x.const() is not None else self.bad(t) for x in dims]
            x = S.c(1 if n.endswith('ones') else 0)
            for d in reversed(dims):
                x = tuple(x for _ in range(d))
            return arr(x)
        if n in ('numpy.diag',) and len(pos) == 1:
            v = self(pos[0])
            if len(shape(v)) == 1:
                return arr(tuple(tuple(v[i] if i == j else S.c(0) for j in range(len(v))) for i in range(len(v))))
        if n in ('numpy.dot', 'numpy.matmul') and len(pos) == 2:
            a, b = self(pos[0]), self(pos[1])
            if isinstance(a, Arr) and isinstance(b, Arr):
                return arr(matmul(a, b))
        if n in ('numpy.trace',) and len(pos) == 1:
            return trace(self(pos[0]))
        if n in ('numpy.kron',) and len(pos) == 2:
            a, b = self(pos[0]), self(pos[1])
            if len(shape(a)) == 2 and len(shape(b)) == 2:
                return arr(tuple(tuple(a[i][j] * b[k][l] for j in range(len(a[0])) for l in range(len(b[0]))) for i in range(len(a)) for k in range(len(b))))
        if n in ('builtins.float', 'numpy.float64', 'numpy.double') and len(pos) == 1:
            return self.num(pos[0])
        if n in ('builtins.int', 'builtins.round', 'numpy.round', 'numpy.rint', 'math.floor', 'numpy.floor', 'numpy.around') and len(pos) == 1:
            v = self.num(pos[0])
            if v.is_int() or (self.rounds is not None and self.rounds(v)):
                return v
            c = v.const()
            if c is not None:
                import math as _m
                return S.c(int(c) if n.endswith('int') else round(c) if 'round' in n or 'rint' in n else _m.floor(c))
            return S.atom(('round' if n != 'builtins.int' else 'int', v.key()), integer=True)
        if n in ('math.fmod', 'numpy.mod', 'numpy.fmod', 'numpy.remainder') and len(pos) == 2:
            return self(T('bin', '%', pos[0], pos[1]))
        if n == 'builtins.divmod' and len(pos) == 2:
            return (self(T('bin', '//', pos[0], pos[1])), self(T('bin', '%', pos[0], pos[1])))
        if n in ('builtins.abs', 'numpy.abs') and len(pos) == 1:
            c = self.num(pos[0]).const()
            if c is not None:
                return S.c(abs(c))
        if n in ('builtins.max', 'builtins.min') and len(pos) > 1:
            cs = [self.num(x).const() for x in pos]
            if None not in cs:
                return S.c(max(cs) if n.endswith('max') else min(cs))
        if n == 'builtins.len' and len(pos) == 1:
            v = self(pos[0])
            if isinstance(v, tuple):
                return S.c(len(v))
        if n in ('builtins.bool',) and len(pos) == 1:
            return self.truth(pos[0])
        if n in ('builtins.tuple', 'builtins.list') and len(pos) == 1:
            return tuple(self(pos[0]))
        raise Unknown(n)
