"""Canonical form of integer shape arithmetic: polynomials over terms, with
floor/ceiling quotients as atoms.  Two terms with the same canonical form denote the
same integer for all inputs (ring axioms, floor(x+k)=floor(x)+k)."""
from fractions import Fraction
from .terms import *

FLOORS = ('math.floor', 'numpy.floor', 'builtins.int', 'torch.floor')
CEILS = ('math.ceil', 'numpy.ceil', 'torch.ceil')


class Poly:
    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if v != 0}

    @staticmethod
    def c(x):
        return Poly({(): Fraction(x)})

    @staticmethod
    def a(atom):
        return Poly({(atom,): Fraction(1)})

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return Poly(d)

    def __mul__(self, o):
        d = {}
        for k, v in self.d.items():
            for k2, v2 in o.d.items():
                kk = tuple(sorted(k + k2, key=akey))
                d[kk] = d.get(kk, 0) + v * v2
        return Poly(d)

    def __neg__(self):
        return Poly({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def key(self):
        return tuple(sorted(((tuple(akey(a) for a in k), v) for k, v in self.d.items()), key=lambda x: (len(x[0]), x)))

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def const(self):
        if not self.d:
            return Fraction(0)
        if set(self.d) == {()}:
            return self.d[()]
        return None

    def __repr__(self):
        out = []
        for k, v in sorted(self.d.items(), key=lambda x: -len(x[0])):
            m = '*'.join(ashow(a) for a in k)
            if not m:
                out.append(str(v))
            else:
                out.append((f'{v}*' if v != 1 else '') + m)
        return ' + '.join(out) or '0'


class Quot:
    """floor ('f'), ceiling ('c') or exact ('/') quotient of two polynomials"""

    def __init__(self, kind, n, d):
        self.kind, self.n, self.d = kind, n, d

    def key(self):
        return ('Q', self.kind, self.n.key(), self.d.key())


def akey(a):
    return ('T', a.id) if isinstance(a, T) else a.key()


def ashow(a):
    if isinstance(a, T):
        return show(a)
    op = {'f': 'floor', 'c': 'ceil', '/': ''}[a.kind]
    return f'{op}(({a.n!r})/({a.d!r}))'


def quot(kind, n, d):
    """n/d rounded; integral part extracted"""
    dc = d.const()
    if dc is not None and dc != 0:
        n = n * Poly.c(1 / dc)
        d = Poly.c(1)
        # split integer monomials
        i = {k: v for k, v in n.d.items() if v.denominator == 1}
        f = {k: v for k, v in n.d.items() if v.denominator != 1}
        if kind == '/':
            return n
        if not f:
            return Poly(i)
        return Poly(i) + Poly.a(Quot(kind, Poly(f), d))
    # extract multiples of d:  n = q*d + r for monomials divisible by a monomial d
    if len(d.d) == 1:
        (dk, dv), = d.d.items()
        q, r = {}, {}
        for k, v in n.d.items():
            rest = list(k)
            ok = True
            for x in dk:
                hit = [y for y in rest if akey(y) == akey(x)]
                if hit:
                    rest.remove(hit[0])
                else:
                    ok = False
                    break
            if ok and (v / dv).denominator == 1:
                kk = tuple(sorted(rest, key=akey))
                q[kk] = q.get(kk, 0) + v / dv
            else:
                r[k] = v
        if not r:
            return Poly(q)
        # canonical constant term inside ceil/floor kept as is
        return Poly(q) + Poly.a(Quot(kind, Poly(r), d))
    return Poly.a(Quot(kind, n, d))


def rounded(kind, p):
    """floor/ceil of a polynomial that may contain one exact quotient atom"""
    ex = [k for k in p.d if len(k) == 1 and isinstance(k[0], Quot) and k[0].kind == '/']
    if len(ex) == 1:
        k = ex[0]
        q = k[0]
        v = p.d[k]
        rest = Poly({m: c for m, c in p.d.items() if m != k})
        if all(c.denominator == 1 for c in rest.d.values()) and v.denominator == 1:
            if v == 1:
                return rest + quot(kind, q.n, q.d)
            if v == -1:
                other = 'c' if kind == 'f' else 'f'
                return rest - quot(other, q.n, q.d)
    fr = {m: c for m, c in p.d.items() if c.denominator != 1}
    if fr and not ex:
        it = Poly({m: c for m, c in p.d.items() if c.denominator == 1})
        return it + Poly.a(Quot(kind, Poly(fr), Poly.c(1)))
    return p


def poly(t, atom=None):
    """canonical polynomial of a term; `atom` maps leaf terms"""
    r = lambda x: poly(x, atom)
    if t.op == 'const' and isinstance(t.args[1], (int, float)) and not isinstance(t.args[1], bool):
        return Poly.c(Fraction(t.args[1]))
    if t.op == 'bin':
        op, a, b = t.args
        if op == '+':
            return r(a) + r(b)
        if op == '-':
            return r(a) - r(b)
        if op == '*':
            return r(a) * r(b)
        if op == '//':
            n, d = r(a), r(b)
            q = quot('f', n, d)
            return q
        if op == '/':
            return quot('/', r(a), r(b))
        if op == '**' and b.op == 'const' and b.args[1] in (2, 3):
            x = r(a)
            y = x
            for _ in range(b.args[1] - 1):
                y = y * x
            return y
    if t.op == 'un' and t.args[0] == '-':
        x = -r(t.args[1])
        return x
    if t.op == 'call' and t.args[0].op == 'ext' and len(t.args[1]) == 1 and not t.args[2]:
        n = t.args[0].args[0]
        if n in FLOORS:
            return rounded('f', r(t.args[1][0]))
        if n in CEILS:
            return rounded('c', r(t.args[1][0]))
    if atom is not None:
        x = atom(t)
        if x is not None:
            return x if isinstance(x, Poly) else Poly.a(x)
    return Poly.a(t)
