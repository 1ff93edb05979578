"""Model of the planar groups C_N, D_N, SO(2), O(2) in the algebraic domain, and evaluation of source
terms about their elements.  An element is (flip, angle): the orthogonal map R(angle) * diag(1, -1)^flip."""
from .terms import *
from . import alg
from .alg import S, Arr, Unknown, Raises, Eval, TWOPI

KINDS = {'CyclicGroup': 'C', 'DihedralGroup': 'D', 'SO2': 'SO2', 'O2': 'O2'}
MAKERS = {'cyclic_group': 'C', 'dihedral_group': 'D', 'so2_group': 'SO2', 'o2_group': 'O2'}


class GV:
    def __init__(self, kind, N=None):
        self.kind, self.N = kind, N
        self.flips = kind in ('D', 'O2')

    def __eq__(self, o):
        return isinstance(o, GV) and self.kind == o.kind and self.N == o.N

    def __hash__(self):
        return hash((self.kind, self.N))

    def __repr__(self):
        return f'{self.kind}({self.N!r})' if self.N is not None else self.kind

    def one(self):
        return GE(self, 0, S.c(0))

    def order(self):
        if self.kind == 'C':
            return self.N
        if self.kind == 'D':
            return self.N * S.c(2)
        return S.c(-1)


class GE:
    def __init__(self, g, f, x):
        self.g, self.f, self.x = g, f, x

    def to(self, par):
        if par == 'int':
            if self.g.N is None:
                raise Raises()
            r = self.x * self.g.N / TWOPI
        elif par == 'radians':
            r = self.x
        elif par == 'MAT':
            c, s = alg.cos(self.x), alg.sin(self.x)
            r = alg.arr(((c, -s), (s, c)))
        else:
            raise Unknown(f'parametrization {par}')
        return (S.c(self.f), r) if self.g.flips else r

    @staticmethod
    def make(g, v, par):
        if par is None:
            par = 'int' if g.N is not None else 'radians'
        f = 0
        if g.flips:
            if not isinstance(v, tuple) or len(v) != 2:
                raise Raises()
            c = v[0].const() if isinstance(v[0], S) else (int(v[0]) if isinstance(v[0], bool) else None)
            if c not in (0, 1):
                raise Unknown('flip')
            f, v = int(c), v[1]
        if not isinstance(v, S) and par != 'MAT':
            raise Unknown('element value')
        if par == 'int':
            if g.N is None:
                raise Raises()
            x = v * TWOPI / g.N
        elif par == 'radians':
            x = v
        elif par == 'MAT':
            x = alg.arctan2(v[1][0], v[0][0])
        else:
            raise Unknown(f'parametrization {par}')
        return GE(g, f, x)

    def mul(self, o):
        if self.g != o.g:
            raise Unknown('product of elements of different groups')
        return GE(self.g, (self.f + o.f) % 2, self.x + (-o.x if self.f else o.x))

    def inv(self):
        return GE(self.g, self.f, self.x if self.f else -self.x)

    def same(self, o):
        """the same element: True, False (provably or generically different)"""
        if self.g != o.g or self.f != o.f:
            return False
        d = self.x - o.x
        return not d.d or (d / TWOPI).is_int()

    def __repr__(self):
        return f'<{self.g!r}: ' + (f'{self.f}, ' if self.g.flips else '') + f'{self.x!r}>'


def nm(t):
    fn = t.args[0]
    if fn.op == 'bound':
        return fn.args[1].rpartition('.')[2]
    if fn.op == 'func':
        return fn.args[0].rpartition('.')[2]
    if fn.op == 'attr':
        return fn.args[1]
    if fn.op == 'class':
        return fn.args[0].rpartition('.')[2]
    if fn.op == 'ext':
        return fn.args[0].rpartition('.')[2]
    return None


def recv(t):
    fn = t.args[0]
    return fn.args[0] if fn.op in ('bound', 'attr') else None


def argv(t, *names):
    d = dict(t.args[2])
    for n, v in zip(names, t.args[1]):
        d.setdefault(n, v)
    return [d.get(n) for n in names]


KEEP = {'order', 'element', 'to', 'cycle_isclose', '_generator', 'cyclic_group', 'dihedral_group', 'so2_group', 'o2_group',
        'so3_group', 'o3_group', 'full_cylinder_group', 'cylinder_group', 'octa_group', 'ico_group', 'directsum', 'change_basis',
        'irrep', 'subgroup', '_subgroup', 'get_irrep_id', 'identity', '_irreps'}


def keep(f, r):
    return False if f.name in KEEP and f.parent is None else None


class PEval(Eval):
    """evaluation with group elements; `ints`: quantities known to be integral on the path"""

    def __init__(self, env, generic=(), project=None, **kw):
        super().__init__(env, call=self.hook, modulo=self.mod, rounds=self.integral, cond=self.gcond, **kw)
        self.generic = generic
        self.ints = []
        self.p = project

    def mod(self, m, x):
        return False

    def integral(self, v):
        for q in self.ints:
            for d in (v - q, v + q):
                if not d.d or d.is_int():
                    return True
        return False

    def hook(self, t, ev):
        op = t.op
        if op == 'bin' and t.args[0] == '@':
            try:
                a, b = self(t.args[1]), self(t.args[2])
            except Unknown:
                raise
            if isinstance(a, GE) and isinstance(b, GE):
                return a.mul(b)
            return None
        if op == 'un' and t.args[0] == '~':
            a = self(t.args[1])
            if isinstance(a, GE):
                return a.inv()
            return None
        if op == 'attr':
            n = t.args[1]
            if n in ('group', 'rotation_order', 'N', 'identity', '_identity', 'reflection', 'value', 'elements', 'size', '_param', 'param', 'PARAM', 'id', 'T'):
                b = self(t.args[0])
                if isinstance(b, GE):
                    if n == 'group':
                        return b.g
                    if n == 'value':
                        return b.to('int' if b.g.N is not None else 'radians')
                    if n == 'param':
                        return 'int' if b.g.N is not None else 'radians'
                if isinstance(b, GV):
                    if n in ('rotation_order', 'N') and b.N is not None:
                        return b.N
                    if n in ('identity', '_identity'):
                        return b.one()
                    if n == 'reflection' and b.flips:
                        return GE(b, 1, S.c(0))
                    if n == 'PARAM':
                        return 'int' if b.N is not None else 'radians'
                return None
            return None
        if op == 'call':
            n = nm(t)
            r = recv(t)
            if n in ('order', 'to', 'element') and r is not None:
                b = self(r)
                if n == 'order' and isinstance(b, GV):
                    return b.order()
                if n == 'to' and isinstance(b, GE):
                    q, = argv(t, 'param')
                    return b.to(self(q))
                if n == 'element' and isinstance(b, GV):
                    v, q = argv(t, 'element', 'param')
                    return GE.make(b, self(v), self(q) if q is not None else None)
                return None
            if n == 'GroupElement' and t.args[0].op == 'class':
                v, g, q = argv(t, 'g', 'group', 'param')
                b = self(g)
                if isinstance(b, GV):
                    return GE.make(b, self(v), self(q) if q is not None else None)
            if n in MAKERS:
                k = MAKERS[n]
                if k in ('C', 'D'):
                    q, = argv(t, 'N')
                    return GV(k, self.num(q))
                return GV(k)
            if n == '_generator' and t.args[0].op == 'bound' and t.args[0].args[0].op == 'class':
                k = KINDS.get(t.args[0].args[0].args[0].rpartition('.')[2])
                if k in ('C', 'D'):
                    return GV(k, self.num(argv(t, 'N')[0]))
                if k:
                    return GV(k)
        return None

    def gcond(self, c, ev):
        if c.op == 'call':
            n = nm(c)
            if n == 'cycle_isclose':
                a, b, s = argv(c, 'a', 'b', 'S')
                q = (self.num(a) - self.num(b)) / self.num(s)
                return self.integer_cond(q, c)
            if n == 'isinstance' and c.args[0] is ext('builtins.isinstance') and len(c.args[1]) == 2:
                try:
                    v = self(c.args[1][0])
                except Unknown:
                    return None
                k = c.args[1][1]
                kn = k.args[0].rpartition('.')[2] if k.op in ('class', 'ext') else None
                if isinstance(v, GV) and kn in KINDS:
                    return v.kind == KINDS[kn]
                if isinstance(v, GE) and kn == 'GroupElement':
                    return True
            return None
        if c.op == 'cmp' and c.args[0] in ('==', '!='):
            try:
                a, b = self(c.args[1]), self(c.args[2])
            except Unknown:
                return None
            r = None
            if isinstance(a, (GE, GV)) or isinstance(b, (GE, GV)):
                if isinstance(a, GE) and isinstance(b, GE):
                    r = a.same(b)
                    if not r and a.f == b.f and a.g == b.g:
                        r = self.decide_sym(((a.x - b.x) / TWOPI), c)
                elif isinstance(a, GV) and isinstance(b, GV):
                    r = a == b
                else:
                    r = False
            elif isinstance(a, S) and isinstance(b, S):
                d = a - b
                if d.const() is None:
                    # x % m == 0
                    r = self.mod_cond(c, a, b)
                    if r is None:
                        r = self.generic_eq(d)
            if r is not None:
                return r if c.args[0] == '==' else not r
        return None

    def mod_cond(self, c, a, b):
        for t, o in ((c.args[1], b), (c.args[2], a)):
            if t.op == 'bin' and t.args[0] == '%' and o.const() == 0:
                q = self.num(t.args[1]) / self.num(t.args[2])
                return self.integer_cond(q, c)
        return None

    def integer_cond(self, q, c):
        """is q an integer?  symbolic q: decided by the scenario (`assume`)"""
        if q.is_int():
            return True
        k = q.const()
        if k is not None:
            return k.denominator == 1
        if self.integral(q):
            return True
        v = self.decide_sym(q, c)
        if v:
            self.ints.append(q)
        return v

    def decide_sym(self, q, c):
        raise Unknown('symbolic condition ' + show(c)[:60])

    def generic_eq(self, d):
        """equality of different expressions in the generic parameters is false"""
        ks = {k for (m, e) in d.d for k, x in m}
        if ks and ks <= set(self.generic) and d.plain():
            return False
        return None

    def binary(self, t):
        if t.args[0] == '//':
            a, b = self.num(t.args[1]), self.num(t.args[2])
            try:
                q = a / b
            except Unknown:
                q = None
            if q is not None and not q.is_int() and q.const() is None and self.integral(q):
                return q
        return super().binary(t)


ISIG = ['group', 'id', 'name', 'representation', 'size', 'type', 'supported_nonlinearities', 'character']


def irrep_args(t):
    """arguments of a constructor call IrreducibleRepresentation(...), keywords collected in **kwargs included"""
    d = dict(t.args[2])
    for n, v in zip(ISIG, t.args[1]):
        d.setdefault(n, v)
    for n, v in list(d.items()):
        if v.op == 'dict' and n not in ISIG:
            del d[n]
            for kv in v.args:
                k, w = kv.args if isinstance(kv, T) else kv
                if isinstance(k, T) and k.op == 'const' and isinstance(k.args[1], str):
                    d.setdefault(k.args[1], w)
    return d
