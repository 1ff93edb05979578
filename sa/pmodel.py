"""Facts about the planar groups extracted from source: subgroup triples and irreducible representations,
as functions on symbolic elements (sa.planar.GE)."""
from fractions import Fraction
from .common import *
from . import alg
from .alg import S, Arr, Unknown, Raises, TWOPI
from .planar import *

CLS = {v: k for k, v in KINDS.items()}
SIG = ['group', 'id', 'name', 'representation', 'size', 'type', 'supported_nonlinearities', 'character']
E = arg('e')


class IR:
    """irreducible representation, by group and identifier"""

    def __init__(self, g, id):
        self.g, self.id = g, id

    def __repr__(self):
        return f'irrep{self.id} of {self.g!r}'


class MEval(PEval):
    """generic symbols: equal or divisible only when their normal forms say so; integers positive"""
    names = ()
    model = None

    def decide_sym(self, q, c):
        ks = {k for (m, e) in q.d for k, x in m}
        if q.plain() and ks <= set(self.names) | {'pi'}:
            return False
        raise Unknown('symbolic condition ' + show(c)[:60])

    def generic_eq(self, d):
        ks = {k for (m, e) in d.d for k, x in m}
        if ks and ks <= set(self.names) | {'pi'} and d.plain():
            return False
        return None

    def gcond(self, c, ev):
        if c.op == 'cmp' and c.args[0] in ('<', '<=', '>', '>='):
            try:
                a, b = self.num(c.args[1]), self.num(c.args[2])
            except Unknown:
                return None
            d = a - b
            if d.const() is None and d.plain():
                s = {v[0] > 0 for v in d.d.values()}
                if len(s) == 1 and all(k in POS for (m, e) in d.d for k, x in m):
                    return s.pop() is (c.args[0] in ('>', '>='))
        return super().gcond(c, ev)

    def hook(self, t, ev):
        m = self.model
        if m is not None:
            if t.op == 'attr' and t.args[1] in ('size', 'attributes', 'type', 'id', 'change_of_basis', 'irreps', 'group'):
                b = self(t.args[0])
                if isinstance(b, IR):
                    n = t.args[1]
                    if n == 'size':
                        return S.c(m.irrep(b.g, b.id)['size'])
                    if n == 'type':
                        return m.irrep(b.g, b.id)['type']
                    if n == 'id':
                        return b.id
                    if n == 'group':
                        return b.g
                    if n == 'attributes':
                        return ('attributes', b)
                    if n == 'change_of_basis':
                        return alg.arr(alg.eye(m.irrep(b.g, b.id)['size']))
                    if n == 'irreps':
                        return (b.id,)
            if t.op == 'sub' and t.args[1].op == 'const' and isinstance(t.args[1].args[1], str):
                b = self(t.args[0])
                if isinstance(b, tuple) and len(b) == 2 and b[0] == 'attributes':
                    v = m.irrep(b[1].g, b[1].id)['attributes'].get(t.args[1].args[1])
                    if v is None:
                        raise Raises()
                    return v
            if t.op == 'call':
                n = nm(t)
                if n == 'irrep' and recv(t) is not None:
                    g = self(recv(t))
                    if isinstance(g, GV):
                        return IR(g, self.idarg(t, g))
                if n in ('subgroup', '_subgroup') and recv(t) is not None:
                    g = self(recv(t))
                    if isinstance(g, GV):
                        tr = m.triple(g, self(argv(t, 'id')[0]))
                        return (tr['sg'], ('parent', tr), ('child', tr))
                if n == '_process_subgroup_id' and recv(t) is not None:
                    return self(argv(t, 'id')[0])
                if n == 'get_irrep_id' and recv(t) is not None:
                    v = self(argv(t, 'id')[0] or t.args[1][0])
                    return v.id if isinstance(v, IR) else v
                if t.args[0].op == 'sub':
                    fn = self(t.args[0])
                    if isinstance(fn, tuple) and len(fn) == 2 and fn[0] in ('parent', 'child') and t.args[1]:
                        return fn[1][fn[0]](self(t.args[1][0]))
        return super().hook(t, ev)

    def idarg(self, t, g):
        names = ['j', 'k'] if g.flips else ['k']
        pos = list(t.args[1])
        kw = dict(t.args[2])
        out = []
        for x in pos:
            if x.op in ('star', 'starred'):
                v = self(x.args[0])
                if not isinstance(v, tuple):
                    raise Unknown('star')
                out += list(v)
            else:
                out.append(self(x))
        for n in names[len(out):]:
            if n not in kw:
                raise Unknown('irrep arguments')
            out.append(self(kw[n]))
        return tuple(out)


POS = {'n', 'r', 'N', 'M', 'k', 'q'}


class Model:
    def __init__(self, p, names=()):
        self.p = p
        self.names = tuple(names)
        self._irr, self._tri, self._runs = {}, {}, {}

    def ev(self, env):
        v = MEval(env, generic=self.names)
        v.names = self.names
        v.model = self
        return v

    def method(self, kind, name, inline=keep):
        k = (kind, name)
        if k not in self._runs:
            c = self.p.cls(CLS[kind])
            f = self.p.method(c, name)
            if f is None:
                raise Unknown(f'{CLS[kind]}.{name} not found')
            it = Interp(self.p, inline=lambda g, r: None if g is f else inline(g, r), max_stmts=300)
            self._runs[k] = (c, f, it, it.run(f, c))
        return self._runs[k]

    def genv(self, G):
        env = {SELF: G}
        if G.N is not None:
            for n in ('N', 'rotation_order', '_N'):
                env[attr(SELF, n)] = G.N
        env[attr(SELF, '_maximum_frequency')] = S.atom('maxfreq')
        return env

    # ---------------------------------------------------------------- value of a method
    def value(self, kind, name, env):
        """value of the method in the environment, through its return statements"""
        c, f, it, r = self.method(kind, name)
        out = []
        for e in r.of('return'):
            out.append(e)
        if not out:
            raise Unknown('no return')
        ev = self.ev(env)
        cand = []
        for e in out:
            sure = True
            for l in e.facts:
                if not relevant(l):
                    continue
                try:
                    if not ev.truth(l):
                        sure = None
                        break
                except (Unknown, Raises):
                    sure = False
            if sure is not None:
                cand.append((sure, e))
        if not cand:
            raise Raises()
        if len(cand) > 1 and not all(x for x, _ in cand):
            raise Unknown('several paths possible')
        return cand[0][1], ev, it

    def pick(self, t, ev):
        while t.op == 'ite':
            t = t.args[1] if ev.truth(t.args[0]) else t.args[2]
        return t

    # ---------------------------------------------------------------- subgroups
    def triple(self, G, id):
        k = (G, repr(id))
        if k in self._tri:
            return self._tri[k]
        c, f, it, r = self.method(G.kind, '_subgroup')
        env = self.genv(G)
        env[arg(f.params[1])] = id
        e, ev, it = self.value(G.kind, '_subgroup', env)
        v = self.pick(e['value'], ev)
        if v.op != 'tuple' or len(v.args) != 3:
            raise Unknown('triple expected')
        sg = ev(v.args[0])
        if not isinstance(sg, GV):
            raise Unknown('subgroup')
        fns = []
        for x in v.args[1:]:
            fns.append(it.invoke(self.pick(x, ev), (E,))[0])

        def mk(t):
            def fn(g):
                e2 = dict(env)
                e2[E] = g
                return self.ev(e2)(t)
            return fn
        self._tri[k] = {'sg': sg, 'parent': mk(fns[0]), 'child': mk(fns[1]), 'loc': e.loc()}
        return self._tri[k]

    # ---------------------------------------------------------------- irreps
    def irrep(self, G, id):
        k = (G, tuple(x.key() if isinstance(x, S) else x for x in id))
        if k in self._irr:
            return self._irr[k]
        c, f, it, r = self.method(G.kind, 'irrep')
        names = f.params[1:]
        if len(id) != (2 if G.flips else 1):
            raise Raises()
        env = self.genv(G)
        for n, v in zip(names, id):
            env[arg(n)] = v
        ev = self.ev(env)
        feas = []
        for e in r.calls():
            if not is_ctor(e['term'], 'IrreducibleRepresentation'):
                continue
            ok, unk = True, None
            for l in e.facts:
                if any(x.op == 'attr' and x.args[1] == '_irreps' for x in l.subterms()):
                    continue
                try:
                    if not ev.truth(l):
                        ok = False
                        break
                except (Unknown, Raises):
                    if l.op == 'cmp' and l.args[0] in ('<', '<=', '>', '>='):
                        continue
                    unk = l
            if ok and unk is not None:
                raise Unknown('condition ' + show(unk)[:80])
            if ok:
                feas.append(e)
        if not feas:
            raise Raises()
        e = feas[0]
        d = irrep_args(e['term'])
        rt, _ = it.invoke(d['representation'], (E,))

        def rho(g):
            e2 = dict(env)
            e2[E] = g
            return self.ev(e2)(rt)
        size = ev.num(d['size']).const()
        if size is None:
            raise Unknown('size')
        atts = {n: ev(v) for n, v in d.items() if n not in SIG}
        self._irr[k] = {'size': int(size), 'type': ev(d['type']), 'rho': rho, 'attributes': atts, 'loc': e.loc()}
        return self._irr[k]


def relevant(l):
    """facts of type checks and of earlier requests do not select a path"""
    for x in l.subterms():
        if x.op == 'attr' and x.args[1] in ('_irreps', '_subgroups', '_representations'):
            return False
        if x.op == 'call' and x.args[0] is ext('builtins.isinstance'):
            return False
    return True
