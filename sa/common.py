"""Shared helpers of the rules."""
import ast
from .terms import *
from .interp import Interp, call_of, callee_name, call_args, Event
from .project import ClassInfo, FuncInfo, walk_same_scope, AnalysisError

_ctor = {}


def ctor(p, cls):
    """analysis of the constructor: (Interp, Result); attribute values in state.heap"""
    k = (id(p), cls.qualname)
    if k not in _ctor:
        f = p.method(cls, '__init__')
        if f is None:
            _ctor[k] = (None, None)
        else:
            it = Interp(p, max_stmts=400)
            _ctor[k] = (it, it.run(f, cls))
    return _ctor[k]


def ctor_heap(p, cls):
    it, r = ctor(p, cls)
    if r is None or r.state is None:
        return {}
    return {k[1]: v for k, v in r.state.heap.items() if k[0] is SELF}


def leaves(t, facts=()):
    """(condition tuple, leaf) alternatives of a value"""
    out = []

    def go(t, conds):
        if t.op == 'ite':
            go(t.args[1], conds + (t.args[0],))
            go(t.args[2], conds + (neg(t.args[0]),))
        elif t.op == 'loopval':
            go(t.args[0], conds)
            go(t.args[1], conds)
        else:
            out.append((conds, t))
    go(t, ())
    return out


def equivariant_modules(p):
    out = [c for c in p.subclasses('EquivariantModule')]
    if len(out) < 40:
        raise AnalysisError(f'only {len(out)} equivariant modules found')
    return sorted(out, key=lambda c: c.qualname)


def concrete(p, c, *methods):
    ab = p.abstract_methods(c)
    return not any(m in ab for m in methods)


def is_gt_ann(func, name):
    a = func.annotations.get(name)
    if a is None:
        return False
    try:
        s = ast.unparse(a)
    except Exception:
        return False
    return s.strip('"\'').rpartition('.')[2] == 'GeometricTensor'


def gt_params(func):
    return [n for n in func.params[1:] if is_gt_ann(func, n)]


def kwargs_of(t):
    return dict(t.args[2])


def is_ctor(t, name):
    return t.op == 'call' and t.args[0].op == 'class' and t.args[0].args[0].rpartition('.')[2] == name


def root(t):
    """storage root an in-place update of t would write through (views, slices, attributes kept)"""
    VIEW = {'view', 'reshape', 'transpose', 'permute', 'squeeze', 'unsqueeze', 'expand', 'detach', 'flatten', 'narrow',
            't', 'contiguous', 'expand_as', 'view_as', 'select', 'diagonal', 'swapaxes', 'ravel', 'numpy', 'unfold', 'data_ptr'}
    while True:
        if t.op == 'sub':
            t = t.args[0]
        elif t.op == 'upd':
            t = t.args[0]
        elif t.op == 'mut':
            t = t.args[1]
        elif t.op == 'attr' and t.args[1] in ('data', 'T', 'real', 'imag'):
            t = t.args[0]
        elif t.op == 'call' and t.args[0].op == 'attr' and (t.args[0].args[1] in VIEW or (t.args[0].args[1].endswith('_') and not t.args[0].args[1].endswith('__'))):
            t = t.args[0].args[0]
        else:
            return t


def feasible(facts):
    """False when the facts contradict each other"""
    eq, ne = {}, set()
    for l in facts:
        if l is FALSE or neg(l) in facts:
            return False
        if l.op == 'cmp' and l.args[0] == '==':
            a, b = l.args[1], l.args[2]
            if a.op == 'const':
                a, b = b, a
            if b.op == 'const':
                if eq.setdefault(a, b) is not b:
                    return False

    def refuted(l):
        if neg(l) in facts:
            return True
        if l.op == 'cmp' and l.args[0] == '==':
            a, b = l.args[1], l.args[2]
            if a.op == 'const':
                a, b = b, a
            return b.op == 'const' and a in eq and eq[a] is not b
        return False
    for l in facts:
        if l.op == 'or' and all(refuted(x) for x in l.args):
            return False
    return True


def assume(t, conds):
    """t with the conditionals on the given conditions resolved"""
    cs = set(conds)
    for _ in range(12):
        m = {}
        for s in t.subterms():
            if s.op == 'ite':
                v = truth(s.args[0], cs)
                if v is not None:
                    m[s] = s.args[1] if v else s.args[2]
        if not m:
            return t
        t2 = subst(t, m)
        if t2 is t:
            return t
        t = t2
    return t


def truth(c, cs):
    """truth value of condition c given the conditions cs, or None"""
    if c is TRUE or c in cs:
        return True
    if c is FALSE or neg(c) in cs:
        return False
    if c.op in ('or', 'and'):
        vs = [truth(x, cs) for x in c.args]
        stop = c.op == 'or'
        if stop in vs:
            return stop
        if all(v is (not stop) for v in vs):
            return not stop
    if c.op == 'not':
        v = truth(c.args[0], cs)
        return None if v is None else not v
    return None
