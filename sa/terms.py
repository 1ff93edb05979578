"""Hash-consed value-provenance terms: the abstract values of the analysis.

A term says where a value came from (an argument, an attribute of the module, a
call with given operands, ...).  Equal terms denote values computed the same way,
regardless of local names, temporaries, argument spelling or helper extraction.
"""

_TABLE = {}


class T:
    __slots__ = ('op', 'args', 'id', '_sub')

    def __new__(cls, op, *args):
        key = (op, tuple((type(a).__name__, a) if not isinstance(a, (T, str)) else a for a in args))
        t = _TABLE.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args, t.id, t._sub = op, args, len(_TABLE), None
            _TABLE[key] = t
        return t

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return self.id

    def __repr__(self):
        return show(self)

    def subterms(self):
        """set of all sub-terms (including self)"""
        if self._sub is None:
            s = {self}
            for a in self.args:
                _collect(a, s)
            self._sub = frozenset(s)
        return self._sub

    def contains(self, t):
        return t in self.subterms()


def _collect(a, s):
    if isinstance(a, T):
        s |= a.subterms()
    elif isinstance(a, tuple):
        for x in a:
            _collect(x, s)


def const(v):
    return T('const', type(v).__name__, v)


NONE, TRUE, FALSE = const(None), const(True), const(False)
SELF = T('self')


def is_const(t, *vals):
    return t.op == 'const' and (not vals or any(type(v).__name__ == t.args[0] and v == t.args[1] for v in vals))


def attr(base, *names):
    for n in names:
        base = T('attr', base, n)
    return base


def arg(n):
    return T('arg', n)


def ext(dotted):
    return T('ext', dotted)


def tup(*xs):
    return T('tuple', *xs)


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d) for x in t) + ')'
        return str(t)
    if d > 12:
        return '...'
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if o == 'const':
        return repr(a[1])
    if o == 'self':
        return 'self'
    if o == 'arg':
        return a[0]
    if o == 'attr':
        return f'{s(a[0])}.{a[1]}'
    if o == 'dynattr':
        return f'getattr({s(a[0])}, {s(a[1])})'
    if o == 'call':
        xs = [s(x) for x in a[1]] + [f'{k}={s(v)}' for k, v in a[2]]
        return f'{s(a[0])}({", ".join(xs)})'
    if o in ('ext', 'class', 'func'):
        return a[0].rpartition('.')[2] if o == 'ext' and a[0].startswith('builtins.') else a[0].replace('escnn.', '')
    if o in ('bin', 'cmp'):
        return f'({s(a[1])} {a[0]} {s(a[2])})'
    if o == 'un':
        return f'({a[0]}{s(a[1])})'
    if o in ('and', 'or'):
        return '(' + f' {o} '.join(s(x) for x in a) + ')'
    if o == 'not':
        return f'not {s(a[0])}'
    if o == 'sub':
        return f'{s(a[0])}[{s(a[1])}]'
    if o == 'slice':
        return ':'.join('' if x is NONE else s(x) for x in a)
    if o == 'ite':
        return f'({s(a[1])} if {s(a[0])} else {s(a[2])})'
    if o == 'tuple':
        return '(' + ', '.join(s(x) for x in a) + ')'
    if o == 'list':
        return '[' + ', '.join(s(x) for x in a) + ']'
    if o == 'elem':
        return f'elem<{s(a[0])}>' + ("'" * a[1] if len(a) > 1 else '')
    return o + '<' + ', '.join(s(x) for x in a) + '>'


def subst(t, m, memo=None):
    """replace terms by mapping m (T -> T), rebuilding with the smart constructors"""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(subst(x, m, memo) for x in t)
        return t
    if t in memo:
        return memo[t]
    if t in m:
        r = m[t]
    else:
        sub = t.subterms()
        if not any(k in sub for k in m):
            r = t
        else:
            r = rebuild(t.op, tuple(subst(x, m, memo) for x in t.args))
    memo[t] = r
    return r


def rebuild(op, args):
    if op == 'sub':
        return sub(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'attr':
        return T('attr', *args)
    if op == 'cmp':
        return cmp(*args)
    if op == 'not':
        return neg(args[0])
    if op in ('and', 'or'):
        return boolop(op, args)
    if op == 'str':
        return mkstr(args)
    if op == 'bin':
        return binop(*args)
    return T(op, *args)


# ---------------------------------------------------------------- constructors
FLIP = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '==', 'is': 'is not', 'is not': 'is',
        'in': 'not in', 'not in': 'in'}


def cmp(op, a, b):
    if op in ('>', '>='):
        op, a, b = {'>': '<', '>=': '<='}[op], b, a
    if op in ('==', '!=') and (is_const(a, None) or is_const(b, None)):
        op = 'is' if op == '==' else 'is not'
    if op in ('==', '!=', 'is', 'is not') and a.id > b.id:
        a, b = b, a
    if op in ('is', 'is not'):
        # keep None on the right
        if is_const(a, None):
            a, b = b, a
        if a is b and a is NONE:
            return TRUE if op == 'is' else FALSE
        if b is NONE and a.op in ('tuple', 'list', 'dict', 'str', 'comp', 'bin', 'un'):
            return FALSE if op == 'is' else TRUE
        if b is NONE and a.op == 'call' and a.args[0].op == 'class':
            return FALSE if op == 'is' else TRUE
    if a.op == 'const' and b.op == 'const':
        x, y = a.args[1], b.args[1]
        try:
            r = {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y,
                 'is': lambda: x is y if (x is None or y is None or isinstance(x, bool) and isinstance(y, bool)) else None,
                 'is not': lambda: x is not y if (x is None or y is None or isinstance(x, bool) and isinstance(y, bool)) else None
                 }.get(op, lambda: None)()
            if r is not None:
                return const(bool(r))
        except Exception:
            pass
    if op in ('==', 'is', '<=') and a is b and a.op in ('const', 'arg', 'attr', 'self'):
        return TRUE
    if op in ('!=', 'is not', '<') and a is b and a.op in ('const', 'arg', 'attr', 'self'):
        return FALSE
    return T('cmp', op, a, b)


def neg(t):
    if t.op == 'const':
        return const(not t.args[1])
    if t.op == 'not':
        return t.args[0]
    if t.op == 'cmp':
        return cmp(FLIP[t.args[0]], t.args[1], t.args[2])
    if t.op == 'and':
        return boolop('or', [neg(x) for x in t.args])
    if t.op == 'or':
        return boolop('and', [neg(x) for x in t.args])
    if t.op == 'forall':
        return T('not', t)
    return T('not', t)


def boolop(op, xs):
    """xs in evaluation order; flattened; constants folded when safe"""
    out = []
    for x in xs:
        if x.op == op:
            ys = x.args
        else:
            ys = (x,)
        for y in ys:
            if y.op == 'const':
                if bool(y.args[1]) == (op == 'and'):
                    if y in (TRUE, FALSE):
                        continue  # neutral
                else:
                    if not out:
                        return y
                    out.append(y)
                    return T(op, *out)
            if y not in out:
                out.append(y)
    if not out:
        return TRUE if op == 'and' else FALSE
    if len(out) == 1:
        return out[0]
    return T(op, *out)


def ite(c, a, b):
    if a is b:
        return a
    if c.op == 'const':
        return a if c.args[1] else b
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'cmp' and c.args[0] in ('!=', 'is not', 'not in'):
        return ite(neg(c), b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return neg(c)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return T('ite', c, a, b)


def sub(base, idx):
    if base.op in ('tuple', 'list') and is_const(idx) and isinstance(idx.args[1], int) and not any(x.op == 'star' for x in base.args):
        i = idx.args[1]
        if -len(base.args) <= i < len(base.args):
            return base.args[i]
    if base.op == 'dict' and idx.op == 'const':
        for k, v in base.args:
            if k is idx:
                return v
    if base.op in ('tuple', 'list') and idx.op == 'slice' and all(is_const(x) for x in idx.args) \
            and not any(x.op == 'star' for x in base.args):
        return T(base.op, *base.args[slice(*[x.args[1] for x in idx.args])])
    if base.op == 'sub' and base.args[1].op == 'slice' and idx.op == 'const' and isinstance(idx.args[1], int) and idx.args[1] >= 0 \
            and base.args[0].op not in ('tuple', 'list'):
        a, b, st = base.args[1].args
        lo = 0 if a is NONE else a.args[1] if a.op == 'const' else None
        if isinstance(lo, int) and lo >= 0 and st is NONE and (b is NONE or b.op == 'const' and isinstance(b.args[1], int) and lo + idx.args[1] < b.args[1]):
            return sub(base.args[0], const(lo + idx.args[1]))
    if base.op == 'upd' and base.args[1] is idx:
        return base.args[2]
    if base.op == 'upd' and base.args[1].op == 'const' and idx.op == 'const':
        return sub(base.args[0], idx)
    if idx.op == 'idx' and idx.args[0] is base:
        return T('elem', *idx.args)
    if base.op == 'bin' and base.args[0] == '*' and idx.op != 'slice':
        # (p,) * n indexed
        for s in base.args[1:]:
            if s.op in ('tuple', 'list') and len(s.args) == 1 and s.args[0].op != 'star':
                return s.args[0]
    if base.op == 'ite':
        return ite(base.args[0], sub(base.args[1], idx), sub(base.args[2], idx))
    # element i of a list built by mapping over range(n), i running over the same range
    b = base
    if b.op == 'call' and b.args[0] in (ext('builtins.tuple'), ext('builtins.list')) and len(b.args[1]) == 1:
        b = b.args[1][0]
    if b.op == 'comp' and b.args[0] in ('list', 'gen') and len(b.args[2]) == 1 and not b.args[2][0][1]:
        it = b.args[2][0][0]
        if it.op == 'call' and it.args[0] is ext('builtins.range') and len(it.args[1]) == 1 and idx is T('elem', it):
            return b.args[1]
        if idx is T('idx', it):
            return b.args[1]
    return T('sub', base, idx)


def mkstr(parts):
    out = []
    for p in parts:
        if p.op == 'str':
            out += p.args
        elif p.op == 'const' and isinstance(p.args[1], (str, int)) and not isinstance(p.args[1], bool):
            out.append(const(str(p.args[1])))
        elif p.op == 'call' and p.args[0] is ext('builtins.str') and len(p.args[1]) == 1:
            out.append(p.args[1][0])
        else:
            out.append(p)
    res = []
    for p in out:
        if res and p.op == 'const' and res[-1].op == 'const' and isinstance(p.args[1], str) and isinstance(res[-1].args[1], str):
            res[-1] = const(res[-1].args[1] + p.args[1])
        elif p.op == 'const' and p.args[1] == '' and len(out) > 1:
            continue
        else:
            res.append(p)
    if len(res) == 1 and res[0].op == 'const':
        return res[0]
    if not res:
        return const('')
    return T('str', *res)


def is_str(t):
    return t.op == 'str' or (t.op == 'const' and isinstance(t.args[1], str))


def binop(op, a, b):
    if op == '+' and (is_str(a) or is_str(b)):
        return mkstr([a, b])
    if a.op == 'const' and b.op == 'const' and isinstance(a.args[1], (int, float)) and isinstance(b.args[1], (int, float)):
        x, y = a.args[1], b.args[1]
        try:
            r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '//': lambda: x // y, '%': lambda: x % y,
                 '**': lambda: x ** y if abs(y) < 20 else None, '/': lambda: x / y}.get(op, lambda: None)()
            if r is not None:
                return const(r)
        except Exception:
            pass
    if op == '+' and a.op == b.op and a.op in ('list', 'tuple'):
        return T(a.op, *(a.args + b.args))
    if op == '*' and a.op in ('list', 'tuple') and is_const(b) and isinstance(b.args[1], int) and b.args[1] < 32:
        return T(a.op, *(a.args * b.args[1]))
    if op in ('+',) and is_const(b, 0):
        return a
    return T('bin', op, a, b)


def literals(t, pos=True):
    """facts implied by `t` being true (pos) / false"""
    if not pos:
        t = neg(t)
    if t.op == 'and':
        out = []
        for x in t.args:
            out += literals(x)
        return out
    if t.op == 'or':
        return [T('or', *sorted(set(t.args), key=lambda x: x.id))]
    if t.op == 'const':
        return [] if t.args[1] else [FALSE]
    if t.op == 'ite':
        c, a, b = t.args
        if b is FALSE:
            return literals(c) + literals(a)
        if a is FALSE:
            return literals(neg(c)) + literals(b)
    if t.op == 'not' and t.args[0].op == 'ite':
        c, a, b = t.args[0].args
        if b is TRUE:
            return literals(c) + literals(neg(a))
        if a is TRUE:
            return literals(neg(c)) + literals(neg(b))
    if t.op == 'call' and t.args[0] is ext('builtins.all') and len(t.args[1]) == 1:
        c = t.args[1][0]
        if c.op == 'comp':
            kind, elt, gens = c.args
            out = []
            for l in literals(elt):
                r = l
                for it, conds in reversed(gens):
                    for cd in conds:
                        r = T('or', *sorted({neg(cd), r}, key=lambda x: x.id))
                    r = T('forall', it, r)
                out.append(r)
            return out
    if t.op == 'not' and t.args[0].op == 'call' and t.args[0].args[0] is ext('builtins.any') and len(t.args[0].args[1]) == 1:
        c = t.args[0].args[1][0]
        if c.op == 'comp':
            return literals(T('call', ext('builtins.all'), (T('comp', c.args[0], neg(c.args[1]), c.args[2]),), ()))
    if t.op == 'call' and t.args[0] is ext('builtins.bool') and len(t.args[1]) == 1:
        return literals(t.args[1][0])
    return [t]


def cases(t, limit=32):
    """(conditions, term without conditionals) alternatives; correlated conditionals resolved together"""
    out = [((), t)]
    while len(out) < limit:
        for i, (cs, x) in enumerate(out):
            it = next((s for s in sorted(x.subterms(), key=lambda s: s.id) if s.op == 'ite'), None)
            if it is not None:
                break
        else:
            return out
        c = it.args[0]
        m1 = {s: s.args[1] for s in x.subterms() if s.op == 'ite' and s.args[0] is c}
        m2 = {s: s.args[2] for s in x.subterms() if s.op == 'ite' and s.args[0] is c}
        a, b = x, x
        for _ in range(6):
            a = subst(a, m1)
            m1 = {s: s.args[1] for s in a.subterms() if s.op == 'ite' and s.args[0] is c}
            b = subst(b, m2)
            m2 = {s: s.args[2] for s in b.subterms() if s.op == 'ite' and s.args[0] is c}
            if not m1 and not m2:
                break
        out[i:i + 1] = [(cs + (c,), a), (cs + (neg(c),), b)]
    return out
