"""Flow-sensitive, inter-procedural abstract interpreter over provenance terms.

It never evaluates code of the analysed package: statements are transfer
functions on (environment, heap, must-facts, path condition); branches are joined;
loops are summarised from one symbolic iteration; repo helpers are inlined up to
a bound.  The result is a list of events (calls, stores, reads, returns, raises),
each with the facts that hold whenever it is reached, and the returned terms.
"""
import ast
from .terms import *
from . import torchsig
from .project import FuncInfo, ClassInfo, walk_same_scope

BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
          ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
          ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'remove', 'pop', 'clear', 'sort', 'reverse', 'setdefault',
            'discard', 'popitem', 'appendleft', 'difference_update', 'intersection_update', 'symmetric_difference_update'}


class State:
    __slots__ = ('env', 'heap', 'facts', 'pc')

    def __init__(self, env, heap, facts, pc):
        self.env, self.heap, self.facts, self.pc = env, heap, facts, pc

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.facts, self.pc)


class Event:
    __slots__ = ('kind', 'data', 'facts', 'node', 'func', 'loops', 'ctx', 'stack', 'pc', 'seq', 'in_except')

    def __init__(self, kind, data, st, node, fr, seq):
        self.kind, self.data, self.facts, self.pc = kind, data, st.facts, st.pc
        self.node, self.func, self.loops, self.ctx, self.stack = node, fr.func, fr.loops(), tuple(fr.ctx), fr.stack
        self.seq = seq
        self.in_except = fr.in_except > 0

    def loc(self):
        return f'{self.func.module.relpath}:{getattr(self.node, "lineno", 0)}'

    def __getitem__(self, k):
        return self.data[k]

    def __repr__(self):
        return f'{self.loc()} {self.kind} ' + ' '.join(f'{k}={v}' for k, v in self.data.items())


class Frame:
    def __init__(self, func, cls, selfterm, stack, loops, ctx):
        self.func, self.cls, self.selfterm, self.stack = func, cls, selfterm, stack
        self.loopstack = list(loops)
        self.ctx = list(ctx)
        self.returns = []       # (state, value, node)
        self.breaks = []
        self.conts = []
        self.closures_env = None
        self.selfname = None
        self.in_except = 0

    def loops(self):
        return tuple(self.loopstack)


class Result:
    def __init__(self):
        self.events, self.returns, self.ret, self.state = [], [], NONE, None

    def of(self, *kinds):
        return [e for e in self.events if e.kind in kinds]

    def calls(self, pred=None):
        for e in self.events:
            if e.kind == 'call' and (pred is None or pred(e['fn'])):
                yield e


def callee_name(fn):
    if fn.op == 'attr':
        return fn.args[1]
    if fn.op in ('ext', 'class', 'func'):
        return fn.args[0].rpartition('.')[2]
    if fn.op == 'bound':
        return fn.args[1].rpartition('.')[2]
    return None


def call_of(t, name=None):
    """(receiver or None, name, pos, kw-dict) of a call term"""
    if t.op != 'call':
        return None
    f = t.args[0]
    n = callee_name(f)
    if name is not None and n != name:
        return None
    recv = f.args[0] if f.op in ('attr', 'bound') else None
    return recv, n, t.args[1], dict(t.args[2])


def call_args(t):
    return list(t.args[1]) + [v for _, v in t.args[2]]


class Interp:
    MAX_DEPTH = 7
    MAX_EVENTS = 60000

    def __init__(self, project, inline=None, max_stmts=80, record_reads=False, inline_properties=True, implications=False):
        self.implications = implications
        self.p = project
        self.inline_pred = inline          # f(FuncInfo, recv term or None) -> True/False/None
        self.max_stmts = max_stmts
        self.record_reads = record_reads
        self.inline_properties = inline_properties
        self.res = None
        self.on_call = None                # effect of a library call on the heap: f(fn, pos, kw, state)
        self.closures = {}
        self.cdefaults = {}
        self.types = {}
        self.scratch = 0
        self.uid = 0
        self.seq = 0
        self.active = []
        self.nstm = {}

    # ------------------------------------------------------------ entry point
    def run(self, func, cls=None, args=None, heap=None, facts=(), selfterm=SELF):
        self.res = Result()
        self.active = []
        env = {}
        fr = Frame(func, cls, selfterm, (func.qualname,), (), ())
        params = list(func.params)
        if func.cls is not None and not func.is_static and params:
            env[params[0]] = selfterm if not func.is_classmethod else T('class', cls.qualname if cls else func.cls.qualname)
            fr.selfname = params[0]
            params = params[1:]
        args = args or {}
        for n in params + func.kwonly:
            t = args.get(n)
            if t is None:
                t = arg(n)
                ty = self.ann_type(func, n)
                if ty:
                    self.types[t] = ty
            env[n] = t
        if func.vararg:
            env[func.vararg] = args.get(func.vararg, T('vararg', func.vararg))
        if func.kwarg:
            env[func.kwarg] = args.get(func.kwarg, T('kwargs', func.kwarg))
        if cls is not None:
            self.types[selfterm] = cls
        st = State(env, dict(heap or {}), frozenset(facts), ())
        self.active.append(func)
        st = self.block(self.body_of(func), st, fr)
        self.active.pop()
        if st is not None:
            fr.returns.append((st, NONE, func.node))
            self.emit('return', {'value': NONE, 'implicit': True}, st, func.node, fr)
        self.res.returns = fr.returns
        self.res.state, self.res.ret = self.merge_returns(fr.returns, ())
        return self.res

    def invoke(self, fn, pos=(), kw=None, heap=None, facts=()):
        """apply a closure or function value obtained from an earlier run to arguments"""
        f, env, cfr = self.closures[fn] if fn in self.closures else (self.func_by_term(fn), None, None)
        self.res = Result()
        self.active = []
        st = State({}, dict(heap or {}), frozenset(facts), ())
        fr = cfr if cfr is not None else Frame(f, f.cls, SELF, (), (), ())
        v = self.apply(fn, list(pos), dict(kw or {}), [], st, fr, f.node)
        return v, st

    def body_of(self, func):
        if isinstance(func.node, ast.Lambda):
            return [ast.copy_location(ast.Return(func.node.body), func.node.body)]
        return func.node.body

    def ann_type(self, func, name):
        a = func.annotations.get(name)
        return self.ann_to_type(func.module, a)

    def ann_to_type(self, module, a):
        if a is None:
            return None
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(a, ast.Subscript):
            base = a.value
            nm = base.attr if isinstance(base, ast.Attribute) else getattr(base, 'id', None)
            if nm == 'Optional':
                return self.ann_to_type(module, a.slice)
            return None
        e = self.p.resolve_expr(module, a)
        if e and e[0] == 'class':
            return e[1]
        return None

    # ------------------------------------------------------------ utilities
    def emit(self, kind, data, st, node, fr):
        self.seq += 1
        if len(self.res.events) < self.MAX_EVENTS:
            e = Event(kind, data, st, node, fr, self.seq)
            self.res.events.append(e)
            return e

    def fresh(self, tag):
        self.uid += 1
        return T('opaque', tag, self.uid)

    def nstmts(self, func):
        k = id(func.node)
        if k not in self.nstm:
            self.nstm[k] = sum(isinstance(n, ast.stmt) for n in walk_same_scope(func.node)) if not isinstance(func.node, ast.Lambda) else 1
        return self.nstm[k]

    def add_facts(self, st, lits):
        st.facts = st.facts | frozenset(lits)

    def decide(self, c, facts):
        """True/False/None: is condition c decided by facts"""
        if c.op == 'const':
            return bool(c.args[1])
        if c.op in ('list', 'tuple', 'dict') and not any(getattr(x, 'op', '') == 'star' for x in c.args):
            return bool(c.args)
        if c in facts:
            return True
        n = neg(c)
        if n in facts:
            return False
        if c.op == 'and':
            ds = [self.decide(x, facts) for x in c.args]
            if all(d is True for d in ds):
                return True
            if any(d is False for d in ds):
                return False
        elif c.op == 'or':
            ds = [self.decide(x, facts) for x in c.args]
            if any(d is True for d in ds):
                return True
            if all(d is False for d in ds):
                return False
            srt = T('or', *sorted(set(c.args), key=lambda x: x.id))
            if srt in facts:
                return True
        elif c.op == 'cmp':
            op, a, b = c.args
            # x == const decided by x == other const
            if op in ('==', '!=') and (b.op == 'const' or a.op == 'const'):
                x, k = (a, b) if b.op == 'const' else (b, a)
                for f in facts:
                    if f.op == 'cmp' and f.args[0] == '==':
                        y, k2 = (f.args[1], f.args[2]) if f.args[2].op == 'const' else (f.args[2], f.args[1])
                        if y is x and k2.op == 'const' and k2 is not k:
                            return op == '!='
        return None

    def simp(self, t, facts):
        n = 0
        while t.op == 'ite' and n < 20:
            d = self.decide(t.args[0], facts)
            if d is None:
                return t
            t = t.args[1] if d else t.args[2]
            n += 1
        return t

    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        i = 0
        while i < len(a.pc) and i < len(b.pc) and a.pc[i] is b.pc[i]:
            i += 1
        ca = boolop('and', a.pc[i:]) if a.pc[i:] else TRUE
        cb = boolop('and', b.pc[i:]) if b.pc[i:] else TRUE
        if ca is TRUE and cb is TRUE:
            cond = self.fresh('join')
        elif ca is TRUE:
            cond = neg(cb)
        else:
            cond = ca
        env = {}
        for k in a.env.keys() | b.env.keys():
            va, vb = a.env.get(k), b.env.get(k)
            if va is vb:
                env[k] = va
            elif va is None or vb is None:
                env[k] = ite(cond, va or T('undef', k), vb or T('undef', k))
            else:
                env[k] = ite(cond, va, vb)
        heap = {}
        for k in a.heap.keys() | b.heap.keys():
            va, vb = a.heap.get(k), b.heap.get(k)
            if va is vb:
                heap[k] = va
            else:
                d = self.heap_default(k)
                heap[k] = ite(cond, va or d, vb or d)
        facts = a.facts & b.facts
        extra = set()
        for c, x, y in ((ca, a, b), (cb, b, a)):
            d = x.facts - y.facts
            if self.implications and c is not TRUE and len(d) <= 40:
                lits = set(literals(c))
                extra |= {T('implies', c, f) for f in d if f not in lits and f.op != 'implies'}
        return State(env, heap, facts | extra, a.pc[:i])

    def heap_default(self, k):
        if isinstance(k[1], T):
            return T('dynattr', k[0], k[1])
        return T('attr', k[0], k[1])

    def merge_returns(self, rets, pc):
        """join all return states; value as ite over path conditions"""
        st, val = None, NONE
        for s, v, n in reversed(rets):
            if st is None:
                st, val = s.copy(), v
            else:
                s2 = s.copy()
                s2.env = dict(s2.env)
                s2.env['$ret'] = v
                st.env['$ret'] = val
                st = self.merge(s2, st)
                val = st.env.pop('$ret')
        if st is not None:
            st.env.pop('$ret', None)
        return st, val

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        for s in stmts:
            if st is None:
                return None
            try:
                st = self.stmt(s, st, fr)
            except RecursionError:
                raise
        return st

    def stmt(self, s, st, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return st
        return m(s, st, fr)

    def s_Expr(self, s, st, fr):
        v = s.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute):
            self.call(v, st, fr, discarded=True)
        else:
            self.ev(v, st, fr)
        return st

    def s_Pass(self, s, st, fr):
        return st

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr, s)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            v = self.ev(s.value, st, fr)
            self.assign(s.target, v, st, fr, s)
            ty = self.ann_to_type(fr.func.module, s.annotation)
            if ty and v not in self.types:
                self.types[v] = ty
        return st

    def s_AugAssign(self, s, st, fr):
        op = BINOPS.get(type(s.op), '?')
        t = s.target
        val = self.ev(s.value, st, fr)
        if isinstance(t, ast.Name):
            old = self.ev(t, st, fr)
            new = binop(op, old, val)
            self.emit('aug', {'target': old, 'op': op, 'value': val, 'name': t.id}, st, s, fr)
            st.env[t.id] = new
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            old = self.getattr(base, t.attr, st, fr, t)
            new = binop(op, old, val)
            self.emit('aug', {'target': old, 'op': op, 'value': val, 'name': None}, st, s, fr)
            self.store_attr(base, t.attr, new, st, fr, s, aug=True)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            idx = self.ev(t.slice, st, fr)
            old = sub(base, idx)
            self.emit('aug', {'target': old, 'op': op, 'value': val, 'name': None}, st, s, fr)
            self.emit('storesub', {'base': base, 'idx': idx, 'value': binop(op, old, val), 'aug': True}, st, s, fr)
            self.rebind(t.value, T('upd', base, idx, binop(op, old, val)), st, fr)
        return st

    def rebind(self, node, newterm, st, fr):
        """a container designated by `node` was updated in place"""
        if isinstance(node, ast.Name):
            if node.id in st.env:
                st.env[node.id] = newterm
        elif isinstance(node, ast.Attribute):
            base = self.ev(node.value, st, fr, quiet=True)
            st.heap[(base, node.attr)] = newterm
        elif isinstance(node, ast.Subscript):
            base = self.ev(node.value, st, fr, quiet=True)
            idx = self.ev(node.slice, st, fr, quiet=True)
            self.rebind(node.value, T('upd', base, idx, newterm), st, fr)

    def assign(self, t, v, st, fr, s):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, sub(v, T('slice', const(i), NONE, NONE)), st, fr, s)
                else:
                    self.assign(x, self.project_elem(v, i, len(t.elts)), st, fr, s)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            self.store_attr(base, t.attr, v, st, fr, s)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            idx = self.ev(t.slice, st, fr)
            self.emit('storesub', {'base': base, 'idx': idx, 'value': v, 'aug': False}, st, s, fr)
            self.rebind(t.value, T('upd', base, idx, v), st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr, s)

    def project_elem(self, v, i, n):
        if v.op == 'ite':
            return ite(v.args[0], self.project_elem(v.args[1], i, n), self.project_elem(v.args[2], i, n))
        return sub(v, const(i))

    def store_attr(self, base, name, v, st, fr, s, aug=False):
        ty = self.typeof(base)
        if isinstance(ty, ClassInfo):
            for k in self.p.mro(ty):
                if name in k.setters:
                    f = k.setters[name]
                    if self.can_inline(f, base):
                        self.inline(f, ty, base, {f.params[1]: v}, st, fr, s)
                        return
        self.emit('store', {'base': base, 'name': name, 'value': v, 'aug': aug}, st, s, fr)
        st.heap[(base, name)] = v

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st, fr)
                self.emit('del', {'base': b, 'name': t.attr}, st, s, fr)
                st.heap[(b, t.attr)] = T('undef', t.attr)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, fr)
                i = self.ev(t.slice, st, fr)
                self.emit('delsub', {'base': b, 'idx': i}, st, s, fr)
                self.rebind(t.value, T('upd', b, i, T('undef', '')), st, fr)
        return st

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        self.emit('return', {'value': v, 'implicit': False}, st, s, fr)
        fr.returns.append((st, v, s))
        return None

    def s_Raise(self, s, st, fr):
        v = self.ev(s.exc, st, fr) if s.exc is not None else NONE
        self.emit('raise', {'value': v}, st, s, fr)
        return None

    def s_Assert(self, s, st, fr):
        c = self.ev(s.test, st, fr)
        c = self.simp_cond(c, st.facts)
        self.emit('assert', {'cond': c}, st, s, fr)
        if c is FALSE:
            return None
        self.add_facts(st, literals(c))
        return st

    def simp_cond(self, c, facts):
        d = self.decide(c, facts)
        if d is None:
            return c
        return TRUE if d else FALSE

    def s_If(self, s, st, fr):
        c = self.ev(s.test, st, fr)
        return self.branch(c, s, st, fr, lambda a: self.block(s.body, a, fr), lambda b: self.block(s.orelse, b, fr))

    def branch(self, c, s, st, fr, then, els):
        d = self.decide(c, st.facts)
        if d is True:
            return then(st)
        if d is False:
            return els(st)
        a, b = st.copy(), st.copy()
        self.add_facts(a, literals(c))
        self.add_facts(b, literals(c, False))
        a.pc = st.pc + (c,)
        b.pc = st.pc + (neg(c),)
        npc = len(st.pc)
        na = len(fr.returns) + len(fr.breaks) + len(fr.conts)
        a = then(a)
        nb = len(fr.returns) + len(fr.breaks) + len(fr.conts)
        b = els(b)
        nc = len(fr.returns) + len(fr.breaks) + len(fr.conts)
        if a is None and b is not None:
            if nb == na:      # the other side only raises: not a discriminating path condition
                b.pc = st.pc + b.pc[npc + 1:]
            return b
        if b is None and a is not None:
            if nc == nb:
                a.pc = st.pc + a.pc[npc + 1:]
            return a
        if a is None and b is None:
            return None
        return self.merge(a, b)

    def s_With(self, s, st, fr):
        n = 0
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            fr.ctx.append(v)
            n += 1
            if it.optional_vars is not None:
                self.assign(it.optional_vars, T('enter', v), st, fr, s)
        st = self.block(s.body, st, fr)
        del fr.ctx[len(fr.ctx) - n:]
        return st

    def s_Try(self, s, st, fr):
        pre = st.copy()
        fr.in_except += 0
        body = self.block(s.body, st, fr)
        if body is not None:
            body = self.block(s.orelse, body, fr)
        outs = [body]
        for h in s.handlers:
            hs = pre.copy()
            hs.pc = pre.pc + (self.fresh('except'),)
            if h.name:
                hs.env[h.name] = self.fresh('exc')
            fr.in_except += 1
            outs.append(self.block(h.body, hs, fr))
            fr.in_except -= 1
        r = None
        for o in outs:
            if o is not None:
                r = o if r is None else self.merge(r, o)
        if r is not None and s.finalbody:
            r = self.block(s.finalbody, r, fr)
        if r is not None:
            r.pc = pre.pc
        return r

    def s_FunctionDef(self, s, st, fr):
        st.env[s.name] = self.closure(s, st, fr)
        return st

    def closure(self, node, st, fr):
        f = FuncInfo(fr.func.module, node, cls=None, parent=fr.func)
        self.uid += 1
        t = T('closure', f.qualname, self.uid)
        self.closures[t] = (f, st.env, fr)
        self.cdefaults[t] = {n: self.ev(d, st, fr, quiet=True) for n, d in f.defaults.items()}
        return t

    def s_ClassDef(self, s, st, fr):
        st.env[s.name] = self.fresh('localclass')
        return st

    def s_Import(self, s, st, fr):
        for a in s.names:
            top = a.asname or a.name.split('.')[0]
            nm = a.name if a.asname else top
            st.env[top] = T('module', nm) if nm.split('.')[0] == self.p.package else ext(nm)
        return st

    def s_ImportFrom(self, s, st, fr):
        m = fr.func.module
        pkg = m.name if m.is_pkg else m.name.rpartition('.')[0]
        if s.level:
            base = pkg.split('.')
            base = base[:len(base) - (s.level - 1)]
            mod = '.'.join(base + ([s.module] if s.module else []))
        else:
            mod = s.module
        for a in s.names:
            if a.name == '*':
                continue
            r = None
            if mod in self.p.modules:
                r = self.p.resolve(self.p.modules[mod], a.name)
                if r is None and mod + '.' + a.name in self.p.modules:
                    r = ('module', mod + '.' + a.name)
            st.env[a.asname or a.name] = self.ent_term(r, st, fr) if r else ext(f'{mod}.{a.name}')
        return st

    def s_Continue(self, s, st, fr):
        fr.conts.append(st)
        return None

    def s_Break(self, s, st, fr):
        fr.breaks.append(st)
        return None

    # ------------------------------------------------------------ loops
    def iter_terms(self, it, st, fr, depth):
        """normalise an iterable term; returns (canonical iterable, element term)"""
        n = depth
        if it.op == 'ite':
            it = self.simp(it, st.facts)
        c = call_of(it)
        if c:
            recv, name, pos, kw = c
            f = it.args[0]
            if f is ext('builtins.enumerate') and pos:
                base, e = self.iter_terms(pos[0], st, fr, depth)
                start = pos[1] if len(pos) > 1 else kw.get('start')
                i = self.idx_of(base, depth)
                if start is not None:
                    i = binop('+', i, start)
                return base, tup(i, e)
            if f is ext('builtins.zip') and pos and not any(x.op == 'star' for x in pos):
                xs = [self.iter_terms(x, st, fr, depth) for x in pos]
                return xs[0][0], tup(*[e for _, e in xs])
            if f is ext('builtins.range') and len(pos) == 1 and pos[0].op == 'call' and pos[0].args[0] is ext('builtins.len') and len(pos[0].args[1]) == 1:
                base, _ = self.iter_terms(pos[0].args[1][0], st, fr, depth)
                return base, self.idx_of(base, depth)
            if f in (ext('builtins.list'), ext('builtins.tuple'), ext('builtins.iter')) and len(pos) == 1:
                return self.iter_terms(pos[0], st, fr, depth)
            if f.op == 'attr' and name in ('items', 'keys', 'values') and not pos and not kw:
                d = f.args[0]
                k = T('elem', d, n) if n else T('elem', d)
                if name == 'keys':
                    return d, k
                if name == 'values':
                    return d, sub(d, k)
                return d, tup(k, sub(d, k))
        e = T('elem', it, n) if n else T('elem', it)
        if it.op == 'comp' and it.args[0] in ('list', 'gen') and len(it.args[2]) == 1 and not it.args[2][0][1]:
            # iterating over a mapped list: the element is the mapped element
            base = it.args[2][0][0]
            return base, it.args[1]
        return it, e

    def idx_of(self, base, n):
        return T('idx', base, n) if n else T('idx', base)

    def depth_for(self, fr, it, local=()):
        """how many enclosing loops already iterate over the same iterable"""
        return 0

    def s_For(self, s, st, fr):
        itv = self.ev(s.iter, st, fr)
        if itv.op in ('tuple', 'list') and 0 < len(itv.args) <= 6 and not any(x.op == 'star' for x in itv.args) \
                and not s.orelse and not self.has_jump(s.body):
            for x in itv.args:
                self.assign(s.target, x, st, fr, s)
                fr.loopstack.append((x, ()))
                st = self.block(s.body, st, fr)
                fr.loopstack.pop()
                if st is None:
                    return None
            return st
        depth = sum(1 for l in fr.loopstack if l[0] is self.iter_terms(itv, st, fr, 0)[0])
        base, elem = self.iter_terms(itv, st, fr, depth)

        def setvars(x):
            self.assign(s.target, elem, x, fr, s)
        return self.loop(base, setvars, s.body, s.orelse, st, fr, s)

    def has_jump(self, body):
        todo = list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Break, ast.Continue)):
                return True
            if isinstance(n, (ast.For, ast.While, ast.FunctionDef)):
                # jumps inside belong to the inner loop
                continue
            todo.extend(ast.iter_child_nodes(n))
        return False

    def s_While(self, s, st, fr):
        base = self.fresh('while')

        def setvars(x):
            c = self.ev(s.test, x, fr)
            self.add_facts(x, literals(c))
        r = self.loop(base, setvars, s.body, s.orelse, st, fr, s)
        return r

    s_AsyncFor = s_For

    def loop(self, base, setvars, body, orelse, st, fr, node):
        saved_b, saved_c = fr.breaks, fr.conts
        # pass 1: learn what changes
        ev0, seq0 = len(self.res.events), self.seq
        nret = len(fr.returns)
        fr.breaks, fr.conts = [], []
        s1 = st.copy()
        fr.loopstack.append((base, node))
        uid0 = self.uid
        setvars(s1)
        pre1 = s1.copy()
        o = self.block(body, s1, fr)
        outs = [x for x in [o] + fr.conts + fr.breaks if x is not None]
        fr.loopstack.pop()
        del self.res.events[ev0:]
        del fr.returns[nret:]
        chg_env, chg_heap = set(), set()
        for x in outs:
            for k, v in x.env.items():
                if k in st.env and x.env[k] is not pre1.env.get(k) and not (pre1.env.get(k) is not st.env.get(k)):
                    chg_env.add(k)
            for k, v in x.heap.items():
                if st.heap.get(k) is not v:
                    chg_heap.add(k)
        # pass 2
        self.uid += 1
        luid = self.uid
        phis = {}
        s2 = st.copy()
        for k in sorted(chg_env):
            ph = T('phi', k, luid)
            phis[ph] = st.env[k]
            if st.env[k] in self.types:
                self.types[ph] = self.types[st.env[k]]
            s2.env[k] = ph
        hphi = {}
        for k in sorted(chg_heap, key=lambda k: (k[0].id, str(k[1]))):
            ph = T('phi', f'{k[0].id}.{k[1]}', luid)
            phis[ph] = st.heap.get(k, self.heap_default(k))
            s2.heap[k] = ph
            hphi[k] = ph
        fr.breaks, fr.conts = [], []
        ev1 = len(self.res.events)
        fr.loopstack.append((base, node))
        setvars(s2)
        npc = len(st.pc)
        f0 = s2.facts
        o = self.block(body, s2, fr)
        fr.loopstack.pop()
        brk, conts = fr.breaks, fr.conts
        fr.breaks, fr.conts = saved_b, saved_c
        end = o
        for x in conts:
            end = x.copy() if end is None else self.merge(x, end)
        out = st.copy()
        mapping = {}
        memo = {}
        post = {}
        allst = [end] if end is not None else []
        for x in brk:
            allst.append(x)
        m = None
        for x in allst:
            m = x if m is None else self.merge(x, m)
        if m is not None:
            for ph, init in phis.items():
                name = ph.args[0]
                if ph in hphi.values():
                    key = [k for k, v in hphi.items() if v is ph][0]
                    new = m.heap.get(key, init)
                else:
                    key = None
                    new = m.env.get(name, init)
                inl, after = self.summarise(ph, init, new, base, bool(brk), phis)
                mapping[ph] = inl
                post[ph] = (key, name, after)
            # resolve mutual references
            for ph in list(mapping):
                mapping[ph] = subst(mapping[ph], {k: T('phiref', k.args[0]) for k in phis if k is not ph})
            memo = {}
            for ph, (key, name, after) in post.items():
                val = subst(after, mapping, memo)
                if key is not None:
                    out.heap[key] = val
                else:
                    out.env[name] = val
            # variables first assigned inside the loop
            for k, v in m.env.items():
                if k not in st.env:
                    out.env[k] = T('last', base, subst(v, mapping, memo))
                elif T('phi', k, luid) not in phis and m.env[k] is not st.env[k]:
                    out.env[k] = T('last', base, subst(v, mapping, memo))
            if not brk:
                for f in m.facts - f0:
                    g = subst(f, mapping, memo)
                    out.facts = out.facts | {T('forall', base, g)}
        if mapping:
            for e in self.res.events[ev1:]:
                e.data = {k: subst_data(v, mapping, memo) for k, v in e.data.items()}
                e.facts = frozenset(subst(f, mapping, memo) for f in e.facts)
                e.pc = tuple(subst(f, mapping, memo) for f in e.pc)
            for i in range(nret, len(fr.returns)):
                rs, rv, rn = fr.returns[i]
                rs.facts = frozenset(subst(f, mapping, memo) for f in rs.facts)
                rs.pc = tuple(subst(f, mapping, memo) for f in rs.pc)
                rs.heap = {k: subst(v, mapping, memo) for k, v in rs.heap.items()}
                fr.returns[i] = (rs, subst(rv, mapping, memo), rn)
        if len(fr.returns) > nret:
            # a return inside the loop: after the loop, it did not happen
            conds = []
            for rs, rv, rn in fr.returns[nret:]:
                c = boolop('and', rs.pc[npc:]) if rs.pc[npc:] else TRUE
                ex = T('exists', base, c)
                conds.append(ex)
                rs.pc = st.pc + (ex,)
                self.add_facts(out, literals_forall(base, c))
            out.pc = st.pc + tuple(neg(c) for c in conds)
        if orelse:
            if not brk:
                return self.block(orelse, out, fr)
            ob = out.copy()
            conds = []
            for x in brk:
                c = subst(boolop('and', x.pc[npc:]), mapping, memo) if x.pc[npc:] else TRUE
                conds.append(c)
            ex = T('exists', base, boolop('or', conds)) if TRUE not in conds else None
            on = out.copy()
            if ex is not None:
                ob.pc, on.pc = ob.pc + (ex,), on.pc + (neg(ex),)
                self.add_facts(ob, [ex])
            n0 = len(fr.returns) + len(fr.breaks) + len(fr.conts)
            on = self.block(orelse, on, fr)
            if on is None:
                if n0 == len(fr.returns) + len(fr.breaks) + len(fr.conts):
                    ob.pc = st.pc
                return ob
            return self.merge(ob, on)
        return out

    def summarise(self, ph, init, new, base, broke, phis):
        """-> (value at the start of a generic iteration, value after the loop)"""
        if new is ph:
            return init, init
        conds = ()
        v = new
        while v.op == 'ite' and (v.args[1] is ph or v.args[2] is ph):
            if v.args[2] is ph:
                conds += (v.args[0],)
                v = v.args[1]
            else:
                conds += (neg(v.args[0]),)
                v = v.args[2]
        okc = not any(c.contains(ph) for c in conds)
        if v.op == 'bin' and v.args[0] == '+' and okc and v.args[1] is ph and v.args[2].op == 'comp' \
                and v.args[2].args[0] == 'list' and not v.args[2].contains(ph):
            inner = v.args[2]
            c = T('comp', 'list', inner.args[1], ((base, conds),) + inner.args[2])
            if init is T('list'):
                return T('prefix', c), c
            return T('bin', '+', init, T('prefix', c)), T('bin', '+', init, c)
        if v.op == 'bin' and v.args[0] == '+' and okc:
            a, b = v.args[1], v.args[2]
            if a is ph and not b.contains(ph):
                return T('run', '+', init, b, base, conds), T('fold', '+', init, b, base, conds)
            if b is ph and not a.contains(ph):
                return T('run', '+', init, a, base, conds), T('fold', '+', init, a, base, conds)
        if v.op == 'bin' and okc and v.args[1] is ph and not v.args[2].contains(ph):
            return T('run', v.args[0], init, v.args[2], base, conds), T('fold', v.args[0], init, v.args[2], base, conds)
        if v.op == 'mut' and v.args[0] == 'append' and v.args[1] is ph and okc and not v.args[2][0].contains(ph):
            c = T('comp', 'list', v.args[2][0], ((base, conds),))
            pre = T('prefix', c)
            if init is T('list') or init is T('call', ext('builtins.list'), (), ()):
                return pre, c
            return T('bin', '+', init, pre), T('bin', '+', init, c)
        if v.op == 'mut' and v.args[0] == 'extend' and v.args[1] is ph and okc and not v.args[2][0].contains(ph):
            inner = v.args[2][0]
            if inner.op == 'comp' and inner.args[0] in ('list', 'gen'):
                c = T('comp', 'list', inner.args[1], ((base, conds),) + inner.args[2])
            else:
                c = T('comp', 'list', T('elem', inner), ((base, conds), (inner, ())))
            if init is T('list'):
                return T('prefix', c), c
            return T('bin', '+', init, T('prefix', c)), T('bin', '+', init, c)
        if v.op == 'mut' and v.args[0] == 'add' and v.args[1] is ph and okc and not v.args[2][0].contains(ph):
            c = T('comp', 'set', v.args[2][0], ((base, conds),))
            if init is T('call', ext('builtins.set'), (), ()):
                return T('prefix', c), c
        if v.op == 'upd' and v.args[0] is ph and okc and not v.args[1].contains(ph) and not v.args[2].contains(ph):
            c = T('comp', 'dict', tup(v.args[1], v.args[2]), ((base, conds),))
            if init is T('dict'):
                return T('prefix', c), c
            return T('overlay', init, T('prefix', c)), T('overlay', init, c)
        if not new.contains(ph):
            return T('loopin', init, new, base), T('loopval', init, new, base)
        body = subst(new, {ph: T('phiself')})
        return T('rec', init, body, base), T('recout', init, body, base)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr, quiet=False):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.fresh(type(e).__name__)
        if quiet:
            n = len(self.res.events)
            v = m(e, st, fr)
            del self.res.events[n:]
            return v
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return const(e.value)

    def e_Name(self, e, st, fr):
        if e.id in st.env:
            return self.simp(st.env[e.id], st.facts)
        c = fr.closures_env
        if c is not None and e.id in c:
            return self.simp(c[e.id], st.facts)
        if e.id == '__class__' and fr.func.cls:
            return T('class', fr.func.cls.qualname)
        r = self.p.resolve(fr.func.module, e.id)
        if r:
            return self.ent_term(r, st, fr)
        if e.id in BUILTINS:
            return ext('builtins.' + e.id)
        return T('undef', e.id)

    def ent_term(self, r, st, fr):
        if r[0] == 'class':
            return T('class', r[1].qualname)
        if r[0] == 'func':
            return T('func', r[1].qualname)
        if r[0] == 'module':
            return T('module', r[1])
        if r[0] == 'ext':
            return ext(r[1])
        if r[0] == 'expr':
            node = r[2]
            if isinstance(node, ast.Constant):
                return const(node.value)
            return T('global', r[1].name, r[3])
        return self.fresh('ent')

    def e_Attribute(self, e, st, fr):
        if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == 'super':
            return self.super_attr(e, st, fr)
        b = self.ev(e.value, st, fr)
        return self.getattr(b, e.attr, st, fr, e)

    def super_attr(self, e, st, fr):
        cls = self.typeof(fr.selfterm)
        after = fr.func.cls
        if e.value.args and isinstance(e.value.args[0], ast.Name):
            r = self.p.resolve(fr.func.module, e.value.args[0].id)
            if r and r[0] == 'class':
                after = r[1]
        if not isinstance(cls, ClassInfo) or after is None:
            # super() inside a closure: use the enclosing method
            return T('super', e.attr)
        f = self.p.method(cls, e.attr, after=after)
        if f is None:
            return T('attr', T('super', after.qualname), e.attr)
        if f.is_property and self.inline_properties:
            return self.inline(f, cls, fr.selfterm, {}, st, fr, e)
        return self.bound(fr.selfterm, f)

    def bound(self, recv, f):
        t = T('bound', recv, f.qualname)
        self.bounds[t] = f
        return t

    bounds = {}

    def func_by_term(self, t):
        if t.op == 'bound':
            return self.bounds.get(t)
        if t.op == 'func':
            mod, _, n = t.args[0].rpartition('.')
            m = self.p.modules.get(mod)
            if m:
                b = m.bind.get(n)
                if b and b[0] == 'func':
                    return b[1]
        return None

    def getattr(self, b, name, st, fr, node):
        if b.op == 'module':
            r = self.p.resolve_in(('module', b.args[0]), name)
            return self.ent_term(r, st, fr) if r else T('undef', name)
        if b.op == 'ext':
            return ext(b.args[0] + '.' + name)
        if b.op == 'ite':
            b2 = self.simp(b, st.facts)
            if b2 is not b:
                return self.getattr(b2, name, st, fr, node)
        if (b, name) in st.heap:
            if self.record_reads:
                self.emit('read', {'base': b, 'name': name}, st, node, fr)
            return self.simp(st.heap[(b, name)], st.facts)
        # keyword of a constructor call that is a plain record (GeometricTensor)
        if b.op == 'class':
            c = self.p.classes.get(b.args[0])
            if c:
                f = self.p.method(c, name)
                if f is not None:
                    t = T('bound', b, f.qualname)
                    self.bounds[t] = f
                    return t
            return T('attr', b, name)
        ty = self.typeof(b)
        if isinstance(ty, ClassInfo):
            f = self.p.method(ty, name)
            if f is not None:
                if f.is_property:
                    if self.inline_properties and (b is fr.selfterm or b is SELF) and not f.is_abstract and self.can_inline(f, b):
                        return self.inline(f, ty, b, {}, st, fr, node)
                else:
                    return self.bound(b, f)
        if self.record_reads:
            self.emit('read', {'base': b, 'name': name}, st, node, fr)
        return T('attr', b, name)

    def e_Subscript(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        i = self.ev(e.slice, st, fr)
        if self.record_reads:
            self.emit('readsub', {'base': b, 'idx': i}, st, e, fr)
        return self.simp(sub(b, i), st.facts)

    def e_Slice(self, e, st, fr):
        f = lambda x: NONE if x is None else self.ev(x, st, fr)
        return T('slice', f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, st, fr):
        return T('tuple', *[self.ev(x, st, fr) for x in e.elts])

    def e_List(self, e, st, fr):
        return T('list', *[self.ev(x, st, fr) for x in e.elts])

    def e_Set(self, e, st, fr):
        return T('set', *[self.ev(x, st, fr) for x in e.elts])

    def e_Dict(self, e, st, fr):
        items = []
        for k, v in zip(e.keys, e.values):
            items.append((T('dstar') if k is None else self.ev(k, st, fr), self.ev(v, st, fr)))
        return T('dict', *items)

    def e_Starred(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        return T('star', v)

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        op = BINOPS.get(type(e.op), '?')
        if op == '%' and is_str(a) and a.op == 'const':
            xs = b.args if b.op == 'tuple' else (b,)
            r = self.fmt_percent(a.args[1], xs)
            if r is not None:
                return r
        v = binop(op, a, b)
        if op == '+' and a.op == 'tuple' and b.op == 'tuple':
            return T('tuple', *(a.args + b.args))
        return v

    def fmt_percent(self, s, xs):
        import re
        parts = re.split(r'%[sd]', s)
        if len(parts) != len(xs) + 1 or '%' in ''.join(parts):
            return None
        out = [const(parts[0])]
        for x, p in zip(xs, parts[1:]):
            out += [x, const(p)]
        return mkstr(out)

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            if v.op in ('list', 'tuple', 'dict') and not v.args:
                return TRUE
            return neg(v)
        if isinstance(e.op, ast.USub):
            if v.op == 'const' and isinstance(v.args[1], (int, float)) and not isinstance(v.args[1], bool):
                return const(-v.args[1])
            return T('un', '-', v)
        if isinstance(e.op, ast.UAdd):
            return v
        return T('un', '~', v)

    def e_BoolOp(self, e, st, fr):
        op = 'and' if isinstance(e.op, ast.And) else 'or'
        out = []
        s = st
        facts0 = st.facts
        for x in e.values:
            v = self.ev(x, st, fr)
            d = self.decide(v, st.facts)
            if d is not None and x is not e.values[-1]:
                if v.op in ('cmp', 'not', 'and', 'or'):
                    v = TRUE if d else FALSE
                elif d is (op == 'and'):
                    continue             # the value of a later operand
                else:
                    out.append(v)
                    break
            out.append(v)
            # later operands are evaluated under the outcome of earlier ones
            self.add_facts(st, literals(v, op == 'and'))
        st.facts = facts0
        return boolop(op, out)

    def e_Compare(self, e, st, fr):
        l = self.ev(e.left, st, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            rv = self.ev(r, st, fr)
            o = CMPOPS[type(op)]
            if o in ('in', 'not in') and rv.op in ('list', 'tuple', 'set') and 0 < len(rv.args) <= 8 and all(x.op == 'const' for x in rv.args):
                c = boolop('or', [cmp('is' if x is NONE else '==', l, x) for x in rv.args])
                out.append(c if o == 'in' else neg(c))
            else:
                out.append(cmp(o, l, rv))
            l = rv
        return out[0] if len(out) == 1 else boolop('and', out)

    def e_IfExp(self, e, st, fr):
        c = self.ev(e.test, st, fr)
        d = self.decide(c, st.facts)
        if d is not None:
            return self.ev(e.body if d else e.orelse, st, fr)
        f0, p0 = st.facts, st.pc
        self.add_facts(st, literals(c))
        st.pc = p0 + (c,)
        a = self.ev(e.body, st, fr)
        st.facts = f0
        self.add_facts(st, literals(c, False))
        st.pc = p0 + (neg(c),)
        b = self.ev(e.orelse, st, fr)
        st.facts, st.pc = f0, p0
        return ite(c, a, b)

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, st, fr)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    x = T('fmt', x, ast.dump(v.format_spec) if v.format_spec else '', v.conversion)
                parts.append(x)
        return mkstr(parts)

    def e_Lambda(self, e, st, fr):
        return self.closure(e, st, fr)

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        st.env[e.target.id] = v
        return v

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        v = self.ev(e.value, st, fr) if e.value is not None else NONE
        self.emit('yield', {'value': v}, st, e, fr)
        return self.fresh('yield')

    def e_YieldFrom(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.emit('yield', {'value': T('elem', v), 'from': v}, st, e, fr)
        return self.fresh('yield')

    def e_ListComp(self, e, st, fr):
        return self.comp('list', e, st, fr)

    def e_SetComp(self, e, st, fr):
        return self.comp('set', e, st, fr)

    def e_GeneratorExp(self, e, st, fr):
        return self.comp('gen', e, st, fr)

    def e_DictComp(self, e, st, fr):
        return self.comp('dict', e, st, fr)

    def comp(self, kind, e, st, fr):
        env0, facts0, pc0 = dict(st.env), st.facts, st.pc
        gens = []
        n = 0
        for g in e.generators:
            itv = self.ev(g.iter, st, fr)
            if len(e.generators) == 1 and not g.ifs and itv.op in ('tuple', 'list') and 0 < len(itv.args) <= 6 \
                    and not any(x.op == 'star' for x in itv.args) and kind in ('list', 'gen'):
                outs = []
                for x in itv.args:
                    self.assign(g.target, x, st, fr, e)
                    outs.append(self.ev(e.elt, st, fr))
                st.env.clear()
                st.env.update(env0)
                return T('list', *outs)
            depth = sum(1 for l in fr.loopstack if l[0] is self.iter_terms(itv, st, fr, 0)[0])
            base, elem = self.iter_terms(itv, st, fr, depth)
            self.assign(g.target, elem, st, fr, e)
            fr.loopstack.append((base, e))
            n += 1
            conds = []
            for c in g.ifs:
                v = self.ev(c, st, fr)
                conds.append(v)
                self.add_facts(st, literals(v))
            gens.append((base, tuple(conds)))
        if kind == 'dict':
            elt = tup(self.ev(e.key, st, fr), self.ev(e.value, st, fr))
        else:
            elt = self.ev(e.elt, st, fr)
        for _ in range(n):
            fr.loopstack.pop()
        st.env.clear()
        st.env.update(env0)
        st.facts, st.pc = facts0, pc0
        if kind in ('list', 'gen') and len(gens) == 1 and not gens[0][1] and elt is T('elem', gens[0][0]):
            return T('call', ext('builtins.list'), (gens[0][0],), ()) if kind == 'list' else gens[0][0]
        return T('comp', kind, elt, tuple(gens))

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        return self.call(e, st, fr)

    def call(self, e, st, fr, discarded=False):
        fnode = e.func
        # evaluate callee
        if isinstance(fnode, ast.Name) and fnode.id == 'super' and 'super' not in st.env:
            return T('super', fr.func.cls.qualname if fr.func.cls else '?')
        fn = self.ev(fnode, st, fr)
        pos = []
        for a in e.args:
            v = self.ev(a, st, fr)
            if v.op == 'star' and v.args[0].op in ('tuple', 'list') and not any(x.op == 'star' for x in v.args[0].args):
                pos += v.args[0].args
            elif v.op == 'star' and v.args[0].op == 'sub' and False:
                pass
            else:
                pos.append(v)
        kw = {}
        dstar = []
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                if v.op == 'dict' and all(x[0].op == 'const' for x in v.args):
                    for x in v.args:
                        kw[x[0].args[1]] = x[1]
                elif v.op == 'dict' and all(x[0].op in ('const', 'dstar') for x in v.args):
                    for x in v.args:
                        if x[0].op == 'const':
                            kw[x[0].args[1]] = x[1]
                        else:
                            dstar.append(x[1])
                elif v.op == 'upd':
                    w, base = {}, v
                    ok = True
                    while base.op == 'upd':
                        if base.args[1].op == 'const':
                            w.setdefault(base.args[1].args[1], base.args[2])
                        else:
                            ok = False
                        base = base.args[0]
                    if base.op == 'dict' and all(x[0].op == 'const' for x in base.args) and ok:
                        for x in base.args:
                            w.setdefault(x[0].args[1], x[1])
                        kw.update(w)
                    else:
                        dstar.append(v)
                elif v.op == 'call' and v.args[0] is ext('builtins.dict') and not v.args[1]:
                    kw.update(dict(v.args[2]))
                else:
                    dstar.append(v)
            else:
                kw[k.arg] = v
        return self.apply(fn, pos, kw, dstar, st, fr, e, fnode, discarded)

    def apply(self, fn, pos, kw, dstar, st, fr, e, fnode=None, discarded=False):
        if fn.op == 'ite':
            fn = self.simp(fn, st.facts)
        if not dstar:
            r = self.special(fn, pos, kw, st, fr, e)
            if r is not None:
                return r
        elif fn is ext('builtins.dict') and not pos:
            return T('dict', *[(const(k), v) for k, v in kw.items()], *[(T('dstar'), d) for d in dstar])
        # closures
        if fn.op == 'closure' and fn in self.closures:
            f, env, cfr = self.closures[fn]
            if len(self.active) < self.MAX_DEPTH and f.node not in [a.node for a in self.active] and not f.is_generator:
                b = self.bind(f, pos, kw, dstar, st, fr, skip_self=False, defaults=self.cdefaults.get(fn))
                if b is not None:
                    return self.inline(f, cfr.cls, cfr.selfterm, b, st, fr, e, cenv=env)
        f, recv, skip = None, None, False
        ctor = None
        if fn.op == 'bound':
            f = self.bounds.get(fn)
            recv = fn.args[0]
            if recv.op == 'class':
                if f.is_classmethod:
                    skip = True
                else:
                    skip = False     # Class.method(obj, ...) or staticmethod
                    if not f.is_static and pos:
                        recv = pos[0]
                        pos = pos[1:]
                        skip = True
                    else:
                        recv = None
            else:
                skip = not f.is_static
        elif fn.op == 'func':
            f = self.func_by_term(fn)
        elif fn.op == 'class':
            ctor = self.p.classes.get(fn.args[0])
            if ctor is not None:
                f = self.p.method(ctor, '__init__')
                skip = True
        elif fn.op == 'attr':
            recv = fn.args[0]
            ty = self.typeof(recv)
        b = None
        if f is not None:
            b = self.bind(f, pos, kw, dstar, st, fr, skip_self=skip)
        if f is not None and ctor is None and b is not None and self.can_inline(f, recv):
            cls = self.typeof(recv) if recv is not None else None
            if recv is not None and recv.op == 'class':
                cls = self.p.classes.get(recv.args[0])
            return self.inline(f, cls if isinstance(cls, ClassInfo) else f.cls, recv, b, st, fr, e)
        if b is not None and not dstar:
            items = [(k, v) for k, v in b.items()]
            items.sort(key=lambda x: x[0])
            t = T('call', self.norm_fn(fn, recv, f), (), tuple(items))
        else:
            tb = torchsig.bind(fn.args[0], pos, kw) if fn.op == 'ext' and not dstar else None
            if tb is not None:
                fn = ext(torchsig.canonical(fn.args[0]))
                kk = dict(tb[0])
                kk.update({n: const(v) for n, v in tb[1].items()})
                b = kk
                t = T('call', fn, (), tuple(sorted(kk.items())))
            else:
                t = T('call', fn, tuple(pos), tuple(sorted(kw.items())) + tuple(('**', d) for d in dstar))
        if ctor is not None:
            self.types[t] = ctor
        self.emit('call', {'fn': fn, 'term': t, 'pos': tuple(pos), 'kw': dict(kw), 'bound': b, 'recv': recv, 'f': f,
                           'discarded': discarded}, st, e, fr)
        if self.on_call is not None:
            self.on_call(fn, pos, kw, st)
        # in-place methods and container mutators
        if fn.op == 'attr' and isinstance(fnode, ast.Attribute):
            name = fn.args[1]
            if discarded and name in MUTATORS:
                self.emit('mutate', {'target': fn.args[0], 'how': name, 'value': t}, st, e, fr)
                if name == 'append' and pos and fn.args[0].op == 'list':
                    new = T('list', *(fn.args[0].args + (pos[0],)))
                elif name == 'extend' and pos and fn.args[0].op == 'list' and pos[0].op in ('list', 'tuple'):
                    new = T('list', *(fn.args[0].args + pos[0].args))
                else:
                    new = T('mut', name, fn.args[0], tuple(pos) + tuple(v for _, v in sorted(kw.items())) + tuple(dstar))
                self.rebind(fnode.value, new, st, fr)
            elif name in ('pop', 'setdefault', 'popitem') and not discarded:
                self.emit('mutate', {'target': fn.args[0], 'how': name, 'value': t}, st, e, fr)
            elif name.endswith('_') and not name.endswith('__'):
                self.emit('mutate', {'target': fn.args[0], 'how': name, 'value': t}, st, e, fr)
                if isinstance(fnode.value, ast.Name):
                    self.rebind(fnode.value, t, st, fr)
        return t

    def norm_fn(self, fn, recv, f):
        return fn

    def bind(self, f, pos, kw, dstar, st, fr, skip_self, defaults=None):
        params = list(f.params)
        if skip_self:
            params = params[1:]
        out = {}
        if any(x.op == 'star' for x in pos) or dstar:
            # *args: unknown positional tail
            if f.vararg is None and any(x.op == 'star' for x in pos):
                return None
            if dstar and f.kwarg is None:
                return None
        extra = []
        for i, v in enumerate(pos):
            if v.op == 'star' or i >= len(params):
                extra.append(v)
            else:
                out[params[i]] = v
        if extra and f.vararg is None:
            return None
        kwx = {}
        for k, v in kw.items():
            if k in params or k in f.kwonly:
                out[k] = v
            else:
                kwx[k] = v
        if kwx and f.kwarg is None:
            return None
        if f.vararg:
            out[f.vararg] = T('tuple', *extra)
        if f.kwarg:
            if dstar:
                out[f.kwarg] = dstar[0] if not kwx and len(dstar) == 1 else T('dict', *[(const(k), v) for k, v in kwx.items()], *[(T('dstar'), d) for d in dstar])
            else:
                out[f.kwarg] = T('dict', *[(const(k), v) for k, v in kwx.items()])
        for p in params + f.kwonly:
            if p not in out:
                if defaults is not None and p in defaults:
                    out[p] = defaults[p]
                elif p in f.defaults:
                    d = f.defaults[p]
                    out[p] = self.default_term(f, d)
                elif dstar:
                    out[p] = T('sub', dstar[0], const(p))
                else:
                    return None
        return out

    def default_term(self, f, d):
        if isinstance(d, ast.Constant):
            return const(d.value)
        fr = Frame(f, None, SELF, (), (), ())
        st = State({}, {}, frozenset(), ())
        try:
            return self.ev(d, st, fr, quiet=True)
        except Exception:
            return self.fresh('default')

    def can_inline(self, f, recv):
        if len(self.active) >= self.MAX_DEPTH or any(a.node is f.node for a in self.active):
            return False
        if f.is_generator or f.is_abstract:
            return False
        if any(d not in ('staticmethod', 'classmethod', 'property') and not d.endswith('.setter') and 'no_grad' not in d and 'cached_property' not in d
               for d in f.decorators):
            return False
        if self.inline_pred is not None:
            r = self.inline_pred(f, recv)
            if r is not None:
                return r
        if f.name == '__init__':
            return recv is SELF
        if self.nstmts(f) > self.max_stmts:
            return False
        if f.cls is not None and recv is not SELF and not f.is_static and not f.is_classmethod and f.parent is None:
            return False
        return True

    def inline(self, f, cls, recv, bound, st, fr, node, cenv=None):
        sub_fr = Frame(f, cls, recv if recv is not None else fr.selfterm, fr.stack + (f.qualname,), fr.loopstack, fr.ctx)
        sub_fr.in_except = fr.in_except
        if f.parent is None and f.cls is None:
            sub_fr.selfterm = SELF if recv is None else recv
        env = dict(bound)
        if f.cls is not None and not f.is_static and f.params:
            env.setdefault(f.params[0], recv if recv is not None else SELF)
        for n in f.params + f.kwonly:
            if n in env:
                ty = self.ann_type(f, n)
                if ty and env[n] not in self.types and env[n].op != 'const' and not isinstance(self.typeof(env[n]), ClassInfo):
                    self.types[env[n]] = ty
        sub_fr.closures_env = cenv
        s = State(env, dict(st.heap), st.facts, st.pc)
        self.active.append(f)
        self.emit('enter', {'f': f, 'bound': bound, 'recv': recv}, st, node, fr)
        nev = len(self.res.events)
        end = self.block(self.body_of(f), s, sub_fr)
        self.active.pop()
        if end is not None:
            sub_fr.returns.append((end, NONE, f.node))
        # inner returns are not exits of the entry function
        for ev in self.res.events[nev:]:
            if ev.kind == 'return':
                ev.kind = 'ireturn'
        if not sub_fr.returns:
            # never returns normally
            self.add_facts(st, [FALSE])
            return T('bottom')
        m, val = self.merge_returns(sub_fr.returns, st.pc)
        st.heap = m.heap
        st.facts = m.facts | st.facts
        return self.simp(val, st.facts)

    # ------------------------------------------------------------ known library idioms
    def special(self, fn, pos, kw, st, fr, e):
        if fn.op == 'ext':
            n = fn.args[0]
            if n == 'builtins.getattr' and len(pos) >= 2 and not kw:
                if pos[1].op == 'const' and isinstance(pos[1].args[1], str):
                    return self.getattr(pos[0], pos[1].args[1], st, fr, e)
                k = (pos[0], pos[1])
                if self.record_reads and len(pos) == 2:
                    self.emit('read', {'base': pos[0], 'name': pos[1]}, st, e, fr)
                if k in st.heap:
                    return st.heap[k]
                return T('dynattr', pos[0], pos[1])
            if n == 'builtins.setattr' and len(pos) == 3:
                if pos[1].op == 'const' and isinstance(pos[1].args[1], str):
                    self.store_attr(pos[0], pos[1].args[1], pos[2], st, fr, e)
                else:
                    self.emit('store', {'base': pos[0], 'name': pos[1], 'value': pos[2], 'aug': False}, st, e, fr)
                    st.heap[(pos[0], pos[1])] = pos[2]
                return NONE
            if n == 'builtins.sum' and pos and pos[0].op == 'comp' and pos[0].args[0] in ('gen', 'list') and len(pos[0].args[2]) == 1:
                c = pos[0]
                init = pos[1] if len(pos) > 1 else kw.get('start', const(0))
                base, conds = c.args[2][0]
                return T('fold', '+', init, c.args[1], base, conds)
            if n == 'builtins.len' and len(pos) == 1 and not kw:
                x = pos[0]
                if x.op in ('list', 'tuple') and not any(y.op == 'star' for y in x.args):
                    return const(len(x.args))
                if x.op == 'comp' and x.args[0] in ('list',) and len(x.args[2]) == 1 and not x.args[2][0][1]:
                    return T('call', fn, (x.args[2][0][0],), ())
            if n in ('builtins.list', 'builtins.tuple') and len(pos) == 1 and not kw:
                k = n.rpartition('.')[2]
                if pos[0].op in ('list', 'tuple'):
                    return T(k, *pos[0].args)
                if pos[0].op == 'comp' and pos[0].args[0] in ('gen', 'list') and k == 'list':
                    return T('comp', 'list', *pos[0].args[1:])
            if n == 'builtins.list' and not pos and not kw:
                return T('list')
            if n == 'builtins.dict' and not pos:
                return T('dict', *[(const(k), v) for k, v in kw.items()])
            if n == 'builtins.dict' and len(pos) == 1 and pos[0].op == 'comp' and pos[0].args[1].op == 'tuple' and len(pos[0].args[1].args) == 2:
                return T('comp', 'dict', *pos[0].args[1:])
            if n == 'builtins.set' and len(pos) == 1 and pos[0].op == 'comp':
                return T('comp', 'set', *pos[0].args[1:])
            if n == 'builtins.map' and len(pos) == 2:
                base, elem = self.iter_terms(pos[1], st, fr, 0)
                v = self.apply(pos[0], [elem], {}, [], st, fr, e)
                return T('comp', 'gen', v, ((base, ()),))
            if n == 'builtins.str' and len(pos) == 1:
                if is_str(pos[0]):
                    return pos[0]
                return mkstr([pos[0]])
            if n == 'builtins.isinstance' and len(pos) == 2 and pos[1].op in ('tuple',):
                return boolop('or', [T('call', fn, (pos[0], x), ()) for x in pos[1].args])
            if n == 'builtins.bool' and len(pos) == 1 and pos[0].op in ('cmp', 'not', 'and', 'or'):
                return pos[0]
            if n in ('builtins.all', 'builtins.any') and len(pos) == 1 and pos[0].op == 'list' and not kw:
                return boolop('and' if n.endswith('all') else 'or', list(pos[0].args))
            if n in ('operator.eq', 'operator.ne') and len(pos) == 2:
                return cmp('==' if n.endswith('eq') else '!=', *pos)
        if fn.op == 'attr':
            b, n = fn.args
            if n == '__eq__' and len(pos) == 1:
                return cmp('==', b, pos[0])
            if n == '__ne__' and len(pos) == 1:
                return cmp('!=', b, pos[0])
            if n in ('lower', 'upper', 'strip') and not pos and not kw and b.op == 'const' and isinstance(b.args[1], str):
                return const(getattr(b.args[1], n)())
            if n == 'format' and b.op == 'const' and isinstance(b.args[1], str):
                r = self.fmt_format(b.args[1], pos, kw)
                if r is not None:
                    return r
            if n == 'join' and b.op == 'const' and len(pos) == 1 and pos[0].op in ('list', 'tuple'):
                parts = []
                for i, x in enumerate(pos[0].args):
                    if i:
                        parts.append(b)
                    parts.append(x)
                return mkstr(parts)
            if n == 'append' and False:
                pass
            if n in ('register_buffer', 'register_parameter', 'add_module', 'register_module'):
                nm = pos[0] if pos else kw.get('name')
                v = pos[1] if len(pos) > 1 else kw.get('tensor', kw.get('param', kw.get('module', NONE)))
                pers = pos[2] if len(pos) > 2 else kw.get('persistent', TRUE)
                self.emit('register', {'base': b, 'how': n, 'name': nm, 'value': v, 'persistent': pers}, st, e, fr)
                key = nm.args[1] if nm is not None and nm.op == 'const' else nm
                if key is not None:
                    st.heap[(b, key)] = v
                return NONE
            if n == 'get' and len(pos) in (1, 2) and not kw and b.op == 'dict':
                pass
        return None

    def fmt_format(self, s, pos, kw):
        import string
        parts, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                if spec or (conv and conv != 's'):
                    return None
                if field == '':
                    v = pos[auto]
                    auto += 1
                elif field.isdigit():
                    v = pos[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    return None
                parts.append(v)
        except Exception:
            return None
        return mkstr(parts)

    # ------------------------------------------------------------ types
    def typeof(self, t):
        if t is None:
            return None
        if t in self.types:
            return self.types[t]
        ty = None
        if t.op == 'call':
            fn = t.args[0]
            if fn.op == 'class':
                ty = self.p.classes.get(fn.args[0])
            else:
                f = self.func_by_term(fn)
                if f is not None and getattr(f.node, 'returns', None) is not None:
                    ty = self.ann_to_type(f.module, f.node.returns)
        elif t.op == 'attr':
            b = self.typeof(t.args[0])
            if isinstance(b, ClassInfo):
                ty = self.attr_type(b, t.args[1])
        elif t.op == 'ite':
            a, b = self.typeof(t.args[1]), self.typeof(t.args[2])
            if a is b or t.args[2] is NONE:
                ty = a
            elif t.args[1] is NONE:
                ty = b
        elif t.op == 'elem':
            ty = self.elem_type(t.args[0])
        self.types[t] = ty
        return ty

    _attrtypes = {}

    def attr_type(self, cls, name):
        key = (id(self.p), cls.qualname, name)
        if key in self._attrtypes:
            return self._attrtypes[key]
        self._attrtypes[key] = None
        ty = None
        f = self.p.method(cls, name)
        if f is not None and f.is_property and f.node.returns is not None:
            ty = self.ann_to_type(f.module, f.node.returns)
        if ty is None:
            for k in self.p.mro(cls):
                for s in k.node.body:
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
                        ty = self.ann_to_type(k.module, s.annotation)
                for m in k.methods.values():
                    if m.cls is not k:
                        continue
                    for n in walk_same_scope(m.node):
                        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == name \
                                and isinstance(n.target.value, ast.Name) and n.target.value.id == 'self':
                            ty = ty or self.ann_to_type(k.module, n.annotation)
                        if m.name == '__init__' and isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) \
                                and n.targets[0].attr == name and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == 'self':
                            v = n.value
                            if isinstance(v, ast.Name) and v.id in m.annotations:
                                ty = ty or self.ann_to_type(k.module, m.annotations[v.id])
                            elif isinstance(v, ast.Call):
                                e = self.p.resolve_expr(k.module, v.func)
                                if e and e[0] == 'class':
                                    ty = ty or e[1]
                if ty:
                    break
        self._attrtypes[key] = ty
        return ty

    def elem_type(self, it):
        if it.op == 'attr':
            b = self.typeof(it.args[0])
            if isinstance(b, ClassInfo):
                return self.elem_ann(b, it.args[1])
        return None

    def elem_ann(self, cls, name):
        for k in self.p.mro(cls):
            for m in k.methods.values():
                for n in walk_same_scope(m.node):
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == name:
                        a = n.annotation
                        if isinstance(a, ast.Subscript):
                            s = a.slice
                            if isinstance(s, ast.Tuple) and s.elts and isinstance(s.elts[0], ast.expr):
                                s = s.elts[0]
                            return self.ann_to_type(k.module, s)
                if m.name == '__init__' and m.cls is k:
                    for n in walk_same_scope(m.node):
                        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == name \
                                and isinstance(n.value, ast.Name) and n.value.id in m.annotations:
                            a = m.annotations[n.value.id]
                            if isinstance(a, ast.Subscript) and not isinstance(a.slice, ast.Tuple):
                                return self.ann_to_type(k.module, a.slice)
        return None


def literals_forall(base, c):
    """facts after a loop whose body would have returned under c"""
    return [T('forall', base, l) for l in literals(c, False)]


def subst_data(v, m, memo=None):
    if isinstance(v, (T, tuple)):
        return subst(v, m, memo)
    if isinstance(v, dict):
        return {k: subst_data(x, m, memo) for k, x in v.items()}
    return v
