#!/usr/bin/env python3
"""autoref.py [transform...]: applies one behaviour-preserving rewriting to every file of a scratch copy of the
package and runs all checks on it; each must stay quiet.  Not part of any check."""
import ast, copy, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('MUTSRC', '/repo')
N = [0]


def fresh(p='tmp'):
    N[0] += 1
    return f'{p}_{N[0]}'


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def assign(n, v):
    return ast.Assign(targets=[name(n, ast.Store())], value=v)


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.UnaryOp(op=ast.Not(), operand=e)


class Base(ast.NodeTransformer):
    """statement-list rewriting inside functions"""
    def __init__(self):
        self.fn = 0

    def visit_FunctionDef(self, n):
        self.fn += 1
        self.generic_visit(n)
        n.body = self.block(n.body)
        self.fn -= 1
        return n

    def block(self, b):
        return b

    def generic_visit(self, node):
        super().generic_visit(node)
        if self.fn and not isinstance(node, ast.FunctionDef):
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(node, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(node, f, self.block(b))
        return node


class Unparse(ast.NodeTransformer):
    pass


class AssertRaise(Base):
    def visit_Assert(self, n):
        return ast.If(test=neg(n.test), body=[ast.Raise(exc=ast.Call(func=name('AssertionError'), args=[n.msg] if n.msg else [], keywords=[]))], orelse=[])


class RaiseAssert(Base):
    """if c: raise ValueError -> helper style: if not c: pass else: raise"""
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and isinstance(n.body[0], ast.Raise) and not n.orelse:
            return ast.If(test=neg(n.test), body=[ast.Pass()], orelse=n.body)
        return n


class SplitAssert(Base):
    def visit_Assert(self, n):
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            return [ast.Assert(test=v, msg=n.msg) for v in n.test.values]
        return n


class SwapIf(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(test=neg(n.test), body=n.orelse, orelse=n.body)
        return n


class SwapEq(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            return ast.Compare(left=n.comparators[0], ops=n.ops, comparators=[n.left])
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(n.ops[0])]()
            return ast.Compare(left=n.comparators[0], ops=[o], comparators=[n.left])
        return n


class NotEq(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.NotEq):
            return neg(ast.Compare(left=n.left, ops=[ast.Eq()], comparators=n.comparators))
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.NotIn):
            return neg(ast.Compare(left=n.left, ops=[ast.In()], comparators=n.comparators))
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.IsNot):
            return neg(ast.Compare(left=n.left, ops=[ast.Is()], comparators=n.comparators))
        return n


class RetTmp(Base):
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        t = fresh('result')
        return [assign(t, n.value), ast.Return(value=name(t))]


class HoistArgs(Base):
    """f(a.b, g(x)) -> t1 = a.b; t2 = g(x); f(t1, t2) for statement-level calls"""
    def block(self, b):
        out = []
        for s in b:
            v = s.value if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) else None
            if isinstance(v, ast.Call) and not (isinstance(v.func, ast.Name) and v.func.id in ('super', 'locals', 'vars')) \
                    and not any(isinstance(a, (ast.Starred, ast.GeneratorExp)) for a in v.args) and all(k.arg for k in v.keywords) \
                    and not any(isinstance(x, (ast.Yield, ast.NamedExpr)) for x in ast.walk(s)) and 'super' not in ast.dump(v.func):
                for i, a in enumerate(v.args):
                    if not isinstance(a, (ast.Constant, ast.Name, ast.Lambda)):
                        t = fresh('arg'); out.append(assign(t, a)); v.args[i] = name(t)
                for k in v.keywords:
                    if not isinstance(k.value, (ast.Constant, ast.Name, ast.Lambda)):
                        t = fresh('arg'); out.append(assign(t, k.value)); k.value = name(t)
            out.append(s)
        return out


class ListComp(Base):
    """x = [e for v in it if c] -> loop"""
    def block(self, b):
        out = []
        for s in b:
            v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            if isinstance(v, ast.ListComp) and len(v.generators) == 1:
                g = v.generators[0]
                t = fresh('acc')
                body = [ast.Expr(ast.Call(func=ast.Attribute(value=name(t), attr='append', ctx=ast.Load()), args=[v.elt], keywords=[]))]
                for c in reversed(g.ifs):
                    body = [ast.If(test=c, body=body, orelse=[])]
                loop = ast.For(target=g.target, iter=g.iter, body=body, orelse=[])
                out += [assign(t, ast.List(elts=[], ctx=ast.Load())), loop]
                s.value = name(t)
            out.append(s)
        return out


class IterTmp(Base):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
                t = fresh('items'); out.append(assign(t, s.iter)); s.iter = name(t)
            out.append(s)
        return out


class CondTmp(Base):
    def block(self, b):
        out = []
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
                t = fresh('cond'); out.append(assign(t, s.test)); s.test = name(t)
            out.append(s)
        return out


class Rename(ast.NodeTransformer):
    """rename local variables (not parameters)"""
    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(n)):
            return n
        inner = [x for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and x is not n]
        params = set()
        for x in [n] + inner:
            if hasattr(x, 'args'):
                a = x.args
                params |= {y.arg for y in a.args + a.kwonlyargs + a.posonlyargs + [z for z in (a.vararg, a.kwarg) if z]}
        names = {x.name for x in inner if hasattr(x, 'name')}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))} - params - names
        loc -= {a.asname or a.name for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + '_v'
        return n


class Extract(ast.NodeTransformer):
    """every method f becomes a delegate to _impl_f"""
    def visit_ClassDef(self, c):
        out = []
        for s in c.body:
            out.append(s)
            if isinstance(s, ast.FunctionDef) and s.args.args and s.args.args[0].arg == 'self' and not s.args.vararg and not s.args.kwarg \
                    and not s.args.kwonlyargs and s.name != '__init__' and not (s.name.startswith('__')) \
                    and all(isinstance(d, ast.Name) and d.id == 'property' for d in s.decorator_list) \
                    and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)) \
                    and not (len(s.body) <= 2 and any(isinstance(x, (ast.Pass, ast.Raise)) for x in s.body)) and not any('abstract' in ast.dump(d) for d in s.decorator_list):
                impl = copy.deepcopy(s)
                nm = '_impl_' + s.name.lstrip('_') + '_' + c.name
                impl.name = nm
                impl.decorator_list = []
                for a in impl.args.args:
                    a.annotation = None
                impl.returns = None
                impl.args.defaults = []
                doc = [s.body[0]] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
                call = ast.Call(func=ast.Attribute(value=name('self'), attr=nm, ctx=ast.Load()), args=[name(a.arg) for a in s.args.args[1:]], keywords=[])
                s.body = doc + [ast.Return(value=call)]
                out.append(impl)
        c.body = out
        return c


class ExtractInit(ast.NodeTransformer):
    """tail of __init__ after super().__init__ becomes a method"""
    def visit_ClassDef(self, c):
        out = []
        for s in c.body:
            out.append(s)
            if isinstance(s, ast.FunctionDef) and s.name == '__init__' and not s.args.vararg and not s.args.kwarg and not s.args.kwonlyargs:
                k = None
                for i, x in enumerate(s.body):
                    if 'super' in ast.dump(x) and '__init__' in ast.dump(x):
                        k = i
                if k is None or k + 1 >= len(s.body) or any(isinstance(x, ast.Return) for y in s.body[k + 1:] for x in ast.walk(y)):
                    continue
                if any(isinstance(y, ast.Name) and y.id in ('locals', 'exec') for x in s.body for y in ast.walk(x)):
                    continue
                head = {y.id for x in s.body[:k + 1] for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                used = {y.id for x in s.body[k + 1:] for y in ast.walk(x) if isinstance(y, ast.Name)}
                ps = [a.arg for a in s.args.args[1:] if a.arg in used] + sorted((head & used) - {a.arg for a in s.args.args})
                nm = '_setup_' + c.name
                impl = ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='self')] + [ast.arg(arg=x) for x in ps], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                       body=s.body[k + 1:], decorator_list=[], type_params=[])
                s.body = s.body[:k + 1] + [ast.Expr(ast.Call(func=ast.Attribute(value=name('self'), attr=nm, ctx=ast.Load()), args=[name(x) for x in ps], keywords=[]))]
                out.append(impl)
        c.body = out
        return c


class IfExp(Base):
    """x = a if c else b -> if statement"""
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                v = s.value
                a, o = copy.deepcopy(s), copy.deepcopy(s)
                a.value, o.value = v.body, v.orelse
                out.append(ast.If(test=v.test, body=[a], orelse=[o]))
            else:
                out.append(s)
        return out


class IfStmt(Base):
    """if c: x = a  else: x = b -> x = a if c else b"""
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and len(n.orelse) == 1 and isinstance(n.body[0], ast.Assign) and isinstance(n.orelse[0], ast.Assign) \
                and ast.dump(n.body[0].targets[0]) == ast.dump(n.orelse[0].targets[0]) and isinstance(n.body[0].targets[0], (ast.Name, ast.Attribute)):
            return ast.Assign(targets=n.body[0].targets, value=ast.IfExp(test=n.test, body=n.body[0].value, orelse=n.orelse[0].value))
        return n


class EarlyRet(Base):
    """if c: ...return ; rest -> if c: ... else: rest"""
    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(b):
                s.orelse = self.block(b[i + 1:])
                return b[:i + 1]
        return b


class ElseRet(Base):
    """if c: return a else: b -> if c: return a; b"""
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                o = s.orelse
                s.orelse = []
                out += [s] + o
            else:
                out.append(s)
        return out


class Nop(Base):
    def block(self, b):
        return b

    def visit_FunctionDef(self, n):
        n = super().visit_FunctionDef(n)
        k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(k, assign('_unused', ast.Constant(value=0)))
        return n


class SelfTmp(Base):
    """self.x = e -> v = e; self.x = v"""
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and not isinstance(s.value, (ast.Name, ast.Constant)):
                t = fresh('val'); out.append(assign(t, s.value)); s.value = name(t)
            out.append(s)
        return out


class SelfLocal(Base):
    """attribute loads self.x.y of calls hoisted: t = self.x"""
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                    and not isinstance(s.value.func.value, ast.Name) and 'super' not in ast.dump(s.value.func):
                t = fresh('obj'); out.append(assign(t, s.value.func.value)); s.value.func.value = name(t)
            out.append(s)
        return out


class Demorgan(Base):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            b = n.body
            for v in reversed(n.test.values):
                b = [ast.If(test=v, body=b, orelse=[])]
            return b[0]
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.Or):
            n.test = neg(ast.BoolOp(op=ast.And(), values=[neg(v) for v in n.test.values]))
        return n


class AugAssign(Base):
    """counter += const -> counter = counter + const (names only)"""
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.value, (ast.Constant,)):
            return ast.Assign(targets=[n.target], value=ast.BinOp(left=name(n.target.id), op=n.op, right=n.value))
        return n


class AllLoop(Base):
    """assert all(p for x in it) -> loop with asserts"""
    def visit_Assert(self, n):
        t = n.test
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'all' and len(t.args) == 1 and isinstance(t.args[0], (ast.GeneratorExp, ast.ListComp)) \
                and len(t.args[0].generators) == 1:
            g = t.args[0].generators[0]
            b = [ast.Assert(test=t.args[0].elt, msg=n.msg)]
            for c in g.ifs:
                b = [ast.If(test=c, body=b, orelse=[])]
            return ast.For(target=g.target, iter=g.iter, body=b, orelse=[])
        return n


class LoopAll(Base):
    """for x in it: assert p -> assert all(p for x in it)"""
    def visit_For(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and isinstance(n.body[0], ast.Assert) and not n.orelse:
            g = ast.GeneratorExp(elt=n.body[0].test, generators=[ast.comprehension(target=n.target, iter=n.iter, ifs=[], is_async=0)])
            return ast.Assert(test=ast.Call(func=name('all'), args=[g], keywords=[]), msg=None)
        return n


class TryFin(Base):
    def visit_FunctionDef(self, n):
        n = super().visit_FunctionDef(n)
        if self.fn == 0 and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
            if n.body[k:] and n.name != '__init__':
                n.body = n.body[:k] + [ast.Try(body=n.body[k:], handlers=[], orelse=[], finalbody=[ast.Pass()])]
        return n


class TupleSplit(Base):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.targets[0].elts) == len(s.value.elts):
                ts = [fresh('t') for _ in s.value.elts]
                out += [assign(t, v) for t, v in zip(ts, s.value.elts)]
                out += [ast.Assign(targets=[e], value=name(t)) for e, t in zip(s.targets[0].elts, ts)]
            else:
                out.append(s)
        return out


class Enumerate(Base):
    """for i, x in enumerate(xs) -> i = 0; for x in xs: ...; i += 1 (no continue in body)"""
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'enumerate' and len(s.iter.args) == 1 \
                    and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name) and not any(isinstance(x, ast.Continue) for x in ast.walk(s)):
                i = s.target.elts[0].id
                out.append(assign(i, ast.Constant(value=0)))
                s.iter = s.iter.args[0]
                s.target = s.target.elts[1]
                s.body = s.body + [ast.AugAssign(target=name(i, ast.Store()), op=ast.Add(), value=ast.Constant(value=1))]
            out.append(s)
        return out


class RangeLen(Base):
    """for x in a.b (representations/irreps/modules) -> for k in range(len(a.b)): x = a.b[k]"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Attribute) and n.iter.attr in ('representations', 'irreps') and isinstance(n.target, ast.Name):
            k = fresh('k')
            sub = ast.Subscript(value=copy.deepcopy(n.iter), slice=name(k), ctx=ast.Load())
            n.body = [ast.Assign(targets=[n.target], value=sub)] + n.body
            n.iter = ast.Call(func=name('range'), args=[ast.Call(func=name('len'), args=[n.iter], keywords=[])], keywords=[])
            n.target = name(k, ast.Store())
        return n


T = {k.lower(): v for k, v in list(globals().items()) if isinstance(v, type) and issubclass(v, ast.NodeTransformer) and k not in ('Base',)}


def make(t):
    d = tempfile.mkdtemp(prefix='ref_')
    shutil.copytree(SRC + '/escnn', d + '/escnn', ignore=shutil.ignore_patterns('__pycache__', '_cache'))
    for r, _, fs in os.walk(d + '/escnn'):
        for f in fs:
            if f.endswith('.py'):
                s = open(os.path.join(r, f)).read()
                tree = ast.parse(s)
                for k in t.split('+'):
                    tree = ast.fix_missing_locations(T[k]().visit(tree))
                ast.fix_missing_locations(tree)
                open(os.path.join(r, f), 'w').write(ast.unparse(tree))
    return d


if __name__ == '__main__':
    args = sys.argv[1:]
    props = [a for a in args if a[0] == 'C'] or [f'C{i:02d}' for i in range(1, 40) if os.path.exists(f'{HERE}/sa/rules/c{i:02d}.py')]
    ts = [a for a in args if a.split('+')[0] in T] or list(T)
    for t in ts:
        d = make(t)
        try:
            def one(pid):
                return pid, subprocess.run([sys.executable, HERE + '/check.py', '--property', pid, '--repo', d, '--no-evidence'], capture_output=True, text=True)
            with ThreadPoolExecutor(6) as ex:
                for pid, r in ex.map(one, props):
                    tail = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ''
                    lines = [l for l in r.stdout.splitlines() if ': [' in l]
                    print(t, pid, 'rc', r.returncode, tail.split('tier=')[-1], r.stderr[-300:] if r.returncode not in (0, 1) else '', flush=True)
                    for l in lines[:4]:
                        print('      ', l[:300])
        finally:
            if not os.environ.get('KEEP'):
                shutil.rmtree(d)
            else:
                print(d)
