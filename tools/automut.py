#!/usr/bin/env python3
"""automut.py OUT N SEED [path-substring...]: random small syntactic mutations of the package (one each), all checks
run on each; writes a line per mutant with the checks that report it.  Survivors are read by hand.  Not part of any check."""
import ast, copy, difflib, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('MUTSRC', '/repo')
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import importlib
from sa.project import Project
from sa.report import Report
PROPS = os.environ.get('PROPS', '').split() or [f'C{i:02d}' for i in range(1, 40) if os.path.exists(f'{HERE}/sa/rules/c{i:02d}.py') and i != 15]
SIM = [('in_type', 'out_type'), ('stride', 'padding'), ('stride', 'dilation'), ('input', 'output'), ('irreps', 'representations'), ('rows', 'cols'),
       ('weight', 'bias'), ('running_mean', 'running_var'), ('parent', 'child'), ('repr1', 'repr2'), ('in_repr', 'out_repr'), ('f', 'p'), ('start', 'end'),
       ('e1', 'e2'), ('g1', 'g2'), ('rotation_order', 'maximum_frequency'), ('element', 'e'), ('param', 'param1'), ('param1', 'param2'), ('j', 'k'), ('train', 'eval')]
SIMM = {}
for a, b in SIM:
    SIMM.setdefault(a, []).append(b); SIMM.setdefault(b, []).append(a)


def sites(tree):
    """(description, mutate-in-place function by node index)"""
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0])); doc.add(id(n.body[0].value))
    nodes = list(ast.walk(tree))
    infn = {}
    for f in nodes:
        if isinstance(f, ast.FunctionDef):
            for x in ast.walk(f):
                infn.setdefault(id(x), f)
            for a in [y.annotation for y in f.args.args if y.annotation] + ([f.returns] if f.returns else []):
                for x in ast.walk(a):
                    infn[id(x)] = None
    msg = set()
    for n in nodes:
        if isinstance(n, ast.Assert) and n.msg:
            msg |= {id(x) for x in ast.walk(n.msg)}
        if isinstance(n, ast.Raise):
            msg |= {id(x) for x in ast.walk(n)}
    for i, n in enumerate(nodes):
        f = infn.get(id(n))
        if f is None or id(n) in doc or id(n) in msg or f.name in ('__repr__', '__str__', 'extra_repr', 'check_equivariance', '_repr_element') or 'test' in f.name:
            continue
        if isinstance(n, ast.Assert):
            out.append((i, 'del'))
        elif isinstance(n, (ast.Expr,)) and isinstance(n.value, ast.Call):
            out.append((i, 'del'))
        elif isinstance(n, ast.If):
            out += [(i, 'negif'), (i, 'iftrue')]
            if len(n.body) == 1 and isinstance(n.body[0], ast.Raise):
                out.append((i, 'iffalse'))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            out.append((i, 'cmp'))
        elif isinstance(n, ast.BoolOp):
            out += [(i, 'drop0'), (i, 'drop1')]
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                out.append((i, 'swapargs'))
            if n.keywords:
                out.append((i, 'dropkw'))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, bool):
            out.append((i, 'const'))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.FloorDiv, ast.Mod)):
            out.append((i, 'binop'))
        elif isinstance(n, ast.Attribute) and n.attr in SIMM:
            out.append((i, 'attr'))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in SIMM:
            names = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in f.args.args}
            if any(s in names for s in SIMM[n.id]):
                out.append((i, 'name'))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and n.slice.lower is not None and n.slice.upper is not None:
            out.append((i, 'slice'))
    return nodes, out, infn


def apply(tree, i, op, rng):
    nodes, _, infn = sites(tree)
    n = nodes[i]
    f = infn[id(n)]

    def repl(new):
        for p in nodes:
            for fld, v in ast.iter_fields(p):
                if v is n:
                    setattr(p, fld, new); return
                if isinstance(v, list) and any(x is n for x in v):
                    v[[k for k, x in enumerate(v) if x is n][0]] = new; return
    if op == 'del':
        repl(ast.Pass())
    elif op == 'negif':
        n.test = ast.UnaryOp(op=ast.Not(), operand=n.test)
    elif op == 'iftrue':
        n.test = ast.Constant(value=True)
    elif op == 'iffalse':
        n.test = ast.Constant(value=False)
    elif op == 'cmp':
        o = n.ops[0]
        m = {ast.Eq: [ast.NotEq, ast.LtE, ast.GtE], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
             ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}[type(o)]
        n.ops[0] = rng.choice(m)()
    elif op in ('drop0', 'drop1'):
        vs = [v for k, v in enumerate(n.values) if k != (0 if op == 'drop0' else len(n.values) - 1)]
        repl(vs[0] if len(vs) == 1 else ast.BoolOp(op=n.op, values=vs))
    elif op == 'swapargs':
        k = rng.randrange(len(n.args) - 1)
        if ast.dump(n.args[k]) == ast.dump(n.args[k + 1]):
            return None
        n.args[k], n.args[k + 1] = n.args[k + 1], n.args[k]
    elif op == 'dropkw':
        n.keywords.pop(rng.randrange(len(n.keywords)))
    elif op == 'const':
        n.value = (not n.value) if isinstance(n.value, bool) else n.value + rng.choice([1, -1])
    elif op == 'binop':
        m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}
        n.op = m[type(n.op)]()
    elif op == 'attr':
        n.attr = rng.choice(SIMM[n.attr])
    elif op == 'name':
        names = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in f.args.args}
        n.id = rng.choice([s for s in SIMM[n.id] if s in names])
    elif op == 'slice':
        if rng.random() < .5:
            n.slice.lower = ast.BinOp(left=n.slice.lower, op=ast.Add(), right=ast.Constant(value=1))
        else:
            n.slice.upper = ast.BinOp(left=n.slice.upper, op=ast.Sub(), right=ast.Constant(value=1))
    return f.name


def main():
    out, num, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    subs = sys.argv[4:]
    rng = random.Random(seed)
    files = []
    for r, _, fs in os.walk(SRC + '/escnn'):
        for f in sorted(fs):
            q = os.path.relpath(os.path.join(r, f), SRC)
            if f.endswith('.py') and f != '__init__.py' and (not subs or any(s in q for s in subs)):
                files.append(q)
    files.sort()
    cand = []
    for q in files:
        t = ast.parse(open(f'{SRC}/{q}').read())
        cand += [(q, i, op) for i, op in sites(t)[1]]
    rng.shuffle(cand)
    cand = cand[:num]
    print(len(files), 'files', len(cand), 'mutants', flush=True)
    bases = {}

    global one

    def one(m):
        q, i, op = m
        d = tempfile.mkdtemp(prefix='am_')
        try:
            shutil.copytree(SRC + '/escnn', d + '/escnn', ignore=shutil.ignore_patterns('__pycache__', '_cache'))
            src = open(f'{SRC}/{q}').read()
            t = ast.parse(src)
            a = ast.unparse(t)
            fn = apply(t, i, op, random.Random(hash((q, i, op))))
            if fn is None:
                return None
            ast.fix_missing_locations(t)
            b = ast.unparse(t)
            open(f'{d}/{q}', 'w').write(b)
            diff = [l for l in difflib.unified_diff(a.splitlines(), b.splitlines(), lineterm='', n=0) if l[0] in '+-' and l[:3] not in ('+++', '---')]
            res = {}
            proj = Project(d)
            for pid in PROPS:
                try:
                    rep = Report(pid)
                    importlib.import_module('sa.rules.' + pid.lower()).run(proj, rep, 'quick')
                    if rep.findings:
                        g = rep.findings[0]
                        res[pid] = str(g)[:300]
                except Exception as e:
                    res[pid] = 'ERR ' + repr(e)[:200]
            return {'file': q, 'fn': fn, 'op': op, 'diff': diff, 'by': res}
        finally:
            shutil.rmtree(d)
    import multiprocessing as mp
    with mp.get_context('fork').Pool(int(os.environ.get('J', '7')), maxtasksperchild=4) as ex, open(out, 'a') as f:
        for r in ex.imap_unordered(one, cand):
            if r:
                f.write(json.dumps(r) + '\n'); f.flush()


main()
