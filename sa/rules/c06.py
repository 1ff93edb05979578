"""Memo tables: at every site that stores a computed value in a table that outlives the call and
returns the stored value on a later hit, (a) the test, the store and the read use the same key and
(b) every input the stored value depends on is determined by the key.  Dependencies are the leaves
of the provenance term of the value; the key determines its own components (through tuples, strings,
sorted items, byte strings, irrep ids).  Disk caches may ignore only singletons; group factories that
reuse an instance must bring it up to the requested frequency on every path."""
from ..common import *

ASSUMPTIONS = ['textual forms of ids (f-strings of subgroup ids, irrep ids) are injective',
               'values named explicitly by the caller (name=...) are identified by that name',
               'objects used as keys compare equal only if interchangeable (property C07)']
INJ_FN = {'tuple', 'list', 'dict', 'sorted', 'str', 'repr', 'frozenset', 'set', 'float', 'enumerate', 'OrderedDict'}
INJ_M = {'tobytes', 'items', 'tolist', 'copy', 'format', 'join', 'tostring', 'flatten', 'ravel', 'values', 'keys', 'update'}


def run(p, rep, tier):
    rep.rule('key-complete', 'every input a memoised value depends on is determined by its key', 25)
    rep.rule('same-key', 'the lookup, the store and the returned entry use the same key', 25)
    rep.rule('disk', 'functions cached on disk ignore only arguments that are singletons', 1)
    rep.rule('grow', 'a reused group instance covers the requested maximum frequency on every path', 4)
    rep.rule('distinct', 'different computations that share a table never use keys of the same form', 8)
    texts, given = [], []
    for f in p.all_functions():
        if in_tests(f) or not candidate(f.node):
            continue
        try:
            if check(p, rep, f, texts):
                given.append(f)
        except AnalysisError:
            raise
        except Exception as e:
            rep.undecide('key-complete', f.qualname, f.loc(), f'{type(e).__name__}: {e}')
    byname = {}
    for f in p.all_functions():
        if not in_tests(f):
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call) and isinstance(x.func, (ast.Attribute, ast.Name)):
                    byname.setdefault(x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id, []).append(f)
    for g in given:
        for f in dict.fromkeys(byname.get(g.name, [])):
            if f is g:
                continue
            try:
                check(p, rep, f, texts, g)
            except AnalysisError:
                raise
            except Exception as e:
                rep.undecide('key-complete', f.qualname, f.loc(), f'{type(e).__name__}: {e}')
    for i, (f, tab, sk, e) in enumerate(texts):
        same = [g for g, t2, s2, _ in texts if s2 == sk and t2 == tab and g.name != f.name
                and (g.cls is f.cls or g.cls in p.mro(f.cls) or f.cls in p.mro(g.cls))]
        rep.ob('distinct', f'{f.qualname[6:]}: {"{}".join(sk)}', not same, e.loc(),
               f'{f.name} and {same[0].name if same else ""} store different values in {tab} under keys of the same form')
    disk(p, rep)
    for f in p.all_functions():
        if f.name == '_generator' and f.cls is not None and 'maximum_frequency' in f.params:
            try:
                grow(p, rep, f)
            except AnalysisError:
                raise
            except Exception as e:
                rep.undecide('grow', f.qualname, f.loc(), f'{type(e).__name__}: {e}')


def in_tests(f):
    return f.module.relpath.startswith(('test', 'examples', 'docs'))


def candidate(node):
    st = any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) for x in ast.walk(node)) or \
        any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'setdefault' for x in ast.walk(node))
    return st


def persistent(b):
    """the table outlives the call: attribute of self / of a class / of an argument, or module global"""
    while b.op in ('upd', 'mut'):
        b = b.args[0] if b.op == 'upd' else b.args[1]
    if b.op == 'ite':
        return persistent(b.args[1]) and persistent(b.args[2])
    if b.op == 'sub':
        return persistent(b.args[0])
    if b.op in ('global', 'glob'):
        return True
    if b.op == 'attr':
        r = b
        while r.op == 'attr':
            r = r.args[0]
        return r.op in ('self', 'arg', 'class', 'ext', 'module')
    return False


def strip_upd(b):
    while b.op in ('upd', 'mut'):
        b = b.args[0] if b.op == 'upd' else b.args[1]
    if b.op == 'ite':
        x, y = strip_upd(b.args[1]), strip_upd(b.args[2])
        return x if x is y else b
    if b.op == 'sub':
        return T('sub', strip_upd(b.args[0]), b.args[1])
    return b


def path(b):
    """(root table, key components along nested subscripts)"""
    ks = []
    b = strip_upd(b)
    while b.op == 'sub':
        ks.append(b.args[1])
        b = strip_upd(b.args[0])
    return b, tuple(reversed(ks))


def miss_tests(facts, root):
    """keys known to be absent from the table on this path"""
    out = []
    for l in facts:
        if l.op == 'cmp' and l.args[0] == 'not in':
            r, ks = path(l.args[2])
            if r is root:
                out.append(ks + (l.args[1],))
        if l.op == 'cmp' and l.args[0] == 'is' and l.args[2] is NONE:
            c = call_of(l.args[1], 'get')
            if c and c[0] is not None and c[2]:
                r, ks = path(c[0])
                if r is root:
                    out.append(ks + (c[2][0],))
    return out


def irrep_typed(it, t):
    ty = it.typeof(t)
    if isinstance(ty, ClassInfo) and ty.name == 'IrreducibleRepresentation':
        return True
    if t.op == 'call':
        return callee_name(t.args[0]) in ('irrep', 'trivial_representation')
    if t.op == 'ite':
        return irrep_typed(it, t.args[1]) and irrep_typed(it, t.args[2])
    return False


def determined(it, k):
    D = set()
    todo = [k]
    while todo:
        t = todo.pop()
        if not isinstance(t, T):
            if isinstance(t, tuple):
                todo += [x for x in t if isinstance(x, (T, tuple))]
            continue
        if t in D:
            continue
        D.add(t)
        if t.op in ('tuple', 'list', 'dict', 'str', 'set', 'star', 'upd', 'mut', 'overlay', 'kwargs'):
            todo += [x for x in t.args if isinstance(x, (T, tuple))]
        elif t.op == 'comp':
            todo += [x for x in t.args if isinstance(x, (T, tuple))]
        elif t.op == 'elem':
            todo.append(t.args[0])
        elif t.op == 'bin' and t.args[0] in ('+', '%'):
            if any(x.op in ('tuple', 'list', 'str') or is_const(x) and isinstance(x.args[1], str) for x in t.args[1:]):
                todo += [t.args[1], t.args[2]]
        elif t.op == 'call':
            fn = t.args[0]
            n = callee_name(fn)
            if fn.op == 'ext' and n in INJ_FN:
                todo += call_args(t)
            elif fn.op == 'attr' and n in INJ_M:
                todo.append(fn.args[0])
                todo += call_args(t)
        elif t.op == 'attr' and t.args[1] == 'id':
            todo.append(t.args[0])
        elif t.op == 'attr' and t.args[1] == 'name' and irrep_typed(it, t.args[0]):
            todo.append(t.args[0])
    return D


def residual(v, D, own):
    """inputs v depends on that are not determined; `own`: attributes of self are fixed for this table"""
    out, seen = [], set()

    def go(t):
        if not isinstance(t, T):
            if isinstance(t, tuple):
                for x in t:
                    go(x)
            return
        if t in D or t in seen:
            return
        seen.add(t)
        if t.op in ('arg', 'kwargs', 'vararg'):
            out.append(t)
        elif t is SELF:
            if not own:
                out.append(t)
        elif t.op == 'attr':
            r = t
            while r.op == 'attr':
                if r in D:
                    return
                r = r.args[0]
            if r is SELF:
                if not own:
                    out.append(t)
            else:
                go(r)
        else:
            for x in t.args:
                go(x)
    go(v)
    return out


def check(p, rep, f, texts, only=None):
    """sites of f itself, or (only=g) those of a helper g as reached from f.  Returns True if the key is
    handed in by the callers, whose choice of it has to be judged there"""
    deferred = False
    outer = only is None
    only = only or f
    it = Interp(p, inline=lambda g, recv: None if g.name != f.name else False)
    r = it.run(f, f.cls)
    sites = []
    for e in r.of('storesub'):
        if e.func is not only or e['aug'] or not persistent(e['base']):
            continue
        root, ks = path(e['base'])
        key = ks + (e['idx'],)
        tests = miss_tests(e.facts, root)
        if e.in_except and not tests:
            tests = [key]
        sites.append((e, root, key, e['value'], tests))
    for e in r.of('mutate'):
        if e['how'] == 'setdefault' and e.func is only and persistent(e['target']):
            c = call_of(e['value'], 'setdefault')
            if c and len(c[2]) == 2:
                root, ks = path(e['target'])
                key = ks + (c[2][0],)
                sites.append((e, root, key, c[2][1], [key]))
    # only tables that are read back: a hit returns the stored entry
    for e, root, key, v, tests in sites:
        if not tests:
            continue
        construct = f'{f.qualname[6:]}: {show(root)[:60]}'
        # ---- same key
        ok = any(t == key for t in tests)
        bad = None
        if not ok:
            bad = f'stores under {show(tup(*key))[:100]} after testing {show(tup(*tests[0]))[:100]}'
        for ret in r.of('return'):
            for s in ret['value'].subterms():
                if s.op == 'sub':
                    rt, ks = path(s)
                    if rt is root and len(ks) == len(key) and ks != key and not any(ks == t for t in tests):
                        # a read of the same table under another key
                        if not any(ks == k2 for _, r2, k2, _, _ in sites if r2 is root):
                            bad = bad or f'stores under {show(tup(*key))[:100]} but returns the entry {show(tup(*ks))[:100]}'
        rep.ob('same-key', construct, bad is None, e.loc(), bad or '')
        # ---- completeness
        own = root_of(root) is SELF
        if outer and own and f.cls is not None and root.op == 'attr':
            for cs, k in cases(key[-1]):
                sk = skeleton(k)
                if sk:
                    texts.append((f, root.args[1], sk, e))
        res = set()
        for cs, k in cases(tup(*key)):
            if not feasible(frozenset(e.facts) | frozenset(cs)) or k.op != 'tuple':
                continue
            if any(c.op == 'cmp' and c.args[0] == 'is' and c.args[1].op == 'const' and c.args[1] is not c.args[2] for c in cs):
                continue
            val = assume(v, cs)
            last = k.args[-1]
            # facts may fix the value of a conditional key
            D = determined(it, k)
            # ... and so do the conditions that select this form of the key
            D |= {c.args[1] for c in cs if c.op == 'cmp' and c.args[0] in ('is', '==') and is_const(c.args[2])}
            rs = residual(val, D, own)
            if rs and last.op == 'arg' and (named_by_caller(f, last.args[0]) or
                                            any(s.op == 'call' and s.args[0] in rs for s in val.subterms())):
                deferred = True
                continue
            # a value re-derived from the stored entry's own owner
            owner = root_of(root)
            rs = [x for x in rs if x is not owner]
            if owner.op == 'arg':
                rs = [x for x in rs if x is not owner]
            # the name of an irrep identifies it; whether an unannotated operand is one cannot be told here
            named = {x.args[0] for x in k.subterms() if x.op == 'attr' and x.args[1] == 'name' and x.args[0].op == 'arg'}
            if any(x in named and f.annotations.get(x.args[0]) is None for x in rs):
                rep.undecide('key-complete', construct, e.loc(), 'kind of an operand identified by its name')
                rs = [x for x in rs if x not in named]
            res |= set(rs)
        rep.ob('key-complete', construct, not res, e.loc(),
               '' if not res else f'the stored value depends on {", ".join(sorted(show(x) for x in res))}, which the key {show(tup(*key))[:140]} does not determine')
    return deferred


def skeleton(k):
    """literal pieces of a textual key, with a gap per inserted value; None if it has no literal piece"""
    if k.op != 'str':
        return None
    out = ['']
    for x in k.args:
        if is_const(x) and isinstance(x.args[1], str):
            out[-1] += x.args[1]
        else:
            out.append('')
    return tuple(out) if any(out) else None


def named_by_caller(f, n):
    a = f.annotations.get(n)
    return n == 'name' or (a is not None and ast.unparse(a).strip('"\'') == 'str' and n.endswith('name'))


def root_of(t):
    while t.op == 'attr':
        t = t.args[0]
    return t


def disk(p, rep):
    singles = set()
    for f in p.all_functions():
        if f.name == '_generator' and f.cls is not None and f.is_classmethod and len(f.params) == 1 and not f.kwarg and not f.vararg:
            singles.add(f.cls.name)
    for f in p.all_functions():
        for d in f.node.decorator_list:
            src = ast.unparse(d)
            call = d if isinstance(d, ast.Call) else None
            fn = call.func if call else d
            if not (isinstance(fn, ast.Attribute) and fn.attr == 'cache'):
                continue
            ign = []
            if call:
                for k in call.keywords:
                    if k.arg == 'ignore' and isinstance(k.value, (ast.List, ast.Tuple)):
                        ign = [x.value for x in k.value.elts if isinstance(x, ast.Constant)]
            bad = []
            for n in ign:
                a = f.annotations.get(n)
                ty = ast.unparse(a).strip('"\'').rpartition('.')[2] if a is not None else None
                used = any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(f.node))
                if used and ty not in singles and n not in ('verbose',):
                    bad.append(n)
            rep.ob('disk', f.qualname[6:], not bad, f.loc(), f'the disk cache ignores {bad}, on which the result depends')


def grow(p, rep, f):
    """_generator(maximum_frequency) of a group with a single reused instance"""
    it = Interp(p, inline=lambda g, recv: False)
    r = it.run(f, f.cls)
    M = arg('maximum_frequency')
    rets = r.of('return')
    if not rets or r.state is None:
        return rep.undecide('grow', f.qualname, f.loc(), 'no return')
    # enumerate the paths through the heap: value of the cached instance and of its frequency
    where = f.qualname[6:]
    store = None
    for e in r.of('store'):
        if e['base'].op == 'class':
            store = e
    if store is None:
        return rep.undecide('grow', where, f.loc(), 'instance is not kept on the class')
    inst = attr(store['base'], store['name'])
    made = [e for e in r.of('store') if e['base'] is store['base'] and e['name'] == store['name']]
    raised = [e for e in r.of('store') if e['name'] == '_maximum_frequency' and e['value'] is M]
    builds = [e for e in r.calls() if callee_name(e['fn']) == '_build_representations']
    okm = all(any(x is M for x in e['value'].subterms()) for e in made)
    rep.ob('grow', where, okm, store.loc(), 'a new instance is not created with the requested maximum frequency')
    freq = attr(inst, '_maximum_frequency')
    ok = None
    for e in raised:
        fs = e.facts
        less = any(l.op == 'cmp' and l.args[0] in ('<', '<=', '!=') and freq in l.subterms() and M in l.subterms()
                   and (l.args[0] == '!=' or l.args[1] is freq) for l in fs)
        wrong = any(l.op == 'cmp' and l.args[0] in ('<', '<=') and l.args[1] is M and l.args[2] is freq for l in fs)
        ok = False if wrong else (True if less or not any(freq in l.subterms() for l in fs) else None)
        b = [x for x in builds if x.seq > e.seq and frozenset(x.facts) <= frozenset(fs)]
        rep.ob('grow', where, bool(b), e.loc(), 'the maximum frequency is raised without instantiating the missing irreps')
    if not raised:
        other = [e for e in r.of('store') if e['name'] == '_maximum_frequency']
        ok = False if not other and not any(callee_name(e['fn']) not in ('_build_representations', f.cls.name) for e in r.calls()) else None
    rep.ob('grow', where, ok, (raised[0] if raised else f).loc(), 'the reused instance may not cover the requested maximum frequency')
