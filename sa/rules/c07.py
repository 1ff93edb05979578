"""Equality and hashing: on every path on which __eq__ may answer True, the comparisons that hold must
pair the same part of both operands and together cover every constructor setting; __hash__ must be a
function of what __eq__ compares and must not hash tensors or unhashable objects."""
from ..common import *
from .c06 import determined, residual, INJ_FN

ASSUMPTIONS = ['numerical comparisons (allclose, isclose) count as comparisons of their operands']
EQ_CALLS = {'allclose', 'equal', 'isclose', 'array_equal', '_equal', 'all', 'allequal', 'array_equiv'}
# settings that do not change what an instance computes
INERT = {'maximum_frequency': 'only pre-instantiates irreps, which are built on demand',
         'recompute': 'only bypasses a cache'}
INERT_IN = {'DirectProductGroup': {'name'}, 'DoubleGroup': {'name'}, 'GSpace': {'name'},
            # determined by irreps and change of basis
            'Representation': {'representation', 'character', 'change_of_basis_inv', 'supported_nonlinearities'},
            'GroupElement': set()}
OTHER = arg('other')
EQ = {}        # class -> parts compared by its __eq__


def loose(p, ty, n):
    """classes of this type for which equal instances may differ in attribute n"""
    out = []
    for k in [ty] + list(p.subclasses(ty.name)):
        if '__eq__' not in k.methods or any('abstractmethod' in ast.unparse(d) for d in k.methods['__eq__'].node.decorator_list):
            continue
        if k.qualname not in EQ:
            continue
        cmpd = EQ[k.qualname]
        if covered((n,), cmpd):
            continue
        heap = ctor_heap(p, k)
        if n not in heap:
            continue
        it, _ = ctor(p, k)
        D = set()
        for q in cmpd:
            v = value_of(p, k, q, heap)
            if v is not None:
                D |= determined(it, expand(v, heap)) | {expand(v, heap)}
        bads, unk = [], []
        check_path(p, k, (n,), heap, D, cmpd, it, bads, unk)
        if bads:
            out.append(k.name)
    return out


def run(p, rep, tier):
    rep.rule('paired', 'a class with value equality is hashable', 20)
    rep.rule('kind', 'objects of another kind are never equal', 20)
    rep.rule('compare', 'equality compares the same part of both objects and yields a truth value', 20)
    rep.rule('complete', 'equality covers every constructor setting', 20)
    rep.rule('hash', 'the hash is a function of what equality compares', 20)
    rep.rule('hash-value', 'hashes are taken of values, not of tensor identities or unhashable objects', 20)
    EQ.clear()
    quiet = type(rep)(rep.pid) if hasattr(rep, 'pid') else None
    for c in p.classes.values():
        f = c.methods.get('__eq__')
        if f is not None and quiet is not None and len(f.params) > 1:
            try:
                one(p, quiet, c, f, c.qualname)
            except Exception:
                pass
    for c in p.classes.values():
        f = c.methods.get('__eq__')
        if f is None or c.module.relpath.startswith(('test', 'examples', 'docs')) or any('abstractmethod' in ast.unparse(d) for d in f.node.decorator_list):
            continue
        if len(f.params) < 2:
            continue
        name = c.qualname[6:]
        hashed = '__hash__' in c.methods or '__hash__' in assigned(c)
        rep.ob('paired', name, hashed, f.loc(), 'defines __eq__ without __hash__: its instances cannot be hashed')
        try:
            one(p, rep, c, f, name)
        except AnalysisError:
            raise
        except Exception as e:
            rep.undecide('compare', name, f.loc(), f'{type(e).__name__}: {e}')


def assigned(c):
    out = set()
    for s in c.node.body:
        if isinstance(s, ast.Assign):
            out |= {t.id for t in s.targets if isinstance(t, ast.Name)}
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            out.add(s.target.id)
    return out


def helper(g, recv):
    return None if g.name.startswith('_') and g.name not in ('_equal', '_hash_element') and not g.name.startswith('__') else False


def strip_dev(t):
    """drop conversions that keep the value"""
    while t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in ('to', 'cpu', 'detach', 'numpy', 'clone', 'type_as', 'double', 'float'):
        t = t.args[0].args[0]
    return t


def paths(t, root):
    """maximal attribute paths of `root` in t (device conversions dropped)"""
    out = set()

    def go(x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                for y in x:
                    go(y)
            return
        if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] in ('to', 'type_as'):
            return go(x.args[0].args[0])
        if x.op == 'bound' and x.args[0] is root:
            out.add((str(x.args[1]).rpartition('.')[2] + '()',))
            return
        if x.op == 'call' and x.args[0].op == 'bound' and x.args[0].args[0] is root:
            out.add((str(x.args[0].args[1]).rpartition('.')[2] + '()',))
            return
        if x.op == 'call' and x.args[0].op == 'attr':
            names, r = chain(x.args[0])
            if r is root and len(names) == 1:
                out.add((names[0] + '()',))
                return
        if x.op == 'call' and callee_name(x.args[0]) == 'getattr' and call_args(x) and call_args(x)[0] is root:
            out.add(('getattr', show(call_args(x)[1])))
            return
        if x.op == 'call' and callee_name(x.args[0]) == 'len' and len(call_args(x)) == 1:
            out.update(q + ('len()',) for q in paths(call_args(x)[0], root))
            return
        if x.op == 'cmp' and x.args[0] in ('is', 'is not') and x.args[2] is NONE:
            out.update(q + ('is None',) for q in paths(x.args[1], root))
            return
        if x.op == 'attr':
            names, r = chain(x)
            if r is root:
                out.add(tuple(names))
                return
            if r.op in ('elem', 'sub'):
                out.update(q + ('[]',) + tuple(names) for q in paths(r, root))
                return
        if x is root:
            out.add(())
            return
        for y in x.args:
            go(y)
    go(t)
    return out


def chain(x):
    names = []
    while x.op == 'attr':
        names.append(x.args[1])
        x = x.args[0]
    return list(reversed(names)), x


META = {'shape', 'device', 'dtype', '__class__', 'ndim'}


def judge(l):
    """classification of a literal that holds: ('cmp', paths) | ('guard',) | ('bad', why) | None"""
    if l.op == 'forall':
        return judge(l.args[1])
    if l.op == 'not':
        x = l.args[0]
        if x.op == 'call' and callee_name(x.args[0]) == 'any' and call_args(x):
            y = call_args(x)[0]
            if y.op == 'cmp' and y.args[0] == '!=':
                return judge(cmp('==', y.args[1], y.args[2]))
        return None
    if l.op == 'or':
        ok, guards, cmps = True, set(), set()
        for x in l.args:
            r = judge(x)
            if x.op == 'cmp' and x.args[0] in ('is', 'is not') and x.args[2] is NONE:
                guards |= paths(x.args[1], SELF) | paths(x.args[1], OTHER)
            elif r and r[0] == 'cmp':
                cmps |= r[1]
            elif r and r[0] == 'bad':
                return r
            else:
                ok = False
        if ok and cmps and cmps <= guards:
            return ('cmp', cmps)
        return ('weak', cmps) if cmps else None
    if l.op == 'and':
        out = set()
        for x in l.args:
            r = judge(x)
            if r and r[0] == 'bad':
                return r
            if r and r[0] == 'cmp':
                out |= r[1]
        return ('cmp', out) if out else None
    if l.op == 'cmp' and l.args[0] in ('==', 'is'):
        a, b = l.args[1], l.args[2]
    elif l.op == 'call' and callee_name(l.args[0]) in EQ_CALLS:
        xs = call_args(l)
        if callee_name(l.args[0]) == 'all':
            x = l.args[0].args[0] if l.args[0].op == 'attr' and not xs else (xs[0] if xs else None)
            return judge(x) if isinstance(x, T) and x.op in ('cmp', 'call', 'comp') else None
        a, b = tup(*[x for x in xs if not paths(x, OTHER)]), tup(*[x for x in xs if paths(x, OTHER)])
        kw = kwargs_of(l) if len(l.args) > 2 and isinstance(l.args[2], tuple) else {}
        ks, ko = [v for v in kw.values() if paths(v, SELF)], [v for v in kw.values() if paths(v, OTHER)]
        a, b = tup(a, *ks), tup(b, *ko)
    else:
        return None
    sa, oa, sb, ob = paths(a, SELF), paths(a, OTHER), paths(b, SELF), paths(b, OTHER)
    sa = {p for p in sa if p and p[-1] not in ('device', 'dtype')}
    sb = {p for p in sb if p and p[-1] not in ('device', 'dtype')}
    if oa and sb and not (sa and ob):
        sa, ob, oa, sb = sb, oa, sa, ob
    if not sa and not ob:
        return None
    if sa and not ob and not oa:
        if sb and sa == sb and strip_dev(a) == strip_dev(b):
            return ('bad', f'compares {fmt(sa)} of self with itself')
        return None
    if ob and not sa and not sb:
        if oa == ob and strip_dev(a) == strip_dev(b):
            return ('bad', f'compares {fmt(ob)} of the other object with itself')
        return None
    if sa == ob:
        return ('cmp', sa)
    if len(sa) == 1 and len(ob) == 1 and all(len(p) == 1 for p in sa | ob):
        return ('bad', f'compares {fmt(sa)} with {fmt(ob)} of the other object')
    return ('weak', sa & ob)


def fmt(ps):
    return ', '.join(sorted('.'.join(p) for p in ps))


def conj(t):
    return list(t.args) if t.op == 'and' else [t]


def one(p, rep, c, f, name):
    it = Interp(p, inline=helper, inline_properties=False)
    on = f.params[1]
    r = it.run(f, c, args={on: OTHER})
    rets = [e for e in r.of('return') if e.func is f]
    if not rets or r.state is None:
        return rep.undecide('compare', name, f.loc(), 'no return')
    alts = []        # literal lists under which the answer is True
    for e in rets:
        for cs, v in cases(e['value']):
            if v is FALSE or v is NONE or show(v) == 'NotImplemented' or (v.op == 'ext' and v.args[0].endswith('NotImplemented')):
                continue
            fs = list(e.facts) + list(cs)
            if not feasible(frozenset(fs)):
                continue
            if v is not TRUE:
                fs += literals(v)
            alts.append((e, fs))
    if not alts:
        return rep.ob('compare', name, False, f.loc(), 'equality never holds')
    # ---- an object equals itself
    def refuted(fs):
        for l in fs:
            x = subst(l, {OTHER: SELF})
            if x is FALSE and l.op == 'cmp' and l.contains(OTHER) and l.contains(SELF):
                return l
            if x.op == 'cmp' and x.args[0] in ('!=', '<', '>', 'is not') and x.args[1] is x.args[2] and l.contains(OTHER) and l.contains(SELF):
                return l
            if x.op == 'not' and x.args[0].op == 'call' and callee_name(x.args[0].args[0]) in ('allclose', 'array_equal', 'equal', 'isclose'):
                a = call_args(x.args[0])
                if len(a) >= 2 and a[0] is a[1] and l.contains(OTHER) and l.contains(SELF):
                    return l
        return None
    ref = [refuted(fs) for _, fs in alts]
    if all(ref):
        rep.ob('compare', name, False, rets[0].loc(), f'requires {show(ref[0])[:90]}: an object does not equal itself')
    # ---- kind
    own = {x.qualname for x in p.mro(c) if x is c}
    for e, fs in alts:
        kinds = [l for l in fs if l.op == 'isinstance' or (l.op == 'call' and callee_name(l.args[0]) == 'isinstance')]
        verdict = None
        for l in kinds:
            a = call_args(l) if l.op == 'call' else list(l.args)
            if a and a[0] is OTHER:
                t = a[1]
                ks = list(t.args) if t.op == 'tuple' else [t]
                if all(k.op == 'class' for k in ks):
                    verdict = all(k.args[0] in own or is_sub(p, k.args[0], c) for k in ks)
                elif any(k.op == 'attr' and k.args[1] == '__class__' for k in ks) or any(callee_name(k.args[0]) == 'type' for k in ks if k.op == 'call'):
                    verdict = True
        if verdict is None and any(typecmp(l) for l in fs):
            verdict = True
        if verdict is None and any('isinstance' in show(l) or 'type(' in show(l) or '__class__' in show(l) for l in fs):
            rep.undecide('kind', name, e.loc(), 'class test not recognised')
        else:
            rep.ob('kind', name, bool(verdict), e.loc(), 'may answer True for an object of another class' if verdict is None else
                   'accepts objects of another class than its own')
        break
    # ---- what is compared on every True path
    compared = None
    weak = set()
    bad = None
    for e, fs in alts:
        here = set()
        for l in fs:
            j = judge(l)
            if j is None:
                continue
            if j[0] == 'bad':
                bad = bad or (e, j[1])
            elif j[0] == 'cmp':
                here |= j[1]
            else:
                weak |= j[1]
            if l.op == 'cmp' and l.args[0] == 'is' and l.args[2] is NONE:
                pass
        # a part known to be None in both needs no further comparison
        for l in fs:
            if l.op == 'cmp' and l.args[0] == 'is' and l.args[2] is NONE:
                here |= {q for q in paths(l.args[1], SELF) if q in none_paired(fs)}
        compared = here if compared is None else compared & here
    EQ[c.qualname] = compared
    # values of the constructor
    heap = ctor_heap(p, c)
    itc, rc = ctor(p, c)
    bufs = tensor_attrs(p, c, heap, rc)
    for e, fs in alts:
        for l in fs:
            x = l
            if x.op == 'cmp' and x.args[0] == '==':
                for q in paths(x.args[1], SELF) | paths(x.args[2], SELF):
                    if len(q) == 1 and q[0] in bufs and (attr(SELF, q[0]) in (x.args[1], x.args[2])):
                        bad = bad or (e, f'{q[0]} may be a tensor: comparing it with == does not give a truth value')
    rep.ob('compare', name, bad is None, (bad[0] if bad else rets[0]).loc(), bad[1] if bad else '')
    # ---- completeness
    init = p.method(c, '__init__')
    dyn = any(isinstance(x, ast.Name) and x.id == 'getattr' for x in ast.walk(f.node))
    if init is not None and heap:
        D, weakD = set(), set()
        for q in compared:
            v = value_of(p, c, q, heap) if len(q) == 1 else None
            if v is None:
                continue
            v = expand(v, heap)
            D |= determined(itc, v)
            weakD |= {x for x in v.subterms() if x.op in ('arg', 'kwargs', 'vararg')}
        inert = set(INERT)
        for k in p.mro(c):
            inert |= INERT_IN.get(k.name, set())
        stored = {}
        for n, v in heap.items():
            if not isinstance(n, str):
                continue
            s = unwrap(v)
            if s.op == 'arg':
                stored.setdefault(s, []).append(n)
        missing = []
        for n in init.params[1:]:
            if n in inert:
                continue
            a = arg(n)
            used = [k for k, v in heap.items() if isinstance(k, str) and a in expand(v, heap).subterms()]
            if not used or a in D:
                continue
            if a in weakD:
                keep = [x for x in stored.get(a, []) if public_state(p, c, x)]
                if not keep or any((x,) in compared for x in keep):
                    continue
            missing.append(n)
        if dyn:
            # families of attributes with computed names
            fam = set()
            for k in p.mro(c):
                if '__init__' in k.methods:
                    fam |= families(k.methods['__init__'].node, ('setattr', 'register_buffer', 'add_module', 'register_module'))
            used = families(f.node, ('getattr',))
            left = sorted(x for x in fam if x not in used)
            calls = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name)
                        and x.func.value.id == 'self' and x.func.attr in c.methods and 'other' in ast.unparse(x) for x in ast.walk(f.node))
            rep.ob('complete', name, (not left) if fam and used and not (left and calls) else None, rets[0].loc(), f'{", ".join(left)}* not compared')
        rep.ob('complete', name, None if missing and dyn else not missing, rets[0].loc(),
               f'objects that differ in {", ".join(missing)} may compare equal (compared: {fmt(compared)})')
    # ---- hash
    h = p.method(c, '__hash__')
    if '__hash__' in assigned(c):
        for s in c.node.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__hash__' for t in s.targets):
                if isinstance(s.value, ast.Attribute) and isinstance(s.value.value, ast.Name):
                    k = next((x for x in p.mro(c) if x.name == s.value.value.id), None)
                    h = k.methods.get('__hash__') if k else None
                else:
                    h = None
    if h is None:
        return
    ith = Interp(p, inline=helper, inline_properties=False)
    rh = ith.run(h, c)
    if retval(rh) is None:
        return rep.undecide('hash', name, h.loc(), 'no value')
    hv = retval(rh)
    D = set()
    for q in compared:
        v = value_of(p, c, q, heap) if len(q) == 1 else None
        if v is not None:
            D |= determined(itc, expand(v, heap)) | {expand(v, heap)}
    bads, unk = [], []
    for s in hv.subterms():
        if s.op == 'call' and (callee_name(s.args[0]) == 'id' and s.args[0].op == 'ext' or callee_name(s.args[0]) == '__hash__'):
            bads.append('the identity of the object')
    for q in paths(hv, SELF):
        if covered(q, compared) or q and q[0] in ('__class__',):
            continue
        if q == ():
            # repr(self), str(self): look through
            g = p.method(c, '__repr__')
            v = None
            if g is not None:
                rg = Interp(p, inline=helper, inline_properties=False).run(g, c)
                v = retval(rg)
            if v is None:
                unk.append('self')
                continue
            qs = paths(v, SELF)
            for k in qs:
                if not covered(k, compared):
                    check_path(p, c, k, heap, D, compared, itc, bads, unk)
            continue
        check_path(p, c, q, heap, D, compared, itc, bads, unk)
    if bads and dyn:
        unk, bads = unk + bads, []
    full = expand(hv if () not in paths(hv, SELF) or p.method(c, '__repr__') is None else T('tuple', hv, retval(Interp(p, inline=helper, inline_properties=False).run(p.method(c, '__repr__'), c)) or NONE), heap)
    for s in full.subterms():
        if s.op == 'attr' and s.args[0] is not SELF and s.args[1] in ('name', 'id', '_keys', 'size', 'order', '_sg_id', 'dimensionality', 'basespace'):
            ty = tyof(itc, s.args[0]) or tyof(ith, s.args[0])
            if isinstance(ty, ClassInfo):
                for k in loose(p, ty, s.args[1]):
                    bads.append(f'{show(s)} (equality of {k} does not compare it)')
    ok = False if bads else (None if unk else True)
    rep.ob('hash', name, ok, h.loc(), f'the hash depends on {", ".join(sorted(bads))}, which equality does not compare' if bads else f'origin of {unk} not resolved')
    # ---- hash by value
    badv = None
    for s in hv.subterms():
        if s.op == 'call' and s.args[0].op == 'ext' and callee_name(s.args[0]) == 'hash' and call_args(s):
            x = call_args(s)[0]
            for y in (x.args if x.op == 'tuple' else [x]):
                if y.op == 'attr' and y.args[0] is SELF and y.args[1] in bufs:
                    badv = f'hashes the tensor {y.args[1]} by identity'
                ty = tyof(ith, y)
                if isinstance(ty, ClassInfo):
                    for k in [ty] + list(p.subclasses(ty.name)):
                        if '__eq__' in k.methods and not ('__hash__' in k.methods or '__hash__' in assigned(k)):
                            badv = badv or f'hashes {show(y)}, but {k.name} defines __eq__ without __hash__'
    rep.ob('hash-value', name, badv is None, h.loc(), badv or '')


def tyof(it, t):
    try:
        return it.typeof(t) if it is not None else None
    except Exception:
        return None


def families(node, names):
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Call):
            n = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, 'id', '')
            if n in names:
                for a in x.args[:2]:
                    if isinstance(a, ast.JoinedStr) and a.values and isinstance(a.values[0], ast.Constant):
                        out.add(a.values[0].value)
                    if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == 'format' and isinstance(a.func.value, ast.Constant):
                        out.add(a.func.value.value.partition('{')[0])
                    if isinstance(a, ast.BinOp) and isinstance(a.left, ast.Constant) and isinstance(a.left.value, str):
                        out.add(a.left.value.partition('%')[0])
    return out


def retval(r):
    vs = [e['value'] for e in r.of('return')]
    if not vs:
        return None
    v = vs[-1]
    for x in reversed(vs[:-1]):
        v = x if x is v else T('tuple', x, v)
    return v


def none_paired(fs):
    out = set()
    for l in fs:
        if l.op == 'cmp' and l.args[0] == '==' and all(x.op == 'cmp' and x.args[0] == 'is' and x.args[2] is NONE for x in l.args[1:]):
            out |= {q[:-1] for q in paths(l, SELF) & paths(l, OTHER)}
        if l.op == 'cmp' and l.args[0] == 'is' and l.args[2] is NONE:
            if any(m.op == 'cmp' and m.args[0] == 'is' and m.args[2] is NONE and paths(m.args[1], OTHER) == paths(l.args[1], SELF) for m in fs):
                out |= paths(l.args[1], SELF)
    return out


def typecmp(l):
    if l.op == 'cmp' and l.args[0] in ('==', 'is'):
        a, b = show(l.args[1]), show(l.args[2])
        return {a, b} in ({'type(self)', 'type(other)'}, {'self.__class__', 'other.__class__'}, {'type(self)', 'other.__class__'}, {'self.__class__', 'type(other)'})
    return False


def is_sub(p, qual, c):
    return any(k.qualname == qual and c in p.mro(k) for k in p.classes.values())


def covered(q, compared):
    return any(q[:len(k)] == k for k in compared) or (q and q[-1].endswith('()') and (q[-1],) in compared)


def unwrap(v):
    while v.op == 'call' and v.args[0].op == 'ext' and callee_name(v.args[0]) in INJ_FN | {'int', 'bool', 'abs'} and len(call_args(v)) == 1:
        v = call_args(v)[0]
    return v


def value_of(p, c, q, heap):
    """value the constructor gives to the first component of the path (through simple properties)"""
    if not q:
        return None
    n = q[0]
    if n in heap:
        return heap[n]
    if n.endswith('()'):
        n = n[:-2]
    m = p.method(c, n)
    if m is not None:
        r = Interp(p, inline=helper, inline_properties=False).run(m, c)
        return retval(r)
    return attr(SELF, n)


def expand(v, heap):
    for _ in range(4):
        m = {s: heap[s.args[1]] for s in v.subterms() if s.op == 'attr' and s.args[0] is SELF and isinstance(s.args[1], str) and s.args[1] in heap and heap[s.args[1]] is not s}
        if not m:
            return v
        w = subst(v, m)
        if w is v:
            return v
        v = w
    return v


def public_state(p, c, n):
    """the attribute is read by some method other than the constructor"""
    for k in p.mro(c):
        for m in k.methods.values():
            if m.name in ('__init__', '__repr__', '__str__'):
                continue
            for x in ast.walk(m.node):
                if isinstance(x, ast.Attribute) and x.attr == n:
                    return True
    return not n.startswith('_')


def tensor_attrs(p, c, heap, rc):
    out = set()
    if rc is None:
        return out
    for e in rc.of('register'):
        if e['base'] is SELF and 'buffer' in e['how'] and is_const(e['name']):
            out.add(e['name'].args[1])
    for n, v in heap.items():
        if isinstance(n, str):
            for _, l in leaves(v):
                if l.op == 'call' and l.args[0].op == 'ext' and l.args[0].args[0] in ('torch.tensor', 'torch.zeros', 'torch.ones', 'torch.as_tensor', 'torch.from_numpy', 'torch.empty'):
                    out.add(n)
    return out


def check_path(p, c, q, heap, D, compared, itc, bads, unk):
    v = value_of(p, c, q, heap)
    if v is None:
        unk.append('.'.join(q))
        return
    v = expand(v, heap)
    inert = set(INERT)
    for k in p.mro(c):
        inert |= INERT_IN.get(k.name, set())
    # parts of self that the value is made of must be compared as well
    for k in paths(v, SELF):
        if k and k != q and not covered(k, compared) and k[0] not in heap:
            w = value_of(p, c, k, heap)
            if w is None or w == attr(SELF, k[0]):
                unk.append('.'.join(q))
                return
    v2 = drop(v, {attr(SELF, *k) for k in compared if k and not k[-1].endswith('()') and k[0] != 'getattr'})
    rs = [x for x in residual(v2, D, False) if x.op in ('arg', 'kwargs', 'vararg')]
    if rs:
        bads.append('.'.join(q) + ' (from ' + ', '.join(show(x) for x in rs) + ')')


def drop(v, ts):
    return subst(v, {t: const(0) for t in ts if t in v.subterms()})
