"""Program model: modules, imports, classes, method resolution order.

Everything is read from the source tree given to Project(root); nothing of the
analysed package is imported or executed.
"""
import ast
import os
import warnings


class AnalysisError(Exception):
    """The analysis itself cannot proceed (source tree unreadable, ...)."""


class FuncInfo:
    def __init__(self, module, node, cls=None, parent=None):
        self.module, self.node, self.cls, self.parent = module, node, cls, parent
        self.name = getattr(node, 'name', '<lambda>')
        owner = (cls.qualname if cls else (parent.qualname if parent else module.name))
        self.qualname = owner + '.' + self.name
        self.decorators = []
        for d in getattr(node, 'decorator_list', []):
            try:
                self.decorators.append(ast.unparse(d))
            except Exception:
                self.decorators.append('?')
        a = node.args
        self.posonly = [x.arg for x in a.posonlyargs]
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.annotations = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs if x.annotation}
        self.defaults = {}
        pos = a.posonlyargs + a.args
        for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            self.defaults[x.arg] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[x.arg] = d

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators

    @property
    def is_property(self):
        return any(d == 'property' or d.endswith('cached_property') for d in self.decorators)

    @property
    def is_abstract(self):
        return any(d.endswith('abstractmethod') for d in self.decorators)

    @property
    def is_generator(self):
        for n in walk_same_scope(self.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
        return False

    def loc(self):
        return f'{self.module.relpath}:{self.node.lineno}'

    def __repr__(self):
        return f'<F {self.qualname}>'


def walk_same_scope(fn):
    """walk the body of a function without entering nested functions / classes"""
    todo = list(fn.body) if not isinstance(fn, ast.Lambda) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


class ClassInfo:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.qualname = module.name + '.' + node.name
        self.methods, self.attrs = {}, {}
        self.setters = {}
        for s in flat_body(node.body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(module, s, cls=self)
                if any(d.endswith('.setter') for d in f.decorators):
                    self.setters[s.name] = f
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.attrs[s.target.id] = s.value
        # method aliases, e.g. __rmul__ = __mul__
        for n, v in list(self.attrs.items()):
            if isinstance(v, ast.Name) and v.id in self.methods:
                self.methods[n] = self.methods[v.id]
        self._mro = None
        self.external_bases = []

    def loc(self):
        return f'{self.module.relpath}:{self.node.lineno}'

    def __repr__(self):
        return f'<C {self.qualname}>'


def flat_body(stmts):
    """statements of a module/class body, descending into if/try/with"""
    for s in stmts:
        yield s
        if isinstance(s, ast.If):
            yield from flat_body(s.body)
            yield from flat_body(s.orelse)
        elif isinstance(s, ast.Try):
            yield from flat_body(s.body)
            for h in s.handlers:
                yield from flat_body(h.body)
            yield from flat_body(s.orelse)
            yield from flat_body(s.finalbody)
        elif isinstance(s, ast.With):
            yield from flat_body(s.body)


class ModuleInfo:
    def __init__(self, project, name, path, is_pkg):
        self.project, self.name, self.path, self.is_pkg = project, name, path, is_pkg
        self.relpath = os.path.relpath(path, project.repo)
        with open(path, encoding='utf-8') as f:
            self.source = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(self.source, filename=path)
        self.bind = {}      # name -> ('class',C) | ('func',F) | ('import',dotted) | ('expr',node) | ('from',mod,name)
        self.stars = []
        self.all = None
        pkg = name if is_pkg else name.rpartition('.')[0]
        for s in flat_body(self.tree.body):
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.bind[a.asname] = ('import', a.name)
                    else:
                        top = a.name.split('.')[0]
                        self.bind.setdefault(top, ('import', top))
            elif isinstance(s, ast.ImportFrom):
                if s.level:
                    base = pkg.split('.')
                    base = base[:len(base) - (s.level - 1)]
                    mod = '.'.join(base + ([s.module] if s.module else []))
                else:
                    mod = s.module
                for a in s.names:
                    if a.name == '*':
                        self.stars.append(mod)
                    else:
                        self.bind[a.asname or a.name] = ('from', mod, a.name)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.bind[s.name] = ('func', FuncInfo(self, s))
            elif isinstance(s, ast.ClassDef):
                self.bind[s.name] = ('class', ClassInfo(self, s))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        if t.id == '__all__':
                            try:
                                self.all = [ast.literal_eval(e) for e in s.value.elts]
                            except Exception:
                                pass
                        self.bind.setdefault(t.id, ('expr', s.value)) if t.id in self.bind and self.bind[t.id][0] in ('from', 'import') else self.bind.__setitem__(t.id, ('expr', s.value))
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.bind[s.target.id] = ('expr', s.value)

    def functions(self):
        for k, v in self.bind.items():
            if v[0] == 'func':
                yield v[1]

    def classes(self):
        for k, v in self.bind.items():
            if v[0] == 'class':
                yield v[1]


class Project:
    def __init__(self, repo, package='escnn'):
        self.repo, self.package = repo, package
        self.modules = {}
        root = os.path.join(repo, package)
        if not os.path.isdir(root):
            raise AnalysisError(f'no package {package} in {repo}')
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for fn in sorted(files):
                if not fn.endswith('.py'):
                    continue
                p = os.path.join(d, fn)
                rel = os.path.relpath(p, repo)[:-3].split(os.sep)
                is_pkg = rel[-1] == '__init__'
                if is_pkg:
                    rel = rel[:-1]
                name = '.'.join(rel)
                self.modules[name] = ModuleInfo(self, name, p, is_pkg)
        self._res = {}
        self.classes = {}
        for m in self.modules.values():
            for c in m.classes():
                self.classes[c.qualname] = c
        self._sub = None

    # -- name resolution ---------------------------------------------------
    def resolve(self, module, name, seen=()):
        """-> ('class',C) ('func',F) ('module',dotted) ('ext',dotted) ('expr',module,node) or None"""
        key = (module.name, name)
        if key in seen:
            return None
        b = module.bind.get(name)
        if b is None:
            for st in module.stars:
                m = self.modules.get(st)
                if m is not None:
                    if m.all is not None and name not in m.all:
                        continue
                    if name.startswith('_') and m.all is None:
                        continue
                    r = self.resolve(m, name, seen + (key,))
                    if r:
                        return r
            sub = module.name + '.' + name
            if module.is_pkg and sub in self.modules:
                return ('module', sub)
            return None
        if b[0] in ('class', 'func'):
            return b
        if b[0] == 'import':
            return ('module', b[1]) if b[1].split('.')[0] == self.package else ('ext', b[1])
        if b[0] == 'from':
            _, mod, n = b
            if mod in self.modules:
                r = self.resolve(self.modules[mod], n, seen + (key,))
                if r:
                    return r
                if mod + '.' + n in self.modules:
                    return ('module', mod + '.' + n)
                return None
            if mod and mod.split('.')[0] == self.package and mod + '.' + n in self.modules:
                return ('module', mod + '.' + n)
            return ('ext', f'{mod}.{n}')
        if b[0] == 'expr':
            return ('expr', module, b[1], name)

    def resolve_in(self, ent, name):
        """attribute `name` of an entity"""
        if ent[0] == 'module':
            m = self.modules.get(ent[1])
            if m is None:
                return ('ext', ent[1] + '.' + name)
            r = self.resolve(m, name)
            if r:
                return r
            if ent[1] + '.' + name in self.modules:
                return ('module', ent[1] + '.' + name)
            return None
        if ent[0] == 'ext':
            return ('ext', ent[1] + '.' + name)
        return None

    def resolve_expr(self, module, node):
        """resolve a Name / dotted Attribute expression (also string annotations)"""
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                node = ast.parse(node.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(node, ast.Name):
            return self.resolve(module, node.id)
        if isinstance(node, ast.Attribute):
            e = self.resolve_expr(module, node.value)
            return self.resolve_in(e, node.attr) if e else None
        return None

    # -- classes -----------------------------------------------------------
    def bases(self, c):
        out = []
        c.external_bases = []
        for b in c.node.bases:
            e = self.resolve_expr(c.module, b)
            if e and e[0] == 'class':
                out.append(e[1])
            else:
                try:
                    c.external_bases.append(e[1] if e and e[0] == 'ext' else ast.unparse(b))
                except Exception:
                    c.external_bases.append('?')
        return out

    def mro(self, c):
        if c._mro is None:
            c._mro = [c]  # cycle guard
            seqs = [list(self.mro(b)) for b in self.bases(c)] + [list(self.bases(c))]
            res = [c]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                res.append(h)
                for s in seqs:
                    if s[0] is h:
                        del s[0]
            c._mro = res
        return c._mro

    def all_external_bases(self, c):
        out = []
        for k in self.mro(c):
            self.bases(k)
            out += k.external_bases
        return out

    def method(self, c, name, after=None):
        mro = self.mro(c)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for k in mro:
            if name in k.methods:
                return k.methods[name]
        return None

    def class_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs and name not in k.methods:
                return k, k.attrs[name]
        return None

    def is_subclass(self, c, name):
        """name: simple or qualified class name"""
        return any(k.name == name or k.qualname == name for k in self.mro(c))

    def subclasses(self, name):
        return [c for c in self.classes.values() if c.name != name and self.is_subclass(c, name)]

    def cls(self, name):
        for c in self.classes.values():
            if c.qualname == name:
                return c
        hits = [c for c in self.classes.values() if c.name == name]
        return hits[0] if hits else None

    def abstract_methods(self, c):
        out = set()
        seen = set()
        for k in self.mro(c):
            for n, f in k.methods.items():
                if n in seen:
                    continue
                seen.add(n)
                if f.is_abstract:
                    out.add(n)
            for n in k.attrs:
                seen.add(n)
        return out

    def all_functions(self):
        for m in self.modules.values():
            for f in m.functions():
                yield f
            for c in m.classes():
                for f in set(c.methods.values()):
                    if f.cls is c:
                        yield f
