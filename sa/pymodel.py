"""Program model of the Python package: modules, classes, functions, name resolution."""

import ast
import os
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')


class Func:
    __slots__ = ('node', 'module', 'cls', 'name', 'qual', 'static', 'classm', 'prop', 'params', 'parent', 'is_lambda', 'file')

    def __init__(self, node, module, cls, parent=None):
        self.node, self.module, self.cls, self.parent = node, module, cls, parent
        self.is_lambda = isinstance(node, ast.Lambda)
        self.name = '<lambda>' if self.is_lambda else node.name
        owner = cls.qual if cls else module.name
        self.qual = '%s.%s' % (parent.qual if parent else owner, self.name)
        self.file = module.rel
        deco = set()
        if not self.is_lambda:
            for d in node.decorator_list:
                deco.add(ast.unparse(d))
        self.static = 'staticmethod' in deco
        self.classm = 'classmethod' in deco
        self.prop = None
        if 'property' in deco:
            self.prop = 'get'
        for d in deco:
            if d.endswith('.setter'):
                self.prop = 'set'
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]

    @property
    def line(self):
        return self.node.lineno

    @property
    def body(self):
        return [ast.Return(value=self.node.body, lineno=self.node.lineno, col_offset=0)] if self.is_lambda else self.node.body

    def default(self, name):
        a = self.node.args
        pos = a.posonlyargs + a.args
        off = len(pos) - len(a.defaults)
        for i, x in enumerate(pos):
            if x.arg == name:
                return a.defaults[i - off] if i >= off else None
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == name:
                return d
        return None

    def __repr__(self):
        return 'Func(%s)' % self.qual

    def where(self, node=None):
        return '%s:%d' % (self.file, getattr(node, 'lineno', None) or self.line)


class Class:
    __slots__ = ('node', 'module', 'name', 'qual', 'base_exprs', 'bases', 'methods', 'setters', 'attrs', 'nested', 'subs')

    def __init__(self, node, module, outer=None):
        self.node, self.module, self.name = node, module, node.name
        self.qual = (outer.qual if outer else module.name) + '.' + node.name
        self.base_exprs = node.bases
        self.bases = []
        self.methods, self.setters, self.attrs, self.nested = {}, {}, {}, {}
        self.subs = []

    def mangle(self, name):
        if name.startswith('__') and not name.endswith('__'):
            return '_' + self.name.lstrip('_') + name
        return name

    def mro(self):
        out, seen = [], set()

        def go(c):
            if id(c) in seen:
                return
            seen.add(id(c))
            out.append(c)
            for b in c.bases:
                if isinstance(b, Class):
                    go(b)
        go(self)
        return out

    def find(self, mname):
        """method looked up by mangled name through the MRO"""
        for c in self.mro():
            if mname in c.methods:
                return c.methods[mname]
        return None

    def find_setter(self, mname):
        for c in self.mro():
            if mname in c.setters:
                return c.setters[mname]
        return None

    def find_attr(self, mname):
        for c in self.mro():
            if mname in c.attrs:
                return c.attrs[mname], c
        return None

    def ext_base(self):
        return [b for c in self.mro() for b in c.bases if not isinstance(b, Class)]

    def is_sub(self, other):
        return other in self.mro()

    def __repr__(self):
        return 'Class(%s)' % self.qual


class Module:
    def __init__(self, name, path, rel, src):
        self.name, self.path, self.rel, self.src = name, path, rel, src
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(src, path)
        self.functions, self.classes, self.imports, self.globals, self.stars = {}, {}, {}, {}, []
        self.lines = src.split('\n')

    def __repr__(self):
        return 'Module(%s)' % self.name


class Program:
    def __init__(self, repo=REPO, package='pyclustering'):
        self.repo = repo
        self.modules = {}
        base = os.path.join(repo, package)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ('tests', 'examples', '__pycache__'))
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, repo)
                parts = rel[:-3].split(os.sep)
                if parts[-1] == '__init__':
                    parts = parts[:-1]
                with open(path, encoding='utf-8', errors='replace') as h:
                    src = h.read()
                name = '.'.join(parts)
                self.modules[name] = Module(name, path, rel, src)
        for m in self.modules.values():
            self._index(m)
        for m in self.modules.values():
            for c in list(self.all_classes(m)):
                for b in c.base_exprs:
                    c.bases.append(self._resolve_base(m, b))
        for c in self.classes():
            for b in c.bases:
                if isinstance(b, Class):
                    b.subs.append(c)
        self._funcs = None

    def _index(self, m):
        def stmts(body):
            for s in body:
                if isinstance(s, (ast.If, ast.Try)):
                    yield from stmts(s.body)
                    yield from stmts(s.orelse)
                    if isinstance(s, ast.Try):
                        for h in s.handlers:
                            yield from stmts(h.body)
                        yield from stmts(s.finalbody)
                elif isinstance(s, ast.With):
                    yield from stmts(s.body)
                else:
                    yield s

        for s in stmts(m.tree.body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.functions[s.name] = Func(s, m, None)
            elif isinstance(s, ast.ClassDef):
                m.classes[s.name] = self._index_class(s, m, None)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.imports[a.asname] = ('mod', a.name)
                    else:
                        m.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                src = s.module or ''
                if s.level:
                    parts = m.name.split('.')
                    is_pkg = m.path.endswith('__init__.py')
                    up = s.level - (1 if is_pkg else 0)
                    parts = parts[:len(parts) - up] if up else parts
                    src = '.'.join(parts + ([src] if src else []))
                for a in s.names:
                    if a.name == '*':
                        m.stars.append(src)
                    else:
                        m.imports[a.asname or a.name] = ('obj', src, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            m.globals[n.id] = s.value
            elif isinstance(s, (ast.AnnAssign, ast.AugAssign)) and isinstance(s.target, ast.Name):
                m.globals[s.target.id] = s.value

    def _index_class(self, node, m, outer):
        c = Class(node, m, outer)
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(s, m, c)
                key = c.mangle(s.name)
                if f.prop == 'set':
                    c.setters[key] = f
                else:
                    c.methods[key] = f
            elif isinstance(s, ast.ClassDef):
                c.nested[s.name] = self._index_class(s, m, c)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[c.mangle(t.id)] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.attrs[c.mangle(s.target.id)] = s.value
        return c

    def all_classes(self, m):
        def go(c):
            yield c
            for n in c.nested.values():
                yield from go(n)
        for c in m.classes.values():
            yield from go(c)

    def classes(self):
        for m in self.modules.values():
            yield from self.all_classes(m)

    def functions(self):
        """every function and method, not nested ones"""
        for m in self.modules.values():
            yield from m.functions.values()
            for c in self.all_classes(m):
                yield from c.methods.values()
                yield from c.setters.values()

    def _resolve_base(self, m, e):
        r = self.resolve_expr(m, e)
        if isinstance(r, Class):
            return r
        return r if isinstance(r, str) else ast.unparse(e)

    def resolve_name(self, m, name, _seen=None):
        """module-level name -> Func | Class | Module | ('global', module, name) | 'ext.dotted' | None"""
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return None
        _seen.add((m.name, name))
        if name in m.functions:
            return m.functions[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.globals:
            return ('global', m, name)
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == 'mod':
                return self.modules.get(imp[1], imp[1])
            src, obj = imp[1], imp[2]
            if src in self.modules:
                r = self.resolve_name(self.modules[src], obj, _seen)
                if r is not None:
                    return r
                sub = src + '.' + obj
                if sub in self.modules:
                    return self.modules[sub]
                return None
            if src + '.' + obj in self.modules:
                return self.modules[src + '.' + obj]
            return src + '.' + obj
        for src in m.stars:
            if src in self.modules:
                r = self.resolve_name(self.modules[src], name, _seen)
                if r is not None:
                    return r
        for src in m.stars:
            if src not in self.modules and src in STAR and name in STAR[src]:
                return src + '.' + name
        if (m.name + '.' + name) in self.modules:
            return self.modules[m.name + '.' + name]
        return None

    def resolve_expr(self, m, e):
        """static resolution of dotted expressions at module scope"""
        if isinstance(e, ast.Name):
            return self.resolve_name(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, Module):
                return self.resolve_name(b, e.attr)
            if isinstance(b, str):
                return b + '.' + e.attr
            if isinstance(b, Class):
                k = e.attr
                if k in b.nested:
                    return b.nested[k]
                f = b.find(b.mangle(k)) or b.find(k)
                if f:
                    return f
                a = b.find_attr(k)
                if a:
                    return ('clsattr', b, k)
        return None

    def cls(self, dotted):
        """class by 'module.Class' suffix"""
        hits = [c for c in self.classes() if c.qual == dotted or c.qual.endswith('.' + dotted)]
        return hits[0] if hits else None

    def func(self, dotted):
        hits = [f for f in self.functions() if f.qual == dotted or f.qual.endswith('.' + dotted)]
        return hits[0] if hits else None


def _star_names(mod):
    import importlib
    try:
        x = importlib.import_module(mod)
        return set(getattr(x, '__all__', [n for n in dir(x) if not n.startswith('_')]))
    except Exception:
        return set()


STAR = {'ctypes': _star_names('ctypes'), 'math': _star_names('math')}

_cached = None


def program():
    global _cached
    if _cached is None:
        _cached = Program()
    return _cached
