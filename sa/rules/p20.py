"""P20: names, attributes, methods and argument lists that the code uses exist."""

import ast
import builtins
import glob
import importlib
import os
import sys

from .. import pta
from ..pymodel import Class, Func, Module, program

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__class__', '__path__', '__package__', '__spec__', 'WindowsError'}


def local_names(node):
    """names bound in a function scope (not in nested scopes), names declared global"""
    out, glob = set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            out.add(x.arg)
    for n in scope_nodes(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add(al.asname or al.name.split('.')[0])
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
    return out, glob


def scope_nodes(node):
    """nodes of the scope of a function: nested functions and lambdas are not entered (their names are)"""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo += n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d]
            continue
        if isinstance(n, ast.Lambda):
            todo += n.args.defaults + [d for d in n.args.kw_defaults if d]
            continue
        if isinstance(n, ast.ClassDef):
            todo += n.bases
            continue
        todo += list(ast.iter_child_nodes(n))


def comp_bound(n):
    """names bound by the comprehensions around nothing else: handled by collecting every comprehension target in scope"""
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.comprehension):
            for t in ast.walk(x.target):
                if isinstance(t, ast.Name):
                    out.add(t.id)
    return out


class Scopes:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep

    def function(self, node, module, qual, outer):
        loc, glob = local_names(node)
        names = outer | loc
        for n in scope_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.function(n, module, qual + '.' + n.name, names)
            elif isinstance(n, ast.Lambda):
                self.function(n, module, qual + '.<lambda>', names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.name(n, names, module, qual)

    def name(self, n, names, module, qual):
        ok = n.id in names or n.id in BUILTINS or self.prog.resolve_name(module, n.id) is not None
        if not ok and any(s not in self.prog.modules and s not in ('ctypes', 'math') for s in module.stars):
            return
        self.rep.check(ok, 'name', '%s:%s' % (qual, n.id), '%s:%d' % (module.rel, n.lineno), 'the name %s is not defined in %s' % (n.id, qual))


class Flow:
    """names that may be read before they are bound, on a path that takes every loop at least once"""

    def __init__(self, node, names):
        self.names = names
        self.hits = {}

    def use(self, e, have):
        if e is None or have is None:
            return
        bound = comp_bound(e)
        st = [e]
        while st:
            n = st.pop()
            if isinstance(n, (ast.Lambda, ast.FunctionDef)):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.names and n.id not in have and n.id not in bound:
                self.hits.setdefault(n.id, n)
            st += list(ast.iter_child_nodes(n))
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                have.add(n.target.id)

    def bind(self, t, have):
        if have is None:
            return
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                have.add(n.id)
            elif isinstance(n, (ast.Attribute, ast.Subscript)):
                self.use(n.value, have)

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a & b

    def block(self, body, have, brk=None):
        for s in body:
            if have is None:
                return None
            have = self.stmt(s, have, brk)
        return have

    def stmt(self, s, have, brk):
        if isinstance(s, ast.Assign):
            self.use(s.value, have)
            for t in s.targets:
                self.bind(t, have)
        elif isinstance(s, ast.AugAssign):
            self.use(s.value, have)
            self.use(ast.Name(id=s.target.id, ctx=ast.Load(), lineno=s.lineno, col_offset=0) if isinstance(s.target, ast.Name) else s.target, have)
            self.bind(s.target, have)
        elif isinstance(s, ast.AnnAssign):
            self.use(s.value, have)
            if s.value is not None:
                self.bind(s.target, have)
        elif isinstance(s, ast.If):
            self.use(s.test, have)
            a = self.block(s.body, set(have), brk)
            b = self.block(s.orelse, set(have), brk)
            return self.join(a, b)
        elif isinstance(s, (ast.For, ast.While)):
            self.use(s.iter if isinstance(s, ast.For) else s.test, have)
            inner = set(have)
            if isinstance(s, ast.For):
                self.bind(s.target, inner)
            outs = []
            end = self.block(s.body, inner, outs)
            const = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            res = None if const else end
            if s.orelse:
                res = self.block(s.orelse, set(res) if res is not None else set(have), brk)
            elif res is None and not const:
                res = set(have)         # every iteration leaves: only the empty loop goes on
            for o in outs:
                if o[0] == 'break':
                    res = self.join(res, o[1])
            if res is not None:
                # a name that the loop binds under a condition (the search for a best candidate) counts as bound by it
                for n in [x for b in s.body for x in scope_nodes(ast.Module(body=[b], type_ignores=[]))]:
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        res.add(n.id)
            return res
        elif isinstance(s, (ast.Break, ast.Continue)):
            if brk is not None:
                brk.append(('break' if isinstance(s, ast.Break) else 'continue', set(have)))
            return None
        elif isinstance(s, ast.Return):
            self.use(s.value, have)
            return None
        elif isinstance(s, ast.Raise):
            self.use(s.exc, have)
            return None
        elif isinstance(s, ast.Try):
            start = set(have)
            a = self.block(s.body, set(have), brk)
            if a is not None:
                a = self.block(s.orelse, a, brk)
            for h in s.handlers:
                b = set(start)
                if h.name:
                    b.add(h.name)
                b = self.block(h.body, b, brk)
                a = self.join(a, b) if b is not None else a
            if s.finalbody:
                fin = self.block(s.finalbody, set(a) if a is not None else start, brk)
                return fin if a is not None else None
            return a
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, have)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, have)
            return self.block(s.body, have, brk)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            have.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for al in s.names:
                have.add(al.asname or al.name.split('.')[0])
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    have.discard(t.id)
                else:
                    self.use(t, have)
        elif isinstance(s, ast.Expr):
            self.use(s.value, have)
        elif isinstance(s, ast.Assert):
            self.use(s.test, have)
        return have


def stored_by_class(c, nm):
    for k in c.mro() + c.subs:
        for f in list(k.methods.values()) + list(k.setters.values()):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and k.mangle(n.attr) == nm:
                    return True
    return False


def stub_dirs():
    """folders of installed packages that ship type stubs (read, not imported)"""
    return sorted(glob.glob('/opt/venv/lib/python3*/site-packages') + glob.glob('/usr/lib/python3/dist-packages') + glob.glob('/usr/local/lib/python3*/*-packages'))


class External:
    """names that modules outside the package offer: stubs for NumPy, the syntax trees of the standard library"""

    def __init__(self):
        self.cache = {}

    def file(self, mod):
        rel = mod.replace('.', '/')
        import sysconfig
        roots = [sysconfig.get_paths()['stdlib']] if mod.split('.')[0] in sys.stdlib_module_names else stub_dirs() if mod.split('.')[0] == 'numpy' else []
        for r in roots:
            for c in (rel + '/__init__.pyi', rel + '.pyi', rel + '/__init__.py', rel + '.py'):
                if os.path.isfile(os.path.join(r, c)):
                    return os.path.join(r, c)
        return None

    def names(self, mod):
        """set of names or None when the module is not known"""
        if mod in self.cache:
            return self.cache[mod]
        self.cache[mod] = None
        if mod in sys.builtin_module_names or mod in ('math', 'time', 'itertools', '_random'):
            self.cache[mod] = set(dir(importlib.import_module(mod)))
            return self.cache[mod]
        p = self.file(mod)
        if p is None:
            return None
        try:
            tree = ast.parse(open(p, encoding='utf-8').read())
        except SyntaxError:
            return None
        out = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(n.name)
            elif isinstance(n, ast.Assign):
                for x in n.targets:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name):
                            out.add(y.id)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                out.add(n.target.id)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    out.add(a.asname or a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                if any(a.name == '*' for a in n.names):
                    src = n.module or ''
                    if n.level:
                        base = mod if p.endswith(('__init__.py', '__init__.pyi')) else mod.rpartition('.')[0]
                        src = base + ('.' + src if src else '')
                    more = self.names(src) if src != mod else set()
                    if more is None:
                        return None
                    out |= more
                for a in n.names:
                    if p.endswith('.pyi') and a.asname is None and n.level == 0 and not (n.module or '').startswith('numpy'):
                        continue
                    out.add(a.asname or a.name)
        if p.endswith(('__init__.py', '__init__.pyi')):
            for x in os.listdir(os.path.dirname(p)):
                out.add(x.split('.')[0])
        if '__getattr__' in out and not p.endswith('.pyi') and not mod.startswith('numpy'):
            return None
        self.cache[mod] = out
        return out


def external(rep, prog):
    ext = External()
    for m in prog.modules.values():
        al = {}
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Import):
                for a in s.names:
                    al[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(s, ast.ImportFrom) and not s.level and s.module and not s.module.startswith('pyclustering'):
                names = ext.names(s.module)
                for a in s.names:
                    if a.name == '*':
                        continue
                    if names is not None:
                        rep.check(a.name in names, 'external', '%s:%s.%s' % (m.name, s.module, a.name), '%s:%d' % (m.rel, s.lineno), 'the installed %s has no %s' % (s.module, a.name))
                    if ext.names(s.module + '.' + a.name) is not None:
                        al[a.asname or a.name] = s.module + '.' + a.name
        local = {}
        for f in ast.walk(m.tree):
            if isinstance(f, (ast.FunctionDef, ast.Lambda)):
                loc = local_names(f)[0] if isinstance(f, ast.FunctionDef) else {x.arg for x in f.args.args}
                for n in ast.walk(f):
                    local.setdefault(id(n), set()).update(loc)

        def chain(e):
            if isinstance(e, ast.Name):
                return al.get(e.id) if e.id not in local.get(id(e), ()) or e.id in imported(m, e.id) else None
            if isinstance(e, ast.Attribute):
                b = chain(e.value)
                return b + '.' + e.attr if b and ext.names(b + '.' + e.attr) is not None else None
            return None
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                b = chain(n.value)
                names = ext.names(b) if b else None
                if names:
                    rep.check(n.attr in names or n.attr.startswith('__'), 'external', '%s:%s.%s' % (m.name, b, n.attr), '%s:%d' % (m.rel, n.lineno), 'the installed %s has no %s' % (b, n.attr))


def imported(m, name):
    """the name when some function of the module imports it locally"""
    for s in ast.walk(m.tree):
        if isinstance(s, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name.split('.')[0]) == name for a in s.names):
            return (name,)
    return ()


def run(rep, tier):
    prog = program()
    rep.rule('external', 'a name read from NumPy or the standard library exists in the installed version')
    external(rep, prog)
    rep.rule('name', 'every name that a function reads is a local, an enclosing, a module-level or a built-in name')
    rep.rule('import', 'every name imported from a module of the package exists there')
    rep.rule('bound', 'a local variable is bound on every path that reaches its use (loops taken at least once)')
    rep.rule('attribute', 'an attribute or method read from an object of a class of the package is defined by that class')
    rep.rule('arguments', 'a call of a function of the package gives every required parameter once and no unknown one')
    rep.assumptions += ['Objects made outside the package (numpy, matplotlib, PIL) are not checked.',
                        'An attribute that a method of the class assigns counts as defined; the order of method calls is not considered here.']
    sc = Scopes(prog, rep)
    for m in prog.modules.values():
        rep.count('modules')
        for c in prog.all_classes(m):
            for n in c.base_exprs:
                for x in ast.walk(n):
                    if isinstance(x, ast.Name):
                        sc.name(x, set(), m, m.name)
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ImportFrom):
                src = s.module or ''
                if s.level or src not in prog.modules:
                    if src.startswith('pyclustering') and src not in prog.modules:
                        rep.bad('import', '%s:%s' % (m.name, src), '%s:%d' % (m.rel, s.lineno), 'there is no module %s' % src)
                    continue
                for a in s.names:
                    if a.name == '*':
                        continue
                    ok = prog.resolve_name(prog.modules[src], a.name) is not None
                    rep.check(ok, 'import', '%s:%s.%s' % (m.name, src, a.name), '%s:%d' % (m.rel, s.lineno), '%s has no %s' % (src, a.name))
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.name.startswith('pyclustering'):
                        rep.check(a.name in prog.modules, 'import', '%s:%s' % (m.name, a.name), '%s:%d' % (m.rel, s.lineno), 'there is no module %s' % a.name)
    for f in prog.functions():
        rep.count('functions')
        sc.function(f.node, f.module, f.qual, set())
        for d in f.node.args.defaults + [x for x in f.node.args.kw_defaults if x]:
            for x in ast.walk(d):
                if isinstance(x, ast.Name):
                    sc.name(x, set(f.cls.attrs) | set(f.cls.methods) if f.cls else set(), f.module, f.qual)
        loc, glob = local_names(f.node)
        args = {x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs} | {x.arg for x in (f.node.args.vararg, f.node.args.kwarg) if x}
        comp = comp_bound(f.node)
        fl = Flow(f.node, loc - glob - args - comp)
        fl.block(f.node.body, set(args))
        for nm in sorted(fl.names):
            n = fl.hits.get(nm)
            rep.check(n is None, 'bound', '%s:%s' % (f.qual, nm), f.where(n) if n is not None else f.where(), 'the local variable %s may be read before it is bound' % nm)
    # attributes and arguments from the points-to results
    res = pta.results(prog)
    stores = {k for _, _, p in res for k in p.attr_stores}
    sites, arity = {}, {}
    for _, _, p in res:
        for i, (e, fn, nm, classes) in p.attr_sites.items():
            if fn is not None:
                sites.setdefault((fn.qual, e.lineno, e.col_offset), [e, fn, nm, set()])[3].update(classes)
        for (c, nm), v in p.missing_attrs.items():
            if isinstance(c, (Class, Module)):
                for fn, e in v:
                    if fn is not None and not (isinstance(c, Class) and any(s[2] == nm and c in s[3] for s in [sites.get((fn.qual, e.lineno, e.col_offset), [0, 0, 0, ()])])):
                        # class or module object: reported directly
                        rep.check(isinstance(c, Class) and stored_by_class(c, nm), 'attribute', '%s:%s.%s' % (fn.qual, c.name, nm), fn.where(e), '%s has no attribute %s' % (c.name, nm))
        for k, v in p.arity.items():
            old = arity.get(k)
            if old is None or (old[0] and not v[0]):
                arity[k] = v
    rep.count('attribute sites', len(sites))
    for (q, ln, col), (e, fn, nm, classes) in sorted(sites.items(), key=lambda kv: kv[0]):
        have = {c for c in classes if c.find(nm) or c.find_attr(nm) or c.ext_base() or (c.qual, nm) in stores or any((k.qual, nm) in stores for k in c.mro()) or stored_by_class(c, nm)
                or (nm.startswith('__') and nm.endswith('__'))}
        key = '%s:%s' % (q, nm)
        if have:
            rep.ok('attribute', key, fn.where(e))
        else:
            rep.bad('attribute', key, fn.where(e), 'no attribute %s in %s' % (nm, ', '.join(sorted(c.name for c in classes))))
    for (a, b), (ok, (fn, node), msg) in sorted(arity.items()):
        rep.check(ok, 'arguments', '%s -> %s' % (a, b), fn.where(node), msg or '')
    rep.floor('name', 3000)
    rep.floor('attribute', 1500)
    rep.floor('arguments', 800)
