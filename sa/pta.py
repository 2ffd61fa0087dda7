"""Inclusion-based points-to analysis of the Python package.

Objects are allocation sites (with one level of receiver or call-site context), the parameters of public entry
points ("roots", one object per nesting depth), functions, classes and results of native calls.  Locals are
flow-sensitive (phi nodes over the structured control flow), attributes and container elements flow-insensitive.
The result gives resolved calls, aliases and the list of mutations with the objects they reach."""

import ast

from .pymodel import Class, Func, Module, program

MAXROOT = 3

MUT_METHODS = {'append': 1, 'extend': 1, 'insert': 1, 'add': 1, 'update': 1, 'pop': 1, 'remove': 1, 'sort': 1, 'reverse': 1, 'clear': 1,
               'discard': 1, 'setdefault': 1, 'popitem': 1, 'fill': 1, 'put': 1, 'itemset': 1, 'resize': 1, 'partition': 1, 'appendleft': 1, 'popleft': 1,
               'difference_update': 1, 'intersection_update': 1, 'symmetric_difference_update': 1, 'setflags': 1, '__setitem__': 1, '__delitem__': 1, 'setfield': 1, 'byteswap': 0}
MUT_EXT = {'random.shuffle': 0, 'numpy.random.shuffle': 0, 'numpy.fill_diagonal': 0, 'numpy.put': 0, 'numpy.place': 0, 'numpy.copyto': 0, 'numpy.putmask': 0,
           'heapq.heappush': 0, 'heapq.heappop': 0, 'heapq.heapify': 0, 'heapq.heapreplace': 0, 'heapq.heappushpop': 0, 'bisect.insort': 0, 'bisect.insort_left': 0, 'bisect.insort_right': 0,
           'numpy.ndarray.sort': 0, 'numpy.ndarray.fill': 0, 'operator.setitem': 0, 'operator.iadd': 0, 'operator.delitem': 0, 'list.append': 0, 'list.sort': 0, 'list.extend': 0}
ALIAS_EXT = {'numpy.asarray', 'numpy.asanyarray', 'numpy.asmatrix', 'numpy.mat', 'numpy.ravel', 'numpy.reshape', 'numpy.transpose', 'numpy.squeeze', 'numpy.atleast_2d',
             'numpy.atleast_1d', 'numpy.ascontiguousarray', 'numpy.expand_dims', 'numpy.swapaxes', 'numpy.broadcast_to', 'numpy.flip', 'numpy.split', 'numpy.array_split', 'numpy.frombuffer'}
VIEW_METHODS = {'reshape', 'ravel', 'transpose', 'squeeze', 'view', 'swapaxes', 'diagonal'}
INERT = {'builtins.' + x for x in ('len', 'isinstance', 'print', 'abs', 'int', 'float', 'str', 'bool', 'range', 'hash', 'id', 'repr', 'hasattr', 'callable', 'round', 'ord', 'chr', 'type', 'issubclass', 'any', 'all', 'format')}


class Node:
    __slots__ = ('pts', 'succ', 'hand', 'name')

    def __init__(self, name=None):
        self.pts, self.succ, self.hand, self.name = set(), set(), [], name


def kind(o):
    return o[0]


class Frame:
    __slots__ = ('func', 'ctx', 'ret', 'self_obj', 'closure')

    def __init__(self, func, ctx, ret, closure=None):
        self.func, self.ctx, self.ret, self.closure = func, ctx, ret, closure


class PTA:
    def __init__(self, prog=None, modules=None):
        self.prog = prog or program()
        self.fields = {}
        self.work = []
        self.frames = {}
        self.globals = {}
        self.mutations = {}     # (obj, func.qual, kind, what) -> node
        self.calls = {}         # (id(call node)) -> set of callee ('func', Func) / ext names
        self.evidence = set()
        self.unresolved = {}
        self.native_calls = {}  # (symbol, func.qual, lineno) -> [arg nodes]
        self.exprs = {}         # id(ast node) -> list of Node
        self.missing_attrs = {}  # (class qual, attr) -> set of (func, line)
        self.arity = {}          # (caller qual, callee qual) -> [ok, (func, node), message]
        self.attr_loads = set()
        self.attr_sites = {}     # id(node) -> (node, func, name, classes of the receiver)
        self.attr_stores = {}   # (class qual, attr) -> set of (func, node)
        self.seen_mod = set()
        self.n_edges = 0
        self.fedges = {}         # frame -> frames it calls
        self.fmut = {}           # frame -> {(object, what): node}
        self.entry_frames = {}   # entry name -> frame

    # ---- graph ----
    def node(self, name=None):
        return Node(name)

    def add(self, n, o):
        if o not in n.pts:
            n.pts.add(o)
            self.work.append((n, o))

    def edge(self, a, b):
        if a is b or b in a.succ:
            return
        a.succ.add(b)
        self.n_edges += 1
        for o in list(a.pts):
            self.add(b, o)

    def on(self, n, fn):
        n.hand.append(fn)
        for o in list(n.pts):
            fn(o)

    def solve(self):
        while self.work:
            n, o = self.work.pop()
            for s in list(n.succ):
                self.add(s, o)
            for h in list(n.hand):
                h(o)

    def field(self, o, f):
        k = (o, f)
        n = self.fields.get(k)
        if n is None:
            n = self.fields[k] = Node(k)
            if o[0] == 'root':
                if f == '[]':
                    self.add(n, ('root', o[1], min(o[2] + 1, MAXROOT)))
                elif f.startswith('k:'):
                    self.add(n, ('root', o[1] + ':' + f[2:], 0))
                elif f != 'all':
                    self.add(n, ('root', o[1] + '.' + f, 0)) if o[1].count('.') < 6 else None
                if f == 'all':
                    self.edge(self.field(o, '[]'), n)
        return n

    # ---- element access ----
    def _native_elem(self, o, dst):
        """containers rebuilt from a native package share nothing: every read site gets its own element object"""
        if o[0] != 'list' or len(o[1]) < 4 or not isinstance(o[1][3], tuple) or o[1][3][0] != 'native result':
            return
        lvl = o[1][3][1]
        if lvl < 3:
            self.add(dst, ('list', (o[1][0], o[1][1], o[1][2], ('native result', lvl + 1, id(dst)), None)))

    def load_elem(self, src, dst, key=None):
        """dst gets elements of the objects of src"""
        def h(o):
            k = o[0]
            self._native_elem(o, dst)
            if k == 'root':
                self.evidence.add(o)
            if k in ('nd',):
                self.add(dst, o)
                self.edge(self.field(o, '[]'), dst)
                return
            if k == 'inst':
                m = o[1].find('__getitem__') or o[1].find('__iter__')
                if m:
                    self.invoke(('bound', o, m), [self.node()], {}, dst, None, None, via=('elem', o))
                return
            if k in ('list', 'dict', 'set', 'tuple', 'root', 'gen'):
                if key is not None:
                    self.edge(self.field(o, 'k:' + key), dst)
                    if k == 'root' and not o[1].endswith('**kwargs'):
                        self.edge(self.field(o, '[]'), dst)
                    elif k != 'root':
                        self.edge(self.field(o, '[]'), dst)
                else:
                    self.edge(self.field(o, '[]'), dst)
                    if k != 'root':
                        self.edge(self.field(o, 'all'), dst)
        self.on(src, h)

    def load_pos(self, src, i, dst):
        def h(o):
            k = o[0]
            self._native_elem(o, dst)
            if k == 'tuple' and (o, '#n') in self.fields_n:
                self.edge(self.field(o, '#%d' % i), dst)
            elif k == 'root':
                self.evidence.add(o)
                self.edge(self.field(o, '[]'), dst)
            elif k == 'nd':
                self.add(dst, o)
            elif k in ('list', 'gen', 'tuple', 'dict', 'set'):
                self.edge(self.field(o, '[]'), dst)
                self.edge(self.field(o, 'all'), dst)
        self.on(src, h)

    fields_n = set()

    def store_elem(self, o, val, key=None):
        if key is not None:
            self.edge(val, self.field(o, 'k:' + key))
            self.edge(val, self.field(o, 'all'))
        else:
            self.edge(val, self.field(o, '[]'))

    def mutate(self, o, fr, node, what):
        if o[0] in ('list', 'dict', 'set', 'tuple', 'nd', 'root', 'inst', 'gen', 'native'):
            self.mutations.setdefault((o, fr.func.qual, what), (fr.func, node))
            self.fmut.setdefault(fr, {}).setdefault((o, what), node)

    # ---- entry points ----
    def entry_instance(self, cls):
        o = ('inst', cls, ('entry', cls.qual))
        init = cls.find('__init__')
        tmp = self.node()
        if init and not cls.ext_base():
            self.invoke_roots(('bound', o, init), cls.qual, tmp)
        elif init:
            self.invoke_roots(('bound', o, init), cls.qual, tmp)
        return o

    def entry_method(self, o, m):
        self.invoke_roots(('bound', o, m), '%s.%s' % (o[1].qual, m.name), self.node())

    def invoke_roots(self, callee, name, dst):
        f = callee[2] if callee[0] == 'bound' else callee[1]
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        if callee[0] == 'bound' and params and not f.static:
            params = params[1:]
        args = []
        for p in params:
            n = self.node()
            self.add(n, ('root', '%s(%s)' % (name, p), 0))
            args.append(n)
        kwargs = {}
        for x in a.kwonlyargs:
            n = self.node()
            self.add(n, ('root', '%s(%s)' % (name, x.arg), 0))
            kwargs[x.arg] = n
        if a.kwarg:
            n = self.node()
            self.add(n, ('root', '%s(**kwargs)' % name, 0))
            kwargs['**'] = n
        if a.vararg:
            n = self.node()
            self.add(n, ('root', '%s(*%s)' % (name, a.vararg.arg), 0))
            kwargs['*'] = n
        self.invoke(callee, args, kwargs, dst, None, None, via=('entry', name))

    # ---- calls ----
    def invoke(self, callee, args, kwargs, dst, fr, node, via=None):
        k = callee[0]
        if k == 'bound' and callee[2].name == 'extract' and callee[2].cls is not None and callee[2].cls.name == 'package_extractor' and node is not None:
            self.add(dst, self.alloc('list', node, fr, ('native result', 0)))
            return
        if k == 'bound':
            f, slf = callee[2], callee[1]
            ctx = ('o', slf if slf[0] != 'inst' else ('inst', slf[1].qual, slf[2] if len(str(slf[2])) < 300 else 0))
            pos = [self._const(slf)] + list(args)
        elif k == 'func':
            f = callee[1]
            site = (fr.func.file, node.lineno, node.col_offset) if fr and node is not None and hasattr(node, 'lineno') else via
            ctx = ('c', site)
            pos = list(args)
            if callee[2:] and callee[2] is not None:
                ctx = ('k', callee[2][0].func.qual, site)
        else:
            return
        frame = self.frame(f, ctx, callee[2] if k == 'func' and len(callee) > 2 else None)
        if node is not None:
            self.calls.setdefault(id(node), (node, fr, set()))[2].add(('func', f))
        if fr is not None:
            self.fedges.setdefault(fr, {}).setdefault(frame[0], []).append(node)
        elif via and via[0] == 'entry':
            self.entry_frames[(via[1], id(f.node))] = frame[0]
        env = frame[1]
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        if isinstance(node, ast.Call) and fr is not None and not (k == 'bound' and callee[1][0] == 'root'):
            self._arity(f, a, params, pos, kwargs, fr, node, 1 if k == 'bound' else 0)
        for i, p in enumerate(params):
            if i < len(pos):
                self.edge(pos[i], env[p])
            elif p in kwargs:
                self.edge(kwargs[p], env[p])
            elif '**' in kwargs:
                self.load_elem(kwargs['**'], env[p], p)
            if '*' in kwargs and i >= len(pos):
                self.load_elem(kwargs['*'], env[p])
        if a.vararg:
            o = ('tuple', (f.qual, 'vararg', ctx))
            for x in pos[len(params):]:
                self.edge(x, self.field(o, '[]'))
            if '*' in kwargs:
                self.load_elem(kwargs['*'], self.field(o, '[]'))
                if via and via[0] == 'entry':
                    self.edge(kwargs['*'], env[a.vararg.arg])
            self.add(env[a.vararg.arg], o)
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                self.edge(kwargs[x.arg], env[x.arg])
        if a.kwarg:
            if '**' in kwargs:
                self.edge(kwargs['**'], env[a.kwarg.arg])
            o = ('dict', (f.qual, 'kwargs', ctx))
            for kk, v in kwargs.items():
                if kk not in params and not kk.startswith('*'):
                    self.store_elem(o, v, kk)
            self.add(env[a.kwarg.arg], o)
        self.edge(frame[0].ret, dst)

    def _arity(self, f, a, params, pos, kwargs, fr, node, off):
        if len(pos) - off != len(node.args) or '*' in kwargs or '**' in kwargs:
            return          # a callback of a builtin, or a star argument
        msg = None
        if len(pos) > len(params) and not a.vararg:
            msg = '%s takes %d argument(s), %d are given' % (f.qual, len(params) - off, len(pos) - off)
        names = set(params) | {x.arg for x in a.kwonlyargs}
        for kk in kwargs:
            if kk not in names and not a.kwarg:
                msg = '%s has no parameter %s' % (f.qual, kk)
            elif kk in params[:len(pos)]:
                msg = '%s gets %s twice' % (f.qual, kk)
        need = params[:len(params) - len(a.defaults)] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        for i, p in enumerate(need):
            if (p not in params or i >= len(pos)) and p not in kwargs:
                msg = '%s is not given its argument %s' % (f.qual, p)
        key = (fr.func.qual, f.qual)
        old = self.arity.get(key)
        if old is None or (old[0] and msg):
            self.arity[key] = [msg is None, (fr.func, node), msg]

    def _const(self, o):
        n = self.node()
        self.add(n, o)
        return n

    def frame(self, f, ctx, closure=None):
        key = (id(f.node), ctx)
        fr = self.frames.get(key)
        if fr is not None:
            return fr
        if sum(1 for k in self.frames if k[0] == id(f.node)) > 60:
            key = (id(f.node), None)
            fr = self.frames.get(key)
            if fr is not None:
                return fr
            ctx = None
        frame = Frame(f, ctx, self.node(('ret', f.qual)), closure)
        env = {}
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            env[x.arg] = self.node(('param', f.qual, x.arg))
        for x in (a.vararg, a.kwarg):
            if x:
                env[x.arg] = self.node(('param', f.qual, x.arg))
        fr = self.frames[key] = (frame, dict(env))
        dflt = a.defaults
        names = [x.arg for x in a.posonlyargs + a.args]
        menv = self.module_env(f.module)
        mfr = self._mod_frame(f.module)
        for n, d in zip(names[len(names) - len(dflt):], dflt):
            self.edge(self.expr(d, menv, mfr), env[n])
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.edge(self.expr(d, menv, mfr), env[x.arg])
        local = dict(env)
        Body(self, frame).run(f.body, local)
        return fr

    # ---- modules ----
    def _mod_frame(self, m):
        fake = ast.parse('def f(): pass').body[0]
        fn = Func(fake, m, None)
        fn.qual = m.name + '.<module>'
        return Frame(fn, None, self.node())

    def module_env(self, m):
        return {}

    def global_node(self, m, name):
        k = (m.name, name)
        n = self.globals.get(k)
        if n is None:
            n = self.globals[k] = self.node(k)
            e = m.globals.get(name)
            if e is not None:
                self.edge(self.expr(e, {}, self._mod_frame(m)), n)
        return n

    def name_node(self, m, name, fr):
        r = self.prog.resolve_name(m, name)
        return self.static(r, name)

    def static(self, r, name=None):
        if isinstance(r, Func):
            return self._const(('func', r, None))
        if isinstance(r, Class):
            return self._const(('class', r))
        if isinstance(r, Module):
            return self._const(('module', r.name))
        if isinstance(r, str):
            return self._const(('ext', r))
        if isinstance(r, tuple) and r[0] == 'global':
            return self.global_node(r[1], r[2])
        if name is not None:
            return self._const(('ext', 'builtins.' + name))
        return self.node()

    # ---- expressions ----
    def expr(self, e, env, fr):
        n = getattr(self, 'e_' + type(e).__name__, self.e_default)(e, env, fr)
        self.exprs.setdefault(id(e), []).append(n)
        return n

    def e_default(self, e, env, fr):
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, env, fr)
        return self.node()

    def e_Constant(self, e, env, fr):
        n = self.node()
        if isinstance(e.value, str):
            self.add(n, ('str', e.value[:60]))
        elif isinstance(e.value, (int, float)) or e.value is None:
            pass
        return n

    def e_Name(self, e, env, fr):
        if e.id in env:
            return env[e.id]
        c = fr.closure
        while c is not None:
            if e.id in c[1]:
                return c[1][e.id]
            c = c[0].closure
        return self.name_node(fr.func.module, e.id, fr)

    def mangle(self, name, fr):
        f = fr.func
        while f is not None and f.cls is None:
            f = f.parent
        return f.cls.mangle(name) if f is not None else name

    def e_Attribute(self, e, env, fr):
        key = self._selfkey(e, fr, env)
        if key and key in env:
            self.expr(e.value, env, fr)
            return env[key]
        base = self.expr(e.value, env, fr)
        out = self.node(('attr', e.attr))
        nm = self.mangle(e.attr, fr)
        self.on(base, lambda o: self.getattr(o, nm, e.attr, out, fr, e))
        return out

    def _selfkey(self, e, fr, env):
        if isinstance(e.value, ast.Name) and fr.func.cls is not None and fr.func.params and e.value.id == fr.func.params[0] and not fr.func.static and fr.func.parent is None:
            return e.value.id + '.' + self.mangle(e.attr, fr)
        if isinstance(e.value, ast.Name) and e.value.id in env:
            return e.value.id + '.' + self.mangle(e.attr, fr)
        return None

    def getattr(self, o, nm, raw, out, fr, e):
        k = o[0]
        if k == 'inst':
            c = o[1]
            m = c.find(nm)
            if m:
                self.attr_sites.setdefault(id(e), (e, fr.func if fr else None, nm, set()))[3].add(c)
                if m.prop == 'get':
                    self.invoke(('bound', o, m), [], {}, out, fr, e)
                elif m.static:
                    self.add(out, ('func', m, None))
                elif m.classm:
                    self.add(out, ('bound', ('class', c), m))
                else:
                    self.add(out, ('bound', o, m))
                return
            self.edge(self.field(o, nm), out)
            a = c.find_attr(nm)
            self.attr_loads.add((c.qual, nm))
            self.attr_sites.setdefault(id(e), (e, fr.func if fr else None, nm, set()))[3].add(c)
            if not a and not c.ext_base() and not (nm.startswith('__') and nm.endswith('__')):
                self.missing_attrs.setdefault((c, nm), set()).add((fr.func, e) if fr else (None, None))
            if a:
                self.edge(self.clsattr(a[1], nm), out)
            if not a and c.ext_base():
                self.add(out, ('bext', o, raw))
        elif k == 'class':
            c = o[1]
            m = c.find(nm)
            if m:
                self.add(out, ('bound', o, m) if m.classm else ('func', m, None))
                return
            a = c.find_attr(nm)
            if a:
                self.edge(self.clsattr(a[1], nm), out)
            elif nm in c.nested:
                self.add(out, ('class', c.nested[nm]))
            else:
                if not c.ext_base() and not (nm.startswith('__') and nm.endswith('__')):
                    self.missing_attrs.setdefault((c, nm), set()).add((fr.func, e) if fr else (None, None))
                self.edge(self.clsattr(c, nm), out)
        elif k == 'module':
            m = self.prog.modules[o[1]]
            r = self.prog.resolve_name(m, raw)
            if r is not None:
                self.edge(self.static(r), out)
            elif not (raw.startswith('__') and raw.endswith('__')):
                self.missing_attrs.setdefault((m, raw), set()).add((fr.func, e) if fr else (None, None))
        elif k == 'ext':
            self.add(out, ('ext', o[1] + '.' + raw))
        elif k == 'lib':
            self.add(out, ('sym', raw))
        elif k == 'super':
            for c in o[2].mro()[1:]:
                if nm in c.methods:
                    self.add(out, ('bound', o[1], c.methods[nm]))
                    break
        elif k == 'root':
            hits = self.by_method(raw)
            if raw in MUT_METHODS or raw in CONTAINER_METHODS:
                self.add(out, ('bext', o, raw))
            elif hits:
                for m in hits:
                    self.add(out, ('bound', o, m))
            else:
                if raw in ('T', 'flat'):
                    self.add(out, o)
                else:
                    self.edge(self.field(o, nm), out)
                    self.add(out, ('bext', o, raw))
        elif k in ('list', 'dict', 'set', 'tuple', 'nd', 'gen', 'str', 'opq', 'native'):
            if raw in ('T', 'flat') and k == 'nd':
                self.add(out, o)
            self.add(out, ('bext', o, raw))
            if k == 'native':
                self.edge(self.field(o, nm), out)

    _bym = None

    def by_method(self, name):
        if self._bym is None:
            self._bym = {}
            for c in self.prog.classes():
                for f in c.methods.values():
                    if not f.static and not f.name.startswith('__'):
                        self._bym.setdefault(f.name, []).append(f)
        h = self._bym.get(name, [])
        return h if len(h) <= 2 else []

    def clsattr(self, c, nm):
        k = (('class', c), nm)
        n = self.fields.get(k)
        if n is None:
            n = self.fields[k] = self.node(k)
            if nm in c.attrs:
                self.edge(self.expr(c.attrs[nm], {}, self._mod_frame(c.module)), n)
        return n

    def alloc(self, kindname, e, fr, extra=None):
        return (kindname, (fr.func.qual, getattr(e, 'lineno', 0), getattr(e, 'col_offset', 0), extra, _short(fr.ctx)))

    def e_List(self, e, env, fr):
        return self._container('list', e, env, fr)

    def e_Set(self, e, env, fr):
        return self._container('set', e, env, fr)

    def _container(self, k, e, env, fr):
        o = self.alloc(k, e, fr)
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.load_elem(self.expr(x.value, env, fr), self.field(o, '[]'))
            else:
                self.edge(self.expr(x, env, fr), self.field(o, '[]'))
        return self._const(o)

    def e_Tuple(self, e, env, fr):
        o = self.alloc('tuple', e, fr)
        self.fields_n.add((o, '#n'))
        for i, x in enumerate(e.elts):
            if isinstance(x, ast.Starred):
                self.load_elem(self.expr(x.value, env, fr), self.field(o, '[]'))
                continue
            v = self.expr(x, env, fr)
            self.edge(v, self.field(o, '#%d' % i))
            self.edge(v, self.field(o, '[]'))
        return self._const(o)

    def e_Dict(self, e, env, fr):
        o = self.alloc('dict', e, fr)
        for k, v in zip(e.keys, e.values):
            vn = self.expr(v, env, fr)
            if k is None:
                self.load_elem(vn, self.field(o, '[]'))
                continue
            self.expr(k, env, fr)
            self.store_elem(o, vn, k.value if isinstance(k, ast.Constant) and isinstance(k.value, str) else None)
        return self._const(o)

    def _comp(self, kindname, e, elts, env, fr):
        env = dict(env)
        for g in e.generators:
            it = self.expr(g.iter, env, fr)
            el = self.node()
            self.iterate(it, el)
            Body(self, fr).assign(g.target, el, env)
            for c in g.ifs:
                self.expr(c, env, fr)
        o = self.alloc(kindname, e, fr)
        for x in elts:
            self.edge(self.expr(x, env, fr), self.field(o, '[]'))
        return self._const(o)

    def iterate(self, src, dst):
        self.load_elem(src, dst)

    def e_ListComp(self, e, env, fr):
        return self._comp('list', e, [e.elt], env, fr)

    def e_SetComp(self, e, env, fr):
        return self._comp('set', e, [e.elt], env, fr)

    def e_GeneratorExp(self, e, env, fr):
        return self._comp('gen', e, [e.elt], env, fr)

    def e_DictComp(self, e, env, fr):
        return self._comp('dict', e, [e.value], env, fr)

    def e_BoolOp(self, e, env, fr):
        n = self.node()
        for v in e.values:
            self.edge(self.expr(v, env, fr), n)
        return n

    def e_IfExp(self, e, env, fr):
        self.expr(e.test, env, fr)
        n = self.node()
        self.edge(self.expr(e.body, env, fr), n)
        self.edge(self.expr(e.orelse, env, fr), n)
        return n

    def e_NamedExpr(self, e, env, fr):
        n = self.expr(e.value, env, fr)
        env[e.target.id] = n
        return n

    OPS = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Div: '__truediv__'}

    def e_BinOp(self, e, env, fr):
        a, b = self.expr(e.left, env, fr), self.expr(e.right, env, fr)
        out = self.node()
        o = self.alloc('nd', e, fr)
        ol = self.alloc('list', e, fr)
        opn = self.OPS.get(type(e.op))

        def h(x):
            if x[0] == 'inst':
                m = x[1].find(opn) if opn else None
                if m:
                    self.invoke(('bound', x, m), [b], {}, out, fr, e)
            elif x[0] in ('list', 'tuple', 'root', 'gen'):
                if isinstance(e.op, ast.Add) or isinstance(e.op, ast.Mult) and x[0] != 'root':
                    self.add(out, ol)
                    self.edge(self.field(x, '[]'), self.field(ol, '[]'))
                if x[0] == 'root':
                    self.add(out, o)
            elif x[0] in ('nd', 'set'):
                self.add(out, o)
            elif x[0] == 'str':
                self.add(out, ('str', ''))
        self.on(a, h)

        def hb(x):
            if x[0] in ('list', 'tuple') and isinstance(e.op, (ast.Add, ast.Mult)) or x[0] == 'root' and isinstance(e.op, ast.Add):
                self.add(out, ol)
                self.edge(self.field(x, '[]'), self.field(ol, '[]'))
            if x[0] in ('nd', 'root'):
                self.add(out, o)
        self.on(b, hb)
        return out

    def e_UnaryOp(self, e, env, fr):
        self.expr(e.operand, env, fr)
        return self.node()

    def e_Compare(self, e, env, fr):
        for x in [e.left] + e.comparators:
            self.expr(x, env, fr)
        return self.node()

    def e_JoinedStr(self, e, env, fr):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.expr(v.value, env, fr)
        return self._const(('str', ''))

    def e_Subscript(self, e, env, fr):
        base = self.expr(e.value, env, fr)
        out = self.node()
        s = e.slice
        if isinstance(s, ast.Slice) or (isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts)):
            for c in ast.walk(s):
                if isinstance(c, (ast.Name, ast.Call, ast.Attribute)) and isinstance(getattr(c, 'ctx', ast.Load()), ast.Load):
                    pass
            for x in ([s.lower, s.upper, s.step] if isinstance(s, ast.Slice) else s.elts):
                if x is not None and not isinstance(x, ast.Slice):
                    self.expr(x, env, fr)
            fresh = self.alloc('list', e, fr, 'slice')

            def h(o):
                if o[0] in ('root', 'nd'):
                    self.add(out, o)
                    if o[0] == 'root':
                        self.evidence.add(o)
                if o[0] in ('list', 'tuple', 'root', 'gen'):
                    self.add(out, fresh)
                    self.edge(self.field(o, '[]'), self.field(fresh, '[]'))
                if o[0] == 'str':
                    self.add(out, o)
            self.on(base, h)
            return out
        idx = self.expr(s, env, fr)
        if isinstance(s, ast.Constant) and isinstance(s.value, str):
            self.load_elem(base, out, s.value)
        elif isinstance(s, ast.Constant) and isinstance(s.value, int) and s.value >= 0:
            self.load_pos(base, s.value, out)
            self.on(base, lambda o: self._inst_item(o, idx, out, fr, e))
        else:
            self.on(base, lambda o: self._inst_item(o, idx, out, fr, e))
            self.load_elem_nb(base, out)
        return out

    def load_elem_nb(self, base, out):
        def h(o):
            if o[0] == 'inst':
                return
            self._native_elem(o, out)
            if o[0] == 'root':
                self.evidence.add(o)
            if o[0] == 'nd':
                self.add(out, o)
                self.edge(self.field(o, '[]'), out)
            elif o[0] in ('list', 'dict', 'set', 'tuple', 'root', 'gen'):
                self.edge(self.field(o, '[]'), out)
                if o[0] != 'root':
                    self.edge(self.field(o, 'all'), out)
        self.on(base, h)

    def _inst_item(self, o, idx, out, fr, e):
        if o[0] == 'inst':
            m = o[1].find('__getitem__')
            if m:
                self.invoke(('bound', o, m), [idx], {}, out, fr, e)
        elif o[0] == 'native':
            self.add(out, o)

    def e_Lambda(self, e, env, fr):
        f = self._lambda(e, fr)
        return self._const(('func', f, (fr, dict(env))) if False else ('func', f, self._clo(fr, env, e)))

    _lams = {}

    def _lambda(self, e, fr):
        f = self._lams.get(id(e))
        if f is None:
            f = Func(e, fr.func.module, None, fr.func)
            self._lams[id(e)] = f
        return f

    class Clo(tuple):
        __slots__ = ()

        def __hash__(self):
            return id(self[0])

        def __eq__(self, other):
            return isinstance(other, PTA.Clo) and self[0] is other[0]

        def __ne__(self, other):
            return not self == other

    def _clo(self, fr, env, e):
        return PTA.Clo((fr, env))

    def e_Starred(self, e, env, fr):
        return self.expr(e.value, env, fr)

    def e_Yield(self, e, env, fr):
        if e.value is not None:
            o = ('gen', (fr.func.qual, 'yield', _short(fr.ctx)))
            self.edge(self.expr(e.value, env, fr), self.field(o, '[]'))
            self.add(fr.ret, o)
        return self.node()

    def e_Call(self, e, env, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in env:
            out = self.node()
            f = fr.func
            while f.parent is not None:
                f = f.parent
            if f.cls is not None and f.params and f.params[0] in env:
                self.on(env[f.params[0]], lambda o: self.add(out, ('super', o, f.cls)))
            return out
        callee = self.expr(e.func, env, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                kwargs['*'] = self.expr(a.value, env, fr)
            else:
                args.append(self.expr(a, env, fr))
        for k in e.keywords:
            v = self.expr(k.value, env, fr)
            kwargs[k.arg if k.arg is not None else '**'] = v
        dotted = [k for k in env if '.' in k]
        if dotted:
            gone = self.rebinds(e, fr)
            for k in dotted:
                if k.partition('.')[2] in gone:
                    del env[k]
        out = self.node(('call', getattr(e, 'lineno', 0)))
        self.on(callee, lambda o: self.apply(o, args, kwargs, out, fr, e))
        return out

    def rebinds(self, e, fr):
        """names of attributes that a call may rebind, by the names of the functions it can reach"""
        name = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else None
        if name is None:
            return set()
        if name == '__init__' or name == 'super':
            return self._closure('__init__') | self._direct().get('__init__', (set(), set(), set()))[2]
        r = self.prog.resolve_name(fr.func.module, name) if isinstance(e.func, ast.Name) else None
        if isinstance(r, Class):
            return self._closure('__init__')
        return self._closure(name)

    _dir = None

    def _direct(self):
        if PTA._dir is None or PTA._dir[0] is not self.prog:
            d = {}
            for f in self.prog.functions():
                st, calls, own = d.setdefault(f.name, (set(), set(), set()))
                slf = f.params[0] if f.cls is not None and f.params and not f.static else None
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        nm = f.cls.mangle(x.attr) if f.cls else x.attr
                        if f.name == '__init__' and isinstance(x.value, ast.Name) and x.value.id == slf:
                            own.add(nm)
                        else:
                            st.add(nm)
                    elif isinstance(x, ast.Call):
                        if isinstance(x.func, ast.Attribute):
                            calls.add(x.func.attr)
                        elif isinstance(x.func, ast.Name):
                            r = self.prog.resolve_name(f.module, x.func.id)
                            calls.add('__init__' if isinstance(r, Class) else x.func.id)
            PTA._dir = (self.prog, d, {})
        return PTA._dir[1]

    def _closure(self, name):
        d = self._direct()
        cache = PTA._dir[2]
        if name in cache:
            return cache[name]
        seen, work, out = {name}, [name], set()
        while work:
            n = work.pop()
            if n not in d:
                continue
            out |= d[n][0]
            for c in d[n][1]:
                if c not in seen:
                    seen.add(c)
                    work.append(c)
        cache[name] = out
        return out

    def apply(self, o, args, kwargs, out, fr, e):
        k = o[0]
        if k == 'func':
            self.invoke(o, args, kwargs, out, fr, e)
        elif k == 'bound':
            self.invoke(o, args, kwargs, out, fr, e)
        elif k == 'class':
            c = o[1]
            inst = ('inst', c, (fr.func.qual, e.lineno, e.col_offset, _short(fr.ctx)))
            self.add(out, inst)
            init = c.find('__init__')
            self.calls.setdefault(id(e), (e, fr, set()))[2].add(('class', c))
            if init:
                self.invoke(('bound', inst, init), args, kwargs, self.node(), fr, e)
        elif k == 'inst':
            m = o[1].find('__call__')
            if m:
                self.invoke(('bound', o, m), args, kwargs, out, fr, e)
        elif k == 'ext':
            self.calls.setdefault(id(e), (e, fr, set()))[2].add(('ext', o[1]))
            self.ext_call(o[1], args, kwargs, out, fr, e)
        elif k == 'bext':
            self.calls.setdefault(id(e), (e, fr, set()))[2].add(('bext', o[2]))
            self.builtin_method(o[1], o[2], args, kwargs, out, fr, e)
        elif k == 'sym':
            self.native_calls[(o[1], fr.func.qual, e.lineno, e.col_offset)] = (args, out, fr, e)
            self.add(out, ('native', o[1], (fr.func.qual, e.lineno)))
        elif k == 'root':
            self.add(out, ('root', o[1] + '()', 0)) if o[1].count('()') < 3 else None

    def ext_call(self, name, args, kwargs, out, fr, e):
        short = name.split('.')[-1]
        if name in INERT:
            if name == 'builtins.len' or name == 'builtins.abs':
                for a in args:
                    self.on(a, lambda o: self.evidence.add(o) if o[0] == 'root' and name == 'builtins.len' else None)
            if name == 'builtins.type' and args:
                self.on(args[0], lambda o: self.add(out, ('class', o[1])) if o[0] == 'inst' else None)
            if name == 'builtins.range':
                self.add(out, self.alloc('gen', e, fr))
            if name in ('builtins.str', 'builtins.repr', 'builtins.format'):
                self.add(out, ('str', ''))
            return
        if name in MUT_EXT and len(args) > MUT_EXT[name]:
            self.on(args[MUT_EXT[name]], lambda o: self.mutate(o, fr, e, name))
            if name in ('heapq.heappush', 'bisect.insort', 'bisect.insort_left', 'bisect.insort_right') and len(args) > 1:
                self.on(args[0], lambda o: self.store_elem(o, args[1]) if o[0] in ('list', 'root') else None)
            if name == 'heapq.heappop':
                self.load_elem(args[0], out)
            return
        if 'out' in kwargs and name.startswith('numpy'):
            self.on(kwargs['out'], lambda o: self.mutate(o, fr, e, 'out='))
            self.edge(kwargs['out'], out)
        if name in ('builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.sorted', 'builtins.reversed', 'builtins.frozenset', 'builtins.iter', 'collections.deque'):
            kd = {'tuple': 'tuple', 'set': 'set', 'frozenset': 'set'}.get(short, 'list')
            o = self.alloc(kd, e, fr)
            if args:
                self.load_elem(args[0], self.field(o, '[]'))
            if 'key' in kwargs and args:
                el = self.node()
                self.load_elem(args[0], el)
                self.on(kwargs['key'], lambda c: self.apply(c, [el], {}, self.node(), fr, e))
            self.add(out, o)
            return
        if name == 'builtins.dict':
            o = self.alloc('dict', e, fr)
            if args:
                self.on(args[0], lambda x: (self.edge(self.field(x, '[]'), self.field(o, '[]')), self.edge(self.field(x, 'all'), self.field(o, '[]'))) if x[0] in ('dict', 'root', 'list') else None)
            for kk, v in kwargs.items():
                if not kk.startswith('*'):
                    self.store_elem(o, v, kk)
            self.add(out, o)
            return
        if name == 'builtins.enumerate' or name == 'builtins.zip':
            g = self.alloc('gen', e, fr)
            t = self.alloc('tuple', e, fr, 'item')
            self.fields_n.add((t, '#n'))
            self.add(self.field(g, '[]'), t)
            if short == 'enumerate' and args:
                self.load_elem(args[0], self.field(t, '#1'))
                self.edge(self.field(t, '#1'), self.field(t, '[]'))
            else:
                for i, a in enumerate(args):
                    self.load_elem(a, self.field(t, '#%d' % i))
                    self.edge(self.field(t, '#%d' % i), self.field(t, '[]'))
                if '*' in kwargs:
                    inner = self.node()
                    self.load_elem(kwargs['*'], inner)
                    self.load_elem(inner, self.field(t, '[]'))
                    self.load_elem(inner, self.field(t, '#0'))
                    self.load_elem(inner, self.field(t, '#1'))
            self.add(out, g)
            return
        if name in ('builtins.map', 'builtins.filter', 'functools.reduce'):
            g = self.alloc('gen', e, fr)
            els = []
            for a in args[1:]:
                el = self.node()
                self.load_elem(a, el)
                els.append(el)
            res = self.node()
            if args:
                self.on(args[0], lambda c: self.apply(c, els, {}, res, fr, e) if c[0] in ('func', 'bound', 'inst') else None)
            self.edge(els[0] if short == 'filter' and els else res, self.field(g, '[]'))
            if short == 'reduce':
                self.edge(res, out)
            self.add(out, g)
            return
        if name in ('builtins.max', 'builtins.min'):
            if len(args) == 1:
                self.load_elem(args[0], out)
                el = self.node()
                self.load_elem(args[0], el)
            else:
                el = self.node()
                for a in args:
                    self.edge(a, out)
                    self.edge(a, el)
            if 'key' in kwargs:
                self.on(kwargs['key'], lambda c: self.apply(c, [el], {}, self.node(), fr, e))
            return
        if name == 'builtins.next':
            if args:
                self.load_elem(args[0], out)
            return
        if name == 'builtins.getattr' and len(args) >= 2:
            self.on(args[1], lambda s: self.on(args[0], lambda o: self.getattr(o, s[1], s[1], out, fr, e)) if s[0] == 'str' and s[1] else None)
            return
        if name == 'copy.deepcopy':
            def hd(o):
                if o[0] == 'inst':
                    self.add(out, ('inst', o[1], ('deepcopy', fr.func.qual, e.lineno, o[2] if len(str(o[2])) < 200 else 0)))
                elif o[0] in ('root', 'list', 'dict', 'nd', 'tuple', 'set'):
                    self.add(out, self.alloc('list', e, fr, 'deep'))
            for a in args[:1]:
                self.on(a, hd)
            return
        if name == 'copy.copy':
            o = self.alloc('list', e, fr)

            def hc(x):
                if x[0] == 'inst':
                    m = x[1].find('__copy__')
                    if m:
                        self.invoke(('bound', x, m), [], {}, out, fr, e)
                    else:
                        self.add(out, x)
                elif x[0] in ('list', 'tuple', 'root', 'dict', 'set'):
                    self.add(out, o)
                    self.edge(self.field(x, '[]'), self.field(o, '[]'))
            for a in args[:1]:
                self.on(a, hc)
            return
        if name in ALIAS_EXT or (name == 'numpy.array' and 'copy' in kwargs):
            for a in args[:1]:
                self.edge(a, out)
            self.add(out, self.alloc('nd', e, fr))
            return
        if name.endswith('.LoadLibrary') or short == 'CDLL':
            self.add(out, ('lib',))
            return
        if name.startswith('numpy') or name.startswith('scipy'):
            self.add(out, self.alloc('nd', e, fr))
            return
        if name in ('random.sample', 'random.choices'):
            o = self.alloc('list', e, fr)
            if args:
                self.load_elem(args[0], self.field(o, '[]'))
            self.add(out, o)
            return
        if name == 'random.choice' and args:
            self.load_elem(args[0], out)
            return
        if name.startswith('itertools'):
            o = self.alloc('gen', e, fr)
            for a in args:
                self.load_elem(a, self.field(o, '[]'))
            t = self.alloc('list', e, fr, 'it')
            for a in args:
                self.load_elem(a, self.field(t, '[]'))
            self.add(self.field(o, '[]'), t)
            self.add(out, o)
            return
        self.add(out, ('opq', name, (fr.func.qual, e.lineno, e.col_offset)))
        # callbacks handed to foreign code may be called
        for a in list(args) + [v for kk, v in kwargs.items()]:
            self.on(a, lambda c: self.callback(c, fr, e))

    def callback(self, c, fr, e):
        if c[0] in ('func', 'bound'):
            f = c[1] if c[0] == 'func' else c[2]
            n = len(f.params) - (1 if c[0] == 'bound' else 0)
            self.invoke(c, [self.node() for _ in range(max(n, 0))], {}, self.node(), fr, e)

    def builtin_method(self, o, name, args, kwargs, out, fr, e):
        k = o[0]
        if name in MUT_METHODS and k not in ('str', 'opq'):
            if MUT_METHODS[name]:
                self.mutate(o, fr, e, '.' + name)
            if name in ('append', 'add', 'appendleft') and args:
                self.store_elem(o, args[0])
            elif name == 'insert' and len(args) > 1:
                self.store_elem(o, args[1])
            elif name in ('extend', 'update') and args:
                self.load_elem(args[0], self.field(o, '[]'))
            elif name in ('pop', 'popitem', 'popleft'):
                self.load_elem(self._const(o), out)
            elif name == 'setdefault' and len(args) > 1:
                key = self._key(e)
                self.store_elem(o, args[1], key)
                self.load_elem(self._const(o), out, key)
            elif name == 'sort' and 'key' in kwargs:
                el = self.node()
                self.load_elem(self._const(o), el)
                self.on(kwargs['key'], lambda c: self.apply(c, [el], {}, self.node(), fr, e))
            return
        if name == 'get':
            key = self._key(e)
            self.load_elem(self._const(o), out, key)
            if len(args) > 1:
                self.edge(args[1], out)
            return
        if name == 'copy':
            if k in ('list', 'dict', 'set', 'tuple', 'root'):
                c = self.alloc('list', e, fr)
                self.edge(self.field(o, '[]'), self.field(c, '[]'))
                self.add(out, c)
            elif k == 'nd':
                self.add(out, self.alloc('nd', e, fr))
            return
        if name in ('values', 'keys', 'items', 'union', 'difference', 'intersection'):
            c = self.alloc('gen', e, fr)
            if name == 'items':
                t = self.alloc('tuple', e, fr, 'item')
                self.fields_n.add((t, '#n'))
                self.load_elem(self._const(o), self.field(t, '#1'))
                self.add(self.field(c, '[]'), t)
            else:
                self.load_elem(self._const(o), self.field(c, '[]'))
            self.add(out, c)
            return
        if name in VIEW_METHODS and k in ('nd', 'root'):
            self.add(out, o)
            return
        if k in ('nd', 'root'):
            self.add(out, self.alloc('nd', e, fr))
            return
        if k == 'str':
            self.add(out, ('str', ''))
            if name == 'split':
                c = self.alloc('list', e, fr)
                self.add(self.field(c, '[]'), ('str', ''))
                self.add(out, c)
            return
        if k == 'opq':
            self.add(out, ('opq', '*.' + name, (fr.func.qual, e.lineno, e.col_offset)))
            for a in list(args) + list(kwargs.values()):
                self.on(a, lambda c: self.callback(c, fr, e))

    def _key(self, e):
        if e.args and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str):
            return e.args[0].value
        return None


CONTAINER_METHODS = {'get', 'copy', 'values', 'keys', 'items', 'index', 'count', 'tolist', 'reshape', 'ravel', 'transpose', 'flatten', 'astype', 'sum', 'mean', 'min', 'max',
                     'dot', 'argmin', 'argmax', 'nonzero', 'split', 'strip', 'join', 'format', 'encode', 'decode', 'lower', 'upper', 'startswith', 'endswith', 'replace', 'union', 'difference', 'intersection', 'all', 'any', 'std', 'var', 'conj'}


def _short(ctx):
    if ctx is None:
        return None
    s = str(ctx[1])
    if ctx[0] == 'o' and isinstance(ctx[1], tuple) and ctx[1][0] == 'inst':
        site = ctx[1][2]
        return ('o', ctx[1][1], site[:3] if isinstance(site, tuple) else site)
    if ctx[0] == 'o':
        return ('o', s[:120])
    return (ctx[0], ctx[1] if len(s) < 200 else s[:200])


class Body:
    """statements of one function in one context, over SSA-like environments"""

    def __init__(self, pta, fr):
        self.p, self.fr = pta, fr
        self.loops = []

    def run(self, body, env):
        return self.block(body, env)

    def block(self, body, env):
        """returns the environment at the end, or None when control does not reach it"""
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def merge(self, envs):
        envs = [e for e in envs if e is not None]
        if not envs:
            return None
        if len(envs) == 1:
            return envs[0]
        out = {}
        for k in set().union(*envs):
            vals = [e[k] for e in envs if k in e]
            if '.' in k and len(vals) < len(envs):
                continue
            if all(v is vals[0] for v in vals):
                out[k] = vals[0]
            else:
                n = self.p.node()
                for v in vals:
                    self.p.edge(v, n)
                out[k] = n
        return out

    def stmt(self, s, env):
        p, fr = self.p, self.fr
        t = type(s)
        if t is ast.Expr:
            p.expr(s.value, env, fr)
            return env
        if t is ast.Assign:
            v = p.expr(s.value, env, fr)
            for tg in s.targets:
                self.assign(tg, v, env)
            return env
        if t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, p.expr(s.value, env, fr), env)
            return env
        if t is ast.AugAssign:
            cur = p.expr(_load(s.target), env, fr)
            v = p.expr(s.value, env, fr)
            res = p.node()
            nd = p.alloc('nd', s, fr)

            def h(o):
                if o[0] in ('list', 'nd', 'set', 'dict', 'root'):
                    p.mutate(o, fr, s, 'augmented assignment')
                    p.add(res, o)
                    if o[0] == 'list':
                        p.load_elem(v, p.field(o, '[]'))
                elif o[0] == 'inst':
                    m = o[1].find('__add__') if isinstance(s.op, ast.Add) else o[1].find('__sub__') if isinstance(s.op, ast.Sub) else None
                    if m:
                        p.invoke(('bound', o, m), [v], {}, res, fr, s)
            p.on(cur, h)
            p.on(v, lambda o: p.add(res, nd) if o[0] in ('nd',) else None)
            self.assign(s.target, res, env, aug=True)
            return env
        if t is ast.Return:
            if s.value is not None:
                p.edge(p.expr(s.value, env, fr), fr.ret)
            return None
        if t is ast.If:
            p.expr(s.test, env, fr)
            a = self.block(s.body, dict(env))
            b = self.block(s.orelse, dict(env))
            return self.merge([a, b])
        if t in (ast.For, ast.While, ast.AsyncFor):
            return self.loop(s, env)
        if t is ast.Break:
            if self.loops:
                self.loops[-1][1].append(dict(env))
            return None
        if t is ast.Continue:
            if self.loops:
                self.loops[-1][0].append(dict(env))
            return None
        if t is ast.Raise:
            if s.exc is not None:
                p.expr(s.exc, env, fr)
            return None
        if t is ast.Try:
            start = dict(env)
            end = self.block(s.body, dict(env))
            mids = self.merge([start, end]) if end is not None else self._assigned(s.body, start)
            outs = [self.block(s.orelse, end) if end is not None and s.orelse else end]
            for hd in s.handlers:
                e2 = dict(mids)
                if hd.name:
                    e2[hd.name] = p.node()
                outs.append(self.block(hd.body, e2))
            res = self.merge(outs)
            if s.finalbody:
                f = self.block(s.finalbody, dict(res) if res is not None else dict(mids))
                res = f if res is not None else None
            return res
        if t is ast.With:
            for it in s.items:
                v = p.expr(it.context_expr, env, fr)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env)
            return self.block(s.body, env)
        if t in (ast.FunctionDef, ast.AsyncFunctionDef):
            f = p._lams.get(id(s))
            if f is None:
                f = Func(s, fr.func.module, None, fr.func)
                p._lams[id(s)] = f
            env[s.name] = p._const(('func', f, p._clo(fr, env, s)))
            return env
        if t is ast.Delete:
            for tg in s.targets:
                if isinstance(tg, ast.Subscript):
                    b = p.expr(tg.value, env, fr)
                    if not isinstance(tg.slice, ast.Slice):
                        p.expr(tg.slice, env, fr)
                    p.on(b, lambda o: p.mutate(o, fr, s, 'del item'))
                elif isinstance(tg, ast.Name):
                    env.pop(tg.id, None)
            return env
        if t is ast.Assert:
            p.expr(s.test, env, fr)
            return env
        if t is ast.Import:
            for a in s.names:
                n = a.asname or a.name.split('.')[0]
                tgt = a.name if a.asname else a.name.split('.')[0]
                env[n] = p._const(('module', tgt)) if tgt in p.prog.modules else p._const(('ext', tgt))
            return env
        if t is ast.ImportFrom:
            for a in s.names:
                r = p.prog.resolve_name(p.prog.modules[s.module], a.name) if s.module in p.prog.modules else '%s.%s' % (s.module, a.name)
                env[a.asname or a.name] = p.static(r)
            return env
        return env

    def _assigned(self, body, start):
        return start

    def loop(self, s, env):
        p, fr = self.p, self.fr
        names = set()
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                names.add(x.id)
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                names.add(x.target.id)
        attrs = set()
        for x in ast.walk(s):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                attrs.add(p.mangle(x.attr, fr))
            elif isinstance(x, ast.Call):
                attrs |= p.rebinds(x, fr)
        head = {}
        for k, v in env.items():
            if '.' in k:
                base, _, at = k.partition('.')
                if at not in attrs and base not in names:
                    head[k] = v
                continue
            if k in names:
                n = p.node()
                p.edge(v, n)
                head[k] = n
            else:
                head[k] = v
        late = {k: p.node() for k in names if k not in head}
        benv = dict(head)
        if isinstance(s, ast.While):
            p.expr(s.test, benv, fr)
        else:
            it = p.expr(s.iter, env, fr)
            el = p.node()
            p.iterate(it, el)
            self.assign(s.target, el, benv)
        self.loops.append(([], []))
        # names first assigned in the loop body may be read in the next iteration
        for k, n in late.items():
            if k not in benv:
                benv[k] = n
        end = self.block(s.body, benv)
        conts, breaks = self.loops.pop()
        for e2 in conts + ([end] if end is not None else []):
            for k in names:
                if k in e2:
                    tgt = head.get(k) or late.get(k)
                    if tgt is not None and tgt is not e2[k]:
                        p.edge(e2[k], tgt)
        exit_env = dict(head)
        for k, n in late.items():
            exit_env[k] = n
        if isinstance(s, ast.For):
            for k in names:
                for e2 in conts + ([end] if end is not None else []):
                    pass
        if s.orelse:
            exit_env = self.block(s.orelse, exit_env)
        return self.merge([exit_env] + breaks)

    def assign(self, tg, v, env, aug=False):
        p, fr = self.p, self.fr
        if isinstance(tg, ast.Name):
            env[tg.id] = v
            for k in [k for k in env if k.startswith(tg.id + '.')]:
                del env[k]
        elif isinstance(tg, (ast.Tuple, ast.List)):
            for i, e in enumerate(tg.elts):
                n = p.node()
                if isinstance(e, ast.Starred):
                    o = p.alloc('list', e, fr)
                    p.load_elem(v, p.field(o, '[]'))
                    p.add(n, o)
                    self.assign(e.value, n, env)
                else:
                    p.load_pos(v, i, n)
                    self.assign(e, n, env)
        elif isinstance(tg, ast.Attribute):
            base = p.expr(tg.value, env, fr)
            nm = p.mangle(tg.attr, fr)
            key = p._selfkey(tg, fr, env)

            def h(o):
                if o[0] == 'inst':
                    st = o[1].find_setter(nm)
                    if st:
                        p.invoke(('bound', o, st), [v], {}, p.node(), fr, tg)
                        return
                    p.edge(v, p.field(o, nm))
                    p.attr_stores.setdefault((o[1].qual, nm), {}).setdefault(id(tg), (fr.func, tg))
                    if fr is not None:
                        p.fmut.setdefault(fr, {}).setdefault((o, 'attribute ' + tg.attr), tg)
                elif o[0] == 'class':
                    p.edge(v, p.clsattr(o[1], nm))
                elif o[0] == 'root':
                    p.edge(v, p.field(o, nm))
                    p.mutate(o, fr, tg, 'attribute ' + tg.attr)
                elif o[0] == 'native':
                    p.edge(v, p.field(o, nm))
            p.on(base, h)
            for k in [k for k in env if k.endswith('.' + nm)]:
                del env[k]
            if key:
                env[key] = v
        elif isinstance(tg, ast.Subscript):
            base = p.expr(tg.value, env, fr)
            if not isinstance(tg.slice, ast.Slice):
                idx = p.expr(tg.slice, env, fr)
            else:
                idx = p.node()
            k = tg.slice.value if isinstance(tg.slice, ast.Constant) and isinstance(tg.slice.value, str) else None
            sl = isinstance(tg.slice, ast.Slice)

            def h2(o):
                if o[0] == 'inst':
                    m = o[1].find('__setitem__')
                    if m:
                        p.invoke(('bound', o, m), [idx, v], {}, p.node(), fr, tg)
                    return
                p.mutate(o, fr, tg, 'item assignment')
                if o[0] in ('list', 'dict', 'root', 'tuple'):
                    if sl:
                        p.load_elem(v, p.field(o, '[]'))
                    else:
                        p.store_elem(o, v, k)
                elif o[0] == 'nd':
                    pass
            p.on(base, h2)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, env)


def _load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t)
    return ast.copy_location(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t)


SCALAR_CALLS = {'range', 'int', 'float', 'round'}


def entry_points(prog):
    """(kind, object): every public function and every class of the package outside the native wrappers"""
    for m in prog.modules.values():
        if m.name.startswith('pyclustering.core') or '.samples' in m.name:
            continue
        for f in m.functions.values():
            if not f.name.startswith('_'):
                yield 'func', f
        for c in prog.all_classes(m):
            yield 'class', c


def public_methods(c):
    names = set()
    for k in c.mro():
        for nm, meth in k.methods.items():
            if nm in names or meth.name == '__init__':
                continue
            names.add(nm)
            if meth.name.startswith('_') and not (meth.name.startswith('__') and meth.name.endswith('__')):
                continue
            yield meth
        for nm, meth in k.setters.items():
            if ('set', nm) not in names:
                names.add(('set', nm))
                yield meth


def analyse(prog, kind, x, methods=None):
    """points-to result for one entry point: a function, or a constructor followed by any public methods in any order"""
    p = PTA(prog)
    if kind == 'func':
        p.invoke_roots(('func', x, None), x.qual, p.node())
    else:
        o = p.entry_instance(x)
        for meth in public_methods(x):
            if methods is not None and meth.name not in methods:
                continue
            if meth.static:
                p.invoke_roots(('func', meth, None), '%s.%s' % (x.qual, meth.name), p.node())
            else:
                p.entry_method(o, meth)
    p.solve()
    return p


_results = {}


def results(prog=None):
    prog = prog or program()
    if id(prog) not in _results:
        _results[id(prog)] = [(k, x, analyse(prog, k, x)) for k, x in entry_points(prog)]
    return _results[id(prog)]


def reachable_frames(p, start):
    out, todo = set(), [start]
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo += p.fedges.get(x, {})
    return out


def reachable_objects(p, start):
    """objects that can be reached from an object through fields and elements"""
    by = {}
    for (o, f), n in p.fields.items():
        by.setdefault(o, []).append(n)
    out, todo = set(), [start]
    while todo:
        o = todo.pop()
        if o in out:
            continue
        out.add(o)
        for n in by.get(o, ()):
            todo += [x for x in n.pts if x not in out]
    return out
