"""Path-enumerating abstract executor over the syntax tree of the Python package.

Values are terms; conditions that the terms do not decide fork the path; loops run zero or one abstract
iteration; calls that resolve to functions of the package are inlined.  Nothing of the package is executed."""

import ast

from .pymodel import Class, Func, Module

NONE = ('const', None)


class TooManyPaths(Exception):
    pass


class State:
    __slots__ = ('env', 'heap', 'trace', 'conds', 'next', 'grown')

    def __init__(self):
        self.env, self.heap, self.trace, self.conds, self.next = {}, {}, (), (), 0
        self.grown = {}         # id -> container display (list, dict, set) that was changed in place: its elements are no longer known

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = {k: dict(v) for k, v in self.heap.items()}
        s.trace, s.conds, s.next = self.trace, self.conds, self.next
        s.grown = self.grown
        return s

    def grow(self, t):
        if t[0] in ('list', 'dict', 'set') and id(t) not in self.grown:
            self.grown = {**self.grown, id(t): t}

    def known(self, t):
        return id(t) not in self.grown

    def emit(self, ev):
        self.trace = (self.trace, ev)

    def events(self):
        out, t = [], self.trace
        while t:
            t, e = t
            out.append(e)
        out.reverse()
        return out

    def cond_list(self):
        out, t = [], self.conds
        while t:
            t, e = t
            out.append(e)
        out.reverse()
        return out


class Ev:
    """event: kind in call,setattr,setsub,raise,return,new,del,enter,leave,aug"""
    __slots__ = ('kind', 'a', 'node', 'func')

    def __init__(self, kind, a, node, func):
        self.kind, self.a, self.node, self.func = kind, a, node, func

    def __repr__(self):
        return 'Ev(%s %s @%s)' % (self.kind, show(self.a) if isinstance(self.a, tuple) else self.a, getattr(self.node, 'lineno', '?'))


def show(t, depth=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if depth > 6:
        return '..'
    d = depth + 1
    if k == 'const':
        return repr(t[1])
    if k == 'param':
        return t[1]
    if k == 'ext':
        return t[1]
    if k == 'attr':
        return show(t[1], d) + '.' + t[2]
    if k == 'sub':
        return '%s[%s]' % (show(t[1], d), show(t[2], d))
    if k == 'call':
        return '%s(%s)' % (show(t[1], d), ', '.join([show(x, d) for x in t[2]] + ['%s=%s' % (a, show(b, d)) for a, b in t[3]]))
    if k in ('func', 'class'):
        return t[1].qual
    if k == 'inst':
        return '<%s#%s>' % (t[2].name, t[1][1] if isinstance(t[1], tuple) else t[1])
    if k == 'bound':
        return show(t[1], d) + '.' + t[2].name
    return '%s(%s)' % (k, ', '.join(show(x, d) if isinstance(x, tuple) else repr(x) for x in t[1:]))


def mentions(t, pred):
    if isinstance(t, tuple):
        if t and pred(t):
            return True
        return any(mentions(x, pred) for x in t if isinstance(x, tuple))
    return False


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


BUILTIN_FN = {'len', 'range', 'enumerate', 'isinstance', 'zip', 'max', 'min', 'abs', 'sum', 'list', 'dict', 'set', 'tuple', 'sorted', 'int',
              'float', 'str', 'bool', 'type', 'hasattr', 'getattr', 'map', 'filter', 'iter', 'next', 'print', 'open', 'callable', 'round', 'reversed',
              'any', 'all', 'super', 'id', 'repr', 'pow', 'divmod', 'ValueError', 'TypeError', 'NameError', 'KeyError', 'IndexError', 'RuntimeError',
              'NotImplementedError', 'AttributeError', 'FileNotFoundError', 'EnvironmentError', 'MemoryError', 'Exception', 'BaseException', 'IOError', 'OSError', 'Warning', 'UserWarning', 'DeprecationWarning', 'ImportError', 'StopIteration', 'ArithmeticError', 'ZeroDivisionError', 'ResourceWarning', 'bytes', 'bytearray', 'object', 'property', 'staticmethod', 'format', 'ord', 'chr', 'complex', 'slice', 'frozenset', 'setattr', 'delattr', 'vars', 'dir', 'globals', 'locals', 'exit', 'input', 'hash', 'bin', 'hex', 'eval', 'exec'}


class Exec:
    def __init__(self, prog, inline=None, max_depth=12, max_paths=20000, on_call=None, loop_iters=(0, 1), init_inst=True, on_cond=None, merge_key=None):
        self.prog = prog
        self.inline = inline or (lambda f, st: True)
        self.max_depth, self.max_paths = max_depth, max_paths
        self.on_call = on_call
        self.loop_iters = loop_iters
        self.stack = []
        self.steps = 0
        self.on_cond = on_cond
        self.merge_key = merge_key
        self.joins = 0

    # ---- entry points -------------------------------------------------
    def run(self, func, args=None, self_term=None, state=None):
        """returns [(state, outcome)] with outcome ('return', term) or ('raise', term)"""
        st = state or State()
        return self.call_func(func, args, {}, st, self_term, None, entry=True)

    def new(self, cls, st):
        # named by class and count, so that paths which differ in other objects agree on this one when they are joined
        k = 1
        while (cls.qual, k) in st.heap:
            k += 1
        oid = (cls.qual, k)
        st.heap[oid] = {}
        return ('inst', oid, cls)

    # ---- functions ----------------------------------------------------
    def bind(self, func, args, kwargs, self_term, st):
        env = {}
        a = func.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args) if args is not None else None
        is_method = func.cls is not None and not func.static and func.parent is None
        if is_method and pos:
            if self_term is not None:
                env[pos[0]] = self_term
                rest = pos[1:]
            else:
                rest = pos if vals is not None else pos[1:]
                if vals is None:
                    env[pos[0]] = ('param', pos[0])
        else:
            rest = pos
        if vals is None:
            for n in rest:
                env[n] = ('param', n)
            if a.vararg:
                env[a.vararg.arg] = ('param', '*' + a.vararg.arg)
            if a.kwarg:
                env[a.kwarg.arg] = ('param', '**' + a.kwarg.arg)
            for x in a.kwonlyargs:
                env[x.arg] = ('param', x.arg)
            return env
        extra = []
        star = False
        for i, v in enumerate(vals):
            if v[0] == 'star':
                star = True
                for n in rest[i:]:
                    env.setdefault(n, ('sub', v[1], ('const', rest.index(n) - i)))
                extra.append(v)
                break
            if i < len(rest):
                env[rest[i]] = v
            else:
                extra.append(v)
        kw = dict(kwargs)
        spill = []
        for k, v in list(kw.items()):
            if k in rest or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            elif k is not None:
                spill.append((k, v))
            else:
                spill.append((None, v))
        if a.vararg:
            env[a.vararg.arg] = ('tuple',) + tuple(extra)
        if a.kwarg:
            env[a.kwarg.arg] = ('kwdict', tuple(spill))
        off = len(pos) - len(a.defaults)
        for i, n in enumerate(pos):
            if n not in env:
                if i >= off:
                    env[n] = self.const_expr(a.defaults[i - off], func.module)
                else:
                    env[n] = ('missing', n)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env:
                env[x.arg] = self.const_expr(d, func.module) if d is not None else ('missing', x.arg)
        return env

    def const_expr(self, e, module):
        st = State()
        fake = type('F', (), {'module': module, 'cls': None, 'qual': module.name, 'file': module.rel, 'parent': None})()
        r = self.expr(e, st, fake)
        return r[0][1] if r else ('unknown',)

    def call_func(self, func, args, kwargs, st, self_term, node, entry=False):
        if len(self.stack) >= self.max_depth or sum(1 for f in self.stack if f is func) >= 2:
            return [(st, ('return', ('call', ('func', func), tuple(args or ()), tuple(kwargs.items()), getattr(node, 'lineno', 0))))]
        env = self.bind(func, args, kwargs, self_term, st)
        saved = st.env
        if func.parent is not None:      # closure
            env = dict(saved, **env)
        st.env = env
        st.emit(Ev('enter', ('func', func), node, func))
        self.stack.append(func)
        try:
            res = self.block(func.body, st, func)
        finally:
            self.stack.pop()
        out = []
        for s, o in res:
            if o is None:
                o = ('return', NONE)
            s.env = dict(saved)
            s.emit(Ev('leave', ('func', func), node, func))
            out.append((s, o))
        return out

    # ---- joining of paths -----------------------------------------------
    def merge(self, states):
        """joins states that agree on merge_key: values on which they differ become unknown, conditions that differ are forgotten"""
        groups = {}
        for s in states:
            groups.setdefault(self.merge_key(s), []).append(s)
        out = []
        for g in groups.values():
            a = g[0]
            if len(g) > 1:
                grown = {}
                for x in g:
                    grown.update(x.grown)
                if grown:
                    a.grown = grown
                    for x in g[1:]:
                        for d, q in [(x.env, a.env)] + [(x.heap[o], a.heap.get(o, {})) for o in x.heap]:
                            for k, w in d.items():
                                if isinstance(w, tuple) and id(w) in grown and isinstance(q.get(k), tuple) and q[k]:
                                    a.grow(q[k])
                for k in set().union(*[x.env for x in g]):
                    if any(x.env.get(k) != a.env.get(k) for x in g):
                        self.joins += 1
                        a.env[k] = ('unknown', 'join', self.joins, k)
                for o in set().union(*[x.heap for x in g]):
                    flds = set().union(*[x.heap.get(o, {}) for x in g])
                    for k in flds:
                        if any(x.heap.get(o, {}).get(k) != a.heap.get(o, {}).get(k) for x in g):
                            self.joins += 1
                            a.heap.setdefault(o, {})[k] = ('unknown', 'join', self.joins, k)
                sets = [set(x.cond_list()) for x in g[1:]]
                keep = [c for c in a.cond_list() if all(c in q for q in sets)]
                a.conds = ()
                for c in keep:
                    a.conds = (a.conds, c)
                a.next = max(x.next for x in g)
            out.append(a)
        return out

    # ---- statements ---------------------------------------------------
    def block(self, body, st, f):
        live = [st]
        done = []
        for s in body:
            nxt = []
            for x in live:
                for y, o in self.stmt(s, x, f):
                    if o is None:
                        nxt.append(y)
                    else:
                        done.append((y, o))
            live = self.merge(nxt) if self.merge_key and len(nxt) > 6 else nxt
            if self.merge_key and len(done) > 6:
                by = {}
                for y, o in done:
                    by.setdefault(o if o[0] != 'raise' else 'raise', (o, []))[1].append(y)
                done = [(y, o) for o, ys in by.values() for y in self.merge(ys)]
            if len(live) + len(done) > self.max_paths:
                raise TooManyPaths(f.qual)
            if not live:
                break
        return done + [(x, None) for x in live]

    def stmt(self, s, st, f):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return [(st, None)]
        return m(s, st, f)

    def s_Expr(self, s, st, f):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        return [(x, o) for x, _, o in self.ev(s.value, st, f)]

    def ev(self, e, st, f):
        """[(state, term, outcome)] where outcome is None or ('raise', ..)"""
        out = []
        for r in self.expr(e, st, f):
            x, t = r
            if isinstance(t, tuple) and t and t[0] == '!raise':
                out.append((x, NONE, ('raise', t[1])))
            else:
                out.append((x, t, None))
        return out

    def s_Return(self, s, st, f):
        if s.value is None:
            return [(st, ('return', NONE))]
        out = []
        for x, t, o in self.ev(s.value, st, f):
            if o is None:
                x.emit(Ev('return', t, s, f))
            out.append((x, o or ('return', t)))
        return out

    def s_Assign(self, s, st, f):
        out = []
        for x, t, o in self.ev(s.value, st, f):
            if o:
                out.append((x, o))
                continue
            states = [x]
            for tg in s.targets:
                states = [z for y in states for z in self.assign(tg, t, y, f)]
            out += [(y, None) for y in states]
        return out

    def s_AnnAssign(self, s, st, f):
        if s.value is None:
            return [(st, None)]
        out = []
        for x, t, o in self.ev(s.value, st, f):
            out += [(x, o)] if o else [(y, None) for y in self.assign(s.target, t, x, f)]
        return out

    def s_AugAssign(self, s, st, f):
        load = ast.copy_location(_as_load(s.target), s.target)
        out = []
        for x, a, o in self.ev(load, st, f):
            if o:
                out.append((x, o))
                continue
            for y, b, o2 in self.ev(s.value, x, f):
                if o2:
                    out.append((y, o2))
                    continue
                t = self.binop(type(s.op).__name__, a, b)
                y.emit(Ev('aug', (a, t), s, f))
                out += [(z, None) for z in self.assign(s.target, t, y, f, aug=True)]
        return out

    def assign(self, tg, t, st, f, aug=False):
        if isinstance(tg, ast.Name):
            st.env[tg.id] = t
            return [st]
        if isinstance(tg, (ast.Tuple, ast.List)):
            states = [st]
            for i, e in enumerate(tg.elts):
                if isinstance(e, ast.Starred):
                    v = ('rest', t, i)
                    e = e.value
                elif t[0] in ('tuple', 'list') and len(t) - 1 == len(tg.elts):
                    v = t[1 + i]
                else:
                    v = ('sub', t, ('const', i))
                states = [z for y in states for z in self.assign(e, v, y, f)]
            return states
        if isinstance(tg, ast.Attribute):
            out = []
            for x, b, o in self.ev(tg.value, st, f):
                if o:
                    continue
                out += self.setattr(b, tg.attr, t, x, f, tg)
            return out
        if isinstance(tg, ast.Subscript):
            out = []
            for x, b, o in self.ev(tg.value, st, f):
                for y, i, o2 in self.ev(tg.slice, x, f):
                    y.emit(Ev('setsub', (b, i, t), tg, f))
                    y.grow(b)
                    out.append(y)
            return out
        if isinstance(tg, ast.Starred):
            return self.assign(tg.value, t, st, f)
        return [st]

    def mangle(self, name, f):
        c = f.cls
        p = f
        while c is None and getattr(p, 'parent', None) is not None:
            p = p.parent
            c = p.cls
        return c.mangle(name) if c else name

    def setattr(self, b, name, t, st, f, node):
        nm = self.mangle(name, f)
        if b[0] == 'inst':
            setter = b[2].find_setter(nm)
            if setter:
                return [s for s, o in self.call_func(setter, [t], {}, st, b, node)]
            st.emit(Ev('setattr', (b, nm, t), node, f))
            st.heap.setdefault(b[1], {})[nm] = t
        else:
            st.emit(Ev('setattr', (b, nm, t), node, f))
            st.heap.setdefault(('ext', b), {})[nm] = t
        return [st]

    def s_If(self, s, st, f):
        out = []
        for x, v, o in self.cond(s.test, st, f):
            if o:
                out.append((x, o))
                continue
            out += self.block(s.body if v else s.orelse, x, f)
        return out

    def cond(self, e, st, f):
        """[(state, bool, outcome)]"""
        if isinstance(e, ast.BoolOp):
            res = [(st, isinstance(e.op, ast.And), None)]
            stop = not isinstance(e.op, ast.And)
            for part in e.values:
                nxt = []
                for x, v, o in res:
                    if o or v == stop:
                        nxt.append((x, v, o))
                    else:
                        nxt += self.cond(part, x, f)
                res = nxt
            return res
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, not v, o) for x, v, o in self.cond(e.operand, st, f)]
        out = []
        for x, t, o in self.ev(e, st, f):
            if o:
                out.append((x, False, o))
                continue
            out += self.branch(t, x, e, f)
        return out

    def branch(self, t, x, node, f):
        if t[0] == 'op' and t[1] == 'Not':
            return [(y, not v, o) for y, v, o in self.branch(t[2], x, node, f)]
        v = self.truth(t) if x.known(t) else None
        if v is None and self.on_cond:
            v = self.on_cond(t, x)
        if v is None:
            for c, b in x.cond_list():
                if c == t:
                    v = b
        if v is not None:
            return [(x, v, None)]
        y = x.copy()
        x.conds = (x.conds, (t, True))
        y.conds = (y.conds, (t, False))
        x.emit(Ev('cond', (t, True), node, f))
        y.emit(Ev('cond', (t, False), node, f))
        if t[0] == 'cmp':          # variables that hold the outcome of the comparison are decided, too
            for z, v in ((x, True), (y, False)):
                for d in [z.env] + list(z.heap.values()):
                    for k, w in d.items():
                        if w is t or w == t:
                            d[k] = ('const', v)
        return [(x, True, None), (y, False, None)]

    def truth(self, t):
        k = t[0]
        if k == 'const':
            return bool(t[1])
        if k in ('list', 'tuple', 'dict', 'set'):
            return len(t) > 1 if not any(isinstance(x, tuple) and x and x[0] == 'star' for x in t[1:]) else None
        if k in ('inst', 'func', 'class', 'bound', 'module'):
            return True
        return None

    def s_While(self, s, st, f):
        return self.loop(s, st, f, None)

    def s_For(self, s, st, f):
        out = []
        for x, t, o in self.ev(s.iter, st, f):
            if o:
                out.append((x, o))
                continue
            out += self.loop(s, x, f, t)
        return out

    def loop(self, s, st, f, it):
        out = []
        for n in self.loop_iters:
            live = [st.copy()]
            broke = []
            if it is not None and it[0] in ('list', 'tuple') and len(it) == 1 and n > 0 and st.known(it):
                continue
            for i in range(n):
                nxt = []
                for x in live:
                    starts = []
                    if it is not None:
                        starts = [(y, None) for y in self.assign(s.target, self.element(it, i), x, f)]
                    else:
                        for y, v, o in self.cond(s.test, x, f):
                            if o:
                                out.append((y, o))
                            elif v:
                                starts.append((y, None))
                    for y, _ in starts:
                        y.emit(Ev('iter', (it or NONE,), s, f))
                        for z, o in self.block(s.body, y, f):
                            if o is None or o[0] == 'continue':
                                nxt.append(z)
                            elif o[0] == 'break':
                                broke.append(z)
                            else:
                                out.append((z, o))
                live = nxt
            ends = []
            if it is None:
                const_true = isinstance(s.test, ast.Constant) and s.test.value
                if n == 0:
                    for x in live:
                        for y, v, o in self.cond(s.test, x, f):
                            if o:
                                out.append((y, o))
                            elif not v:
                                ends.append(y)
                elif not const_true:
                    ends = live
                else:
                    ends = []
            else:
                ends = live
            for x in ends:
                out += self.block(s.orelse, x, f) if s.orelse else [(x, None)]
            out += [(x, None) for x in broke]
        if len(out) > self.max_paths:
            raise TooManyPaths(f.qual)
        return out

    def element(self, it, i):
        if it[0] in ('list', 'tuple') and len(it) > 1:
            return it[1 + (i % (len(it) - 1))]
        if it[0] == 'call' and it[1] == ('ext', 'builtins.enumerate') and it[2]:
            return ('tuple', ('elem', ('call', ('ext', 'builtins.range'), (('call', ('ext', 'builtins.len'), (it[2][0],), (), 0),), (), 0)), ('elem', it[2][0]))
        if it[0] == 'call' and it[1] == ('ext', 'builtins.zip'):
            return ('tuple',) + tuple(('elem', a) for a in it[2])
        return ('elem', it)

    def s_Break(self, s, st, f):
        return [(st, ('break',))]

    def s_Continue(self, s, st, f):
        return [(st, ('continue',))]

    def s_Raise(self, s, st, f):
        if s.exc is None:
            return [(st, ('raise', ('reraise',)))]
        out = []
        for x, t, o in self.ev(s.exc, st, f):
            x.emit(Ev('raise', t, s, f))
            out.append((x, o or ('raise', t)))
        return out

    def s_Assert(self, s, st, f):
        out = []
        for x, v, o in self.cond(s.test, st, f):
            out.append((x, o or (None if v else ('raise', ('ext', 'builtins.AssertionError')))))
        return out

    def s_Try(self, s, st, f):
        start = st.copy()
        res = self.block(s.body, st, f)
        out = []
        for x, o in res:
            if o is not None and o[0] == 'raise' and s.handlers:
                for h in s.handlers:
                    out += self.block(h.body, x.copy(), f)
            elif o is None and s.orelse:
                out += self.block(s.orelse, x, f)
            else:
                out.append((x, o))
        for h in s.handlers:
            y = start.copy()
            y.emit(Ev('except', (), h, f))
            if h.name:
                y.env[h.name] = ('exc',)
            out += self.block(h.body, y, f)
        if s.finalbody:
            fin = []
            for x, o in out:
                for y, o2 in self.block(s.finalbody, x, f):
                    fin.append((y, o2 or o))
            out = fin
        return out

    def s_With(self, s, st, f):
        states = [(st, None)]
        for item in s.items:
            nxt = []
            for x, o in states:
                if o:
                    nxt.append((x, o))
                    continue
                for y, t, o2 in self.ev(item.context_expr, x, f):
                    y.emit(Ev('with', (t,), s, f))
                    if o2 is None and item.optional_vars is not None:
                        nxt += [(z, None) for z in self.assign(item.optional_vars, t, y, f)]
                    else:
                        nxt.append((y, o2))
            states = nxt
        out = []
        for x, o in states:
            if o:
                out.append((x, o))
            else:
                for y, o2 in self.block(s.body, x, f):
                    y.emit(Ev('endwith', (), s, f))
                    out.append((y, o2))
        return out

    def s_FunctionDef(self, s, st, f):
        st.env[s.name] = ('func', Func(s, f.module, None, f))
        return [(st, None)]

    def s_Delete(self, s, st, f):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.emit(Ev('del', (st.env.get(t.id, NONE),), s, f))
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                for x, b, o in self.ev(t.value, st, f):
                    for y, i, o2 in self.ev(t.slice, x, f):
                        y.emit(Ev('delsub', (b, i), s, f))
        return [(st, None)]

    def s_Import(self, s, st, f):
        for a in s.names:
            n = a.asname or a.name.split('.')[0]
            tgt = a.name if a.asname else a.name.split('.')[0]
            st.env[n] = ('module', self.prog.modules[tgt]) if tgt in self.prog.modules else ('ext', tgt)
        return [(st, None)]

    def s_ImportFrom(self, s, st, f):
        for a in s.names:
            r = None
            if s.module in self.prog.modules:
                r = self.prog.resolve_name(self.prog.modules[s.module], a.name)
            st.env[a.asname or a.name] = self.lift(r) if r is not None else ('ext', '%s.%s' % (s.module, a.name))
        return [(st, None)]

    # ---- expressions --------------------------------------------------
    def lift(self, r):
        if isinstance(r, Func):
            return ('func', r)
        if isinstance(r, Class):
            return ('class', r)
        if isinstance(r, Module):
            return ('module', r)
        if isinstance(r, str):
            return ('ext', r)
        if isinstance(r, tuple) and r[0] == 'global':
            return self.global_term(r[1], r[2])
        return ('unknown',)

    def global_term(self, m, name):
        e = m.globals.get(name)
        if isinstance(e, ast.Constant):
            return ('const', e.value)
        if isinstance(e, (ast.Call, ast.Name, ast.Attribute)):
            r = self.prog.resolve_expr(m, e.func if isinstance(e, ast.Call) else e)
            if isinstance(e, ast.Call) and r is not None:
                return ('global', m.name, name)
            if r is not None and not (isinstance(r, tuple) and r[0] == 'global' and r[2] == name):
                return self.lift(r)
        return ('global', m.name, name)

    def seq(self, exprs, st, f):
        """evaluate a list of expressions left to right: [(state, [terms]) | raises]"""
        res = [(st, [])]
        raised = []
        for e in exprs:
            nxt = []
            for x, ts in res:
                inner = e.value if isinstance(e, ast.Starred) else e
                for y, t, o in self.ev(inner, x, f):
                    if o:
                        raised.append((y, ('!raise', o[1])))
                    else:
                        if isinstance(e, ast.Starred):
                            if t[0] in ('tuple', 'list'):
                                nxt.append((y, ts + list(t[1:])))
                            else:
                                nxt.append((y, ts + [('star', t)]))
                        else:
                            nxt.append((y, ts + [t]))
            res = nxt
        return res, raised

    def expr(self, e, st, f):
        m = getattr(self, 'e_' + type(e).__name__, None)
        self.steps += 1
        if self.steps > 3000000:
            raise TooManyPaths(f.qual)
        if m is None:
            return [(st, ('unknown', type(e).__name__, getattr(e, 'lineno', 0), getattr(e, 'col_offset', 0)))]
        return m(e, st, f)

    def e_Constant(self, e, st, f):
        return [(st, ('const', e.value))]

    def e_Name(self, e, st, f):
        if e.id in st.env:
            return [(st, st.env[e.id])]
        r = self.prog.resolve_name(f.module, e.id)
        if r is not None:
            return [(st, self.lift(r))]
        if e.id in BUILTIN_FN:
            return [(st, ('ext', 'builtins.' + e.id))]
        return [(st, ('undefined', e.id))]

    def e_Attribute(self, e, st, f):
        out = []
        for x, b, o in self.ev(e.value, st, f):
            if o:
                out.append((x, ('!raise', o[1])))
            else:
                out += self.getattr(b, e.attr, x, f, e)
        return out

    def getattr(self, b, name, st, f, node):
        nm = self.mangle(name, f)
        k = b[0]
        if k == 'inst':
            flds = st.heap.get(b[1], {})
            if nm in flds:
                return [(st, flds[nm])]
            m = b[2].find(nm)
            if m:
                if m.prop == 'get':
                    return self.ret(self.call_func(m, [], {}, st, b, node))
                if m.static:
                    return [(st, ('func', m))]
                return [(st, ('bound', b, m))]
            a = b[2].find_attr(nm)
            if a:
                v = self.const_expr(a[0], a[1].module)
                return [(st, v)]
            return [(st, ('attr', b, nm))]
        if k == 'class':
            c = b[1]
            flds = st.heap.get(('cls', c.qual), {})
            if nm in flds:
                return [(st, flds[nm])]
            m = c.find(nm)
            if m:
                return [(st, ('func', m))]
            a = c.find_attr(nm)
            if a:
                if c.ext_base() and any('Enum' in str(x) for x in c.ext_base()):
                    return [(st, ('enum', c, nm))]
                v = self.const_expr(a[0], a[1].module)
                if v[0] == 'const' and v[1] is not None and not nm.startswith('_') :
                    return [(st, v)]
                return [(st, ('clsattr', c.qual, nm))]
            if nm in c.nested:
                return [(st, ('class', c.nested[nm]))]
            return [(st, ('attr', b, nm))]
        if k == 'module':
            r = self.prog.resolve_name(b[1], name)
            return [(st, self.lift(r) if r is not None else ('attr', b, name))]
        if k == 'ext':
            return [(st, ('ext', b[1] + '.' + name))]
        flds = st.heap.get(('ext', b), {})
        if nm in flds:
            return [(st, flds[nm])]
        if k == 'call' and b[1] == ('ext', 'builtins.super') and f.cls:
            for c in f.cls.mro()[1:]:
                if nm in c.methods:
                    slf = st.env.get(f.params[0]) if f.params else NONE
                    return [(st, ('bound', slf, c.methods[nm]))]
            return [(st, ('attr', b, nm))]
        return [(st, ('attr', b, nm))]

    def ret(self, res):
        out = []
        for s, o in res:
            if o[0] == 'return':
                out.append((s, o[1]))
            else:
                out.append((s, ('!raise', o[1])))
        return out

    def e_Call(self, e, st, f):
        out = []
        for x, c, o in self.ev(e.func, st, f):
            if o:
                out.append((x, ('!raise', o[1])))
                continue
            res, raised = self.seq(list(e.args), x, f)
            out += raised
            for y, args in res:
                res2, raised2 = self.seq([k.value for k in e.keywords], y, f)
                out += raised2
                for z, kv in res2:
                    kwargs = {}
                    for k, v in zip(e.keywords, kv):
                        if k.arg is None:
                            if v[0] == 'kwdict':
                                for a, b in v[1]:
                                    kwargs[a] = b
                            else:
                                kwargs[None] = v
                        else:
                            kwargs[k.arg] = v
                    out += self.call(c, args, kwargs, z, f, e)
        return out

    GROW = {'append', 'extend', 'insert', 'add', 'update', 'pop', 'remove', 'clear', 'setdefault', 'discard', 'popitem'}

    def call(self, c, args, kwargs, st, f, node):
        if c[0] == 'attr' and c[2] in self.GROW:
            st.grow(c[1])
        if self.on_call:
            r = self.on_call(self, c, args, kwargs, st, f, node)
            if r is not None:
                return r
        k = c[0]
        if k == 'attr' and c[1][0] == 'kwdict' and c[2] == 'get' and args and args[0][0] == 'const' and not any(a is None for a, b in c[1][1]):
            d = dict(c[1][1])
            return [(st, d.get(args[0][1], args[1] if len(args) > 1 else kwargs.get('default', NONE)))]
        if k == 'func':
            fn = c[1]
            if self.inline(fn, st):
                slf = None
                a = list(args)
                if fn.cls is not None and not fn.static and fn.parent is None and a:
                    slf, a = a[0], a[1:]
                return self.ret(self.call_func(fn, a, kwargs, st, slf, node))
        elif k == 'bound':
            if self.inline(c[2], st):
                return self.ret(self.call_func(c[2], args, kwargs, st, c[1], node))
        elif k == 'class':
            cls = c[1]
            o = self.new(cls, st)
            init = cls.find('__init__')
            st.emit(Ev('new', (o, tuple(args), tuple(kwargs.items())), node, f))
            if init and self.inline(init, st):
                return [(s, t if t[0] == '!raise' else o) for s, t in self.ret(self.call_func(init, args, kwargs, st, o, node))]
            if not init or not self.inline(init, st):
                for i, fd in enumerate(args):
                    st.heap[o[1]]['#%d' % i] = fd
                for kk, v in kwargs.items():
                    st.heap[o[1]][kk] = v
            return [(st, o)]
        t = ('call', c, tuple(args), tuple(sorted(kwargs.items(), key=lambda kv: str(kv[0]))), (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)))
        st.emit(Ev('call', t, node, f))
        return [(st, t)]

    def binop(self, op, a, b):
        if a[0] == 'const' and b[0] == 'const':
            try:
                x, y = a[1], b[1]
                r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'FloorDiv': lambda: x // y, 'Div': lambda: x / y, 'Mod': lambda: x % y if not isinstance(x, str) else None}.get(op)
                if r is not None:
                    v = r()
                    if v is not None:
                        return ('const', v)
            except Exception:
                pass
        return ('op', op, a, b)

    def e_BinOp(self, e, st, f):
        res, raised = self.seq([e.left, e.right], st, f)
        return raised + [(x, self.binop(type(e.op).__name__, a, b)) for x, (a, b) in res]

    def e_UnaryOp(self, e, st, f):
        out = []
        for x, t, o in self.ev(e.operand, st, f):
            if o:
                out.append((x, ('!raise', o[1])))
            elif isinstance(e.op, ast.USub) and t[0] == 'const' and isinstance(t[1], (int, float)):
                out.append((x, ('const', -t[1])))
            elif isinstance(e.op, ast.Not) and x.known(t) and self.truth(t) is not None:
                out.append((x, ('const', not self.truth(t))))
            else:
                out.append((x, ('op', type(e.op).__name__, t)))
        return out

    def e_Compare(self, e, st, f):
        res, raised = self.seq([e.left] + e.comparators, st, f)
        out = raised
        for x, ts in res:
            parts = []
            for i, op in enumerate(e.ops):
                parts.append(self.cmp(type(op).__name__, ts[i], ts[i + 1]))
            t = parts[0] if len(parts) == 1 else ('op', 'And') + tuple(parts)
            out.append((x, t))
        return out

    def cmp(self, op, a, b):
        if a[0] == 'const' and b[0] == 'const':
            x, y = a[1], b[1]
            try:
                r = {'Eq': lambda: x == y, 'NotEq': lambda: x != y, 'Lt': lambda: x < y, 'LtE': lambda: x <= y, 'Gt': lambda: x > y, 'GtE': lambda: x >= y,
                     'Is': lambda: x is y or x == y, 'IsNot': lambda: not (x is y or x == y)}.get(op)
                if r:
                    return ('const', r())
            except Exception:
                pass
        if b[0] == 'const' and isinstance(b[1], bool) and op in ('Is', 'IsNot', 'Eq', 'NotEq') and (a[0] == 'cmp' or a[:2] == ('op', 'Not')):
            return a if (op in ('Is', 'Eq')) == b[1] else ('op', 'Not', a)
        if op in ('In', 'NotIn') and b[0] == 'kwdict' and a[0] == 'const' and not any(k is None for k, v in b[1]):
            return ('const', (a[1] in dict(b[1])) == (op == 'In'))
        if op in ('Is', 'IsNot', 'Eq', 'NotEq') and NONE in (a, b):
            o = a if b == NONE else b
            if o[0] in ('inst', 'list', 'tuple', 'dict', 'set', 'func', 'class', 'bound', 'enum', 'listcomp'):
                return ('const', op in ('IsNot', 'NotEq'))
        if op in ('Is', 'IsNot', 'Eq', 'NotEq') and a[0] == b[0] and a[0] in ('enum', 'class', 'func'):
            return ('const', (a == b if a[0] == 'enum' else a[1] is b[1]) == (op in ('Is', 'Eq')))
        if op in ('In', 'NotIn') and b[0] in ('tuple', 'list', 'set') and len(b) > 1 and a[0] in ('class', 'func', 'enum', 'const'):
            hits = [self.cmp('Eq', a, x) for x in b[1:]]
            if all(h[0] == 'const' for h in hits):
                return ('const', any(h[1] for h in hits) == (op == 'In'))
        return ('cmp', op, a, b)

    def e_BoolOp(self, e, st, f):
        # value semantics: fork per operand
        res = [(st, None)]
        out = []
        is_and = isinstance(e.op, ast.And)
        for i, part in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for x, _ in res:
                for y, t, o in self.ev(part, x, f):
                    if o:
                        out.append((y, ('!raise', o[1])))
                        continue
                    if last:
                        out.append((y, t))
                        continue
                    for z, v, o2 in self.branch(t, y, part, f):
                        if v == is_and:
                            nxt.append((z, None))
                        else:
                            out.append((z, t))
            res = nxt
        return out

    def e_IfExp(self, e, st, f):
        out = []
        for x, v, o in self.cond(e.test, st, f):
            if o:
                out.append((x, ('!raise', o[1])))
            else:
                out += self.expr(e.body if v else e.orelse, x, f)
        return out

    def _coll(self, kind, elts, st, f):
        res, raised = self.seq(elts, st, f)
        return raised + [(x, tuple([kind] + list(ts))) for x, ts in res]        # a new object each time, see State.grown

    def e_List(self, e, st, f):
        return self._coll('list', e.elts, st, f)

    def e_Tuple(self, e, st, f):
        return self._coll('tuple', e.elts, st, f)

    def e_Set(self, e, st, f):
        return self._coll('set', e.elts, st, f)

    def e_Dict(self, e, st, f):
        ks = [k if k is not None else ast.Constant(value='**') for k in e.keys]
        res, raised = self.seq(ks + list(e.values), st, f)
        n = len(ks)
        return raised + [(x, tuple(['dict'] + [('pair', ts[i], ts[n + i]) for i in range(n)])) for x, ts in res]

    def e_Subscript(self, e, st, f):
        res, raised = self.seq([e.value, e.slice], st, f)
        out = raised
        for x, (b, i) in res:
            if not x.known(b):
                out.append((x, ('sub', b, i)))
            elif i[0] == 'const' and isinstance(i[1], int) and b[0] in ('list', 'tuple') and -len(b) + 1 <= i[1] < len(b) - 1 and not any(q[0] == 'star' for q in b[1:]):
                out.append((x, b[1:][i[1]]))
            elif b[0] == 'kwdict' and i[0] == 'const' and i[1] in dict(b[1]):
                out.append((x, dict(b[1])[i[1]]))
            elif b[0] == 'dict' and i[0] in ('const', 'enum'):
                hit = [p[2] for p in b[1:] if p[1] == i]
                out.append((x, hit[-1] if hit else ('sub', b, i)))
            else:
                out.append((x, ('sub', b, i)))
        return out

    def e_Slice(self, e, st, f):
        parts = [e.lower, e.upper, e.step]
        res, raised = self.seq([p if p is not None else ast.Constant(value=None) for p in parts], st, f)
        return raised + [(x, ('slice',) + tuple(ts)) for x, ts in res]

    def e_JoinedStr(self, e, st, f):
        return [(st, ('fstr',))]

    def e_Lambda(self, e, st, f):
        return [(st, ('func', Func(e, f.module, None, f)))]

    def e_ListComp(self, e, st, f):
        return self._comp(e, st, f, 'listcomp', [e.elt])

    def e_SetComp(self, e, st, f):
        return self._comp(e, st, f, 'setcomp', [e.elt])

    def e_GeneratorExp(self, e, st, f):
        return self._comp(e, st, f, 'gen', [e.elt])

    def e_DictComp(self, e, st, f):
        return self._comp(e, st, f, 'dictcomp', [e.key, e.value])

    def _comp(self, e, st, f, kind, elts):
        saved = dict(st.env)
        states = [st]
        its = []
        for g in e.generators:
            nxt = []
            for x in states:
                for y, t, o in self.ev(g.iter, x, f):
                    if o:
                        continue
                    its.append(t)
                    for z in self.assign(g.target, self.element(t, 0), y, f):
                        zs = [z]
                        for c in g.ifs:
                            zs = [w for q in zs for w, v, o2 in self.cond(c, q, f) if v and not o2]
                        nxt += zs
            states = nxt
        out = []
        for x in states:
            res, raised = self.seq(elts, x, f)
            for y, ts in res:
                y.env = dict(saved)
                out.append((y, (kind,) + tuple(ts) + (('over',) + tuple(its),)))
        if not out:
            st.env = saved
            out = [(st, (kind, ('unknown',)))]
        return out

    def e_Starred(self, e, st, f):
        return self.expr(e.value, st, f)

    def e_Yield(self, e, st, f):
        if e.value is None:
            return [(st, NONE)]
        return [(x, NONE) for x, t, o in self.ev(e.value, st, f)]

    def e_NamedExpr(self, e, st, f):
        out = []
        for x, t, o in self.ev(e.value, st, f):
            x.env[e.target.id] = t
            out.append((x, t))
        return out


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    return t
