"""Counts how often loops of the Python package pass, for a given value of one argument.

A small abstract interpreter: numbers, booleans and lengths of lists are known or unknown, an unknown condition takes both
branches, loops are followed while their condition can hold, own methods are followed.  States that agree are merged, so
the cost does not depend on the number of paths.  Nothing of the package is executed."""

import ast

from .pymodel import Class, Func

U = None
LIMIT = 4000
BUILTIN = {'len', 'range', 'abs', 'min', 'max', 'isinstance', 'list', 'tuple', 'dict', 'set', 'float', 'int', 'str', 'sum', 'enumerate', 'zip', 'sorted', 'print', 'bool', 'type', 'repr', 'round', 'format', 'map', 'any', 'all',
           'reversed', 'getattr', 'hasattr', 'id', 'iter', 'next', 'frozenset', 'super', 'callable', 'complex', 'pow', 'divmod'}
LISTOPS = {'append': 1, 'insert': 1, 'pop': -1, 'remove': -1, 'extend': None, 'clear': None, 'sort': 0, 'reverse': 0, 'copy': 0, 'index': 0, 'count': 0}


class Blown(Exception):
    pass


class S:
    __slots__ = ('env', 'attrs', 'heap', 'counts', 'next', 'vals')

    def __init__(self):
        self.env, self.attrs, self.heap, self.counts, self.next, self.vals = {}, {}, {}, {}, 0, {}

    def copy(self):
        s = S()
        s.env, s.attrs, s.heap, s.counts, s.next, s.vals = dict(self.env), dict(self.attrs), dict(self.heap), dict(self.counts), self.next, dict(self.vals)
        return s

    def new(self, n, vals=None):
        self.next += 1
        self.heap[self.next] = n
        if n == 0:
            vals = ()
        if vals is not None and len(vals) == n:
            self.vals[self.next] = vals     # the numbers in it, as far as they are known
        return ('L', self.next)

    def key(self):
        ren, out = {}, []
        for d in (self.env, self.attrs):
            for k in sorted(d):
                v = d[k]
                if v is None:
                    continue
                if isinstance(v, tuple) and v[0] == 'L':
                    if v[1] not in ren:
                        ren[v[1]] = len(ren)
                    v = ('L', ren[v[1]], self.heap.get(v[1]), repr(self.vals.get(v[1])))
                try:
                    hash(v)
                except TypeError:
                    v = repr(v)
                out.append((k, v))
            out.append('|')
        return tuple(out), tuple(sorted(self.counts.items()))


def merge(pairs):
    seen, out = set(), []
    for s, o in pairs:
        k = (s.key(), o if not isinstance(o, tuple) or o[0] != 'return' else ('return', repr(o[1]) if not (isinstance(o[1], tuple) and o[1] and o[1][0] == 'L') else s.heap.get(o[1][1])))
        if k not in seen:
            seen.add(k)
            out.append((s, o))
    return out


class Run:
    """mode 'passes': data loops run at most once and calls inside loops are counted; mode 'length': loops run several times and lengths of lists are followed"""

    def __init__(self, prog, mode, cap, given=None, fixed=None, data_len=None):
        self.prog, self.mode, self.cap = prog, mode, cap
        self.given = given or {}            # keyword arguments: name -> value
        self.fixed = fixed or {}            # attribute name -> value that assignments do not change
        self.stack, self.loops, self.steps = (), 0, 0
        self.uncounted = []                 # loops whose number of passes depends on fractions
        self.sites = {}
        self.top = None

    # -- entry
    recv = None

    def method(self, cls, f, s, args=(), kw=None, recv=None):
        out = []
        self.recv = recv or cls
        for x, o in self.call(cls, f, list(args), kw or {}, s, f.node):
            out.append((x, o))
        return out

    def call(self, cls, f, args, kw, s, node):
        """runs an own method in state s; [(state, returned value or ('raise',))]"""
        keep = s.env
        env = {}
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in getattr(f.node, 'decorator_list', []))
        if names and cls is not None and not static:
            env[names[0]] = ('self',)
            names = names[1:]
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults)) if a.defaults else {}
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            names.append(p.arg)
            if d is not None:
                defaults[p.arg] = d
        for i, n in enumerate(names):
            if i < len(args):
                env[n] = args[i]
            elif n in kw:
                env[n] = kw[n]
            elif n in defaults and isinstance(defaults[n], ast.Constant):
                env[n] = ('c', defaults[n].value)
            else:
                env[n] = U
        if a.kwarg:
            env[a.kwarg.arg] = ('kwargs',)
        if a.vararg:
            env[a.vararg.arg] = U
        s = s.copy()
        s.env = env
        ks, kl, kf = self.stack, self.loops, getattr(self, 'cur', None)
        self.stack, self.cur = self.stack + (id(node),), (cls, f)
        res = []
        try:
            for x, o in self.block(f.node.body, s):
                x.env = keep
                if o and o[0] == 'raise':
                    res.append((x, ('raise',)))
                else:
                    res.append((x, o[1] if o and o[0] == 'return' else ('c', None)))
        finally:
            self.stack, self.loops, self.cur = ks, kl, kf
        seen, out = set(), []
        for x, v in res:
            x = x.copy()
            x.env = dict(keep)
            k = (x.key(), v if not (isinstance(v, tuple) and v and v[0] == 'L') else ('L', x.heap.get(v[1])), repr(v) if v and v[0] != 'L' else '')
            if k not in seen:
                seen.add(k)
                out.append((x, v))
        return out

    # -- statements
    def block(self, body, s):
        live, out = [(s, None)], []
        for st in body:
            nxt = []
            for x, _ in live:
                for y, o in self.stmt(st, x):
                    (nxt if o is None else out).append((y, o))
            live = merge(nxt)
            if len(live) + len(out) > LIMIT:
                raise Blown('too many states')
        return merge(live + out)

    def stmt(self, st, s):
        self.steps += 1
        if self.steps > 400000:
            raise Blown('too many steps')
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            return [(s, None)]
        return m(st, s)

    def s_Expr(self, st, s):
        return [(x, ('raise',) if v == ('raise',) else None) for x, v in self.ev(st.value, s)]

    def s_Return(self, st, s):
        if st.value is None:
            return [(s, ('return', ('c', None)))]
        return [(x, ('raise',) if v == ('raise',) else ('return', v)) for x, v in self.ev(st.value, s)]

    def s_Raise(self, st, s):
        return [(s, ('raise',))]

    def s_Break(self, st, s):
        return [(s, ('break',))]

    def s_Continue(self, st, s):
        return [(s, ('continue',))]

    def s_Assign(self, st, s):
        out = []
        for x, v in self.ev(st.value, s):
            if v == ('raise',):
                out.append((x, ('raise',)))
                continue
            x = x.copy()
            for t in st.targets:
                self.store(t, v, x)
            out.append((x, None))
        return out

    def s_AnnAssign(self, st, s):
        if st.value is None:
            return [(s, None)]
        out = []
        for x, v in self.ev(st.value, s):
            x = x.copy()
            self.store(st.target, v, x)
            out.append((x, None))
        return out

    def s_AugAssign(self, st, s):
        out = []
        for x, v in self.ev(st.value, s):
            x = x.copy()
            old = self.load(st.target, x)
            if old and old[0] == 'L' and isinstance(st.op, ast.Add):
                n, m = x.heap.get(old[1]), x.heap.get(v[1]) if v and v[0] == 'L' else None
                m = 2 if m is None and self.two else m
                x.heap[old[1]] = None if n is None or m is None else n + m
            else:
                self.store(st.target, self.arith(st.op, old, v), x)
            out.append((x, None))
        return out

    def s_Delete(self, st, s):
        s = s.copy()
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                v = self.load(t.value, s)
                if v and v[0] == 'L' and s.heap.get(v[1]) is not None:
                    s.heap[v[1]] = None if isinstance(t.slice, ast.Slice) else s.heap[v[1]] - 1
        return [(s, None)]

    def s_If(self, st, s):
        out = []
        for x, b in self.test(st.test, s):
            out += self.block(st.body if b else st.orelse, x)
        return merge(out)

    def s_With(self, st, s):
        live = [s]
        for i in st.items:
            live = [x for y in live for x, _ in self.ev(i.context_expr, y)]
        return merge([r for x in live for r in self.block(st.body, x)])

    def s_Try(self, st, s):
        out, res = [], self.block(st.body, s)
        for x, o in res:
            if o is not None and o[0] == 'raise' and st.handlers:
                for h in st.handlers:
                    out += self.block(h.body, x)
            elif o is None and st.orelse:
                out += self.block(st.orelse, x)
            else:
                out.append((x, o))
        if st.finalbody:
            fin = []
            for x, o in out:
                for y, o2 in self.block(st.finalbody, x):
                    fin.append((y, o2 or o))
            out = fin
        return merge(out)

    def s_While(self, st, s):
        return self.loop(st, s, None)

    def s_For(self, st, s):
        out = []
        for x, it in self.ev(st.iter, s):
            if it == ('raise',):
                out.append((x, ('raise',)))
            else:
                out += self.loop(st, x, it)
        return merge(out)

    def loop(self, st, s, it):
        done, live, out, broke = [], [(s, None)], [], []
        seen = {s.key()}
        is_for = isinstance(st, ast.For)
        data = is_for and self.mode == 'passes' and self.length(it, s) is None and it != ('fractions',)
        self.loops += not data
        outer = self.loops == 1
        cap = self.cap + 4
        if is_for:
            n = self.length(it, s)
            exact = n is not None and n <= cap + 6
            most = n if exact else (1 if self.mode == 'passes' else cap)
            if it == ('fractions',) and outer:
                most = cap
                self.uncounted.append(st)
        else:
            exact, most = False, cap if outer or self.mode == 'length' else None
        i = 0
        while live:
            nxt = []
            if is_for:
                if not exact:
                    done += [x for x, _ in live]
                elif i == n:
                    done += [x for x, _ in live]
                    break
                if i >= most:
                    break
                go = []
                for x, _ in live:
                    x = x.copy()
                    self.store(st.target, self.item(it, i), x)
                    go.append(x)
            else:
                go = []
                unknown = False
                for x, _ in live:
                    self.asking += 1
                    r = self.test(st.test, x)
                    self.asking -= 1
                    unknown = unknown or len({b for _, b in r}) > 1
                    for y, b in r:
                        (go if b else done).append(y)
                if most is None and unknown and i >= 1:
                    break
                if i >= cap:
                    break
            for x in go:
                for y, o in self.block(st.body, x):
                    if o is None or o[0] == 'continue':
                        nxt.append((y, None))
                    elif o[0] == 'break':
                        broke.append((y, None))
                    else:
                        out.append((y, o))
            live = []
            for y, o in merge(nxt):
                k = y.key()
                if exact or k not in seen:
                    seen.add(k)
                    live.append((y, o))
            i += 1
            if len(live) + len(out) + len(done) > LIMIT:
                raise Blown('too many states')
        self.loops -= not data
        ends = merge([(x, None) for x in done])
        if st.orelse:
            ends = [r for x, _ in ends for r in self.block(st.orelse, x)]
        return merge(ends + broke + out)

    def length(self, it, s):
        if it is None:
            return None
        if it[0] == 'L' and self.mode == 'passes':
            return None
        if it[0] == 'L':
            return s.heap.get(it[1])
        if it[0] == 'R':
            return len(range(*it[1:]))
        if it[0] == 'enum':
            return self.length(it[1], s)
        return None

    def item(self, it, i):
        if it is not None and it[0] == 'R':
            return ('c', range(*it[1:])[i])
        if it is not None and it[0] == 'enum':
            return ('T', (('c', i), self.item(it[1], i)))
        return U

    # -- places
    def store(self, t, v, s):
        if isinstance(t, ast.Name):
            s.env[t.id] = v
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and s.env.get(t.value.id) == ('self',):
            s.attrs[t.attr] = self.fixed.get(t.attr, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v[1] if v and v[0] == 'T' and len(v[1]) == len(t.elts) else [U] * len(t.elts)
            for x, w in zip(t.elts, vs):
                self.store(x.value if isinstance(x, ast.Starred) else x, w, s)

    def load(self, e, s):
        if isinstance(e, ast.Name):
            return s.env.get(e.id, U)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and s.env.get(e.value.id) == ('self',):
            if e.attr in s.attrs:
                return s.attrs[e.attr]
            cls = self.cur[0]
            c = cls.find_attr(e.attr) if cls else None
            if isinstance(c, ast.Constant):
                return ('c', c.value)
            return U
        return U

    def arith(self, op, a, b):
        if a and b and a[0] == 'c' and b[0] == 'c':
            try:
                return ('c', {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y, ast.FloorDiv: lambda x, y: x // y, ast.Mod: lambda x, y: x % y,
                              ast.Div: lambda x, y: x / y, ast.Pow: lambda x, y: x ** y}[type(op)](a[1], b[1]))
            except Exception:
                return U
        return U

    # -- expressions: [(state, value)]
    def test(self, e, s):
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            live, out = [s], []
            for v in e.values:
                nxt = []
                for x in live:
                    for y, b in self.test(v, x):
                        (out.append((y, b)) if b == stop else nxt.append(y))
                live = nxt
            return out + [(x, not stop) for x in live]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, not b) for x, b in self.test(e.operand, s)]
        out = []
        for x, v in self.ev(e, s):
            if v == ('raise',):
                continue
            b = self.truth(v, x)
            out += [(x, True), (x, False)] if b is None else [(x, b)]
        return out

    def truth(self, v, s):
        if v is None:
            return None
        if v[0] == 'c':
            return bool(v[1])
        if v[0] == 'L':
            n = s.heap.get(v[1])
            return None if n is None else n > 0
        if v[0] == 'R':
            return len(range(*v[1:])) > 0
        return None

    def many(self, es, s):
        live = [(s, [])]
        for e in es:
            live = [(y, vs + [v]) for x, vs in live for y, v in self.ev(e.value if isinstance(e, ast.Starred) else e, x)]
        return live

    def ev(self, e, s):
        if e is None:
            return [(s, ('c', None))]
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return [(s, U)]
        return m(e, s)

    def e_Constant(self, e, s):
        return [(s, ('c', e.value))]

    def e_Name(self, e, s):
        return [(s, self.load(e, s))]

    def e_Attribute(self, e, s):
        if isinstance(e.value, ast.Name) and s.env.get(e.value.id) == ('self',):
            return [(s, self.load(e, s))]
        return [(x, U) for x, _ in self.ev(e.value, s)]

    def e_Subscript(self, e, s):
        out = []
        for x, v in self.ev(e.value, s):
            for y, i in (self.ev(e.slice, x) if not isinstance(e.slice, ast.Slice) else [(x, U)]):
                if v and v[0] == 'L' and isinstance(e.slice, ast.Slice):
                    y = y.copy()
                    out.append((y, y.new(y.heap.get(v[1]) if e.slice.lower is None and e.slice.upper is None and e.slice.step is None else None)))
                elif v and v[0] == 'T' and i and i[0] == 'c' and isinstance(i[1], int) and -len(v[1]) <= i[1] < len(v[1]):
                    out.append((y, v[1][i[1]]))
                else:
                    out.append((y, U))
        return out

    def e_BinOp(self, e, s):
        out = []
        for x, (a, b) in self.many([e.left, e.right], s):
            if a and a[0] == 'L' and isinstance(e.op, ast.Add) and b and b[0] == 'L':
                x = x.copy()
                n, m = x.heap.get(a[1]), x.heap.get(b[1])
                out.append((x, x.new(None if n is None or m is None else n + m)))
            elif a and a[0] == 'L' and isinstance(e.op, ast.Mult):
                x = x.copy()
                n = x.heap.get(a[1])
                out.append((x, x.new(n * b[1] if n is not None and b and b[0] == 'c' and isinstance(b[1], int) else None)))
            else:
                out.append((x, self.arith(e.op, a, b)))
        return out

    def e_UnaryOp(self, e, s):
        if isinstance(e.op, ast.Not):
            return [(x, ('c', b)) for x, b in self.test(e, s)]
        return [(x, ('c', -v[1]) if v and v[0] == 'c' and isinstance(e.op, ast.USub) and isinstance(v[1], (int, float)) else v if isinstance(e.op, ast.UAdd) else U) for x, v in self.ev(e.operand, s)]

    def e_BoolOp(self, e, s):
        return [(x, ('c', b)) for x, b in self.test(e, s)]

    def e_IfExp(self, e, s):
        return [r for x, b in self.test(e.test, s) for r in self.ev(e.body if b else e.orelse, x)]

    def e_NamedExpr(self, e, s):
        out = []
        for x, v in self.ev(e.value, s):
            x = x.copy()
            self.store(e.target, v, x)
            out.append((x, v))
        return out

    def e_Compare(self, e, s):
        out = []
        for x, vs in self.many([e.left] + e.comparators, s):
            r = True
            for op, a, b in zip(e.ops, vs, vs[1:]):
                c = self.compare(op, a, b, x)
                if c is None:
                    r = None
                elif not c:
                    r = False
                    break
            out.append((x, U if r is None else ('c', r)))
        return out

    def compare(self, op, a, b, s):
        if a and b and a[0] == 'c' and b[0] == 'c':
            try:
                return {ast.Lt: lambda p, q: p < q, ast.LtE: lambda p, q: p <= q, ast.Gt: lambda p, q: p > q, ast.GtE: lambda p, q: p >= q, ast.Eq: lambda p, q: p == q, ast.NotEq: lambda p, q: p != q,
                        ast.Is: lambda p, q: p is q or p == q and type(p) is type(q), ast.IsNot: lambda p, q: not (p is q or p == q and type(p) is type(q))}[type(op)](a[1], b[1])
            except Exception:
                return None
        for p, q in ((a, b), (b, a)):
            if p == ('c', None) and q and q[0] in ('L', 'R', 'self', 'kwargs'):
                return isinstance(op, (ast.IsNot, ast.NotEq))
        return None

    def e_Tuple(self, e, s):
        return [(x, ('T', tuple(v))) for x, v in self.many(e.elts, s)]

    def e_List(self, e, s):
        out = []
        for x, v in self.many(e.elts, s):
            x = x.copy()
            out.append((x, x.new(None if any(isinstance(y, ast.Starred) for y in e.elts) else len(v), tuple(y[1] if y and y[0] == 'c' else None for y in v))))
        return out

    def e_Dict(self, e, s):
        return [(x, U) for x, _ in self.many([v for v in e.values], s)]

    def e_ListComp(self, e, s):
        out = []
        g = e.generators[0]
        for x, it in self.ev(g.iter, s):
            x = x.copy()
            n = self.length(it, x) if len(e.generators) == 1 and not g.ifs else None
            out.append((x, x.new(n)))
        return out

    def e_JoinedStr(self, e, s):
        return [(s, U)]

    def e_Call(self, e, s):
        f = e.func
        out = []
        named = {}
        for x, vs in self.many(list(e.args) + [k.value for k in e.keywords], s):
            args = vs[:len(e.args)]
            kw = {k.arg: v for k, v in zip(e.keywords, vs[len(e.args):])}
            if any(isinstance(a, ast.Starred) for a in e.args):
                args, kw = [], {}
            out += self.apply(e, f, args, kw, x)
        return out

    def count(self, e, s):
        if self.mode == 'passes' and self.loops > 0 and not self.quiet and not self.asking:
            s = s.copy()
            k = (e.lineno, e.col_offset, e.end_lineno, e.end_col_offset) + self.stack
            s.counts[k] = min(s.counts.get(k, 0) + 1, self.cap + 3)
            self.sites[k] = e
        return s

    quiet = False
    asking = 0
    two = False         # a cluster that is split becomes two
    only = None         # no other method is followed, unless it has no loops
    on_call = None

    def apply(self, e, f, args, kw, s):
        if isinstance(f, ast.Name):
            if f.id in BUILTIN or f.id.endswith(('Error', 'Exception')):
                return self.builtin(f.id, args, kw, s)
            s = self.count(e, s)
            if self.on_call:
                self.on_call(f.id, args, kw, s, e)
            return [(s, U)]
        if isinstance(f, ast.Attribute):
            base = f.value
            if isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id == 'super' and self.cur[0] is not None:
                s = self.count(e, s)
                mro = [c for c in self.cur[0].mro() if hasattr(c, 'methods')]
                m = next((c.methods[f.attr] for c in mro[1:] if f.attr in c.methods), None)
                if m is not None and len(self.stack) < 9 and id(e) not in self.stack:
                    return self.call(m.cls or self.cur[0], m, args, kw, s, e)
                return [(s, U)]
            if isinstance(base, ast.Name) and s.env.get(base.id) == ('self',):
                cls = self.cur[0]
                m = (self.recv or cls).find(cls.mangle(f.attr)) if cls else None
                s = self.count(e, s)
                if m is not None and len(self.stack) < 9 and id(e) not in self.stack and self.worth(m, args + list(kw.values())):
                    return self.call(m.cls or cls, m, args, kw, s, e) if isinstance(m, Func) else [(s, U)]
                return [(s, U)]
            if isinstance(base, ast.Name) and s.env.get(base.id) == ('kwargs',) and f.attr in ('get', 'pop'):
                n = args[0][1] if args and args[0] and args[0][0] == 'c' else None
                if n in self.given:
                    return [(s, self.given[n])]
                return [(s, args[1] if len(args) > 1 and n in self.defaults_known else U if n not in self.use_defaults else args[1] if len(args) > 1 else ('c', None))]
            if f.attr == 'arange':
                if args and all(a and a[0] == 'c' and isinstance(a[1], int) for a in args):
                    return [(s, ('R',) + tuple(a[1] for a in (args if len(args) > 1 else [('c', 0)] + args)))]
                return [(s, ('fractions',))]
            out = []
            for x, v in self.ev(base, s):
                if v and v[0] == 'L' and f.attr in LISTOPS:
                    x = x.copy()
                    n = x.heap.get(v[1])
                    d = LISTOPS[f.attr]
                    if f.attr == 'copy':
                        out.append((x, x.new(n)))
                        continue
                    if f.attr == 'clear':
                        n, d = 0, 0
                    if f.attr == 'extend':
                        d = self.length(args[0], x) if args else None
                    x.heap[v[1]] = None if n is None or d is None else max(n + d, 0)
                    if f.attr == 'append' and v[1] in x.vals and args and len(x.vals[v[1]]) < 12:
                        x.vals[v[1]] += (args[0][1] if args[0] and args[0][0] == 'c' else None,)
                    else:
                        x.vals.pop(v[1], None)
                    out.append((x, U))
                else:
                    out.append((self.count(e, x), U))
            return out
        return [(self.count(e, x), U) for x, _ in self.ev(f, s)]

    names = frozenset()
    light = False

    def worth(self, m, args=()):
        """when passes are counted, only methods that have no loops or name the budget are followed"""
        if self.only is not None and any(isinstance(x, (ast.For, ast.While)) for x in ast.walk(m.node)):
            return False
        if self.light and (self.loops or not any(a is not None for a in args)) and any(isinstance(x, (ast.For, ast.While)) for x in ast.walk(m.node)):
            return False
        if self.mode != 'passes' or self.quiet or not self.names and not self.loops:
            return True
        loops = False
        for x in ast.walk(m.node):
            if isinstance(x, ast.Attribute) and x.attr in self.names:
                return True
            loops = loops or isinstance(x, (ast.For, ast.While))
        return not loops

    use_defaults = frozenset()
    defaults_known = frozenset()

    def builtin(self, n, args, kw, s):
        a = args[0] if args else U
        if n == 'len':
            v = self.length(a, s)
            return [(s, U if v is None else ('c', v))]
        if n == 'range':
            if args and all(x and x[0] == 'c' and isinstance(x[1], int) for x in args):
                return [(s, ('R',) + tuple(x[1] for x in (args if len(args) > 1 else [('c', 0)] + args)) )]
            return [(s, U)]
        if n in ('list', 'sorted', 'reversed', 'set', 'tuple'):
            s = s.copy()
            k = self.length(a, s) if args else 0
            return [(s, s.new(k if n != 'set' or k == 0 else None))]
        if n == 'enumerate' and args:
            return [(s, ('enum', a))]
        if n in ('int', 'bool', 'abs', 'min', 'max', 'float', 'round') and args and all(x and x[0] == 'c' for x in args) and not kw:
            try:
                return [(s, ('c', getattr(__builtins__, n, None)(*[x[1] for x in args]) if not isinstance(__builtins__, dict) else __builtins__[n](*[x[1] for x in args])))]
            except Exception:
                return [(s, U)]
        return [(s, U)]
