"""Path-enumerating abstract executor over the C++ facts (clang syntax trees).

Values are terms; undecided conditions fork; loops run zero or one abstract iteration; calls of functions of the
library that have a body are inlined on demand.  An object is identified by the term that denotes it (pointer,
reference and object are the same term), so its fields live under the key ('f', object, name)."""

import re

from . import cxx

UNDEF = ('undef',)


class TooManyPaths(Exception):
    pass


class St:
    __slots__ = ('env', 'trace', 'conds', 'n', 'x')

    def __init__(self):
        self.env, self.trace, self.conds, self.n, self.x = {}, (), (), 0, {}

    def copy(self):
        s = St()
        s.env, s.trace, s.conds, s.n, s.x = dict(self.env), self.trace, self.conds, self.n, dict(self.x)
        return s

    def emit(self, e):
        self.trace = (self.trace, e)

    def events(self):
        out, t = [], self.trace
        while t:
            t, e = t
            out.append(e)
        return out[::-1]

    def cond_list(self):
        out, t = [], self.conds
        while t:
            t, e = t
            out.append(e)
        return out[::-1]


class Ev:
    """kind: call (q, base term, base key, args), set (key, value), draw..., throw, return"""
    __slots__ = ('kind', 'q', 'base', 'key', 'args', 'node', 'func', 'keys')

    def __init__(self, kind, node, func, q=None, base=None, key=None, args=(), keys=()):
        self.kind, self.node, self.func, self.q, self.base, self.key, self.args, self.keys = kind, node, func, q, base, key, args, keys

    def __repr__(self):
        return '%s %s %s(%s) L%s' % (self.kind, show(self.base), self.q, ', '.join(show(a) for a in self.args), self.node.get('l'))


def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if d > 6:
        return '..'
    k = t[0]
    if k == 'const':
        return str(t[1])
    if k in ('param', 'glob', 'fn'):
        return str(t[1]).split('::')[-1]
    if k == 'this':
        return 'this'
    if k == 'f':
        return show(t[1], d + 1) + '.' + t[2]
    if k == 'v':
        return 'v%d' % (t[1] % 1000)
    if k == 'call':
        return '%s(%s)' % (str(t[1]).split('::')[-1], ', '.join(show(x, d + 1) for x in t[2:]))
    if k == 'op':
        return '(%s)' % ((' %s ' % t[1]).join(show(x, d + 1) for x in t[2:])) if len(t) > 3 else '%s%s' % (t[1], show(t[2], d + 1))
    return '%s(%s)' % (k, ', '.join(show(x, d + 1) if isinstance(x, tuple) else repr(x) for x in t[1:]))


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def is_ref(t):
    return t.rstrip().endswith('&')


class Exec:
    def __init__(self, facts, inline=None, max_depth=10, max_paths=4000, on_call=None, on_cond=None, merge_key=None, loops=(0, 1)):
        self.F = facts
        self.inline = inline or (lambda f, st: True)
        self.max_depth, self.max_paths = max_depth, max_paths
        self.on_call, self.on_cond, self.merge_key = on_call, on_cond, merge_key
        self.loops = loops
        self.depth = 0
        self.stack = []

    # entry
    def run(self, f, this=('this',), args=None, st=None):
        st = st or St()
        vals = []
        for i, p in enumerate(f['params']):
            v = (args or {}).get(p['n'], (args or {}).get(i, ('param', p['n'])))
            vals.append((v, None))
        return self.enter(f, this, vals, st)

    def enter(self, f, this, vals, st):
        """[(state, outcome)]; outcome is ('return', value) or ('throw', term)"""
        st = st.copy()
        saved = (st.env.get('#this'),)
        st.env['#this'] = this
        for p, (v, key) in zip(f['params'], vals):
            if key is not None and is_ref(p['t']):
                st.env[('v', p['id'])] = ('alias', key)
            else:
                st.env[('v', p['id'])] = v
        self.depth += 1
        self.stack.append(f)
        res = []
        states = [st]
        for i in f.get('inits', []):
            nxt = []
            for s in states:
                for s2, v, _ in (self.ev(cxx.ch(i)[0], s, f) if cxx.ch(i) and cxx.ch(i)[0] else [(s, UNDEF, None)]):
                    if i.get('n'):
                        self.put(s2, ('f', this, i['n']), self.lift(v), i, f)
                    elif v[0] == 'obj':       # base or delegating constructor ran on a fresh object: move its fields
                        self.move(s2, v, this)
                    nxt.append(s2)
            states = nxt
        if f.get('body'):
            for s in states:
                res += self.st_(f['body'], s, f)
        else:
            res = [(s, None) for s in states]
        self.stack.pop()
        self.depth -= 1
        out = []
        for s, o in res:
            s.env['#this'] = saved[0]
            out.append((s, o if o and o[0] in ('return', 'throw') else ('return', UNDEF)))
        return self.merge(out)

    def move(self, st, a, b):
        for k in list(st.env):
            if isinstance(k, tuple) and k[0] == 'f' and k[1] == a:
                st.env[('f', b, k[2])] = st.env.pop(k)

    def lift(self, v):
        return v

    def merge(self, res):
        if self.merge_key is None:
            if len(res) > self.max_paths:
                raise TooManyPaths()
            return res
        seen = {}
        for s, o in res:
            k = (self.merge_key(s), o[0] if o else None, o[1] if o and o[0] == 'return' and len(str(o[1])) < 400 else None)
            if k not in seen:
                seen[k] = (s, o)
            else:
                self.join(seen[k][0], s)
        out = list(seen.values())
        if len(out) > self.max_paths:
            raise TooManyPaths()
        return out

    def join(self, a, b):
        for k in list(a.env):
            if a.env[k] != b.env.get(k):
                if k == '#this' or (a.env[k] and a.env[k][0] == 'alias'):
                    continue
                o = b.env.get(k)
                if o is None:
                    continue
                a.env[k] = ('phi',) + tuple(sorted(set(self.phi(a.env[k]) + self.phi(o)), key=repr))[:6]
        for k in b.env:
            a.env.setdefault(k, b.env[k])

    def phi(self, t):
        return list(t[1:]) if t[0] == 'phi' else [t]

    # memory
    def resolve(self, st, key):
        n = 0
        while key in st.env and st.env[key] and st.env[key][0] == 'alias' and n < 20:
            key = st.env[key][1]
            n += 1
        return key

    def get(self, st, key):
        key = self.resolve(st, key)
        v = st.env.get(key)
        return v if v is not None else key

    def put(self, st, key, v, node, f):
        key = self.resolve(st, key)
        st.env[key] = v
        if key[0] != 'v':
            st.emit(Ev('set', node, f, key=key, args=(v,)))

    def fresh(self, st, what):
        st.n += 1
        return ('obj', st.n, what)

    # statements: [(state, outcome)]
    def st_(self, n, st, f):
        if n is None:
            return [(st, None)]
        m = getattr(self, 's_' + n['k'], None)
        if m:
            return m(n, st, f)
        out = []
        for s, v, _ in self.ev(n, st, f):
            out.append((s, ('throw', v[1]) if v[0] == 'THROW' else None))
        return out

    def seq(self, kids, st, f):
        live, done = [(st)], []
        for k in kids:
            nxt = []
            for s in live:
                for s2, o in self.st_(k, s, f):
                    (done.append((s2, o)) if o else nxt.append((s2, None)))
            live = [s for s, _ in self.merge(nxt)]
            if not live:
                break
        return self.merge(done + [(s, None) for s in live])

    def s_CompoundStmt(self, n, st, f):
        return self.seq(cxx.ch(n), st, f)

    def s_NullStmt(self, n, st, f):
        return [(st, None)]

    def s_DeclStmt(self, n, st, f):
        live = [st]
        out = []
        for d in n.get('d', []):
            nxt = []
            for s in live:
                if d.get('static'):
                    nxt.append(s)
                    continue
                if not cxx.ch(d) or cxx.ch(d)[0] is None:
                    s.env[('v', d['id'])] = UNDEF
                    nxt.append(s)
                    continue
                for s2, v, key in self.ev(cxx.ch(d)[0], s, f):
                    if v[0] == 'THROW':
                        out.append((s2, ('throw', v[1])))
                        continue
                    if key is not None and is_ref(d['t']):
                        s2.env[('v', d['id'])] = ('alias', key)
                    else:
                        s2.env[('v', d['id'])] = v
                    nxt.append(s2)
            live = nxt
        return out + [(s, None) for s in live]

    def s_IfStmt(self, n, st, f):
        c = cxx.ch(n) + [None] * 4
        out = []
        pre = [(st, None)]
        if c[0]:
            pre = self.st_(c[0], st, f)
        if n.get('cv'):
            pre = [(s2, o2) for s, o in pre for s2, o2 in self.s_DeclStmt({'d': [n['cv']]}, s, f)]
        for s, o in pre:
            if o:
                out.append((s, o))
                continue
            for s2, b in self.cond(c[1], s, f):
                if b is None:
                    out.append((s2, ('throw', UNDEF)))
                else:
                    out += self.st_(c[2] if b else c[3], s2, f)
        return self.merge(out)

    def cond(self, n, st, f):
        """[(state, True/False/None=throws)]"""
        if n is None:
            return [(st, True)]
        k, op = n['k'], n.get('op')
        if k == 'BinaryOperator' and op in ('&&', '||'):
            out = []
            for s, b in self.cond(cxx.ch(n)[0], st, f):
                if b is None or b == (op == '||'):
                    out.append((s, b))
                else:
                    out += self.cond(cxx.ch(n)[1], s, f)
            return out
        if k == 'UnaryOperator' and op == '!':
            return [(s, None if b is None else not b) for s, b in self.cond(cxx.ch(n)[0], st, f)]
        out = []
        for s, v, _ in self.ev(n, st, f):
            if v[0] == 'THROW':
                out.append((s, None))
                continue
            t = self.truth(v)
            if t is None and self.on_cond:
                t = self.on_cond(self, v, s, n, f)
            if t is None:
                for c, b in self.known(s, v):
                    t = b
                    break
            if t is not None:
                out.append((s, t))
            else:
                a = s.copy()
                a.conds = (a.conds, (v, True))
                s.conds = (s.conds, (v, False))
                out += [(a, True), (s, False)]
        return out

    def known(self, st, v):
        t = st.conds
        while t:
            t, (c, b) = t
            if c == v and not any(x[0] in ('call', 'phi', 'obj') for x in subterms(v)):
                yield c, b

    def truth(self, v):
        if v[0] == 'const':
            if isinstance(v[1], (bool, int, float)):
                return bool(v[1])
            return None
        if v[0] in ('obj', 'this', 'fn', 'lambda'):
            return True
        if v[0] == 'op' and v[1] == '!':
            t = self.truth(v[2])
            return None if t is None else not t
        return None

    def loop(self, n, st, f, cond, inc, body, first=True, var=None):
        out = []
        ent = self.cond(cond, st, f) if (cond is not None and first) else [(st, None if cond is not None else True)]
        if cond is not None and not first:
            ent = [(st, True)]
        for s, b in ent:
            if b is None:
                out.append((s, ('throw', UNDEF)))
                continue
            if not b:
                out.append((s, None))
                continue
            if 1 not in self.loops:
                out.append((s, None))
                continue
            s.emit(Ev('loop', n, f, args=(('const', True),)))
            if var is not None:
                var(s)
            for s2, o in self.st_(body, s, f):
                if o and o[0] == 'break':
                    s2.emit(Ev('loop', n, f, args=(('const', False),)))
                    out.append((s2, None))
                elif o and o[0] in ('return', 'throw'):
                    out.append((s2, o))
                else:
                    post = [(s2, None)]
                    if inc is not None:
                        post = self.st_(inc, s2, f)
                    for s3, o3 in post:
                        s3.emit(Ev('loop', n, f, args=(('const', False),)))
                        # variables changed by the loop: further iterations are not distinguished
                        out.append((s3, None))
        return self.merge(out)

    def s_ForStmt(self, n, st, f):
        c = cxx.ch(n) + [None] * 4
        out = []
        for s, o in self.st_(c[0], st, f):
            out += [(s, o)] if o else self.loop(n, s, f, c[1], c[2], c[3])
        return out

    def s_WhileStmt(self, n, st, f):
        c = cxx.ch(n)
        return self.loop(n, st, f, c[0], None, c[1])

    def s_DoStmt(self, n, st, f):
        c = cxx.ch(n)
        out = []
        for s, o in self.loop(n, st, f, c[1], None, c[0], first=False):
            if o:
                out.append((s, o))
                continue
            for s2, v, _ in self.ev(c[1], s, f):
                out.append((s2, None))
        return self.merge(out)

    def s_CXXForRangeStmt(self, n, st, f):
        c = cxx.ch(n)
        out = []
        for s, v, key in self.ev(c[0], st, f):
            if v[0] == 'THROW':
                out.append((s, ('throw', v[1])))
                continue
            z = s.copy()
            out.append((z, None))

            def var(s3, v=v, key=key):
                d = n.get('v')
                if isinstance(d, dict):
                    el = ('elem', key if key is not None and v[0] not in ('obj', 'param') else v)
                    if is_ref(d['t']):
                        s3.env[('v', d['id'])] = ('alias', el)
                    else:
                        s3.env[('v', d['id'])] = el
            out += self.loop(n, s, f, None, None, c[1], var=var)
        return self.merge(out)

    def s_SwitchStmt(self, n, st, f):
        out = []
        c = cxx.ch(n)
        kids = cxx.ch(c[1]) if c[1] and c[1]['k'] == 'CompoundStmt' else [c[1]]
        flat, labels = [], []
        for k in kids:
            while k is not None and k['k'] in ('CaseStmt', 'DefaultStmt'):
                kk = cxx.ch(k)
                labels.append((len(flat), kk[0] if k['k'] == 'CaseStmt' else None))
                k = kk[-1]
            flat.append(k)
        for s, v, _ in self.ev(c[0], st, f):
            taken = None
            consts = []
            for at, lab in labels:
                if lab is not None:
                    r = self.ev(lab, s.copy(), f)
                    lv = r[0][1]
                    consts.append((at, lv))
                    if v[0] == 'const' and lv == v:
                        taken = at
            dflt = [at for at, lab in labels if lab is None]
            if v[0] == 'const':
                targets = [taken] if taken is not None else (dflt or [None])
                targets = [(t, None) for t in targets]
            else:
                targets = [(at, ('op', '==', v, lv)) for at, lv in consts] + [(dflt[0] if dflt else None, None)]
            for at, cnd in targets:
                s2 = s.copy()
                if cnd:
                    s2.conds = (s2.conds, (cnd, True))
                if at is None:
                    out.append((s2, None))
                    continue
                for s3, o in self.seq(flat[at:], s2, f):
                    out.append((s3, None if o and o[0] == 'break' else o))
        return self.merge(out)

    def s_BreakStmt(self, n, st, f):
        return [(st, ('break',))]

    def s_ContinueStmt(self, n, st, f):
        return [(st, ('continue',))]

    def s_ReturnStmt(self, n, st, f):
        c = cxx.ch(n)
        if not c or c[0] is None:
            return [(st, ('return', UNDEF))]
        out = []
        for s, v, key in self.ev(c[0], st, f):
            out.append((s, ('throw', v[1]) if v[0] == 'THROW' else ('return', v, key)))
        return out

    def s_CXXTryStmt(self, n, st, f):
        c = cxx.ch(n)
        out = []
        for s, o in self.st_(c[0], st.copy(), f):
            if o and o[0] == 'throw':
                if not self.handlers(c[1:], s, f, out):
                    out.append((s, o))
            else:
                out.append((s, o))
        # an exception thrown by a call inside
        s = st.copy()
        s.emit(Ev('caught', n, f))
        self.handlers(c[1:], s, f, out)
        return self.merge(out)

    def handlers(self, hs, st, f, out):
        for h in hs:
            out += self.st_(cxx.ch(h)[0], st.copy(), f)
        return bool(hs)

    # expressions: [(state, value, key)]
    def ev(self, n, st, f):
        if n is None:
            return [(st, UNDEF, None)]
        m = getattr(self, 'e_' + n['k'], None)
        if m:
            return m(n, st, f)
        return self.generic(n, st, f)

    def evs(self, kids, st, f):
        """[(state, [values], [keys])]"""
        out = [(st, [], [])]
        for k in kids:
            nxt = []
            for s, vs, ks in out:
                if vs and vs[-1][0] == 'THROW':
                    nxt.append((s, vs, ks))
                    continue
                for s2, v, key in self.ev(k, s, f):
                    nxt.append((s2, vs + [v], ks + [key]))
            out = nxt
        return out

    def generic(self, n, st, f):
        return [(s, vs[-1] if vs and vs[-1][0] == 'THROW' else ('x', n['k']) + tuple(vs), None) for s, vs, ks in self.evs(cxx.ch(n), st, f)]

    def e_IntegerLiteral(self, n, st, f):
        return [(st, ('const', int(n['v'])), None)]

    def e_FloatingLiteral(self, n, st, f):
        try:
            return [(st, ('const', float(n['v'])), None)]
        except ValueError:
            return [(st, ('const', n['v']), None)]

    def e_CXXBoolLiteralExpr(self, n, st, f):
        return [(st, ('const', n['v'] == 'true'), None)]

    def e_StringLiteral(self, n, st, f):
        return [(st, ('const', n.get('v', '')), None)]

    def e_CXXNullPtrLiteralExpr(self, n, st, f):
        return [(st, ('const', 0), None)]

    def e_CXXThisExpr(self, n, st, f):
        return [(st, st.env.get('#this') or ('this',), None)]

    def e_DeclRefExpr(self, n, st, f):
        if n.get('dk') == 'EnumConstant':
            return [(st, ('const', n.get('ev')), None)]
        if n.get('dk') in ('Function', 'CXXMethod', 'CXXConstructor'):
            return [(st, ('fn', n.get('r')), None)]
        if 'id' in n:
            key = self.resolve(st, ('v', n['id']))
            return [(st, self.get(st, key), key)]
        q = n.get('r')
        m = re.fullmatch(r'std::integral_constant<bool, (true|false)>::value', q or '')
        if m:
            return [(st, ('const', 1 if m.group(1) == 'true' else 0), None)]
        g = self.F.globals.get(q)
        if g is not None and cxx.ch(g) and cxx.ch(g)[0] is not None and 'const' in g.get('t', ''):
            r = self.ev(cxx.ch(g)[0], St(), f)
            if r[0][1][0] == 'const' or r[0][1][0] == 'op':
                return [(st, ('named', q, r[0][1]), None)]
        key = ('glob', q)
        return [(st, self.get(st, key), key)]

    def e_MemberExpr(self, n, st, f):
        if n.get('dk') in ('CXXMethod', 'Function'):
            return [(s, ('method', v, n.get('r')), None) for s, v, k in self.ev(cxx.ch(n)[0], st, f)] if cxx.ch(n) else [(st, ('fn', n.get('r')), None)]
        if not cxx.ch(n):
            key = ('glob', n.get('r'))
            return [(st, self.get(st, key), key)]
        out = []
        for s, v, k in self.ev(cxx.ch(n)[0], st, f):
            if v[0] == 'THROW':
                out.append((s, v, None))
                continue
            base = v if v not in (UNDEF,) and v[0] != 'const' else (k or v)
            key = self.resolve(s, ('f', base, n['n']))
            out.append((s, self.get(s, key), key))
        return out

    def e_UnaryOperator(self, n, st, f):
        op = n['op']
        out = []
        for s, v, k in self.ev(cxx.ch(n)[0], st, f):
            if v[0] == 'THROW':
                out.append((s, v, None))
            elif op in ('*', '&'):
                if op == '&' and (v == UNDEF or v[0] in ('const',)) and k is not None:
                    out.append((s, ('addr', k), None))
                elif op == '*' and v[0] == 'addr':
                    out.append((s, self.get(s, v[1]), self.resolve(s, v[1])))
                else:
                    out.append((s, v, k if op == '&' else (k or v)))
            elif op in ('++', '--'):
                nv = self.arith(op[0], v, ('const', 1))
                if k is not None:
                    self.put(s, k, nv, n, f)
                out.append((s, v if n.get('post') else nv, k))
            elif op == '!':
                t = self.truth(v)
                out.append((s, ('const', not t) if t is not None else ('op', '!', v), None))
            elif op == '-' and v[0] == 'const' and isinstance(v[1], (int, float)):
                out.append((s, ('const', -v[1]), None))
            else:
                out.append((s, ('op', op, v), None))
        return out

    def arith(self, op, a, b):
        x = a[2] if a[0] == 'named' else a
        y = b[2] if b[0] == 'named' else b
        if x[0] == 'const' and y[0] == 'const' and isinstance(x[1], (int, float)) and isinstance(y[1], (int, float)):
            u, v = x[1], y[1]
            try:
                r = {'+': lambda: u + v, '-': lambda: u - v, '*': lambda: u * v, '<': lambda: u < v, '>': lambda: u > v, '<=': lambda: u <= v,
                     '>=': lambda: u >= v, '==': lambda: u == v, '!=': lambda: u != v}.get(op)
                if r:
                    return ('const', r())
            except Exception:
                pass
        if op in ('==', '<=', '>=') and a == b and a[0] in ('param', 'v', 'f', 'this', 'obj'):
            return ('const', True)
        if op in ('!=', '<', '>') and a == b and a[0] in ('param', 'v', 'f', 'this', 'obj'):
            return ('const', False)
        return ('op', op, a, b)

    def e_BinaryOperator(self, n, st, f):
        op = n['op']
        l, r = cxx.ch(n)
        if op in ('&&', '||'):
            return [(s, UNDEF if b is None else ('const', b), None) for s, b in self.cond(n, st, f)]
        out = []
        if op == '=':
            for s, vs, ks in self.evs([r, l], st, f):
                if vs[-1][0] == 'THROW':
                    out.append((s, vs[-1], None))
                    continue
                if ks[1] is not None:
                    self.put(s, ks[1], vs[0], n, f)
                out.append((s, vs[0], ks[1]))
            return out
        for s, vs, ks in self.evs([l, r], st, f):
            if vs[-1][0] == 'THROW':
                out.append((s, vs[-1], None))
                continue
            out.append((s, vs[1] if op == ',' else self.arith(op, vs[0], vs[1]), None))
        return out

    def e_CompoundAssignOperator(self, n, st, f):
        out = []
        for s, vs, ks in self.evs(cxx.ch(n), st, f):
            if vs[-1][0] == 'THROW':
                out.append((s, vs[-1], None))
                continue
            v = self.arith(n['op'][:-1], vs[0], vs[1])
            if ks[0] is not None:
                self.put(s, ks[0], v, n, f)
            out.append((s, v, ks[0]))
        return out

    def e_ConditionalOperator(self, n, st, f):
        c = cxx.ch(n)
        out = []
        for s, b in self.cond(c[0], st, f):
            out += [(s, ('THROW', UNDEF), None)] if b is None else self.ev(c[1] if b else c[2], s, f)
        return out

    def cast(self, n, st, f):
        return [(s, v, k) for s, v, k in self.ev(cxx.ch(n)[0], st, f)]

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_CXXDynamicCastExpr = cast

    def e_CXXFunctionalCastExpr(self, n, st, f):
        return self.cast(n, st, f)

    def e_ArraySubscriptExpr(self, n, st, f):
        out = []
        for s, vs, ks in self.evs(cxx.ch(n), st, f):
            if vs[-1][0] == 'THROW':
                out.append((s, vs[-1], None))
                continue
            key = ('e', vs[0] if vs[0] != UNDEF else (ks[0] or UNDEF), vs[1])
            out.append((s, self.get(s, key), key))
        return out

    def e_CXXDeleteExpr(self, n, st, f):
        out = []
        for s, vs, ks in self.evs(cxx.ch(n), st, f):
            if vs and vs[-1][0] == 'THROW':
                out.append((s, vs[-1], None))
                continue
            s.emit(Ev('delete', n, f, q=(cxx.ch(n)[0] or {}).get('t', '') if cxx.ch(n) else '', args=tuple(vs)))
            out.append((s, UNDEF, None))
        return out

    def e_CXXThrowExpr(self, n, st, f):
        out = []
        for s, vs, ks in self.evs(cxx.ch(n), st, f):
            s.emit(Ev('throw', n, f, args=tuple(vs)))
            out.append((s, ('THROW', vs[0] if vs else UNDEF), None))
        return out

    def e_LambdaExpr(self, n, st, f):
        return [(st, ('lambda', id(n)), None)] if not self.reg(n) else []

    def reg(self, n):
        self.lambdas = getattr(self, 'lambdas', {})
        self.lambdas[id(n)] = n
        return False

    def e_CXXNewExpr(self, n, st, f):
        out = []
        for s, vs, ks in self.evs(cxx.ch(n), st, f):
            if vs and vs[-1][0] == 'THROW':
                out.append((s, vs[-1], None))
                continue
            v = vs[-1] if vs and vs[-1][0] == 'obj' else self.fresh(s, n['nt'])
            s.emit(Ev('new', n, f, q=n['nt'], base=v, args=tuple(vs)))
            out.append((s, v, None))
        return out

    def e_InitListExpr(self, n, st, f):
        return [(s, vs[-1] if vs and vs[-1][0] == 'THROW' else ('list',) + tuple(vs), None) for s, vs, ks in self.evs(cxx.ch(n), st, f)]

    def e_CXXConstructExpr(self, n, st, f):
        out = []
        for s, vs, ks in self.evs(cxx.ch(n), st, f):
            if vs and vs[-1][0] == 'THROW':
                out.append((s, vs[-1], None))
                continue
            t = re.sub(r'^const ', '', n['t'])
            ft = n.get('ft', '')
            # copy and move of the same class: same value
            if len(vs) == 1 and re.fullmatch(r'void \((const )?%s ?&&?\)( noexcept.*)?' % re.escape(t), ft):
                out.append((s, vs[0], ks[0] if ft.startswith('void (') and '&&' in ft else None))
                continue
            g = self.ctor(n)
            if g is not None and self.depth < self.max_depth and self.stack.count(g) < 2 and self.inline(g, s):
                o = self.fresh(s, t)
                s.emit(Ev('ctor', n, f, q=n['r'], base=o, args=tuple(vs), keys=tuple(ks)))
                for s2, oc in self.enter(g, o, list(zip(vs, ks)), s):
                    out.append((s2, ('THROW', oc[1]) if oc[0] == 'throw' else o, None))
                continue
            o = self.fresh(s, t) if g is not None else ('call', n['r']) + tuple(vs)
            s.emit(Ev('ctor', n, f, q=n['r'], base=o, args=tuple(vs), keys=tuple(ks)))
            if self.on_call:
                r = self.on_call(self, n['r'], o, None, vs, ks, s, n, f)
                if r is not None:
                    out += r
                    continue
            out.append((s, o, None))
        return out

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def ctor(self, n):
        t = re.sub(r'^const ', '', n['t'])
        for g in self.F.defs(n['r']):
            if sig(g) == args_of(n.get('ft', '')):
                if g.get('clst') and g['clst'] != t:
                    continue
                return g
        return None

    def callee(self, q, ft, n):
        c = [g for g in self.F.defs(q) if not g.get('tmpl')]
        if len(c) == 1:
            return c[0]
        e = [g for g in c if sig(g) == args_of(ft)]
        if len(e) > 1 and n is not None:
            for k in ('targs', 'clst'):
                e = [g for g in e if not n.get(k) or g.get(k) == n[k]]
        return e[0] if e else None

    def e_CXXOperatorCallExpr(self, n, st, f):
        op = n['op']
        out = []
        kids = cxx.ch(n)
        for s, vs, ks in self.evs([kids[1], kids[0]] if op == '=' and len(kids) == 2 else kids, st, f):
            if vs and vs[-1][0] == 'THROW':
                out.append((s, vs[-1], None))
                continue
            if op == '=' and len(kids) == 2:
                vs, ks = vs[::-1], ks[::-1]
                own = self.callee(n.get('r', ''), n.get('ft', ''), n)
                s.emit(Ev('call', n, f, q=n.get('r'), base=vs[0], key=ks[0], args=(vs[1],), keys=(ks[1],)))
                if ks[0] is not None and own is None:
                    self.put(s, ks[0], vs[1], n, f)
                out.append((s, vs[1], ks[0]))
            elif op == '[]':
                key = ('e', vs[0] if vs[0] != UNDEF else (ks[0] or UNDEF), vs[1])
                s.emit(Ev('index', n, f, q=n.get('r'), base=vs[0], key=ks[0], args=(vs[1],)))
                out.append((s, self.get(s, key), key))
            elif op in ('*', '->') and len(vs) == 1:
                out.append((s, vs[0], ks[0] or vs[0]))
            else:
                out += self.invoke(n, n.get('r'), vs[0] if vs else None, ks[0] if ks else None, vs[1:], ks[1:], s, f, is_op=True)
        return out

    def e_CXXMemberCallExpr(self, n, st, f):
        kids = cxx.ch(n)
        callee, args = kids[0], kids[1:]
        base = cxx.ch(callee)[0] if callee and callee['k'] == 'MemberExpr' and cxx.ch(callee) else None
        out = []
        for s, vs, ks in self.evs([base] + args, st, f):
            if vs[-1][0] == 'THROW':
                out.append((s, vs[-1], None))
                continue
            out += self.invoke(n, n.get('r') or (callee or {}).get('r') or (callee or {}).get('n'), vs[0], ks[0], vs[1:], ks[1:], s, f)
        return out

    def e_CallExpr(self, n, st, f):
        kids = cxx.ch(n)
        out = []
        for s, vs, ks in self.evs(kids, st, f):
            if vs[-1][0] == 'THROW':
                out.append((s, vs[-1], None))
                continue
            if n.get('r') in ('std::move', 'std::forward') and len(vs) == 2:
                out.append((s, vs[1], ks[1]))
                continue
            out += self.invoke(n, n.get('r') or (kids[0] or {}).get('n'), None, None, vs[1:], ks[1:], s, f, fn=vs[0])
        return out

    def virtuals(self, q):
        if not hasattr(self.F, '_over'):
            self.F._over = {}
            for g in self.F.functions:
                if g.get('body') and not g.get('tmpl'):
                    for o in g.get('over', []) or []:
                        self.F._over.setdefault(o, []).append(g)
        out, todo = [], [q]
        while todo:
            x = todo.pop()
            for g in self.F._over.get(x, []):
                if g not in out:
                    out.append(g)
                    todo.append(g['q'])
        return out

    def invoke(self, n, q, base, bkey, vs, ks, s, f, fn=None, is_op=False):
        ev = Ev('call', n, f, q=q, base=base, key=bkey, args=tuple(vs), keys=tuple(ks))
        s.emit(ev)
        if self.on_call:
            r = self.on_call(self, q, base, bkey, vs, ks, s, n, f)
            if r is not None:
                return r
        g = self.callee(q, n.get('ft', ''), n) if q else None
        cands = [g] if g is not None else []
        if q:
            cands += [x for x in self.virtuals(q) if x is not g]
        lam = None
        for t in (fn, base):
            if t and t[0] == 'lambda':
                lam = self.lambdas.get(t[1])
        if lam is not None and self.depth < self.max_depth:
            fake = {'params': lam.get('params', []), 'body': cxx.ch(lam)[0], 'q': f['q'] + '::lambda', 'file': f['file'], 'l': lam['l'], 'n': 'lambda'}
            if self.stack.count(fake) < 1:
                this = s.env.get('#this')
                out = []
                for s2, oc in self.enter(fake, this, list(zip(vs, ks)), s):
                    out.append((s2, ('THROW', oc[1]) if oc[0] == 'throw' else oc[1], None))
                return out
        cands = [c for c in cands if self.depth < self.max_depth and self.stack.count(c) < 1 and self.inline(c, s)]
        if cands and len(cands) <= 4:
            out = []
            this = base if base is not None else s.env.get('#this')
            for c in cands:
                for s2, oc in self.enter(c, this, list(zip(vs, ks)), s if len(cands) == 1 else s.copy()):
                    out.append((s2, ('THROW', oc[1]) if oc[0] == 'throw' else oc[1], oc[2] if len(oc) > 2 and oc[2] and oc[2][0] != 'v' else None))
            return out
        # opaque: what is passed by a non-constant reference may change
        if not is_op or True:
            ats = args_list(n.get('ft', ''))
            for a, k in zip(ats, ks):
                if k is not None and is_ref(a) and not a.strip().startswith('const') and k[0] == 'v':
                    kk = self.resolve(s, k)
                    if s.env.get(kk) and s.env[kk][0] in ('const', 'undef', 'op'):
                        s.env[kk] = ('call', 'out:' + str(q)) + tuple(vs)
        v = ('call', q or '?') + ((base,) if base is not None else ()) + tuple(vs)
        return [(s, v, None)]


def sig(g):
    return tuple(norm(p['t']) for p in g['params'])


def norm(t):
    t = re.sub(r'\*\s*const$', '*', t.strip())
    if not t.endswith('&') and not t.endswith('*'):
        t = re.sub(r'^const\s+', '', t)
    return re.sub(r'\s+', '', t)


def args_list(ft):
    """parameter types of 'ret (a, b) const'"""
    # the parameter list is the last top-level parenthesis
    depth, end, start = 0, None, None
    for i in range(len(ft) - 1, -1, -1):
        c = ft[i]
        if c == ')':
            if depth == 0:
                end = i
            depth += 1
        elif c == '(':
            depth -= 1
            if depth == 0:
                start = i
                break
    if start is None or end is None:
        return []
    body = ft[start + 1:end]
    out, d, cur = [], 0, ''
    for c in body:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def args_of(ft):
    return tuple(norm(a) for a in args_list(ft))
