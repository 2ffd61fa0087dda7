"""Counts how often loops of the C++ core pass, and what they record, for given values of some arguments.

The same idea as passes.py, over the clang syntax trees: numbers are known or unknown, an unknown condition takes both
branches, own methods are followed, states that agree are merged.  Nothing is compiled or executed."""

import re

from . import cxx

U = None
LIMIT = 3000


class Blown(Exception):
    pass


class S:
    __slots__ = ('env', 'counts', 'log')

    def __init__(self):
        self.env, self.counts, self.log = {}, {}, ()

    def copy(self):
        s = S()
        s.env, s.counts, s.log = dict(self.env), dict(self.counts), self.log
        return s

    def key(self):
        return tuple(sorted(((repr(k), repr(v)) for k, v in self.env.items() if v is not None))), tuple(sorted(self.counts.items(), key=repr)), self.log


def merge(pairs):
    seen, out = set(), []
    for s, o in pairs:
        k = (s.key(), repr(o))
        if k not in seen:
            seen.add(k)
            out.append((s, o))
    return out


def number(t):
    return t is not None and re.fullmatch(r'(const )?(unsigned )?(long long|long|int|short|char|double|float|bool|unsigned|size_t|std::size_t)( int)?( const)?', t.replace(' &', '').strip()) is not None


def mentions(n, names):
    """whether a subtree names a member or a parameter"""
    for x in cxx.walk(n):
        if x.get('k') == 'MemberExpr' and x.get('r') in names or x.get('k') == 'DeclRefExpr' and x.get('id') in names:
            return True
    return False


def loops(f):
    return [x for x in cxx.fwalk(f) if x['k'] in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')]


def changed(n):
    """ids of the variables that a subtree assigns"""
    out = set()
    for x in cxx.walk(n):
        if x['k'] in ('BinaryOperator', 'CompoundAssignOperator', 'CXXOperatorCallExpr') and (x.get('op') or '').endswith('=') and x.get('op') not in ('==', '!=', '<=', '>=') \
                or x['k'] == 'UnaryOperator' and x.get('op') in ('++', '--'):
            t = cxx.ch(x)[0]
            if t is not None and t['k'] == 'DeclRefExpr' and 'id' in t:
                out.add(t['id'])
    return out


class Run:
    def __init__(self, F, cap, members=None, names=frozenset(), record=None, visit=None):
        self.F, self.cap = F, cap
        self.fixed = members or {}          # qualified member -> value that holds throughout
        self.names, self.record = names, record
        self.stack, self.depth, self.steps = (), 0, 0
        self.sites, self.fractions = {}, []
        self.size = None                    # length of the containers that belong to the object; lengths are followed then

    def function(self, f, args, s=None):
        """args: parameter index -> value"""
        s = s or S()
        for i, p in enumerate(f.get('params') or []):
            s.env[('v', p['id'])] = args.get(i, U)
        return [(x, o) for x, o in self.st(f['body'], s)]

    # -- statements
    def seq(self, body, s):
        live, out = [(s, None)], []
        for n in body:
            nxt = []
            for x, _ in live:
                for y, o in self.st(n, x):
                    (nxt if o is None else out).append((y, o))
            live = merge(nxt)
            if len(live) + len(out) > LIMIT:
                raise Blown('too many states')
        return merge(live + out)

    def st(self, n, s):
        self.steps += 1
        if self.steps > 300000:
            raise Blown('too many steps')
        if n is None:
            return [(s, None)]
        k = n['k']
        if k == 'CompoundStmt':
            return self.seq(cxx.ch(n), s)
        m = getattr(self, 's_' + k, None)
        if m:
            return m(n, s)
        return [(x, ('raise',) if v == ('raise',) else None) for x, v in self.ev(n, s)]

    def s_NullStmt(self, n, s):
        return [(s, None)]

    def s_DeclStmt(self, n, s):
        live = [s]
        for d in n.get('d') or []:
            if d is None or d.get('k') != 'Var':
                continue
            nxt = []
            for x in live:
                i = cxx.ch(d)[0] if cxx.ch(d) else None
                t = d.get('t', '')
                if i is not None and t.rstrip().endswith('&'):
                    place = self.place(i, x)
                    for y, _ in self.ev(i, x):
                        y = y.copy()
                        y.env[('v', d['id'])] = ('alias', place) if place is not None else U
                        nxt.append(y)
                    continue
                for y, v in (self.ev(i, x) if i is not None else [(x, U)]):
                    y = y.copy()
                    y.env[('v', d['id'])] = v if number(t) else U
                    if self.size is not None and 'vector' in t:
                        y.env[('n', ('v', d['id']))] = ('c', 0) if i is None or not any(k['k'] in ('DeclRefExpr', 'MemberExpr', 'IntegerLiteral', 'FloatingLiteral', 'CXXThisExpr') for k in cxx.walk(i)) else U
                    nxt.append(y)
            live = nxt
        return [(x, None) for x in live]

    def s_IfStmt(self, n, s):
        c = cxx.ch(n) + [None] * 4
        out = []
        for x, o in self.st(c[0], s):
            for y, b in self.test(c[1], x):
                out += self.st(c[2] if b else c[3], y)
        return merge(out)

    def s_ReturnStmt(self, n, s):
        c = cxx.ch(n)
        if not c or c[0] is None:
            return [(s, ('return', U))]
        return [(x, ('raise',) if v == ('raise',) else ('return', v)) for x, v in self.ev(c[0], s)]

    def s_BreakStmt(self, n, s):
        return [(s, ('break',))]

    def s_ContinueStmt(self, n, s):
        return [(s, ('continue',))]

    def s_CXXThrowExpr(self, n, s):
        return [(s, ('raise',))]

    def s_SwitchStmt(self, n, s):
        c = cxx.ch(n)
        kids = cxx.ch(c[1]) if c[1] and c[1]['k'] == 'CompoundStmt' else [c[1]]
        flat, starts, dflt = [], [], False
        for k in kids:
            while k is not None and k['k'] in ('CaseStmt', 'DefaultStmt'):
                starts.append(len(flat))
                dflt = dflt or k['k'] == 'DefaultStmt'
                k = cxx.ch(k)[-1]
            flat.append(k)
        out = [] if dflt else [(s, None)]
        for a in sorted(set(starts)):
            out += [(x, None if o and o[0] == 'break' else o) for x, o in self.seq(flat[a:], s.copy())]
        return merge(out)

    def s_CXXTryStmt(self, n, s):
        c = cxx.ch(n)
        out = []
        for x, o in self.st(c[0], s):
            if o and o[0] == 'raise':
                for h in c[1:]:
                    out += self.st(cxx.ch(h)[0], x.copy())
            else:
                out.append((x, o))
        return merge(out)

    def s_ForStmt(self, n, s):
        c = cxx.ch(n) + [None] * 4
        out = []
        for x, _ in self.st(c[0], s):
            out += self.loop(n, x, c[1], c[2], c[3])
        return merge(out)

    def s_WhileStmt(self, n, s):
        c = cxx.ch(n)
        return self.loop(n, s, c[0], None, c[-1])

    def s_DoStmt(self, n, s):
        c = cxx.ch(n)
        return self.loop(n, s, c[1], None, c[0], first=False)

    def s_CXXForRangeStmt(self, n, s):
        out = []
        if self.size is not None:
            live = [x for x, _ in self.ev(cxx.ch(n)[0], s)]
            for _ in range(self.size):
                nxt = []
                for x in live:
                    x = x.copy()
                    if isinstance(n.get('v'), dict):
                        x.env[('v', n['v']['id'])] = U
                    for y, o in self.st(cxx.ch(n)[-1], x):
                        if o is None or o[0] == 'continue':
                            nxt.append((y, None))
                        else:
                            out.append((y, None if o[0] == 'break' else o))
                live = [y for y, _ in merge(nxt)]
            return merge(out + [(x, None) for x in live])
        for x, _ in self.ev(cxx.ch(n)[0], s):
            out.append((x, None))
            for y, o in self.st(cxx.ch(n)[-1], x.copy()):
                out.append((y, None if o and o[0] in ('break', 'continue') else o))
        return merge(out)

    def data(self, n, cond, inc, s):
        """a loop over the data: a counter that the loop advances is compared with something that is not known"""
        if n['k'] != 'ForStmt' or cond is None or inc is None:
            return False
        moved = changed(inc)
        if not any(x.get('k') == 'DeclRefExpr' and x.get('id') in moved for x in cxx.walk(cond)):
            return not moved or not mentions(cond, moved) and any(x['k'] == 'CXXOperatorCallExpr' for x in cxx.walk(cond))
        for x in cxx.walk(cond):
            if x['k'] in ('BinaryOperator', 'CXXOperatorCallExpr') and x.get('op') in ('<', '<=', '!=', '>', '>='):
                kids = cxx.ch(x)
                for a, b in ((kids[0], kids[1]), (kids[1], kids[0])):
                    if mentions(a, moved):
                        return all(v is None for _, v in self.ev(b, s.copy()))
        return False

    def loop(self, n, s, cond, inc, body, first=True):
        data = self.data(n, cond, inc, s)
        cap = 1 if data else self.cap + 4
        outer = self.depth == 0 and not data
        self.depth += not data
        live, done, out = [s], [], []
        seen = {s.key()}
        i = 0
        try:
            while live and i <= cap:
                go = []
                for x in live:
                    if cond is None or not first and i == 0:
                        go.append(x)
                        continue
                    for y, b in self.test(cond, x):
                        (go if b else done).append(y)
                if i == cap:
                    if data:
                        done += go
                    break
                nxt = []
                for x in go:
                    if outer:
                        x = x.copy()
                        k = (n.get('l'),) + self.stack
                        x.counts[k] = min(x.counts.get(k, 0) + 1, self.cap + 3)
                        self.sites[k] = n
                    for y, o in self.st(body, x):
                        if o is None or o[0] == 'continue':
                            nxt.append((y, None))
                        elif o[0] == 'break':
                            done.append(y)
                        else:
                            out.append((y, o))
                live = []
                for x, _ in merge(nxt):
                    for y, _ in (self.st(inc, x) if inc is not None else [(x, None)]):
                        k = y.key()
                        if k not in seen:
                            seen.add(k)
                            live.append(y)
                i += 1
                if len(live) + len(done) + len(out) > LIMIT:
                    raise Blown('too many states')
        finally:
            self.depth -= not data
        return merge([(x, None) for x in done] + out)

    # -- places
    def place(self, n, s):
        if n is None:
            return None
        k = n['k']
        if k in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr') and cxx.ch(n):
            return self.place(cxx.ch(n)[0], s)
        if k == 'DeclRefExpr' and 'id' in n:
            v = s.env.get(('v', n['id']))
            return v[1] if v is not None and v[0] == 'alias' else ('v', n['id'])
        if k == 'CXXThisExpr':
            return ('this',)
        if k == 'MemberExpr' and n.get('dk') == 'Field':
            b = self.place(cxx.ch(n)[0], s)
            return ('m', b, n.get('r')) if b is not None else None
        if k == 'CXXMemberCallExpr' and len(cxx.ch(n)) == 1:
            m = cxx.ch(n)[0]
            b = self.place(cxx.ch(m)[0], s) if m is not None and m['k'] == 'MemberExpr' and cxx.ch(m) else None
            return ('acc', b, n.get('r')) if b is not None else None
        if k == 'UnaryOperator' and n.get('op') in ('*', '&'):
            return self.place(cxx.ch(n)[0], s)
        return None

    def load(self, p, s):
        if p is None:
            return U
        if p[0] == 'm' and p[1] == ('this',) and p[2] in self.fixed:
            return self.fixed[p[2]]
        v = s.env.get(p)
        if v is not None and v[0] == 'alias':
            return self.load(v[1], s)
        return v

    def store(self, p, v, s):
        if p is not None:
            s.env[p] = v

    # -- expressions
    def test(self, n, s):
        if n is None:
            return [(s, True)]
        if n['k'] in ('ParenExpr', 'ExprWithCleanups', 'ImplicitCastExpr') and cxx.ch(n):
            return self.test(cxx.ch(n)[0], s)
        if n['k'] == 'BinaryOperator' and n.get('op') in ('&&', '||'):
            stop = n['op'] == '||'
            out = []
            a, b = cxx.ch(n)
            for x, t in self.test(a, s):
                out += [(x, t)] if t == stop else self.test(b, x)
            return out
        if n['k'] == 'UnaryOperator' and n.get('op') == '!':
            return [(x, not t) for x, t in self.test(cxx.ch(n)[0], s)]
        out = []
        for x, v in self.ev(n, s):
            if v == ('raise',):
                continue
            if v is not None and v[0] == 'c':
                out.append((x, bool(v[1])))
            else:
                out += [(x.copy(), True), (x, False)]
        return out

    def ev(self, n, s):
        if n is None:
            return [(s, U)]
        m = getattr(self, 'e_' + n['k'], None)
        if m:
            return m(n, s)
        live = [s]
        for c in cxx.ch(n):
            live = [y for x in live for y, _ in self.ev(c, x)]
        return [(x, U) for x in live]

    def through(self, n, s):
        return self.ev(cxx.ch(n)[0], s) if cxx.ch(n) else [(s, U)]

    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = through

    def cast(self, n, s):
        t = (n.get('ct') or n.get('t') or '').replace('const ', '')
        out = []
        for x, v in self.through(n, s):
            if v is not None and v[0] == 'c':
                if t in ('double', 'float'):
                    v = ('c', float(v[1]))
                elif number(t):
                    v = ('c', int(v[1])) if t != 'bool' else ('c', bool(v[1]))
            out.append((x, v))
        return out

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_ImplicitCastExpr = cast

    def e_IntegerLiteral(self, n, s):
        return [(s, ('c', int(n['v'])))]

    def e_FloatingLiteral(self, n, s):
        try:
            return [(s, ('c', float(n['v'])))]
        except ValueError:
            return [(s, U)]

    def e_CXXBoolLiteralExpr(self, n, s):
        return [(s, ('c', n['v'] == 'true'))]

    def e_DeclRefExpr(self, n, s):
        if 'id' not in n or n.get('r') in self.F.globals:
            g = self.F.globals.get(n.get('r'))
            if g is not None and 'const' in g.get('t', '') and cxx.ch(g) and cxx.ch(g)[0] is not None:
                return [(s, self.ev(cxx.ch(g)[0], S())[0][1])]
            return [(s, ('c', n['ev']) if n.get('dk') == 'EnumConstant' and isinstance(n.get('ev'), int) else U)]
        return [(s, self.load(self.place(n, s), s))]

    def e_MemberExpr(self, n, s):
        p = self.place(n, s)
        return [(x, self.load(p, x)) for x, _ in self.ev(cxx.ch(n)[0], s)] if cxx.ch(n) and cxx.ch(n)[0]['k'] not in ('CXXThisExpr', 'DeclRefExpr') else [(s, self.load(p, s))]

    def e_ConditionalOperator(self, n, s):
        c = cxx.ch(n)
        return [r for x, b in self.test(c[0], s) for r in self.ev(c[1] if b else c[2], x)]

    def e_LambdaExpr(self, n, s):
        s = s.copy()
        for i in changed(n):
            s.env[('v', i)] = U
        return [(s, U)]

    def e_UnaryOperator(self, n, s):
        op, c = n.get('op'), cxx.ch(n)[0]
        if op == '!':
            return [(x, ('c', b)) for x, b in self.test(n, s)]
        if op in ('++', '--'):
            out = []
            p = self.place(c, s)
            for x, v in self.ev(c, s):
                x = x.copy()
                new = ('c', v[1] + (1 if op == '++' else -1)) if v is not None and v[0] == 'c' else U
                self.store(p, new, x)
                out.append((x, v if n.get('post') in (1, '1', True) else new))
            return out
        return [(x, ('c', -v[1]) if op == '-' and v is not None and v[0] == 'c' else v if op == '+' else U) for x, v in self.ev(c, s)]

    def e_BinaryOperator(self, n, s):
        op = n.get('op')
        a, b = cxx.ch(n)
        if op in ('&&', '||'):
            return [(x, ('c', t)) for x, t in self.test(n, s)]
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            out = []
            for x, v in self.ev(b, s):
                for y, old in (self.ev(a, x) if op != '=' else [(x, U)]):
                    y = y.copy()
                    new = v if op == '=' else self.arith(op[:-1], old, v, n.get('t', ''))
                    new = new if number(n.get('t')) else U
                    if new is not None and new[0] == 'c' and n.get('t') in ('double', 'float'):
                        new = ('c', float(new[1]))
                    self.store(self.place(a, y), new, y)
                    out.append((y, new))
            return out
        out = []
        for x, v in self.ev(a, s):
            for y, w in self.ev(b, x):
                out.append((y, self.arith(op, v, w, n.get('t', ''))))
        return out

    e_CompoundAssignOperator = e_BinaryOperator

    def arith(self, op, a, b, t):
        if a is None or b is None or a[0] != 'c' or b[0] != 'c':
            return U
        p, q = a[1], b[1]
        try:
            if op == '/':
                r = p / q if isinstance(p, float) or isinstance(q, float) else int(p / q)
            elif op == '%':
                r = p % q
            else:
                r = {'+': lambda: p + q, '-': lambda: p - q, '*': lambda: p * q, '<': lambda: p < q, '<=': lambda: p <= q, '>': lambda: p > q, '>=': lambda: p >= q, '==': lambda: p == q, '!=': lambda: p != q}[op]()
        except Exception:
            return U
        if isinstance(r, int) and not isinstance(r, bool) and r < 0 and ('unsigned' in t or 'size_t' in t):
            r += 1 << 64
        return ('c', r)

    def many(self, es, s):
        live = [(s, [])]
        for e in es:
            live = [(y, vs + [v]) for x, vs in live for y, v in self.ev(e, x)]
        return live

    def e_CXXOperatorCallExpr(self, n, s):
        return [(x, U) for x, _ in self.many([c for c in cxx.ch(n) if c is not None and c.get('dk') != 'CXXMethod'], s)]

    def e_CallExpr(self, n, s):
        c = cxx.ch(n)
        return self.call(n, c[1:], s, None)

    def e_CXXMemberCallExpr(self, n, s):
        c = cxx.ch(n)
        m = c[0]
        base = cxx.ch(m)[0] if m is not None and cxx.ch(m) else None
        p = self.place(n, s)
        if p is not None and self.load(p, s) is not None:
            return [(s, self.load(p, s))]
        if self.size is not None and base is not None:
            b = self.place(base, s)
            k = ('n', b)
            if n.get('n') == 'size' and b is not None:
                return [(s, s.env[k] if k in s.env else ('c', self.size) if b == ('this',) or ('this',) in self.roots(b) else U)]
            if n.get('n') in ('push_back', 'emplace_back') and k in s.env:
                out = []
                for x, _ in self.many(c[1:], s):
                    x = x.copy()
                    v = x.env[k]
                    x.env[k] = ('c', v[1] + 1) if v is not None else U
                    out.append((x, U))
                return out
        return self.call(n, c[1:], s, base)

    def call(self, n, args, s, base):
        out = []
        q = n.get('r')
        for x, vs in self.many(args, s):
            if self.record:
                x = self.record(self, n, args, vs, x)
            own = base is not None and base['k'] == 'CXXThisExpr'
            f = next(iter(self.F.defs(q)), None) if own else None
            f = next((g for g in self.F.defs(q) if len(g.get('params') or []) == len(args) and [p['t'] for p in g.get('params') or []] == self.types(n)), f) if f is not None else None
            if f is not None and len(self.stack) < 6 and q not in self.stack and self.worth(f):
                out += self.follow(f, args, vs, x, q)
                continue
            if q in ('std::move', 'std::forward'):
                out.append((x, vs[0] if vs else U))
                continue
            y = x.copy()
            ps = self.types(n)
            for i, a in enumerate(args):
                t = ps[i] if i < len(ps) else ''
                if t.endswith('&') and not t.startswith('const ') or t.endswith('*'):
                    p = self.place(a, y)
                    if p is not None:
                        for k in [k for k in y.env if k == p or isinstance(k, tuple) and p in self.roots(k)]:
                            y.env[k] = U
            out.append((y, U))
        return out

    @staticmethod
    def roots(k):
        out = []
        while isinstance(k, tuple) and len(k) > 1 and isinstance(k[1], tuple):
            k = k[1]
            out.append(k)
        return out

    @staticmethod
    def types(n):
        m = re.match(r'.*?\((.*)\)( const)?( noexcept)?$', n.get('ft') or '')
        if not m or not m.group(1):
            return []
        out, d, cur = [], 0, ''
        for ch in m.group(1):
            d += ch in '<(' or -(ch in '>)')
            if ch == ',' and d == 0:
                out.append(cur.strip())
                cur = ''
            else:
                cur += ch
        return out + [cur.strip()]

    def worth(self, f):
        ls = loops(f)
        if not ls:
            return True
        return any(mentions(x, self.names) for x in cxx.fwalk(f)) if self.names else self.depth == 0

    def follow(self, f, args, vs, x, q):
        x = x.copy()
        keep = {k: x.env.get(k) for k in [('v', p['id']) for p in f.get('params') or []]}
        for p, a, v in zip(f.get('params') or [], args, vs):
            t = p['t'].rstrip()
            pl = self.place(a, x) if t.endswith('&') else None
            x.env[('v', p['id'])] = ('alias', pl) if pl is not None and pl != ('v', p['id']) else v
        ks, kd = self.stack, self.depth
        self.stack += (q,)
        try:
            res = self.st(f['body'], x)
        finally:
            self.stack = ks
        out = []
        for y, o in res:
            y = y.copy()
            y.env.update(keep)
            out.append((y, ('raise',) if o and o[0] == 'raise' else o[1] if o and o[0] == 'return' else U))
        return out
