"""Value numbering of numeric code: loops over the coordinates of points are summarised as folds.

One small language for both front ends (see pyfront / cxxfront).  A statement list is walked path by path; the values
are canonical expressions (sa.algebra), element-wise vectors, closures and records.  A loop body is walked once for a
general position i: variables that every path advances by one are the position itself, every other variable that
changes has to come out as  old + term  or  max(old, term), and the loop becomes that fold.  Whatever is not
understood becomes an unknown that spoils only the values it reaches."""

from .algebra import (P, num, unk, unknowns, absv, sqrt, inv, pow_, maxv, minv, when, fold, subst, atoms, has, nonneg, lead_sign, guard_key, from_key)
from fractions import Fraction


class Vec:
    """el: value at a general position; nd: 1, or 2 for a matrix whose rows are points"""
    def __init__(self, el, lo=None, hi=None, nd=1, name=None):
        self.el, self.lo, self.hi, self.nd, self.name = el, lo or P(), hi or P.atom(('dims',)), nd, name


class Rows:
    """one number per row of a matrix"""
    def __init__(self, el):
        self.el = el


class It:
    def __init__(self, vec, pos):
        self.vec, self.pos = vec, pos


class Tup:
    def __init__(self, items):
        self.items = items


class Clo:
    """params: names; body: statements or expression; env: captured; bound: for std::bind"""
    def __init__(self, params, body, env=None, expr=False, defaults=None, name='?', front=None, selfv=None):
        self.params, self.body, self.env, self.expr, self.defaults, self.name, self.front, self.selfv = params, body, env or {}, expr, defaults or {}, name, front, selfv


class Bind:
    def __init__(self, f, args):
        self.f, self.args = f, args


class Ph:
    def __init__(self, n):
        self.n = n


class Rec:
    """an object of the analysed program: fields are kept in the state under ('f', id, name)"""
    n = 0

    def __init__(self, cls, const=None):
        Rec.n += 1
        self.id, self.cls, self.const = Rec.n, cls, const or {}


class Const:
    def __init__(self, v):
        self.v = v


class Sym:
    """an opaque thing with a name: a user function, a module"""
    def __init__(self, name):
        self.name = name


class Bool:
    """v True/False, or lit: (kind, key, polarity)"""
    def __init__(self, v=None, lit=None):
        self.v, self.lit = v, lit


class Unk:
    def __init__(self, why):
        self.why = why


class St:
    def __init__(self):
        self.env, self.lits, self.fuzzy, self.fields, self.calls = {}, {}, False, {}, ()

    def copy(self):
        s = St()
        s.env, s.lits, s.fuzzy, s.fields, s.calls = dict(self.env), dict(self.lits), self.fuzzy, dict(self.fields), self.calls
        return s


class Budget(Exception):
    pass


def poly(v):
    if isinstance(v, P):
        return v
    if isinstance(v, Const) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool):
        if v.v != v.v or v.v in (float('inf'), float('-inf')):
            return unk('infinite')
        return num(v.v)
    if isinstance(v, Bool) and v.v is not None:
        return num(int(v.v))
    if isinstance(v, Unk):
        return unk(v.why)
    return unk('value that is not a number')


class Machine:
    def __init__(self, budget=20000):
        self.steps, self.budget, self.depth = 0, budget, 0

    # ---- values
    def lift(self, f, *vs):
        """apply f on numbers, element-wise on vectors"""
        if any(isinstance(v, Rows) for v in vs):
            return Rows(self.lift(f, *[v.el if isinstance(v, Rows) else v for v in vs]))
        vec = [v for v in vs if isinstance(v, Vec)]
        if vec:
            nd = max(v.nd for v in vec)
            # a vector is as long as its shortest; they have to agree
            lo, hi = vec[0].lo, vec[0].hi
            if any(v.lo != lo or v.hi != hi for v in vec):
                return Unk('vectors of different length')
            return Vec(self.lift(f, *[v.el if isinstance(v, Vec) else v for v in vs]), lo, hi, nd)
        return f(*[poly(v) for v in vs])

    def div(self, a, b):
        return self.lift(lambda x, y: x * inv(y), a, b)

    def arith(self, op, a, b):
        if op == '+':
            if isinstance(a, It):
                return It(a.vec, a.pos + poly(b))
            return self.lift(lambda x, y: x + y, a, b)
        if op == '-':
            if isinstance(a, It):
                return (a.pos - b.pos) if isinstance(b, It) else It(a.vec, a.pos - poly(b))
            return self.lift(lambda x, y: x - y, a, b)
        if op == '*':
            return self.lift(lambda x, y: x * y, a, b)
        if op == '/':
            return self.div(a, b)
        if op == '**':
            return self.lift(pow_, a, b)
        if op == '@':
            return self.total('sum', self.lift(lambda x, y: x * y, a, b))
        if op == '//':
            return self.lift(lambda x, y: P.atom(('call', 'whole quotient', x.key, y.key)) if not (unknowns(x) or unknowns(y)) else unk('whole quotient'), a, b)
        return Unk('operator ' + op)

    def total(self, op, v):
        if not isinstance(v, Vec):
            return Unk('fold of something that is not a vector')
        return fold(op, v.lo, v.hi, poly(v.el)) if not isinstance(v.el, (Vec, Rows)) else Unk('fold of a nested vector')

    def compare(self, op, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Vec, Rows, Tup, P)) and isinstance(y, Const) and (y.v is None or isinstance(y.v, str)):
                return Bool(op in ('!=', 'is not'))
            if isinstance(x, Const) and isinstance(x.v, str) and x.v.startswith('type:') and isinstance(y, Sym):
                if '?' in x.v:
                    return Bool()
                kinds = {'builtins.float': 'number', 'builtins.int': 'number', 'builtins.list': 'vector', 'builtins.tuple': 'vector', 'numpy.ndarray': 'vector'}
                return Bool((False == (op in ('==', 'is'))) if kinds.get(y.name, '') != x.v[5:] and y.name in kinds else None)
        if isinstance(a, Vec) or isinstance(b, Vec):
            va = a if isinstance(a, Vec) else b
            if isinstance(a, Vec) and isinstance(b, Vec) and op in ('==', '!=', 'is', 'is not'):
                return Bool(lit=('same', tuple(sorted((str(a.name), str(b.name)))), op in ('==', 'is')))
            if not isinstance(va.el, (P, Const)):
                return Bool()
            r = self.compare(op, a.el if isinstance(a, Vec) else a, b.el if isinstance(b, Vec) else b)
            return Vec(r, va.lo, va.hi, va.nd)
        for x in (a, b):
            if isinstance(x, (Rec, Clo, Sym, Bind)):
                y = b if x is a else a
                if isinstance(y, Const) and y.v is None:
                    return Bool(op in ('!=', 'is not'))
                return Bool(op in ('==', 'is') if a is b else None)
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return Bool({'==': lambda: a.v == b.v, '!=': lambda: a.v != b.v, 'is': lambda: a.v == b.v and (a.v is None) == (b.v is None),
                             'is not': lambda: a.v != b.v, '<': lambda: a.v < b.v, '>': lambda: a.v > b.v, '<=': lambda: a.v <= b.v, '>=': lambda: a.v >= b.v,
                             'in': lambda: a.v in b.v, 'not in': lambda: a.v not in b.v}[op]())
            except Exception:
                return Bool()
        if any(isinstance(x, Const) and (x.v is None or isinstance(x.v, str)) for x in (a, b)):
            y = b if isinstance(a, Const) else a
            if isinstance(y, (P, Vec, Rows, Tup)):
                return Bool(op in ('!=', 'is not'))
            return Bool()
        if isinstance(a, It) and isinstance(b, It):
            d = a.pos - b.pos
        else:
            if not isinstance(a, (P, Const, Bool)) or not isinstance(b, (P, Const, Bool)):
                return Bool()
            d = poly(a) - poly(b)
        if unknowns(d):
            return Bool()
        if d.is_const():
            v = d.value()
            return Bool({'==': v == 0, '!=': v != 0, '<': v < 0, '>': v > 0, '<=': v <= 0, '>=': v >= 0, 'is': v == 0, 'is not': v != 0}.get(op))
        if op in ('==', 'is', '!=', 'is not'):
            if self.positive(d) or self.positive(-d):
                return Bool(op in ('!=', 'is not'))
            return Bool(lit=('nz', guard_key(d).key, op in ('!=', 'is not')))
        if op in ('>', '<='):
            d, op = -d, {'>': '<', '<=': '>='}[op]
        # d < 0 or d >= 0
        if nonneg(d):
            return Bool(op == '>=')
        if self.positive(-d):
            return Bool(op == '<')
        if nonneg(-d):
            return Bool(lit=('nz', guard_key(d).key, op == '<'))
        c = abs(d.key[0][1])
        return Bool(lit=('neg', d.scale(1 / c).key, op == '<'))

    @staticmethod
    def positive(d):
        """surely greater than zero: counts of points and dimensions, positive constants"""
        return bool(d.t) and all(c > 0 and all(a[0] in ('dims', 'rows') for a, _ in m) for m, c in d.t.items())

    def truth(self, v):
        if isinstance(v, Bool):
            return v
        if isinstance(v, Const):
            return Bool(bool(v.v))
        if isinstance(v, P):
            return self.compare('!=', v, P())
        if isinstance(v, (Clo, Bind, Sym, Rec)):
            return Bool(True)
        if isinstance(v, Vec):
            return Bool(True) if v.nd == 1 else Bool()
        return Bool()

    # ---- paths
    def assume(self, st, b, want):
        """state in which b is want, or None"""
        if b.v is not None:
            return st if b.v == want else None
        st = st.copy()
        if b.lit is None:
            st.fuzzy = True
            return st
        kind, key, pol = b.lit
        val = pol == want
        cur = st.lits.get((kind, key))
        if cur is not None:
            return st if cur == val else None
        if kind == 'neg':
            other = ('neg', (-from_key(key)).key)
            if val and st.lits.get(other):
                return None
        st.lits[(kind, key)] = val
        return st

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()

    # statements: yields (kind, value, state); kind in next/ret/brk/cont/raise
    def block(self, stmts, st):
        cur = [st]
        for s in stmts:
            nxt = []
            for c in cur:
                for kind, v, n in self.stmt(s, c):
                    if kind == 'next':
                        nxt.append(n)
                    else:
                        yield kind, v, n
            cur = nxt
            if not cur:
                return
            if len(cur) > 64:
                raise Budget()
        for c in cur:
            yield 'next', None, c

    def stmt(self, s, st):
        self.tick()
        k = s[0]
        if k == 'set':
            for v, n in self.expr(s[2], st):
                n = n.copy()
                self.store(s[1], v, n)
                yield 'next', None, n
        elif k == 'aug':
            for cur, n in self.expr(s[1], st):
                for v, n2 in self.expr(s[3], n):
                    n2 = n2.copy()
                    self.store(s[1], self.arith(s[2], cur, v), n2)
                    yield 'next', None, n2
        elif k == 'expr':
            for _, n in self.expr(s[1], st):
                yield 'next', None, n
        elif k == 'ret':
            if s[1] is None:
                yield 'ret', Const(None), st
            else:
                for v, n in self.expr(s[1], st):
                    yield 'ret', v, n
        elif k == 'if':
            for c, n in self.expr(s[1], st):
                b = self.truth(c)
                t, f = self.assume(n, b, True), self.assume(n, b, False)
                if t is not None:
                    yield from self.block(s[2], t)
                if f is not None:
                    yield from self.block(s[3], f)
        elif k == 'block':
            yield from self.block(s[1], st)
        elif k == 'continue':
            yield 'cont', None, st
        elif k == 'break':
            yield 'brk', None, st
        elif k == 'raise':
            yield 'raise', None, st
        elif k == 'for':
            for it, n in self.expr(s[2], st):
                yield from self.loop(n, it=it, target=s[1], body=s[3])
        elif k == 'while':
            yield from self.loop(st, cond=s[1], body=s[2], step=s[3])
        elif k == 'switch':
            for v, n in self.expr(s[1], st):
                done = False
                for val, body in s[2]:
                    if val is None or (isinstance(v, Const) and v.v == val):
                        yield from ((('next' if kk == 'brk' else kk), vv, nn) for kk, vv, nn in self.block(body, n))
                        done = True
                        break
                if not done:
                    yield 'next', None, n
        elif k == 'pass':
            yield 'next', None, st
        else:
            st = st.copy()
            self.opaque(s, st)
            yield 'next', None, st

    def opaque(self, s, st):
        """a statement that is not understood: what it assigns is unknown"""
        names = s[1] if len(s) > 1 else None
        if names is None:
            for k in list(st.env):
                st.env[k] = Unk('statement that is not understood')
        else:
            for k in names:
                st.env[k] = Unk('statement that is not understood')

    def store(self, target, v, st):
        k = target[0]
        if k == 'var':
            st.env[target[1]] = v
        elif k == 'tuple':
            items = v.items if isinstance(v, Tup) else None
            for i, t in enumerate(target[1]):
                self.store(t, items[i] if items and i < len(items) else Unk('unpacked value'), st)
        elif k == 'attr':
            for o, _ in self.expr(target[1], st):
                if isinstance(o, Rec):
                    st.fields[(o.id, target[2])] = v
                break
        elif k == 'idx':
            for o, _ in self.expr(target[1], st):
                for i, _ in self.expr(target[2], st):
                    if isinstance(o, Rec) and isinstance(i, Const):
                        st.fields[(o.id, ('item', i.v))] = v
                    elif target[1][0] == 'var':
                        st.env[target[1][1]] = Unk('container that is written')
                    break
                break

    # ---- loops
    def assigned(self, stmts, out=None):
        out = set() if out is None else out

        def tgt(t):
            if t[0] == 'var':
                out.add(t[1])
            elif t[0] == 'tuple':
                for x in t[1]:
                    tgt(x)
            elif t[0] == 'idx':
                tgt(t[1])

        def ex(e):
            if isinstance(e, tuple):
                if e and e[0] == 'incr':
                    tgt(e[1])
                if e and e[0] == 'mcall' and e[2] in ('append', 'push_back', 'emplace_back') and e[1][0] == 'var':
                    out.add(e[1][1])
                for x in e:
                    if isinstance(x, (tuple, list)):
                        ex(x)
            elif isinstance(e, list):
                for x in e:
                    ex(x)
        for s in stmts:
            if s[0] in ('set', 'aug'):
                tgt(s[1])
                ex(s[2:])
            elif s[0] == 'if':
                ex(s[1])
                self.assigned(s[2], out)
                self.assigned(s[3], out)
            elif s[0] == 'block':
                self.assigned(s[1], out)
            elif s[0] == 'for':
                tgt(s[1])
                self.assigned(s[3], out)
            elif s[0] == 'while':
                self.assigned(s[2] + s[3], out)
            elif s[0] == 'switch':
                for _, b in s[2]:
                    self.assigned(b, out)
            elif s[0] == 'opaque':
                out.update(s[1] or ())
            else:
                ex(s)
        return out

    def loop(self, st, it=None, target=None, cond=None, body=(), step=()):
        names = sorted(n for n in self.assigned(list(body) + list(step)) if n in st.env)
        if target is not None:
            self_names = set()
            self.assigned([('set', target, ('const', 0))], self_names)
        else:
            self_names = set()
        acc = [n for n in names if n not in self_names]
        idx = P.atom(('k',))

        def fail(why):
            s = st.copy()
            for n in acc:
                s.env[n] = Unk(why)
            return s
        if it is not None:
            if not isinstance(it, Vec) or it.nd != 1:
                yield 'next', None, fail('loop over something that is not a vector')
                return
            lo, hi = it.lo, it.hi

        def one(induct):
            """walk the body once; induct: name -> start"""
            s = st.copy()
            s.lits = dict(st.lits)
            for n in acc:
                v = st.env[n]
                if n in induct:
                    base = induct[n]
                    s.env[n] = It(v.vec, v.pos + (idx - lo0)) if isinstance(v, It) else base + (idx - lo0)
                elif isinstance(v, It):
                    s.env[n] = It(v.vec, P.atom(('acc', n)))
                else:
                    s.env[n] = P.atom(('acc', n))
            if it is not None:
                self.store(target, it.el, s)
            res = []
            starts = [s]
            if cond is not None:
                starts = []
                for c, n2 in self.expr(cond, s):
                    t = self.assume(n2, self.truth(c), True)
                    if t is not None:
                        starts.append(t)
            for s0 in starts:
                for kind, v, n2 in self.block(body, s0):
                    if kind in ('next', 'cont'):
                        if step:
                            for k2, v2, n3 in self.block(step, n2):
                                res.append(('next', v2, n3))
                        else:
                            res.append(('next', None, n2))
                    else:
                        res.append((kind, v, n2))
            return res
        lo0 = lo if it is not None else P()
        # which variables advance by one on every path
        first = one({})
        left = [n for k, _, n in first if k == 'brk']
        if left and not any(k == 'ret' for k, _, _ in first) and cond is None and not any(n.fuzzy for n in left) and all(
                n.lits.keys() - st.lits.keys() and not any(a[0] in ('k', 'acc') for q in n.lits for a in (atoms(from_key(q[1])) if q[0] != 'same' else ())) for n in left):
            s = st.copy()
            for n in acc:
                s.env[n] = P.atom(('call', 'only the coordinates before the loop is left', poly(idx).key)) if isinstance(st.env[n], (P, Const)) else Unk('loop that is left early')
            yield 'next', None, s
            return
        if any(k in ('ret', 'brk') for k, _, _ in first):
            yield 'next', None, fail('loop that is left early')
            return
        ends = [n for k, _, n in first if k == 'next']
        induct, uneven = {}, set()
        for n in acc:
            a = P.atom(('acc', n))
            vals = [e.env.get(n) for e in ends]
            steps = []
            for v in vals:
                p = v.pos if isinstance(v, It) else v if isinstance(v, P) else None
                d = p - a if p is not None else None
                steps.append(d.value() if d is not None and d.is_const() else None)
            start = st.env[n]
            if isinstance(start, It):
                if all(x == 1 for x in steps):
                    induct[n] = start.pos
                elif any(x != 0 for x in steps) and None not in steps:
                    uneven.add(n)
            elif steps and all(x == 1 for x in steps) and isinstance(start, (P, Const)) and self.used_as_index(n, body, cond):
                induct[n] = poly(start)
        if cond is not None:
            # the condition bounds one induction variable
            b = self.bound(cond, st, induct)
            if b is None:
                yield 'next', None, fail('loop whose bounds are not understood')
                return
            var, hi = b
            start = st.env[var]
            lo0 = start.pos if isinstance(start, It) else poly(start)
            lo = lo0
        if uneven:
            yield 'next', None, fail('MISALIGNED: an iterator is not advanced by one in every iteration')
            return
        res = one(induct)
        ends = [n for k, _, n in res if k == 'next']
        out = st.copy()
        if any(e.fuzzy for e in ends):
            out.fuzzy = True
        for n in acc:
            v0 = st.env[n]
            if n in induct:
                out.env[n] = It(v0.vec, induct[n] + (hi - lo)) if isinstance(v0, It) else induct[n] + (hi - lo)
                continue
            if n in uneven or isinstance(v0, It):
                out.env[n] = Unk('iterator that not every iteration advances' if n in uneven else 'iterator')
                continue
            out.env[n] = self.summary(n, v0, [({k: x for k, x in e.lits.items() if k not in st.lits}, e.env.get(n)) for e in ends], lo, hi)
        yield 'next', None, out

    def used_as_index(self, name, body, cond):
        found = []

        def w(e):
            if isinstance(e, tuple) and e:
                if e[0] in ('idx',) and self.mentions(e[2], name):
                    found.append(1)
                if e[0] == 'mcall' and e[2] == 'at' and any(self.mentions(x, name) for x in e[3]):
                    found.append(1)
            if isinstance(e, (tuple, list)):
                for x in e:
                    w(x)
        w(list(body))
        return bool(found) or (cond is not None and self.mentions(cond, name))

    @staticmethod
    def mentions(e, name):
        if isinstance(e, tuple) and len(e) == 2 and e[0] == 'var':
            return e[1] == name
        return isinstance(e, (tuple, list)) and any(Machine.mentions(x, name) for x in e)

    def bound(self, cond, st, induct):
        if cond[0] != 'cmp':
            return None
        op, a, b = cond[1], cond[2], cond[3]
        if op in ('>', '>=') or (op == '!=' and b[0] == 'var' and b[1] in induct):
            op, a, b = {'>': '<', '>=': '<=', '!=': '!='}[op], b, a
        if op not in ('<', '!=', '<=') or a[0] != 'var' or a[1] not in induct:
            return None
        for v, _ in self.expr(b, st):
            p = v.pos if isinstance(v, It) else poly(v)
            if unknowns(p):
                return None
            return a[1], p + (num(1) if op == '<=' else P())

    def summary(self, name, start, ends, lo, hi):
        a = ('acc', name)
        ap = P.atom(a)
        cases = []
        for lits, v in ends:
            if not isinstance(v, (P, Const, Bool)):
                if isinstance(v, Unk):
                    return v
                if isinstance(v, Vec) and all(x[1] is v for x in ends):
                    return v
                return Unk('loop variable of another kind')
            cases.append((lits, poly(v)))
        if all(v == ap for _, v in cases):
            return start
        v = self.join(cases)
        if v is None or unknowns(v):
            return Unk((unknowns(v) or ['loop body'])[0] if v is not None else 'loop body with conditions that are not understood')
        t = v - ap
        if not any(x == a for x in atoms(t)):
            s = fold('sum', lo, hi, t)
            return poly(start) + s
        # max(acc, t) = (acc + t + |acc - t|) / 2
        for m in v.t:
            for at, e in m:
                if at[0] == 'abs' and e == 1 and any(x == a for x in atoms(P.atom(at))):
                    c = v.t[m]
                    rest = v - P({m: c})
                    cand = rest.scale(2) - ap
                    if any(x == a for x in atoms(cand)):
                        continue
                    for op, f in (('max', maxv), ('min', minv)):
                        if f(ap, cand) == v:
                            if op == 'max' and isinstance(start, (P, Const)) and poly(start).zero() and nonneg(cand):
                                return fold('max', lo, hi, cand)
                            if op == 'max' and isinstance(start, (P, Const)) and poly(start).is_const() and poly(start).value() < 0 and nonneg(cand):
                                return fold('max', lo, hi, cand)
                            return fold(op + '0' if poly(start).zero() else op + '?', lo, hi, cand)
        if not any(x == a for x in atoms(v)):
            return P.atom(('fold', 'last', lo.key, hi.key, v.key))
        def linear(p):
            return all(sum(e for x, e in m if x == a) <= 1 and all(
                linear(from_key(x[2])) and not has(from_key(x[1]), 'acc') if x[0] == 'when' and e == 1 else not has(P.atom(x), 'acc') for x, e in m if x != a) for m in p.t)
        if linear(v):
            return P.atom(('call', 'repeated', v.key))
        return Unk('loop variable that is neither a sum nor a maximum')

    def join(self, cases):
        """one expression for alternatives told apart by literals"""
        cases = [(dict(l), v) for l, v in cases]
        if len(cases) == 1 and not cases[0][0]:
            return cases[0][1]
        vals = [v for _, v in cases]
        if all(v == vals[0] for v in vals):
            return vals[0]
        keys = sorted({k for l, _ in cases for k in l}, key=repr)
        if not keys:
            return None
        for k in keys:
            yes = [({x: y for x, y in l.items() if x != k}, v) for l, v in cases if l.get(k, True)]
            no = [({x: y for x, y in l.items() if x != k}, v) for l, v in cases if not l.get(k, False)]
            if not yes or not no:
                continue
            a, b = self.join(yes), self.join(no)
            if a is None or b is None:
                return None
            if a == b:
                return a
            d = from_key(k[1]) if k[0] != 'same' else None
            if k[0] == 'nz':
                # a where d != 0, b elsewhere
                for k2 in keys:
                    if k2[0] != 'nz' or k2 == k:
                        continue
                    e = from_key(k2[1])
                    zero = [(l, v) for l, v in no if not l.get(k2, False)]
                    x = self.join([({q: y for q, y in l.items() if q != k2}, v) for l, v in zero]) if zero else None
                    if x is not None and b == x + when(e, a - x):
                        return x + when(absv(d) + absv(e), a - x)
                return b + when(d, a - b)
            if k[0] == 'neg':
                half = (b - a).scale(Fraction(1, 2))
                # (a + b) / 2 + half * sign(d), d * sign(d) = |d|
                for c in (Fraction(1, 2), Fraction(1), Fraction(-1, 2), Fraction(-1), Fraction(2), Fraction(-2)):
                    if d.scale(c) == half:
                        return (a + b).scale(Fraction(1, 2)) + absv(d).scale(c)
                r = self.ratio(half, d)
                if r is not None:
                    return (a + b).scale(Fraction(1, 2)) + absv(d).scale(r)
                return P.atom(('call', 'if-negative', d.key, a.key, b.key))
            return None
        return None

    @staticmethod
    def ratio(x, d):
        if not d.t or len(x.t) != len(d.t):
            return None
        m0 = next(iter(d.t))
        if m0 not in x.t:
            return None
        r = x.t[m0] / d.t[m0]
        return r if d.scale(r) == x else None

    # ---- calls
    def call(self, f, args, kwargs, st):
        """yields (value, state)"""
        if isinstance(f, Bind):
            vals = [args[a.n - 1] if isinstance(a, Ph) and a.n <= len(args) else a for a in f.args]
            yield from self.call(f.f, vals, {}, st)
            return
        if isinstance(f, Sym):
            st = st.copy()
            st.calls = st.calls + ((f.name, tuple(args), dict(kwargs)),)
            yield P.atom(('call', f.name) + tuple(self.ref(a) for a in args)), st
            return
        if not isinstance(f, Clo):
            yield Unk('call of something unknown'), st
            return
        if self.depth > 12:
            raise Budget()
        saved = st.env
        env = dict(f.env)
        params = list(f.params)
        pos = list(args)
        if f.selfv is not None:
            pos = [f.selfv] + pos
        rest = dict(kwargs)
        for i, p in enumerate(params):
            if i < len(pos):
                env[p] = pos[i]
            elif p in rest:
                env[p] = rest.pop(p)
            elif p in f.defaults:
                env[p] = f.defaults[p]
            else:
                env[p] = Unk('missing argument')
        if getattr(f, 'kwarg', None):
            r = Rec('dict')
            n = st.copy()
            for k, v in rest.items():
                n.fields[(r.id, ('item', k))] = v
            r.const['closed'] = True
            env[f.kwarg] = r
            st = n
        inner = st.copy()
        inner.env = env
        front = f.front
        self.depth += 1
        prev = getattr(self, 'front', None)
        self.front = front or prev
        outs = []
        try:
            if f.expr:
                for v, n in self.expr(f.body, inner):
                    outs.append((v, n))
            else:
                for kind, v, n in self.block(f.body, inner):
                    if kind == 'ret':
                        outs.append((v, n))
                    elif kind == 'next':
                        outs.append((Const(None), n))
        finally:
            self.depth -= 1
            self.front = prev
        for v, n in outs:
            n = n.copy()
            n.env = dict(saved)
            yield v, n

    @staticmethod
    def ref(v):
        """key of a value used as an argument of an opaque function"""
        if isinstance(v, Vec) and isinstance(v.el, P):
            return v.el.key
        return poly(v).key

    # ---- expressions: yields (value, state)
    def exprs(self, es, st):
        outs = [([], st)]
        for e in es:
            nxt = []
            for vs, s in outs:
                for v, n in self.expr(e, s):
                    nxt.append((vs + [v], n))
            outs = nxt
        return outs

    def expr(self, e, st):
        self.tick()
        k = e[0]
        if k == 'const':
            yield (num(e[1]) if isinstance(e[1], (int, float)) and not isinstance(e[1], bool) and e[1] == e[1] and abs(e[1]) != float('inf') else Const(e[1])), st
        elif k == 'var':
            if e[1] in st.env:
                yield st.env[e[1]], st
            else:
                yield self.front.resolve(self, e[1], st), st
        elif k == 'bin':
            for (a, b), n in self.exprs(e[2:4], st):
                yield self.arith(e[1], a, b), n
        elif k == 'neg':
            for v, n in self.expr(e[1], st):
                yield self.lift(lambda x: -x, v), n
        elif k == 'cmp':
            for (a, b), n in self.exprs(e[2:4], st):
                yield self.compare(e[1], a, b), n
        elif k == 'not':
            for v, n in self.expr(e[1], st):
                b = self.truth(v)
                yield (Bool(None if b.v is None else not b.v, (b.lit[0], b.lit[1], not b.lit[2]) if b.lit else None)), n
        elif k in ('and', 'or'):
            for a, n in self.expr(e[1], st):
                b = self.truth(a)
                stop = (k == 'or')
                if b.v is not None:
                    if b.v == stop:
                        yield a, n
                    else:
                        yield from self.expr(e[2], n)
                    continue
                t = self.assume(n, b, stop)
                if t is not None:
                    yield Bool(stop), t
                f = self.assume(n, b, not stop)
                if f is not None:
                    yield from self.expr(e[2], f)
        elif k == 'ite':
            for c, n in self.expr(e[1], st):
                b = self.truth(c)
                t, f = self.assume(n, b, True), self.assume(n, b, False)
                if t is not None:
                    yield from self.expr(e[2], t)
                if f is not None:
                    yield from self.expr(e[3], f)
        elif k == 'idx':
            for (o, i), n in self.exprs(e[1:3], st):
                yield self.index(o, i, n), n
        elif k == 'deref':
            for o, n in self.expr(e[1], st):
                yield (self.index(o.vec, o.pos, n) if isinstance(o, It) else o), n
        elif k == 'incr':
            for cur, n in self.expr(e[1], st):
                n = n.copy()
                new = self.arith(e[2], cur, num(1))
                self.store(e[1], new, n)
                yield (cur if e[3] else new), n
        elif k == 'assign':
            for v, n in self.expr(e[2], st):
                n = n.copy()
                self.store(e[1], v, n)
                yield v, n
        elif k == 'tuple':
            for vs, n in self.exprs(e[1], st):
                yield Tup(vs), n
        elif k == 'lambda':
            c = Clo(e[1], e[2], dict(st.env), expr=e[3], name='lambda', front=self.front)
            c.defaults = {p: v for p, v in (e[4] or {}).items()} if len(e) > 4 else {}
            yield c, st
        elif k == 'comp':
            yield from self.comp(e, st)
        elif k == 'attr':
            for o, n in self.expr(e[1], st):
                yield self.front.attr(self, o, e[2], n), n
        elif k == 'call':
            if e[1][0] == 'name':
                heads = [(st.env[e[1][1]] if e[1][1] in st.env else e[1], st)]
            else:
                heads = self.expr(e[1], st)
            for f, n in heads:
                for vs, n2 in self.exprs(e[2], n):
                    kws = list(e[3].items())
                    for kv, n3 in self.exprs([x for _, x in kws], n2):
                        kw = {k2: v for (k2, _), v in zip(kws, kv)}
                        r = self.front.builtin(self, f, vs, kw, n3)
                        if r is not None:
                            yield r, n3
                        elif isinstance(f, tuple):
                            yield from self.call(self.front.resolve(self, f[1], n3), vs, kw, n3)
                        else:
                            yield from self.call(f, vs, kw, n3)
        elif k == 'mcall':
            for o, n in self.expr(e[1], st):
                for vs, n2 in self.exprs(e[3], n):
                    kws = list(e[4].items())
                    for kv, n3 in self.exprs([x for _, x in kws], n2):
                        kw = {k2: v for (k2, _), v in zip(kws, kv)}
                        yield from self.front.method(self, o, e[2], vs, kw, n3, e)
        elif k == 'new':
            for vs, n in self.exprs(e[2], st):
                yield from self.front.construct(self, e[1], vs, n)
        else:
            yield Unk(e[1] if len(e) > 1 and isinstance(e[1], str) else k), st

    def comp(self, e, st):
        target, it_e, conds, elt = e[1], e[2], e[3], e[4]
        for it, n in self.expr(it_e, st):
            if not isinstance(it, Vec) or it.nd != 1:
                yield Unk('comprehension over something that is not a vector'), n
                continue
            s = n.copy()
            self.store(target, it.el, s)
            cases = []
            starts = [s]
            skip = []
            for c in conds:
                nxt = []
                for x in starts:
                    for v, x2 in self.expr(c, x):
                        b = self.truth(v)
                        t, f = self.assume(x2, b, True), self.assume(x2, b, False)
                        if t is not None:
                            nxt.append(t)
                        if f is not None:
                            skip.append(f)
                starts = nxt
            other = None
            for x in starts:
                for v, x2 in self.expr(elt, x):
                    if isinstance(v, (P, Const)):
                        cases.append(({k: y for k, y in x2.lits.items() if k not in n.lits}, poly(v)))
                    else:
                        other = v
            for x in skip:
                cases.append(({k: y for k, y in x.lits.items() if k not in n.lits}, P()))
            if other is not None:
                yield (Vec(other, it.lo, it.hi) if len(cases) == 0 and not skip else Unk('comprehension')), n
                continue
            v = self.join(cases) if cases else None
            yield (Vec(v, it.lo, it.hi) if v is not None else Unk('comprehension')), n

    def index(self, o, i, st):
        if isinstance(o, Vec):
            if isinstance(i, (P, Const)):
                p = poly(i)
                if unknowns(p):
                    return unk(unknowns(p)[0])
                if o.nd == 2:
                    return Vec(o.el, o.lo, o.hi, 1, o.name)
                if p.is_const() and o.name == 'args':
                    return P.atom(('sym', 'degree')) if p.value() == 0 else unk('argument')
                k = P.atom(('k',))
                sh = p - k
                if sh.is_const() and isinstance(o.el, P):
                    if sh.zero():
                        return o.el
                    return subst(o.el, lambda a: P.atom((a[0], a[1], a[2] + int(sh.value()))) if a[0] == 'el' else None)
                if isinstance(o.el, P) and p.is_const():
                    return P.atom(('call', 'item', o.el.key, p.key))
                if isinstance(o.el, P) and not any(a[0] == 'acc' for a in atoms(p)):
                    return P.atom(('call', 'item', o.el.key, p.key))
            return unk('index')
        if isinstance(o, Tup) and isinstance(i, (P, Const)):
            p = poly(i)
            if p.is_const() and -len(o.items) <= int(p.value()) < len(o.items):
                return o.items[int(p.value())]
        if isinstance(o, Rec) and isinstance(i, Const):
            return st.fields.get((o.id, ('item', i.v)), Unk('item'))
        return Unk('index')
