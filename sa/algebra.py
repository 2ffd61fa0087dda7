"""Canonical arithmetic for value numbering: polynomials with rational coefficients over atoms.

An atom is a hashable tuple.  Two expressions that are rearrangements of each other get the same key; nothing is
evaluated and no solver is asked: equality is equality of keys.

Atoms: ('el', X, shift) coordinate of X at the loop position (plus shift), ('k',) the loop position, ('dims',),
('rows',), ('sym', name), ('abs', key), ('sqrt', key), ('inv', key), ('pow', base key, exponent key),
('when', key of d, key of t): t where d is not zero, 0 elsewhere, ('fold', op, lo, hi, key), ('col', op, X),
('call', name, keys), ('acc', name), ('unk', why)."""

from fractions import Fraction

ONE_M = ()


class P:
    __slots__ = ('t', '_k')

    def __init__(self, t=None):
        self.t = {m: c for m, c in (t or {}).items() if c}
        self._k = None

    # construction
    @staticmethod
    def const(c):
        return P({ONE_M: Fraction(c)})

    @staticmethod
    def atom(a):
        return P({((a, 1),): Fraction(1)})

    @property
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items(), key=repr))
        return self._k

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __hash__(self):
        return hash(self.key)

    def is_const(self):
        return all(m == ONE_M for m in self.t)

    def value(self):
        return self.t.get(ONE_M, Fraction(0))

    def zero(self):
        return not self.t

    # arithmetic
    def __add__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            r[m] = r.get(m, 0) + c
        return P(r)

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        return P({m: k * c for m, k in self.t.items()})

    def __mul__(self, o):
        out = P()
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                out = out + mono_mul(m1, m2).scale(c1 * c2)
        return out

    def __repr__(self):
        return show(self)


def mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    extra = None
    for a in list(d):
        if a[0] == 'inv':
            base = from_key(a[1])
            # x * 1/x for a single atom x that occurs as a factor
            if len(base.t) == 1:
                (bm, bc), = base.t.items()
                if bc == 1 and len(bm) == 1 and bm[0][0] in d and d[bm[0][0]] >= bm[0][1] and bm[0][0][0] != 'el':
                    n = min(d[a], d[bm[0][0]] // bm[0][1])
                    d[a] -= n
                    d[bm[0][0]] -= n * bm[0][1]
        elif a[0] in ('abs', 'sqrt') and d[a] >= 2:
            n = d[a] // 2
            d[a] -= 2 * n
            base = from_key(a[1])
            for _ in range(n * (2 if a[0] == 'abs' else 1)):
                extra = base if extra is None else extra * base
    d = {a: e for a, e in d.items() if e}
    if 'unk' in (a[0] for a in d):
        # one cause is enough
        u = sorted((a for a in d if a[0] == 'unk'), key=repr)[0]
        return P.atom(u)
    r = P({tuple(sorted(d.items(), key=repr)): Fraction(1)})
    return r * extra if extra is not None else r


def from_key(k):
    return P(dict(k))


def num(c):
    return P.const(Fraction(c).limit_denominator(10 ** 9) if isinstance(c, float) else c)


def unk(why):
    return P.atom(('unk', why))


def atoms(p, deep=True):
    for m in p.t:
        for a, _ in m:
            yield a
            if deep:
                for x in a[1:]:
                    if isinstance(x, tuple) and x and isinstance(x[0], tuple) and len(x[0]) == 2 and isinstance(x[0][0], tuple):
                        yield from atoms(from_key(x))


def unknowns(p):
    return sorted({str(a[1]) for a in atoms(p) if a[0] == 'unk'})


def has(p, kind):
    return any(a[0] == kind for a in atoms(p))


def lead_sign(p):
    """make the sign of p canonical: +1 or -1"""
    if p.zero():
        return 1
    k = p.key
    return 1 if k[0][1] > 0 else -1


def nonneg(p):
    """every monomial is a non-negative factor product with a positive coefficient"""
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 == 0:
                continue
            if a[0] in ('abs', 'sqrt', 'dims', 'rows', 'k'):
                continue
            if a[0] in ('inv', 'when', 'fold', 'pow'):
                if a[0] == 'when' and nonneg(from_key(a[2])):
                    continue
                if a[0] in ('inv', 'pow') and nonneg(from_key(a[1])):
                    continue
                if a[0] == 'fold' and nonneg(from_key(a[4])):
                    continue
            return False
    return True


def absv(p):
    if p.is_const():
        return P.const(abs(p.value()))
    if unknowns(p):
        return unk(unknowns(p)[0])
    if nonneg(p):
        return p
    if lead_sign(p) < 0:
        p = -p
    # |x * n| = |x| * n for a single monomial
    if len(p.t) == 1:
        (m, c), = p.t.items()
        out = P.const(c)
        for a, e in m:
            one = P({((a, e),): Fraction(1)})
            out = out * (one if nonneg(one) else (P.atom(('abs', P.atom(a).key)) if e == 1 else P({((('abs', P.atom(a).key), e),): Fraction(1)}) if e == 1 else power(P.atom(('abs', P.atom(a).key)), e)))
        return out
    c0 = p.key[0][1]
    return P.atom(('abs', p.scale(1 / c0).key)).scale(c0)


A, B = ('el', 'A', 0), ('el', 'B', 0)


def power(p, n):
    r = P.const(1)
    for _ in range(n):
        r = r * p
    return r


def sqrt(p):
    if unknowns(p):
        return unk(unknowns(p)[0])
    if p.is_const() and p.value() >= 0:
        v = p.value()
        from math import isqrt
        n, d = isqrt(v.numerator), isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return P.const(Fraction(n, d))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if all(e % 2 == 0 for _, e in m) and c > 0:
            r = sqrt(P.const(c))
            if not has(r, 'sqrt'):
                return absv(P({tuple((a, e // 2) for a, e in m): Fraction(1)})) * r
    d = P.atom(A) - P.atom(B)
    if p == d * d:
        return absv(d)
    return P.atom(('sqrt', p.key))


def inv(p):
    if p.is_const():
        return P.const(1 / p.value()) if p.value() else unk('division by zero')
    if unknowns(p):
        return unk(unknowns(p)[0])
    if len(p.t) == 1:
        (m, c), = p.t.items()
        out = P.const(1 / c)
        for a, e in m:
            out = out * (power(from_key(a[1]), e) if a[0] == 'inv' else power(P.atom(('inv', P.atom(a).key)), e))
        return out
    # the factors that every monomial shares
    common = None
    for m in p.t:
        d = dict(m)
        common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
    if common:
        rest = P({tuple(sorted(((a, e - common.get(a, 0)) for a, e in m if e > common.get(a, 0)), key=repr)): c for m, c in p.t.items()})
        return inv(rest) * inv(P({tuple(sorted(common.items(), key=repr)): 1}))
    c0 = p.key[0][1]
    return P.atom(('inv', p.scale(1 / c0).key)).scale(1 / c0)


def pow_(p, e):
    if unknowns(p) or unknowns(e):
        return unk((unknowns(p) + unknowns(e))[0])
    if e.is_const():
        v = e.value()
        if v == Fraction(1, 2):
            return sqrt(p)
        if v.denominator == 1 and 0 <= v <= 8:
            return power(p, int(v))
        if v.denominator == 1 and -4 <= v < 0:
            return inv(power(p, int(-v)))
        if v.denominator == 2 and 0 < v < 8:
            return power(sqrt(p), int(2 * v))
    if p.is_const() and p.value() in (0, 1):
        return p
    return P.atom(('pow', p.key, e.key))


def maxv(x, y):
    return (x + y + absv(x - y)).scale(Fraction(1, 2))


def minv(x, y):
    return (x + y - absv(x - y)).scale(Fraction(1, 2))


def subst(p, f):
    """replace atoms: f(atom) -> P or None"""
    out = P()
    for m, c in p.t.items():
        r = P.const(c)
        for a, e in m:
            v = f(a)
            if v is None:
                v = rebuild(a, f)
            r = r * power(v, e)
        out = out + r
    return out


def rebuild(a, f):
    k = a[0]
    if k == 'abs':
        return absv(subst(from_key(a[1]), f))
    if k == 'sqrt':
        return sqrt(subst(from_key(a[1]), f))
    if k == 'inv':
        d = subst(from_key(a[1]), f)
        return unk('division by zero') if d.zero() else inv(d)
    if k == 'pow':
        return pow_(subst(from_key(a[1]), f), subst(from_key(a[2]), f))
    if k == 'when':
        return when(subst(from_key(a[1]), f), subst(from_key(a[2]), f))
    if k == 'fold':
        return fold(a[1], from_key(a[2]), from_key(a[3]), subst(from_key(a[4]), f))
    return P.atom(a)


def vanishes_with(d):
    """substitution that makes d zero, or None: handles x, |x|, |x|+|y|, x-y and products"""
    els = [a for a in atoms(d) if a[0] in ('el', 'sym')]
    els = list(dict.fromkeys(els))
    if len(d.t) == 1:
        (m, c), = d.t.items()
        if len(m) == 1:
            a = m[0][0]
            if a[0] == 'abs':
                return vanishes_with(from_key(a[1]))
            if a[0] in ('el', 'sym', 'fold'):
                return lambda x, a=a: P() if x == a else None
        return None
    if all(len(m) == 1 and c > 0 and (m[0][0][0] == 'abs' or m[0][1] % 2 == 0) for m, c in d.t.items()):
        subs = [vanishes_with(P.atom(m[0][0])) for m in d.t]
        if all(subs):
            def f(x):
                for s in subs:
                    r = s(x)
                    if r is not None:
                        return r
                return None
            return f
        return None
    if len(d.t) == 2:
        (m1, c1), (m2, c2) = sorted(d.t.items(), key=repr)
        if len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1 and m1[0][0][0] == m2[0][0][0] == 'el':
            a, b = m1[0][0], m2[0][0]
            return lambda x: P.atom(a).scale(-c1 / c2) if x == b else None
    return None


def guard_key(d):
    """canonical form of the condition d != 0"""
    if len(d.t) == 1:
        (m, c), = d.t.items()
        d = P({m: Fraction(1)})
        if len(m) == 1 and m[0][0][0] in ('abs', 'sqrt'):
            return guard_key(from_key(m[0][0][1]))
        if len(m) == 1:
            return P({((m[0][0], 1),): Fraction(1)})
        return d
    if d.zero():
        return d
    return d.scale(1 / d.key[0][1])


def when(d, t):
    """t where d is not zero, 0 elsewhere"""
    if t.zero():
        return t
    if unknowns(d) or unknowns(t):
        return unk((unknowns(d) + unknowns(t))[0])
    d = guard_key(d)
    if d.is_const():
        return t if d.value() else P()
    s = vanishes_with(d)
    if s is not None:
        divides = any(x[0] == 'inv' and subst(from_key(x[1]), s).zero() for x in atoms(t))
        if not divides and subst(t, s).zero():
            return t
    # linear: one atom per monomial keeps sums comparable
    out = P()
    for m, c in t.t.items():
        if len(m) == 1 and m[0][0][0] == 'when' and from_key(m[0][0][1]) == d and m[0][1] == 1:
            out = out + P({m: c})
        else:
            out = out + P.atom(('when', d.key, P({m: Fraction(1)}).key)).scale(c)
    return out


VARY = ('el', 'k')


def varies(a):
    if a[0] in VARY:
        return True
    if a[0] == 'fold':
        return False
    return any(varies(x) for x in atoms(P.atom(a)) if x != a and x[0] != 'fold') if a[0] in ('abs', 'sqrt', 'inv', 'pow', 'when', 'call') else a[0] == 'unk'


def fold(op, lo, hi, t):
    """op over the positions lo..hi of t; sums are linear"""
    if unknowns(t) or unknowns(lo) or unknowns(hi):
        return unk((unknowns(t) + unknowns(lo) + unknowns(hi))[0])
    if op == 'sum':
        out = P()
        for m, c in t.t.items():
            inva = tuple((a, e) for a, e in m if not varies(a))
            vary = tuple((a, e) for a, e in m if varies(a))
            # factors that do not vary leave a guarded term as well
            if len(vary) == 1 and vary[0][1] == 1 and vary[0][0][0] == 'when':
                w = vary[0][0]
                (wm, wc), = from_key(w[2]).t.items()
                wi = tuple((a, e) for a, e in wm if not varies(a))
                wv = tuple((a, e) for a, e in wm if varies(a))
                if wi and wv:
                    vary = tuple(((('when', w[1], P({wv: Fraction(1)}).key), 1),))
                    inva = inva + wi
            f = (hi - lo) if not vary else P.atom(('fold', 'sum', lo.key, hi.key, P({vary: Fraction(1)}).key))
            out = out + P({inva: c}) * f
        return out
    if not any(varies(a) for m in t.t for a, _ in m):
        return t
    return P.atom(('fold', op, lo.key, hi.key, t.key))


def show(p, d=0):
    if p.zero():
        return '0'
    out = []
    for m, c in sorted(p.t.items(), key=repr):
        fs = []
        for a, e in m:
            s = show_atom(a, d)
            fs.append(s if e == 1 else '%s^%d' % (s, e))
        body = ' '.join(fs)
        if not body:
            out.append(str(c))
        else:
            out.append(body if c == 1 else '-' + body if c == -1 else '%s %s' % (c, body))
    s = ' + '.join(out)
    return s.replace('+ -', '- ')


def show_atom(a, d=0):
    if d > 8:
        return '..'
    k = a[0]
    s = lambda x: show(from_key(x), d + 1)
    if k == 'el':
        return {'A': 'a', 'B': 'b', 'R': 'r'}.get(a[1], str(a[1])) + ('[i%+d]' % a[2] if a[2] else '[i]')
    if k == 'abs':
        return '|%s|' % s(a[1])
    if k == 'sqrt':
        return 'sqrt(%s)' % s(a[1])
    if k == 'inv':
        return '1/(%s)' % s(a[1])
    if k == 'pow':
        return '(%s)^(%s)' % (s(a[1]), s(a[2]))
    if k == 'when':
        return '[%s if %s != 0]' % (s(a[2]), s(a[1]))
    if k == 'fold':
        return '%s{%s..%s}(%s)' % (a[1], s(a[2]), s(a[3]), s(a[4]))
    if k == 'k':
        return 'i'
    if k == 'sym':
        return a[1]
    if k == 'unk':
        return '?(%s)' % a[1]
    if k == 'call':
        return '%s(%s)' % (a[1], ', '.join(s(x) for x in a[2:]))
    return '%s' % ' '.join(str(x) for x in a)
