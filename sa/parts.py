"""Paths of methods as lists of accounting events: which index is put where, which flags are tested and set, which elements are joined and dropped.

Neutral between the Python and the C++ executor.  An event is a tuple:
('iter', T, src, node)      a loop takes its element T from src; src is ('range', start, stop) or the term that is walked
('put', B, x)               the index (or list) x is appended to B
('extend', B, X)            the elements of X are appended to B
('drop', C, j)              element number j (or the element itself) is removed from C
('flag', A, i, v)           flag number i of A (or of object i: A is the name of the field) becomes v
('guard', A, i, v)          the path is one where that flag is v
('cond', t, v)              another condition
('count', t, d)             the number t changes by d
('set', name, t)            a field of the object itself is set
"""

import ast

from . import cxx, cexec
from .pexec import Exec as PExec, Ev, State, TooManyPaths, show as pshow


class Path:
    __slots__ = ('events', 'outcome', 'conds')

    def __init__(self, events, outcome, conds):
        self.events, self.outcome, self.conds = events, outcome, conds


# ---------------------------------------------------------------- Python
def ext(t, n):
    return t[0] == 'ext' and t[1] == 'builtins.' + n


def src(it):
    if it[0] == 'call' and ext(it[1], 'range') and not it[3]:
        a = it[2]
        if len(a) == 1:
            return ('range', ('const', 0), a[0])
        if len(a) == 2 or (len(a) == 3 and a[2] == ('const', 1)):
            return ('range', a[0], a[1])
        return ('range?', it)
    if it[0] == 'call' and ext(it[1], 'enumerate'):
        if len(it[2]) == 1 and not it[3]:
            return ('range', ('const', 0), ('call', ('ext', 'builtins.len'), (it[2][0],), (), 0))
        return ('range?', it)
    return it


def lenof(t):
    """X when t is the number of elements of X"""
    if t[0] == 'call' and ext(t[1], 'len') and len(t[2]) == 1:
        return t[2][0]
    if t[0] == 'size':
        return t[1]
    return None


def element(it):
    if it[0] == 'call' and ext(it[1], 'enumerate'):
        return ('elem', ('call', ('ext', 'builtins.range'), (('call', ('ext', 'builtins.len'), (it[2][0],), (), 0),), (), 0))
    return ('elem', it)


def guard(t, v):
    """(A, i, value) when the condition t == v says what a flag is"""
    if t[0] == 'cmp' and t[1] in ('Is', 'IsNot', 'Eq', 'NotEq'):
        a, b = t[2], t[3]
        for x, y in ((a, b), (b, a)):
            if y in (('const', True), ('const', False)):
                g = place(x)
                if g:
                    return g + ((y[1] is True) == ((t[1] in ('Is', 'Eq')) == v),)
    g = place(t)
    if g:
        return g + (v,)
    return None


def place(t):
    if t[0] == 'sub':
        return t[1], t[2]
    if t[0] == 'attr':
        return ('field', t[2]), t[1]
    return None


class Identified(PExec):
    """gives containers an identity: two empty lists are two lists"""

    def assign(self, tg, t, st, f, aug=False):
        if not aug and isinstance(tg, (ast.Name, ast.Attribute)) and self.container(t):
            st.next += 1
            t = ('new', st.next, t, tg.id if isinstance(tg, ast.Name) else self.mangle(tg.attr, f))
        elif not aug and isinstance(tg, ast.Name) and t[0] == 'list' and len(t) > 1:
            st.emit(Ev('display', (tg.id, t), tg, f))
        return super().assign(tg, t, st, f, aug)

    def container(self, t):
        if t in (('list',), ('dict',), ('set',)) or t[0] in ('listcomp', 'dictcomp', 'setcomp'):
            return True
        if t[0] == 'op' and t[1] == 'Mult' and any(x[0] in ('list', 'tuple') for x in t[2:] if isinstance(x, tuple)):
            return True
        return t[0] == 'call' and t[1][0] == 'ext' and (t[1][1] in ('builtins.list', 'builtins.set', 'builtins.dict') or t[1][1].startswith(('numpy.', 'collections.')))


def name(t):
    """a name for a container, the same on every path"""
    if t[0] == 'new':
        return t[3]
    if t[0] == 'attr':
        return t[2]
    if t[0] == 'field':
        return t[1]
    if t[0] == 'f':
        return t[2]
    if t[0] in ('param', 'v'):
        return t[1]
    return str(t)


class PyPaths:
    def __init__(self, prog, cls, max_paths=3000):
        self.prog, self.cls, self.max_paths = prog, cls, max_paths
        self.own = {f for c in cls.mro() for f in c.methods.values()}
        self.putting = self.putters()

    def body_puts(self, f, names):
        """does f append one of the names, by itself"""
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'insert', 'add'):
                for a in n.args:
                    if isinstance(a, ast.Name) and a.id in names:
                        return True
                    if isinstance(a, (ast.List, ast.Tuple)) and any(isinstance(x, ast.Name) and x.id in names for x in a.elts):
                        return True
            if isinstance(n, ast.AugAssign) and isinstance(n.value, ast.List) and any(isinstance(x, ast.Name) and x.id in names for x in n.value.elts):
                return True
            if isinstance(n, ast.List) and any(isinstance(x, ast.Name) and x.id in names for x in n.elts):
                return True
        return False

    def callee(self, call):
        f = call.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('self', 'cls'):
            return self.cls.find(self.mangled(f.attr))
        return None

    def mangled(self, name):
        for c in self.cls.mro():
            if c.mangle(name) in c.methods:
                return c.mangle(name)
        return name

    def putters(self):
        out = {}
        for f in self.own:
            ps = {p for p in f.params if p != 'self'}
            if self.body_puts(f, ps):
                out[f] = True
        ch = True
        while ch:
            ch = False
            for f in self.own:
                if f in out:
                    continue
                ps = {p for p in f.params if p != 'self'}
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Call) and self.callee(n) in out and any(isinstance(a, ast.Name) and a.id in ps for a in n.args):
                        out[f] = True
                        ch = True
                        break
        return out

    def setters(self):
        """methods that do little but set fields of the object"""
        out = set()
        for f in self.own:
            if not any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(f.node)) and any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)) and len(f.node.body) < 12:
                out.add(f)
        return out

    def run(self, f, inline='putters'):
        small = self.setters()

        def inl(g, st):
            if g not in self.own or g.name == '__init__':
                return False
            return g in self.putting or g in small or inline == 'all'
        ex = Identified(self.prog, inline=inl, max_paths=self.max_paths, max_depth=5)
        st = State()
        obj = ex.new(self.cls, st)
        out = []
        for s, oc in ex.run(f, None, obj, st):
            out.append(Path(self.events(s), oc[0] if oc else None, s.cond_list()))
        return out

    def events(self, s):
        out = []
        for e in s.events():
            if e.kind == 'iter':
                if e.a[0] != ('const', None):
                    out.append(('iter', element(e.a[0]), src(e.a[0]), e.node))
                else:
                    out.append(('loop', e.node))
            elif e.kind == 'call':
                t = e.a
                c, a = t[1], t[2]
                if c[0] == 'attr':
                    if c[2] == 'append' and len(a) == 1:
                        out.append(('put', c[1], a[0], e.node))
                    elif c[2] == 'add' and len(a) == 1:
                        out.append(('put', c[1], a[0], e.node))
                    elif c[2] == 'insert' and len(a) == 2:
                        out.append(('put', c[1], a[1], e.node))
                    elif c[2] == 'extend' and len(a) == 1:
                        self.ext(out, c[1], a[0], e.node)
                    elif c[2] in ('pop', 'remove', 'discard'):
                        out.append(('drop', c[1], a[0] if a else ('const', -1), e.node))
                    elif c[2] == 'clear':
                        out.append(('clear', c[1], e.node))
            elif e.kind == 'display':
                for x in e.a[1][1:]:
                    out.append(('put', e.a[1], x, e.node))
            elif e.kind == 'delsub':
                out.append(('drop', e.a[0], e.a[1], e.node))
            elif e.kind == 'aug':
                a, t = e.a[0], e.a[1]
                if t[0] == 'op' and t[1] == 'Add' and len(t) == 4 and t[3][0] not in ('const',):
                    self.ext(out, a, t[3], e.node)
                if t[0] == 'op' and t[1] in ('Add', 'Sub') and len(t) == 4 and t[3][0] == 'const':
                    out.append(('count', a, t[3][1] if t[1] == 'Add' else -t[3][1] if isinstance(t[3][1], (int, float)) else None, e.node))
            elif e.kind == 'setsub':
                if e.a[2] in (('const', True), ('const', False)):
                    out.append(('flag', e.a[0], e.a[1], e.a[2][1], e.node))
                elif e.a[2][0] == 'op' and e.a[2][1] == 'Add' and e.a[2][2] == ('sub', e.a[0], e.a[1]):
                    pass
                else:
                    out.append(('store', e.a[0], e.a[1], e.a[2], e.node))
            elif e.kind == 'setattr':
                if e.a[2] in (('const', True), ('const', False)):
                    out.append(('flag', ('field', e.a[1]), e.a[0], e.a[2][1], e.node))
                out.append(('set', e.a[0], e.a[1], e.a[2], e.node))
            elif e.kind == 'cond':
                g = guard(*e.a[0]) if isinstance(e.a[0][0], tuple) else guard(e.a[0], e.a[1])
                t, v = e.a[0] if isinstance(e.a[0][0], tuple) else e.a
                if g:
                    out.append(('guard',) + g + (e.node,))
                else:
                    out.append(('cond', t, v, e.node))
        return out

    def ext(self, out, B, X, node):
        if X[0] in ('list', 'tuple'):
            for x in X[1:]:
                out.append(('put', B, x, node))
        else:
            out.append(('extend', B, X, node))
