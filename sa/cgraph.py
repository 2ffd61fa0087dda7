"""The call graph of the native library: who calls whom, and which calls are inside a try block that catches every exception."""

from . import cxx
from .cexec import args_of, sig

CALLS = ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXNewExpr')


class Graph:
    def __init__(self, F):
        self.F = F
        self.sub = {}
        for q, r in F.records.items():
            for b in r.get('bases', []):
                self.sub.setdefault(plain(b), set()).add(q)
        self.edges = {}
        self.defs_by_plain = {}
        for f in F.functions:
            if f.get('body') and not f.get('tmpl'):
                self.defs_by_plain.setdefault(plain(f['q']), []).append(f)

    def subclasses(self, q):
        out, todo = set(), [q]
        while todo:
            for s in self.sub.get(plain(todo.pop()), ()):
                if s not in out:
                    out.add(s)
                    todo.append(s)
        return out

    def targets(self, n):
        """definitions that a call node may enter"""
        q = n.get('r')
        if not q:
            return []
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXNewExpr'):
            c = [g for g in self.F.defs(q) if not g.get('tmpl')] or self.defs_by_plain.get(plain(q), [])
        else:
            c = [g for g in self.F.defs(q) if not g.get('tmpl')]
        if len(c) > 1 and n.get('ft'):
            e = [g for g in c if sig(g) == args_of(n['ft'])]
            if len(e) > 1:
                for k in ('targs', 'clst'):
                    e = [g for g in e if not n.get(k) or g.get(k) == n[k]] or e
            c = e or c
        cls, _, name = q.rpartition('::')
        out = list(c)
        if n['k'] == 'CXXMemberCallExpr':
            for s in self.subclasses(cls):
                out += [g for g in self.F.defs(s + '::' + name) if not g.get('tmpl')]
        return out

    def calls(self, f):
        """[(call node, caught)] of a function; caught: inside a try block with a handler for std::exception or everything"""
        key = id(f)
        if key in self.edges:
            return self.edges[key]
        out = []

        def go(n, caught):
            if n is None:
                return
            if n['k'] == 'CXXTryStmt':
                kids = cxx.ch(n)
                every = any(k['k'] == 'CXXCatchStmt' and catches(k.get('ct')) for k in kids)
                for k in kids:
                    go(k, (caught or every) if k['k'] != 'CXXCatchStmt' else caught)
                return
            if n['k'] in CALLS or n['k'] == 'CXXThrowExpr':
                out.append((n, caught))
            for k in cxx.ch(n):
                go(k, caught)
            for d in n.get('d') or []:
                go(d, caught)
            if n.get('cv'):
                go(n['cv'], caught)
        for r in cxx.subtree_roots(f):
            go(r, False)
        self.edges[key] = out
        return out


def catches(t):
    t = (t or '').replace('const', '').replace('&', '').strip()
    return t in ('', '...', 'std::exception', 'exception')


def plain(q):
    """a qualified name without template arguments"""
    out, d = '', 0
    for c in q:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif not d:
            out += c
    return out


def message(n):
    """the first text of a throw expression, or the type that it throws"""
    for x in cxx.walk(n):
        if x['k'] == 'StringLiteral' and x.get('v'):
            return x['v'].strip()
    return thrown(n)


def thrown(n):
    for x in cxx.ch(n):
        return plain(x.get('t', '')).strip() or '?'
    return 'rethrow'
