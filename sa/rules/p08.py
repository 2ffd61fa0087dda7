"""P08: clustering partitions the data."""

import ast

from .. import parts, pymodel
from ..cxx import Broken
from ..parts import PyPaths, TooManyPaths, lenof, name, pshow

RULES = {
    'pass': 'a pass over all points puts every index into exactly one cluster: on every path once, from the first point to the last, into clusters that are fresh',
    'removal': 'clusters are only removed when they are empty',
    'union': 'two different clusters are joined into one of them, and the other one is removed',
    'claim': 'a point is taken into a cluster only while it is free, and is marked as taken on the same path',
    'rest': 'points that no cluster has taken are the noise, each once',
}
TOTAL = ['kmeans.kmeans', 'kmedians.kmedians', 'kmedoids.kmedoids', 'clarans.clarans', 'fcm.fcm', 'ema.ema', 'ema.ema_initializer', 'birch.birch', 'bsas.bsas', 'mbsas.mbsas', 'ga_maths.ga_math']
SEEDED = {'bsas.bsas', 'mbsas.mbsas'}      # clusters are created by the pass itself
JOINED = ['agglomerative.agglomerative', 'rock.rock']
PKG = 'pyclustering.cluster.'


def where(f, node):
    return '%s:%s' % (f.module.rel, getattr(node, 'lineno', 0))


def get(prog, q):
    m, c = (PKG + q).rsplit('.', 1)
    mod = prog.modules.get(m)
    if mod is None or c not in mod.classes:
        raise Broken('class %s does not exist any more' % q)
    return mod.classes[c]


def nested(B):
    """is B one cluster out of several (not a list that is itself stored)"""
    return B[0] in ('sub', 'elem') or (B[0] == 'call' and B[1][0] == 'attr' and B[1][2] in ('setdefault', 'get'))


def root(B):
    while True:
        if B[0] == 'sub':
            B = B[1]
        elif B[0] == 'elem':
            B = B[1]
        elif B[0] == 'call' and B[1][0] == 'attr':
            B = B[1][1]
        else:
            return B


def segments(path):
    """[(iter event, events before, events of the iteration)]"""
    its = [k for k, e in enumerate(path.events) if e[0] == 'iter']
    for k in its:
        e = path.events[k]
        end = len(path.events)
        for j in its:
            if j > k and (path.events[j][-1] is e[-1] or path.events[j][1] == e[1]):
                end = j
                break
        yield e, path.events[:k], path.events[k + 1:end]


def puts_of(T, evs):
    """[(kind, B, event)] of the ways the index T is stored"""
    out = []
    for e in evs:
        if e[0] != 'put':
            continue
        B, x = e[1], e[2]
        if x == T and B[0] != 'list':
            out.append(('elem' if nested(B) else 'flat', B, e))
        elif x[0] in ('list', 'tuple', 'set') and T in x[1:] and B[0] != 'list':
            out.append(('new' if x.count(T) == 1 else 'twice', B, e))
    return out


def leaves(node):
    """break or return that ends a loop over the points early"""
    todo = [(s, False) for s in node.body]
    while todo:
        s, inner = todo.pop()
        if isinstance(s, ast.Return) or (isinstance(s, ast.Break) and not inner):
            return s
        if isinstance(s, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        for c in ast.iter_child_nodes(s):
            if isinstance(c, (ast.stmt, ast.ExceptHandler)):
                todo.append((c, inner or isinstance(s, (ast.For, ast.While))))
    return None


SIZES = (1, 2, 3, 10, 1000)


def value(t, X, n):
    """value of a condition when X has n elements; None: it depends on something else"""
    if t == X:
        return n > 0 if X is not None else None
    if lenof(t) == X or (t[0] == 'call' and t[1][0] == 'attr' and t[1][1] == X and t[1][2] in ('size', '__len__')):
        return n
    if t[0] == 'const':
        return t[1] if isinstance(t[1], (int, float)) else None
    if t[0] == 'cmp':
        if {t[2], t[3]} == {X, ('list',)}:
            return (n == 0) == (t[1] == 'Eq')
        a, b = value(t[2], X, n), value(t[3], X, n)
        if a is None or b is None:
            return None
        try:
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b, 'Eq': a == b, 'NotEq': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}.get(t[1])
        except TypeError:
            return None
    if t[0] == 'op' and t[1] in ('Not', '!'):
        a = value(t[2], X, n)
        return None if a is None else not a
    if t[0] == 'empty' and t[1] == X:
        return n == 0
    return None


def only_empty(evs, X):
    """can the path only be taken when X is empty"""
    for e in evs:
        if e[0] in ('cond', 'guard'):
            t, v = (e[1], e[2]) if e[0] == 'cond' else (('sub', e[1], e[2]), e[3])
            if all(value(t, X, n) is not None and bool(value(t, X, n)) != v for n in SIZES):
                return True
    return False


def full(src):
    """does the loop start at the first element and end at the last: (start, ok)"""
    if src[0] == 'range':
        return src[1], lenof(src[2]) is not None or src[2][0] in ('attr', 'param', 'new', 'unknown') or (src[2][0] == 'sub' and src[2][2] == ('const', 0))
    return ('const', 0), src[0] not in ('range?', 'sub', 'slice')


def loops_of(paths):
    """node of loop -> [(iter event, before, during, path)]"""
    out = {}
    for p in paths:
        for it, before, during in segments(p):
            out.setdefault(id(it[-1]), []).append((it, before, during, p))
    return out


def total(rep, pp, f, q, paths):
    found = 0
    loops = loops_of(paths)
    stored = {}
    for k, segs in loops.items():
        if any(x[0] in ('elem', 'new', 'twice') for it, b, d, p in segs for x in puts_of(it[1], d)):
            stored[k] = segs
    for k, segs in stored.items():
        node = segs[0][0][-1]
        found += 1
        c = '%s.%s' % (q, f.name)
        # how often each path stores the index
        bad = None
        later = set()
        for it, before, during, p in segs:
            if p.outcome == 'raise':
                continue
            ps = puts_of(it[1], during)
            n = sum(2 if x[0] == 'twice' else 1 for x in ps)
            if n != 1:
                bad = 'a path through the loop stores the index of a point %s' % ('nowhere' if n == 0 else '%d times' % n) + how(during)
                break
            for kind, B, e in ps:
                if kind == 'flat':
                    later.add(B)
        for B in later:
            if bad is None and not drained(B, node, stored, segs, k):
                bad = 'indexes are set aside in %s, which no later pass distributes' % name(B)
        # the points that the pass visits
        it, before, during, p = segs[0]
        start, ok = full(it[2])
        if bad is None and not ok:
            bad = 'the pass does not visit all points: it takes %s' % pshow(it[2])[:80]
        if bad is None and start != ('const', 0):
            for it, before, during, p in segs:
                first = [e for e in before if e[0] == 'put' and e[2] in (('list', ('const', 0)), ('const', 0))]
                if start != ('const', 1) or len(first) != 1:
                    bad = 'the pass begins with point %s, and the points before it are stored %d times' % (pshow(start)[:40], len(first))
                    break
        elif bad is None and it[2][0] == 'range' and any(e[0] == 'put' and e[2] in (('list', ('const', 0)), ('const', 0)) and e[1][0] != 'list' and q in SEEDED for it, b, d, p in segs for e in b):
            bad = 'the first point is stored before the pass that stores it again'
        x = leaves(node)
        if bad is None and x is not None:
            bad = 'the pass over the points ends early at line %d' % x.lineno
        if bad is None and q not in SEEDED:
            for it, before, during, p in segs:
                for kind, B, e in puts_of(it[1], during):
                    r = root(B)
                    if kind == 'elem' and r[0] != 'new' and not fresh_elsewhere(r):
                        bad = 'the clusters %s still hold what an earlier pass has stored' % name(r)
        rep.check(bad is None, 'pass', c, where(f, node), bad or 'stored once on %d paths' % len(segs))
    return found


def fresh_elsewhere(r):
    """built by a call: the list it returns is a new one"""
    return r[0] in ('call', 'op', 'listcomp', 'list')


def how(during):
    cs = ['%s is %s' % (pshow(e[1])[:60], e[2]) for e in during if e[0] == 'cond'] + ['%s[..] is %s' % (name(e[1]), e[3]) for e in during if e[0] == 'guard']
    return ' (when %s)' % ', '.join(cs[-2:]) if cs else ''


def drained(B, node, stored, segs, k):
    if 'noise' in name(B):
        return True
    for j, other in stored.items():
        if j != k and any(it[2] == B or name(it[2]) == name(B) for it, b, d, p in other):
            return True
    return False


def removal(rep, pp, f, q, paths):
    # comprehension filters
    for n in ast.walk(f.node):
        if isinstance(n, ast.ListComp) and len(n.generators) == 1 and n.generators[0].ifs:
            g = n.generators[0]
            it = g.iter.id if isinstance(g.iter, ast.Name) else g.iter.attr if isinstance(g.iter, ast.Attribute) else ''
            if isinstance(g.target, ast.Name) and isinstance(n.elt, ast.Name) and n.elt.id == g.target.id and 'cluster' in it.lower():
                ok = all(asteval(c, g.target.id, k) for c in g.ifs for k in SIZES)
                rep.check(ok, 'removal', '%s.%s' % (q, f.name), where(f, n), 'clusters that hold points are filtered out by %s' % ast.unparse(g.ifs[0]) if not ok else 'only empty clusters are filtered out')
    # loops that copy the clusters worth keeping
    for k, segs in loops_of(paths).items():
        kept = None
        for it, before, during, p in segs:
            for e in during:
                if e[0] == 'put':
                    x = e[2]
                    if x[0] == 'sub' and x[2] == it[1] and 'cluster' in name(x[1]).lower() and lenof(it[2][2] if it[2][0] == 'range' else ('x',)) == x[1]:
                        kept = ('sub', x[1])
                    elif x == it[1] and it[2][0] in ('new', 'attr', 'param') and 'cluster' in name(it[2]).lower():
                        kept = ('elem',)
        if kept is None:
            continue
        for it, before, during, p in segs:
            X = ('sub', kept[1], it[1]) if kept[0] == 'sub' else it[1]
            n = sum(1 for e in during if e[0] == 'put' and e[2] == X)
            if n != 1 and p.outcome != 'raise':
                ok = n == 0 and only_empty(during, X)
                rep.check(ok, 'removal', '%s.%s' % (q, f.name), where(f, it[-1]), 'a cluster that holds points is %s' % ('left out' if n == 0 else 'kept twice') + how(during) if not ok else 'only empty clusters are left out')


def asteval(e, v, n):
    def ev(x):
        if isinstance(x, ast.Name) and x.id == v:
            return [0] * n
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('len', 'bool', 'any') and len(x.args) == 1:
            a = ev(x.args[0])
            return len(a) if x.func.id == 'len' else bool(a)
        if isinstance(x, ast.Constant):
            return x.value
        if isinstance(x, ast.List) and not x.elts:
            return []
        if isinstance(x, ast.Compare) and len(x.ops) == 1:
            a, b = ev(x.left), ev(x.comparators[0])
            op = type(x.ops[0]).__name__
            return {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b, 'Eq': lambda: a == b, 'NotEq': lambda: a != b, 'Is': lambda: a is b, 'IsNot': lambda: a is not b}[op]()
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
            return not ev(x.operand)
        if isinstance(x, ast.BoolOp):
            vs = [ev(y) for y in x.values]
            return all(vs) if isinstance(x.op, ast.And) else any(vs)
        raise ValueError
    try:
        return bool(ev(e))
    except (ValueError, KeyError, TypeError):
        return True     # not understood: not decided


def union(rep, pp, f, q, paths):
    found = 0
    for p in paths:
        if p.outcome == 'raise':
            continue
        ext = [e for e in p.events if e[0] == 'extend' and e[2][0] == 'sub' and e[1][0] == 'sub' and e[2][1] == e[1][1] and 'cluster' in name(e[1][1]).lower()]
        part = [e for e in p.events if e[0] == 'put' and e[1][0] == 'sub' and 'cluster' in name(e[1][1]).lower() and e[2][0] == 'elem' and e[2][1][0] == 'sub' and e[2][1][1] == e[1][1]]
        ext += [('extend', e[1], e[2][1], e[3]) for e in part]
        drops = [e for e in p.events if e[0] == 'drop' and 'cluster' in name(e[1]).lower()]
        if not ext and not drops:
            continue
        known = [e for e in ext if not unknown(e[1]) and not unknown(e[2])]
        found += 1
        bad = None
        if len(drops) != len(ext):
            bad = '%d clusters are joined to others and %d are removed' % (len(ext), len(drops))
        for e in ext:
            C, i, j = e[1][1], e[1][2], e[2][2]
            d = [x for x in drops if x[1] == C]
            if bad is None and not any(same(x[2], j, C) for x in d):
                bad = 'the cluster that is removed is not the one that was joined to another one'
            if bad is None and known and e in known and not differ(i, j):
                bad = 'a cluster may be joined to itself and is then removed'
            if bad is None and any(p.events.index(x) < p.events.index(e) for x in d if e in p.events):
                bad = 'a cluster is removed before it is joined to the other one, and its number then means another cluster'
        node = (ext or drops)[0][-1]
        rep.check(bad is None, 'union', '%s.%s' % (q, f.name), where(f, node), bad or 'joined and removed')
    return found


def same(x, j, C):
    return x == j or x == ('sub', C, j)


def unknown(t):
    if t[0] in ('undefined', 'const') and (t[0] == 'undefined' or t[1] is None):
        return True
    return any(unknown(x) for x in t if isinstance(x, tuple) and x and isinstance(x[0], str))


def differ(i, j):
    """are the two positions never equal: one is taken from a range that begins after the other one"""
    if i[0] == 'const' and j[0] == 'const':
        return i[1] != j[1]
    for a, b in ((i, j), (j, i)):
        if b[0] == 'elem':
            s = parts.src(b[1])
            if s[0] == 'range' and s[1][0] == 'op' and s[1][1] == 'Add' and a in s[1][2:]:
                k = [x for x in s[1][2:] if x != a]
                if k and k[0][0] == 'const' and k[0][1] >= 1:
                    return True
            if s[0] == 'range' and s[2] == a:
                return True
    return not (i[0] == 'elem' and j[0] == 'elem')


def run(rep, tier):
    for k, v in RULES.items():
        rep.rule(k, v)
    prog = pymodel.program()
    n = 0
    for q in TOTAL + JOINED:
        cls = get(prog, q)
        pp = PyPaths(prog, cls)
        found = 0
        for f in sorted(set(cls.methods.values()), key=lambda f: f.name):
            if f.name in ('__init__',) or not any(isinstance(x, (ast.For, ast.While, ast.ListComp)) or (isinstance(x, ast.AugAssign)) or (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('pop', 'remove', 'extend')) for x in ast.walk(f.node)):
                continue
            try:
                paths = pp.run(f)
            except TooManyPaths:
                rep.notes.append('%s.%s has too many paths: not decided' % (q, f.name))
                continue
            n += len(paths)
            if q in TOTAL:
                found += total(rep, pp, f, q, paths)
            else:
                found += union(rep, pp, f, q, paths)
            removal(rep, pp, f, q, paths)
        if not found:
            rep.notes.append('%s: no pass over the points was recognised: not decided' % q)
    rep.count('paths', n)
