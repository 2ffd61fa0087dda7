"""P12: iterations, steps and amounts are what the caller asked for."""

import ast

from .. import cpasses, cxx, passes, pymodel
from ..passes import U, Run, S

SENTINEL = 7919
# class, option of the constructor, which passes are expected for a budget n
OPTIONS = [
    ('cluster.kmeans.kmeans', 'itermax', lambda n: n),
    ('cluster.kmedians.kmedians', 'itermax', lambda n: n),
    ('cluster.kmedoids.kmedoids', 'itermax', lambda n: n),
    ('cluster.fcm.fcm', 'itermax', lambda n: n),
    ('cluster.clarans.clarans', 'numlocal', lambda n: n),
    ('cluster.xmeans.xmeans', 'repeat', lambda n: n),
    ('cluster.gmeans.gmeans', 'repeat', lambda n: n),
    ('cluster.ga.genetic_algorithm', 'population_count', lambda n: n),
]
# class, method, its argument
ARGUMENTS = [
    ('nnet.som.som', 'train', 'epochs', lambda n: n),
    ('nnet.sync.sync_network', 'simulate_static', 'steps', lambda n: n),
    ('nnet.fsync.fsync_network', 'simulate', 'steps', lambda n: n),
    ('nnet.hhn.hhn_network', 'simulate', 'steps', lambda n: n),
    ('nnet.legion.legion_network', 'simulate', 'steps', lambda n: n),
    ('nnet.hysteresis.hysteresis_network', 'simulate_static', 'steps', lambda n: n),
    ('nnet.syncpr.syncpr', 'simulate_static', 'steps', lambda n: n),
    ('nnet.pcnn.pcnn_network', 'simulate', 'steps', lambda n: max(n - 1, 0)),
    ('nnet.cnn.cnn_network', 'simulate', 'steps', lambda n: max(n - 1, 0)),
]
# class, method, states that are recorded for n steps, step of the first one
RECORDED = [
    ('nnet.sync.sync_network', 'simulate_static', lambda n: n + 1, 0),
    ('nnet.syncpr.syncpr', 'simulate_static', lambda n: n + 1, 0),
    ('nnet.fsync.fsync_network', 'simulate', lambda n: n + 1, 0),
    ('nnet.hysteresis.hysteresis_network', 'simulate_static', lambda n: n + 1, 0),
    ('nnet.legion.legion_network', 'simulate', lambda n: n, 1),
    ('nnet.pcnn.pcnn_network', 'simulate', lambda n: n, 0),
    ('nnet.hhn.hhn_network', 'simulate', lambda n: n + 1, 0),
]
DATA = 5
# name, class, constructor arguments for an amount n ('data' is a list of five), methods called, what is observed, least and greatest length
AMOUNTS = [
    ('bsas', 'cluster.bsas.bsas', lambda n: {'maximum_clusters': ('c', n)}, ['process'], 'get_clusters', lambda n: 1, lambda n: n),
    ('mbsas', 'cluster.mbsas.mbsas', lambda n: {'maximum_clusters': ('c', n)}, ['process'], 'get_clusters', lambda n: 1, lambda n: n),
    ('bsas representatives', 'cluster.bsas.bsas', lambda n: {'maximum_clusters': ('c', n)}, ['process'], 'get_representatives', lambda n: 1, lambda n: n),
    ('mbsas representatives', 'cluster.mbsas.mbsas', lambda n: {'maximum_clusters': ('c', n)}, ['process'], 'get_representatives', lambda n: 1, lambda n: n),
    ('agglomerative', 'cluster.agglomerative.agglomerative', lambda n: {'number_clusters': ('c', n)}, ['process'], 'get_clusters', lambda n: n, lambda n: n),
    ('rock', 'cluster.rock.rock', lambda n: {'number_clusters': ('c', n)}, ['process'], 'get_clusters', lambda n: n, lambda n: DATA),
    ('kmeans_plusplus_initializer', 'cluster.center_initializer.kmeans_plusplus_initializer', lambda n: {'amount_centers': ('c', n)}, [], 'initialize', lambda n: n, lambda n: n),
    ('random_center_initializer', 'cluster.center_initializer.random_center_initializer', lambda n: {'amount_centers': ('c', n)}, [], 'initialize', lambda n: n, lambda n: n),
    ('kmedoids.build', 'cluster.kmedoids.build', lambda n: {'k': ('c', n)}, [], 'initialize', lambda n: n, lambda n: n),
]
# class, position of the argument in the longest constructor, name for messages
NATIVE_OPTIONS = [
    ('clst::kmeans', 2, 'itermax', lambda n: n),
    ('clst::kmedians', 2, 'itermax', lambda n: n),
    ('clst::kmedoids', 2, 'itermax', lambda n: n),
    ('clst::fcm', 3, 'itermax', lambda n: n),
    ('clst::gmeans', 2, 'repeat', lambda n: n),
    ('clst::xmeans', 4, 'repeat', lambda n: n),
]
# class, method, passes, recorded states, time of the last one when a step takes 1
NATIVE_ARGUMENTS = [
    ('nnet::som', 'train', lambda n: n, None, None),
    ('nnet::sync_network', 'simulate_static', lambda n: n, lambda n: n + 1, lambda n: n),
    ('nnet::syncpr', 'simulate_static', lambda n: n, lambda n: n + 1, lambda n: n),
    ('nnet::hhn_network', 'simulate', lambda n: n, lambda n: n + 1, lambda n: n),
    ('nnet::legion_network', 'simulate', lambda n: n - 1, lambda n: n, lambda n: n - 1),
    ('nnet::pcnn', 'simulate', lambda n: n, lambda n: n, lambda n: n - 1),
]
# greatest amount of clusters: class, option; class, position in the longest constructor, option
LIMITS = [('cluster.xmeans.xmeans', 'kmax'), ('cluster.gmeans.gmeans', 'k_max')]
NATIVE_LIMITS = [('clst::xmeans', 1, 'kmax'), ('clst::gmeans', 3, 'k_max')]
NATIVE_OFF = {'ccore': ('c', False), 'ccore_flag': ('c', False)}


def construct(P, cls, kw, mode='passes', cap=4, data=None):
    s = S()
    if data is not None:
        kw = {**kw, 'data': s.new(data)}
    r = Run(P, mode, cap, given={**kw, **NATIVE_OFF})
    r.quiet = True
    init = cls.find('__init__')
    out = []
    if init is None:
        return r, [s]
    for x, v in r.method(init.cls or cls, init, s, kw={**kw, **NATIVE_OFF}, recv=cls):
        if v != ('raise',):
            out.append(x)
    return r, out


def off(x):
    """native pointers and flags of an object that works in Python"""
    for k in list(x.attrs):
        if 'ccore' in k:
            x.attrs[k] = ('c', None) if 'pointer' in k or x.attrs[k] is U and 'network' in k else ('c', False)
    return x


def attributes(P, cls, option):
    r, states = construct(P, cls, {option: ('c', SENTINEL)})
    return sorted({k for x in states for k, v in x.attrs.items() if v == ('c', SENTINEL)})


def loops(f):
    return [n for n in ast.walk(f.node) if isinstance(n, (ast.While, ast.For))]


def bounded(f, names):
    """whether a loop of a function has something to do with the names: in its head, or in a condition inside it"""
    for n in loops(f):
        heads = [n.test] if isinstance(n, ast.While) else [n.iter]
        heads += [x.test for x in ast.walk(n) if isinstance(x, (ast.If, ast.IfExp))]
        for h in heads:
            for x in ast.walk(h):
                if isinstance(x, ast.Attribute) and x.attr in names or isinstance(x, ast.Name) and x.id in names:
                    return True
    return False


def run(rep, tier):
    rep.rule('passes', 'for every budget tried, the loop that it limits makes at most that many passes, and makes them all when nothing else stops it')
    rep.rule('counted', 'the number of passes of a simulation is counted, not the outcome of adding fractions')
    rep.rule('recorded', 'a simulation records a state for every step, with its time, and one state when the dynamic is not collected')
    rep.rule('limit', 'splitting of clusters does not lead to more of them than the greatest amount that was given')
    rep.rule('amount', 'as many clusters, centers or medoids are made as were asked for')
    P = pymodel.program()
    top = 4 if tier == 'quick' else 7
    for dotted, option, want in OPTIONS:
        cls = P.cls(dotted)
        where = cls.find('__init__').where() if cls.find('__init__') else dotted
        attrs = attributes(P, cls, option)
        if not attrs:
            raise AssertionError('%s keeps no option %s' % (dotted, option))
            continue
        attrs_and = set(attrs)
        helpers = [f for c in cls.mro() if hasattr(c, 'methods') for f in c.methods.values() if not loops(f) and f.name != '__init__']
        for _ in range(3):
            attrs_and |= {f.name for f in helpers if any(isinstance(x, ast.Attribute) and x.attr in attrs_and for x in ast.walk(f.node)) and f.name != 'process' and 'ccore' not in f.name and 'verify' not in f.name}
        ms = [f for c in cls.mro() if hasattr(c, 'methods') for f in c.methods.values() if bounded(f, attrs_and)]
        entries = ms or [cls.find('process')]
        for f in entries:
            budget(rep, P, cls, f, '%s(%s)' % (dotted.rsplit('.', 1)[-1], option), top, want, lambda n: {option: ('c', n)}, lambda n: {}, attrs, attrs_and)
    for dotted, meth, arg, want in ARGUMENTS:
        cls = P.cls(dotted)
        f = cls.find(meth)
        if f is None:
            raise AssertionError('%s has no method %s' % (dotted, meth))
            continue
        budget(rep, P, cls, f, '%s.%s(%s)' % (dotted.rsplit('.', 1)[-1], meth, arg), top, want, lambda n: {}, lambda n: {arg: ('c', n)}, [])
    for dotted, meth, want, start in RECORDED:
        cls = P.cls(dotted)
        f = cls.find(meth)
        if f is not None:
            recorded(rep, P, cls, f, '%s.%s' % (dotted.rsplit('.', 1)[-1], meth), top, want, start)
    for name, dotted, kw, steps, seen, lo, hi in AMOUNTS:
        amount(rep, P, P.cls(dotted), name, kw, steps, seen, lo, hi)
    for dotted, option in LIMITS:
        limit(rep, P, P.cls(dotted), option)
    native(rep, top)
    for name, position, option in NATIVE_LIMITS:
        native_limit(rep, name, position, option)
    rep.floor('limit', 18)
    rep.floor('passes', 30)
    rep.floor('recorded', 15)
    rep.floor('amount', 12)


def budget(rep, P, cls, f, name, top, want, opt, arg, attrs, names=()):
    lo = 1 if arg(1) else 0
    for n in range(lo, top):
        _, states = construct(P, cls, opt(n))
        best, fractions = 0, []
        try:
            merged = passes.merge([(x, None) for x in states])
            worst = {}
            for x, _ in merged:
                for k in attrs:
                    x.attrs[k] = ('c', n)
                r = Run(P, 'passes', n)
                r.names = frozenset(names)
                kw = {**arg(n), **NATIVE_OFF}
                res = r.method(f.cls or cls, f, off(x), kw=kw, recv=cls)
                fractions += r.uncounted
                for y, v in res:
                    if v == ('raise',):
                        continue
                    for k, c in y.counts.items():
                        if c > worst.get(k, (0, None))[0]:
                            worst[k] = (c, r.sites[k])
            best = max([c for c, _ in worst.values()], default=0)
        except passes.Blown as e:
            rep.count('budgets that were not followed (%s)' % e)
            return
        if fractions:
            rep.bad('counted', name, f.where(fractions[0]), 'the amount of steps depends on how fractions add up, not on the number that was asked for')
            return
        node = next((s for c, s in worst.values() if c == best), None)
        w = want(n)
        rep.check(best == w, 'passes', '%s with %d' % (name, n), f.where(node) if node is not None else f.where(), 'at most %s passes%s instead of %d' % (best if best < n + 3 else 'unlimited', ' are made' if best < w else '', w))


def lens(v, s):
    return s.heap.get(v[1]) if v and v[0] == 'L' else None


def known(lists, s):
    """the lists of numbers that are known in full"""
    gs = [s.vals[a[1]] for a in lists if a and a[0] == 'L' and a[1] in s.vals]
    return tuple(sorted(g for g in gs if g and all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in g)))


def recorded(rep, P, cls, f, name, top, want, start):
    for collect in (True, False):
        if not collect and 'collect_dynamic' not in [a.arg for a in f.node.args.args]:
            continue
        for n in range(2, top):
            _, states = construct(P, cls, {}, 'length')
            got, times, when = set(), set(), set()

            def on_call(callee, args, kw, s, e):
                if callee.endswith('_dynamic') and args:
                    ls = [lens(a, s) for a in args]
                    got.add((ls[0], e))
                    when.add((known(args[1:], s), e))
                    for x in ls[1:]:
                        if x is not None:
                            times.add((ls[0], x, e))
            try:
                for x, _ in passes.merge([(x, None) for x in states])[:6]:
                    r = Run(P, 'length', n)
                    r.on_call = on_call
                    r.light = True
                    for y, v in r.method(f.cls or cls, f, off(x), kw={'steps': ('c', n), 'time': ('c', float(n)), 'collect_dynamic': ('c', collect), **NATIVE_OFF}, recv=cls):
                        if v and v[0] == 'T':
                            ls = [lens(a, y) for a in v[1]]
                            got.add((ls[0], f.node))
                            when.add((known(v[1], y), f.node))
                            times |= {(ls[0], k, f.node) for k in ls[1:]}
            except passes.Blown as e:
                rep.count('simulations that were not followed (%s)' % e)
                return
            got = {(k, e) for k, e in got if k is not None}
            if not got:
                rep.count('simulations whose record was not followed')
                continue
            w = want(n) if collect else 1
            bad = next(((k, e) for k, e in got if k != w), None)
            rep.check(bad is None, 'recorded', '%s with %d steps%s' % (name, n, '' if collect else ', not collected'), f.where(bad[1]) if bad else f.where(), 'records %s states instead of %d' % (bad[0] if bad else '', w))
            bad = next(((a, b, e) for a, b, e in times if a is not None and b is not None and a != b), None)
            rep.check(bad is None, 'recorded', '%s with %d steps%s: times' % (name, n, '' if collect else ', not collected'), f.where(bad[2]) if bad else f.where(), 'records %s states and %s times or values beside them' % (bad[:2] if bad else ('', '')))
            when = {(g, e) for g, e in when if g}
            rep.count('recorded times', len(when))
            full = tuple(float(start + i) for i in range(want(n))) if collect else (float(n),)
            bad = next(((g[0], e) for g, e in sorted(when, key=lambda w: w[0]) if full not in g), None)
            if when:
                rep.check(bad is None, 'recorded', '%s with %d steps%s: when' % (name, n, '' if collect else ', not collected'), f.where(bad[1]) if bad else f.where(),
                          'the states of steps that take 1 each are recorded at %s' % ', '.join('%g' % t for t in (bad[0] if bad else ())))


def amount(rep, P, cls, name, kw, steps, seen, lo, hi):
    for n in range(1, 4):
        where = cls.find(seen).where()
        sizes = set()
        try:
            _, states = construct(P, cls, kw(n), 'length', data=DATA)
            live = [off(x) for x in states]
            for m in steps:
                nxt = []
                for x, _ in passes.merge([(x, None) for x in live]):
                    f = cls.find(m)
                    nxt += [(y, None) for y, v in Run(P, 'length', 8).method(f.cls or cls, f, x, kw=dict(NATIVE_OFF), recv=cls) if v != ('raise',)]
                live = [y for y, _ in passes.merge(nxt)]
            for x in live:
                f = cls.find(seen)
                for y, v in Run(P, 'length', 8).method(f.cls or cls, f, x, recv=cls):
                    if v != ('raise',):
                        sizes.add(lens(v, y))
        except passes.Blown as e:
            rep.count('amounts that were not followed (%s)' % e)
            return
        if None in sizes or not sizes:
            rep.count('amounts whose lists were not followed')
            continue
        rep.check(min(sizes) >= lo(n) and max(sizes) == hi(n), 'amount', '%s with %d' % (name, n), where,
                  'there may be %s instead of %s' % (' or '.join(map(str, sorted(sizes))), n if lo(n) == hi(n) == n else 'up to %d' % hi(n) if lo(n) < n else 'at least %d' % n))


def limit(rep, P, cls, option):
    """methods that split clusters: none of the lists of clusters or centers they make is longer than the limit"""
    attrs = attributes(P, cls, option)
    if not attrs:
        raise AssertionError('%s keeps no option %s' % (cls.qual, option))
    ms = [f for c in cls.mro() if hasattr(c, 'methods') for f in c.methods.values() if f.name != '__init__' and 'ccore' not in f.name and any(isinstance(x, ast.Attribute) and x.attr in attrs for x in ast.walk(f.node))
          and any(isinstance(x, ast.For) for x in loops(f))]
    if not ms:
        f = cls.find('process')
        rep.bad('limit', '%s(%s)' % (cls.name, option), f.where(), 'no step that splits clusters looks at the greatest amount of them')
    for f in ms:
        for k in range(1, 4):
            for c in range(1, k + 1):
                _, states = construct(P, cls, {option: ('c', k)})
                seen = set()
                try:
                    for x, _ in passes.merge([(x, None) for x in states]):
                        x = off(x)
                        args = []
                        for a in list(x.attrs):
                            if x.attrs[a] and x.attrs[a][0] == 'L':
                                x.attrs[a] = x.new(c)
                            elif x.attrs[a] is None and 'center' in a:
                                x.attrs[a] = x.new(c)
                        for p in f.node.args.args[1:]:
                            args.append(x.new(c))
                        for a in attrs:
                            x.attrs[a] = ('c', k)
                        r = Run(P, 'length', 3)
                        r.two, r.only = True, f
                        for y, v in r.method(f.cls or cls, f, x, args, recv=cls):
                            if v == ('raise',):
                                continue
                            seen |= {lens(w, y) for w in list(y.attrs.values()) + [v] if w and w[0] == 'L' and w[1] > x.next}
                except passes.Blown as e:
                    rep.count('limits that were not followed (%s)' % e)
                    continue
                if None in seen or not seen:
                    rep.count('limits whose lists were not followed')
                    continue
                rep.check(max(seen) <= k, 'limit', '%s(%s=%d), %d clusters' % (cls.name, option, k, c), f.where(), 'there may be %d clusters' % max(seen))


def native_limit(rep, name, position, option):
    F = cxx.facts()
    q = 'pyclustering::' + name
    names = option_members(F, q, position, option)
    fs = [f for f in F.methods(q) if any(cpasses.mentions(x, names) for x in cxx.fwalk(f)) and any(x['k'] in ('ForStmt', 'CXXForRangeStmt') for x in cpasses.loops(f)) and f['n'] != q.rsplit('::', 1)[-1]]
    if not fs:
        f = next(f for f in F.methods(q) if f['n'] == 'process')
        rep.bad('limit', '%s(%s) native' % (q.rsplit('::', 1)[-1], option), '%s:%s' % (f['file'], f['l']), 'no step that splits clusters looks at the greatest amount of them')
    for f in fs:
        for k in range(1, 4):
            for c in range(1, k + 1):
                r = cpasses.Run(F, c + 1, {m: ('c', k) for m in names})
                r.size = c
                try:
                    res = [x for x, o in r.function(f, {}) if o is None or o[0] != 'raise']
                except cpasses.Blown as e:
                    rep.count('native limits that were not followed (%s)' % e)
                    continue
                seen = {v[1] for x in res for p, v in x.env.items() if p[0] == 'n' and v is not None}
                if not seen:
                    rep.count('native limits whose lists were not followed')
                    continue
                rep.check(max(seen) <= k, 'limit', '%s(%s=%d) native, %d clusters' % (q.rsplit('::', 1)[-1], option, k, c), '%s:%s' % (f['file'], f['l']), 'there may be %d clusters' % max(seen))


def option_members(F, q, position, option):
    ctors = [f for f in F.functions if f.get('cls') == q and f['n'] == q.rsplit('::', 1)[-1] and len(f.get('params') or []) > position and f.get('body')]
    if not ctors:
        raise AssertionError('no constructor of %s takes %s' % (q, option))
    ctor = max(ctors, key=lambda f: len(f['params']))
    pid = ctor['params'][position]['id']
    names = {i.get('r') or q + '::' + i['n'] for i in ctor.get('inits') or [] if i.get('k') == 'Init' and cpasses.mentions(i, {pid})} | stored(ctor, pid)
    if not names:
        raise AssertionError('%s keeps no %s' % (q, option))
    return names


def native(rep, top):
    F = cxx.facts()
    for name, position, option, want in NATIVE_OPTIONS:
        q = 'pyclustering::' + name
        names = option_members(F, q, position, option)
        members = {m: None for m in names}
        for _ in range(3):
            names = names | {f['q'] for f in F.methods(q) if not cpasses.loops(f) and f['n'] not in ('process', q.rsplit('::', 1)[-1]) and any(cpasses.mentions(x, names) for x in cxx.fwalk(f))}
        fs = [f for f in F.methods(q) if any(cpasses.mentions(x, names) for x in cpasses.loops(f))] or [f for f in F.methods(q) if f['n'] == 'process']
        for f in fs:
            for n in range(1, top):
                passes_of(rep, F, f, '%s(%s) native' % (q.rsplit('::', 1)[-1], option), n, want(n), {m: ('c', n) for m in members}, {}, names)
    for name, meth, want, states, last in NATIVE_ARGUMENTS:
        q = 'pyclustering::' + name
        fs = [f for f in F.methods(q) if f['n'] == meth]
        for f in fs:
            i = next((i for i, p in enumerate(f['params']) if cpasses.number(p['t']) and 'double' not in p['t'] and 'bool' not in p['t']), None)
            if i is None:
                raise AssertionError('%s::%s takes no number of steps' % (q, meth))
            for n in range(2, top):
                args = {i: ('c', n)}
                for j, p in enumerate(f['params']):
                    t = p['t'].replace('const ', '')
                    if t == 'double':
                        args[j] = ('c', float(n))
                    elif t == 'bool':
                        args[j] = ('c', states is not None)
                passes_of(rep, F, f, '%s.%s native' % (q.rsplit('::', 1)[-1], meth), n, want(n), {}, args, frozenset(), states and states(n), last and last(n))
    fractions(rep, F)


def stored(ctor, pid):
    out = set()
    for x in cxx.fwalk(ctor):
        if x['k'] == 'BinaryOperator' and x.get('op') == '=' and cxx.ch(x)[0]['k'] == 'MemberExpr' and cpasses.mentions(cxx.ch(x)[1], {pid}):
            out.add(cxx.ch(x)[0].get('r'))
    return out


def passes_of(rep, F, f, name, n, want, members, args, names, states=None, last=None):
    where = '%s:%s' % (f['file'], f['l'])
    dyn = [j for j, p in enumerate(f['params']) if p['t'].rstrip().endswith('_dynamic &')]
    times = set()

    def record(run, node, a, vs, s):
        if states is None or len(run.stack) > 0:
            return s
        if not any(x is not None and x['k'] == 'DeclRefExpr' and x.get('id') in ids for x in a):
            return s
        s = s.copy()
        t = next((v[1] for v, x in zip(vs, a) if v is not None and v[0] == 'c' and not isinstance(v[1], bool) and x.get('t', '').replace('const ', '') in ('double', 'unsigned long', 'unsigned int')), None)
        s.log += (t,)
        return s
    ids = {f['params'][j]['id'] for j in dyn}
    r = cpasses.Run(F, n, members, names, record)
    try:
        res = [(x, o) for x, o in r.function(f, args) if o is None or o[0] != 'raise']
    except cpasses.Blown as e:
        rep.count('native budgets that were not followed (%s)' % e)
        return
    worst = {}
    for x, _ in res:
        for k, c in x.counts.items():
            worst[k] = max(worst.get(k, 0), c)
    best = max(worst.values(), default=0)
    node = next((r.sites[k] for k, c in worst.items() if c == best), None)
    rep.check(best == want, 'passes', '%s with %d' % (name, n), '%s:%s' % (f['file'], node['l']) if node else where, 'at most %s passes%s instead of %d' % (best if best < n + 3 else 'unlimited', ' are made' if best < want else '', want))
    if states is not None and best == want:
        logs = {x.log for x, o in res}
        bad = next((g for g in logs if len(g) != states), None)
        rep.check(bad is None, 'recorded', '%s with %d steps' % (name, n), where, 'records %s states instead of %d' % (len(bad) if bad is not None else '', states))
        if bad is None:
            wrong = next((g for g in logs if None not in g and (g[0] != 0 or g[-1] != last or any(b - a != 1 for a, b in zip(g, g[1:])))), None)
            rep.check(wrong is None, 'recorded', '%s with %d steps: times' % (name, n), where, 'the states of steps that take 1 each are recorded at %s' % ', '.join('%g' % t for t in wrong or ()))


def fractions(rep, F):
    """no loop of the core whose bound is compared with a sum of fractions"""
    for f in F.functions:
        if not f.get('body') or '/nnet/' not in f['file']:
            continue
        for n in cpasses.loops(f):
            if n['k'] == 'CXXForRangeStmt':
                continue
            c = cxx.ch(n) + [None] * 4
            cond = c[1] if n['k'] != 'WhileStmt' else c[0]
            if cond is None:
                continue
            rep.count('native loops')
            for x in cxx.walk(cond):
                if x['k'] != 'BinaryOperator' or x.get('op') not in ('<', '<=', '!=', '>', '>='):
                    continue
                v = next((y for y in cxx.ch(x) if y['k'] == 'DeclRefExpr' and y.get('t', '').replace('const ', '') in ('double', 'float')), None)
                if v is None or not any(y['k'] == 'DeclRefExpr' and y.get('dk') == 'ParmVar' and 'double' in y.get('t', '') for y in cxx.walk(x)):
                    continue
                for z in cxx.walk(n):
                    if z['k'] in ('CompoundAssignOperator', 'BinaryOperator') and z.get('op') in ('+=', '-=') and cxx.ch(z)[0].get('id') == v.get('id') is not None:
                        rep.bad('counted', '%s: %s' % (f['q'], v.get('n')), '%s:%s' % (f['file'], n['l']), 'the amount of steps depends on how fractions add up, not on the number that was asked for')
