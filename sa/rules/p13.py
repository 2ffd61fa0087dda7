"""P13: invalid arguments are rejected before any work is done."""

import operator

from .. import ffi
from ..objects import is_workable, switch_of
from ..pexec import NONE, Exec, State, TooManyPaths, show, subterms
from ..pymodel import Class, Func, program


def K(v):
    if isinstance(v, tuple):
        return v
    if isinstance(v, list):
        return ('list',) + tuple(K(x) for x in v)
    return ('const', v)


PTS = [[0.0, 1.0], [2.0, 5.0], [3.0, 7.0]]
EMPTY = ([], None)
POSITIVE = ([0, -1], 1)           # bad values, a value that is just acceptable
NONNEG = ([-1], 0)
NONNEGF = ([-0.5], 0.0)
UNIT = ([-0.5, 1.5], 0.0)
UNIT1 = ([-0.5, 1.5], 1.0)
BOOL_KINDS = None
# class -> option -> (values that must be rejected by the constructor, a boundary value that must be accepted)
LIMITS = {
    'cluster.agglomerative.agglomerative': dict(data=EMPTY, number_clusters=POSITIVE, link=([7, -1], 2)),
    'cluster.bang.bang': dict(data=EMPTY, levels=POSITIVE, density_threshold=NONNEGF, amount_threshold=NONNEG),
    'cluster.birch.birch': dict(data=EMPTY, number_clusters=POSITIVE, entry_size_limit=POSITIVE),
    'cluster.bsas.bsas': dict(data=EMPTY, maximum_clusters=POSITIVE, threshold=NONNEGF),
    'cluster.mbsas.mbsas': dict(data=EMPTY, maximum_clusters=POSITIVE, threshold=NONNEGF),
    'cluster.ttsas.ttsas': dict(data=EMPTY, threshold1=NONNEGF),
    'cluster.center_initializer.random_center_initializer': dict(data=EMPTY, amount_centers=([0, -1, 4], 3)),
    'cluster.center_initializer.kmeans_plusplus_initializer': dict(data=EMPTY, amount_centers=([0, -1, 4], 3), amount_candidates=([0, -2, 4], 3)),
    'cluster.clarans.clarans': dict(data=EMPTY, number_clusters=POSITIVE, numlocal=NONNEG, maxneighbor=NONNEG),
    'cluster.clique.clique': dict(data=EMPTY, amount_intervals=POSITIVE, density_threshold=NONNEG),
    'cluster.cure.cure': dict(data=EMPTY, number_cluster=POSITIVE, number_represent_points=POSITIVE, compression=NONNEGF),
    'cluster.dbscan.dbscan': dict(data=EMPTY, eps=NONNEGF),
    'cluster.elbow.elbow': dict(data=EMPTY, kmin=POSITIVE, kstep=POSITIVE),
    'cluster.ema.ema': dict(data=EMPTY, amount_clusters=POSITIVE),
    'cluster.fcm.fcm': dict(data=EMPTY, initial_centers=EMPTY, m=([1.0, 0.5, -2.0], 1.5)),
    'cluster.ga.genetic_algorithm': dict(data=EMPTY, count_clusters=POSITIVE),
    'cluster.gmeans.gmeans': dict(data=EMPTY, k_init=POSITIVE, tolerance=([0.0, -0.5], 0.001), repeat=POSITIVE, k_max=([0, -2], -1)),
    'cluster.kmeans.kmeans': dict(data=EMPTY, initial_centers=EMPTY, tolerance=NONNEGF, itermax=NONNEG),
    'cluster.kmedians.kmedians': dict(data=EMPTY, initial_medians=EMPTY, tolerance=NONNEGF, itermax=NONNEG),
    'cluster.kmedoids.build': dict(data=([], None), k=([0, -1, 4], 3)),
    'cluster.kmedoids.kmedoids': dict(data=EMPTY, initial_index_medoids=([[], [3], [-1], [0, 5]], [2]), tolerance=NONNEGF, itermax=NONNEG),
    'cluster.optics.optics': dict(sample=EMPTY, eps=NONNEGF, minpts=([0, -1], 1), amount_clusters=POSITIVE),
    'cluster.rock.rock': dict(data=EMPTY, eps=NONNEGF, threshold=UNIT, number_clusters=POSITIVE),
    'cluster.silhouette.silhouette': dict(data=EMPTY, clusters=([[], [[0], [3]], [[-1, 1]]], [[0], [1, 2]])),
    'cluster.silhouette.silhouette_ksearch': dict(kmin=([1, 0, -1], 2), kmax=([4], 3)),
    'cluster.somsc.somsc': dict(data=EMPTY, amount_clusters=POSITIVE, epouch=NONNEG),
    'cluster.syncnet.syncnet': dict(sample=EMPTY),
    'cluster.xmeans.xmeans': dict(data=EMPTY, initial_centers=EMPTY, tolerance=NONNEGF, repeat=POSITIVE, alpha=UNIT, beta=UNIT),
}
# options that must be rejected together: (class, constructor values, what is wrong, whether it must be accepted instead)
TOGETHER = [
    ('cluster.elbow.elbow', dict(data=PTS * 4, kmin=1, kmax=2), 'fewer than three amounts to search', False),
    ('cluster.elbow.elbow', dict(data=PTS * 4, kmin=3, kmax=1), 'kmax below kmin', False),
    ('cluster.elbow.elbow', dict(data=PTS * 4, kmin=1, kmax=13), 'kmax greater than the amount of points', False),
    ('cluster.elbow.elbow', dict(data=PTS * 4, kmin=1, kmax=12), 'kmax equal to the amount of points', True),
    ('cluster.elbow.elbow', dict(data=PTS * 4, kmin=1, kmax=3), 'three amounts to search', True),
    ('cluster.elbow.elbow', dict(data=PTS * 4, kmin=1, kmax=4, kstep=2), 'a step that leaves two amounts', False),
    ('cluster.elbow.elbow', dict(data=PTS * 4, kmin=1, kmax=5, kstep=2), 'a step that leaves three amounts', True),
    ('cluster.gmeans.gmeans', dict(data=PTS, k_init=2, k_max=1), 'more initial than maximal clusters', False),
    ('cluster.gmeans.gmeans', dict(data=PTS, k_init=2, k_max=2), 'as many initial as maximal clusters', True),
    ('cluster.gmeans.gmeans', dict(data=PTS, k_init=4), 'more initial clusters than points', False),
    ('cluster.gmeans.gmeans', dict(data=PTS, k_init=3), 'as many initial clusters as points', True),
]
# the same, found out when the object starts to work at the latest
LATE = [
    ('cluster.kmeans.kmeans', dict(data=PTS, initial_centers=[[1.0, 2.0, 3.0]]), 'process', {}, 'centers of another dimension than the data'),
    ('cluster.kmedians.kmedians', dict(data=PTS, initial_medians=[[1.0, 2.0, 3.0]]), 'process', {}, 'medians of another dimension than the data'),
    ('cluster.fcm.fcm', dict(data=PTS, initial_centers=[[1.0, 2.0, 3.0]]), 'process', {}, 'centers of another dimension than the data'),
    ('cluster.xmeans.xmeans', dict(data=PTS, initial_centers=[[1.0, 2.0, 3.0]]), 'process', {}, 'centers of another dimension than the data'),
    ('cluster.kmedoids.kmedoids', dict(data=PTS, initial_index_medoids=[0], data_type='unknown'), 'process', {}, 'an unknown type of data'),
    ('cluster.kmedoids.build', dict(data=PTS, k=1, data_type='unknown'), 'initialize', {}, 'an unknown type of data'),
    ('cluster.dbscan.dbscan', dict(data=PTS, eps=1.0, neighbors=1, data_type='unknown'), 'process', {}, 'an unknown type of data'),
    ('cluster.optics.optics', dict(sample=PTS, eps=1.0, minpts=1, data_type='unknown'), 'process', {}, 'an unknown type of data'),
    ('cluster.center_initializer.kmeans_plusplus_initializer', dict(data=PTS, amount_centers=1, data_type='distance_matrix'), 'initialize', dict(return_index=False), 'points wanted from a distance matrix'),
    ('nnet.legion.legion_network', dict(num_osc=3), 'simulate', dict(stimulus=[1.0, 0.0]), 'a stimulus of another size than the network'),
    ('nnet.legion.legion_network', dict(num_osc=2), 'simulate', dict(stimulus=[1.0, 0.0], solution='FAST'), 'a solver that is not supported'),
    ('nnet.hhn.hhn_network', dict(num_osc=2), 'simulate', dict(solution='FAST'), 'a solver that is not supported'),
    ('nnet.hhn.hhn_network', dict(num_osc=2), 'simulate_static', dict(solution='FAST'), 'a solver that is not supported'),
    ('nnet.hysteresis.hysteresis_network', dict(num_osc=2), 'simulate', dict(solution='FAST'), 'a solver that is not supported'),
    ('nnet.hysteresis.hysteresis_network', dict(num_osc=2), 'simulate_static', dict(solution='RKF45'), 'a solver that is not supported'),
    ('nnet.pcnn.pcnn_network', dict(num_osc=3), 'simulate', dict(stimulus=[1.0, 0.0]), 'a stimulus of another size than the network'),
    ('nnet.syncpr.syncpr', dict(num_osc=3), 'simulate', dict(pattern=[1, -1]), 'a pattern of another size than the network'),
    ('nnet.syncpr.syncpr', dict(num_osc=3), 'simulate_static', dict(pattern=[1, -1]), 'a pattern of another size than the network'),
    ('nnet.syncpr.syncpr', dict(num_osc=3), 'simulate_dynamic', dict(pattern=[1, -1]), 'a pattern of another size than the network'),
    ('nnet.syncpr.syncpr', dict(num_osc=3), 'simulate', dict(pattern=[1, -1, 0.5]), 'a feature that is neither 1 nor -1'),
    ('nnet.syncpr.syncpr', dict(num_osc=3), 'train', dict(samples=[]), 'no patterns'),
    ('nnet.syncpr.syncpr', dict(num_osc=3), 'train', dict(samples=[[1, -1]]), 'a pattern of another size than the network'),
    ('nnet.syncpr.syncpr', dict(num_osc=3), 'train', dict(samples=[[1, -1, 0.5]]), 'a feature that is neither 1 nor -1'),
]
GRIDS = [(q, dict(num_osc=5, **{n: ('enum', 'nnet.conn_type', t)}), 'a grid of 5 oscillators (%s)' % t, False) for q, n in (('nnet.legion.legion_network', 'type_conn'), ('nnet.pcnn.pcnn_network', 'type_conn'), ('nnet.sync.sync_network', 'type_conn')) for t in ('GRID_FOUR', 'GRID_EIGHT')]
GRIDS += [(q, dict(num_osc=9, **{n: ('enum', 'nnet.conn_type', t)}), 'a grid of 9 oscillators (%s)' % t, True) for q, n in (('nnet.legion.legion_network', 'type_conn'), ('nnet.pcnn.pcnn_network', 'type_conn'), ('nnet.sync.sync_network', 'type_conn')) for t in ('GRID_FOUR', 'GRID_EIGHT')]
GRIDS += [('nnet.pcnn.pcnn_network', dict(num_osc=5, type_conn=('enum', 'nnet.conn_type', t), height=2, width=2), 'a grid of 2 x 2 for 5 oscillators (%s)' % t, False) for t in ('GRID_FOUR', 'GRID_EIGHT')]
TOGETHER += GRIDS + [
    ('nnet.hhn.hhn_network', dict(num_osc=3, stimulus=[1.0, 2.0]), 'a stimulus of another size than the network', False),
    ('nnet.hhn.hhn_network', dict(num_osc=3, stimulus=[1.0, 2.0, 3.0]), 'a stimulus of the size of the network', True),
    ('cluster.silhouette.silhouette_ksearch', dict(data=PTS, kmin=3, kmax=2), 'kmax below kmin', False),
]
# options that the native implementation does not support
NATIVE = [(q, dict(num_osc=4, type_conn=('enum', 'nnet.conn_type', 'DYNAMIC')), 'dynamic connections', False) for q in ('nnet.legion.legion_network', 'nnet.pcnn.pcnn_network', 'nnet.sync.sync_network')]
FUNCTIONS = [
    ('utils.sampling', 'reservoir_r', dict(data=PTS, n=4), 'a sample greater than the data'),
    ('utils.sampling', 'reservoir_x', dict(data=PTS, n=4), 'a sample greater than the data'),
    ('utils', 'average_neighbor_distance', dict(points=PTS, num_neigh=3), 'as many neighbors as points'),
]
ACCEPTED_ERRORS = ('ValueError', 'TypeError', 'NameError', 'AttributeError', 'IndexError')
PLAIN = {'numpy.array', 'numpy.asarray', 'builtins.list', 'copy.copy', 'copy.deepcopy', 'numpy.copy', 'builtins.tuple', 'numpy.matrix'}


FOLD = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv, 'FloorDiv': operator.floordiv, 'Mod': operator.mod, 'Pow': operator.pow}


class Run:
    def __init__(self, prog, cls, ccore):
        self.prog, self.cls, self.ccore = prog, cls, ccore
        self.native = []
        self.work = []
        self.watch = True
        self.raises = []
        self.me = None
        self.size = None

    def on_call(self, ex, c, args, kwargs, st, f, node):
        if is_workable(c):
            return [(st, ('const', True))]
        r = ffi._ext_getattr(ex, c, args, kwargs, st, f, node)
        if r is not None:
            return r
        sym = ffi.symbol(c)
        if sym:
            if sym.endswith('_get_size') and '_dynamic_' not in sym and self.size is not None:
                return [(st, self.size)]         # a native network has the size it was made with
            if self.watch and sym not in ('metric_create', 'metric_destroy'):
                st.heap.setdefault(('native',), {})[sym] = ('const', f.where(node))
            return [(st, ('call', c, (), (), (node.lineno, node.col_offset)))]
        if c[0] == 'ext':
            n = c[1]
            if n in PLAIN and args and args[0][0] in ('list', 'tuple') and st.known(args[0]):
                return [(st, ('list',) + args[0][1:])]
            if n == 'builtins.len' and args and args[0][0] in ('list', 'tuple') and st.known(args[0]) and not any(x[0] == 'star' for x in args[0][1:]):
                return [(st, ('const', len(args[0]) - 1))]
            if n in ('builtins.int', 'builtins.float', 'builtins.abs', 'math.floor', 'math.ceil', 'builtins.max', 'builtins.min') and args and all(a[0] == 'const' and isinstance(a[1], (int, float)) for a in args):
                import builtins
                import math
                fn = getattr(builtins if n.startswith('builtins') else math, n.split('.')[1])
                try:
                    return [(st, ('const', fn(*[a[1] for a in args])))]
                except Exception:
                    return None
            if n == 'builtins.len' and args and args[0][0] == 'inst':
                m = self.cls.find('__len__') if args[0] == self.me else None
                if isinstance(m, Func):
                    return [(x, o[1]) for x, o in ex.call_func(m, [], {}, st, args[0], node) if o[0] == 'return']
            if n in ('builtins.any', 'builtins.all', 'builtins.sum', 'builtins.min', 'builtins.max', 'builtins.set', 'builtins.sorted') and len(args) == 1 and args[0][0] in ('list', 'tuple', 'set') and st.known(args[0]):
                vals = [ex.truth(a) if n in ('builtins.any', 'builtins.all') else a[1] if a[0] == 'const' else None for a in args[0][1:]]
                if None not in vals:
                    import builtins
                    try:
                        r = getattr(builtins, n.split('.')[1])(vals)
                        return [(st, K(list(r) if isinstance(r, (set, list)) else r))]
                    except Exception:
                        return None
            if n == 'builtins.range' and args and all(a[0] == 'const' and isinstance(a[1], int) for a in args):
                r = list(range(*[a[1] for a in args]))
                if len(r) <= 16:
                    return [(st, ('list',) + tuple(('const', i) for i in r))]
            if n == 'builtins.hasattr' and args and args[0][0] in ('list', 'tuple', 'const') and args[1] == ('const', '__getitem__'):
                return [(st, ('const', args[0][0] != 'const'))]
            if n == 'builtins.isinstance' and args and args[0][0] in ('list', 'const') and len(args) == 2:
                t = show(args[1])
                return [(st, ('const', args[0][0] == 'list' and 'list' in t or args[0][0] == 'const' and type(args[0][1]).__name__ in t))]
        return None

    def inline(self, g, st):
        if ffi.opaque(g):
            return False
        m = g.module.name
        if m.startswith('pyclustering.core.') and not m.endswith(('_wrapper', 'converter')):
            return False
        return not m.endswith('.kdtree')

    def ex(self, merge=True):
        run = self

        class E(Exec):
            def loop(self, s, st, f, it):
                saved = self.loop_iters
                if it is not None and it[0] in ('list', 'tuple') and st.known(it) and not any(x[0] == 'star' for x in it[1:]) and len(it) <= 17:
                    self.loop_iters = (len(it) - 1,)
                try:
                    return super().loop(s, st, f, it)
                finally:
                    self.loop_iters = saved

            def binop(self, op, a, b):
                if a[0] == 'const' and b[0] == 'const' and all(isinstance(x[1], (int, float)) for x in (a, b)) and op in FOLD:
                    try:
                        return ('const', FOLD[op](a[1], b[1]))
                    except (ArithmeticError, ValueError):
                        pass
                return super().binop(op, a, b)

            def _comp(self, e, st, f, kind, elts):
                if kind in ('listcomp', 'gen', 'setcomp') and len(e.generators) == 1:
                    g = e.generators[0]
                    its = [(x, t) for x, t, o in self.ev(g.iter, st.copy(), f) if not o]
                    if len(its) == 1 and its[0][1][0] in ('list', 'tuple', 'set') and its[0][0].known(its[0][1]) and not any(v[0] == 'star' for v in its[0][1][1:]) and len(its[0][1]) <= 17:
                        x, t = its[0]
                        saved = dict(x.env)
                        vals, states = [], [x]
                        for v in t[1:]:
                            nxt = []
                            for y in states:
                                nxt += self.assign(g.target, v, y, f)
                            if len(nxt) != 1:
                                return super()._comp(e, st, f, kind, elts)
                            states = nxt
                            for c in g.ifs:
                                rs = [(y, b) for y, b, o in self.cond(c, states[0], f) if not o]
                                if len(rs) != 1:
                                    return super()._comp(e, st, f, kind, elts)
                                states = [rs[0][0]]
                                if not rs[0][1]:
                                    break
                            else:
                                res, raised = self.seq(elts, states[0], f)
                                if len(res) != 1 or raised:
                                    return super()._comp(e, st, f, kind, elts)
                                states = [res[0][0]]
                                vals.append(res[0][1][0])
                        states[0].env = saved
                        return [(states[0], ('list',) + tuple(vals))]
                return super()._comp(e, st, f, kind, elts)

            def s_Raise(self, s, st, f):
                run.raises.append(set(st.cond_list()))
                return super().s_Raise(s, st, f)

            def block(self, body, st, f):
                keep, self.loop_iters = self.loop_iters, (0, 1)
                try:
                    return super().block(body, st, f)
                finally:
                    self.loop_iters = keep
        return E(self.prog, inline=self.inline, on_call=self.on_call, merge_key=(lambda s: tuple(sorted(s.heap.get(('native',), {})))) if merge else None, max_paths=4000, max_depth=9)


def length_method(cls):
    return None


def arguments(cls, init, given, ccore):
    values = {k: v for k, v in given.items()}
    if switch_of(cls, 'ccore'):
        values['ccore'] = ('const', ccore)
    pos, kw = [], {}
    for p in init.params[1:]:
        pos.append(values.get(p, None))
    for k, v in values.items():
        if k not in init.params:
            kw[k] = v
    # positional parameters that are not given and have a default take it, the others are opaque
    used = {}
    for p, v in zip(init.params[1:], pos):
        if v is not None:
            used[p] = v
        elif init.default(p) is None:
            used[p] = ('param', p)
    return used, kw


def start(run, cls, given, ccore):
    """[(state, self, outcome)] of the constructor"""
    init = cls.find('__init__')
    used, kw = arguments(cls, init, given, ccore)
    ex = run.ex()
    st = State()
    slf = ex.new(cls, st)
    run.me, run.size = slf, given.get('num_osc')
    res = ex.call_func(init, [], dict(used, **kw), st, slf, None, entry=True)
    return [(s, slf, o) for s, o in res]


def error_name(t):
    for x in subterms(t):
        if x[0] == 'ext' and x[1].startswith('builtins.'):
            return x[1].split('.')[-1]
        if x[0] == 'class':
            return x[1].name
    return show(t)[:60]


def terms(d, prog=None):
    out = {}
    for k, v in d.items():
        out[k] = enum(prog, prog.cls('pyclustering.' + v[1]), v[2]) if isinstance(v, tuple) and v[0] == 'enum' else K(v)
    return out


DATA_NAMES = ('data', 'sample')


def undecided(s, raising, given):
    """whether this normal path differs from a raising one by a condition on the given values that cannot be evaluated"""
    for c, b in s.cond_list():
        if c[0] != 'param' and any((c, not b) in r for r in raising) and any(x in given for x in subterms(c)):
            return True
    return False


def judge_rejected(rep, rule, key, where, outs, what, given=(), raises=()):
    normal = [s for s, o in outs if not (o and o[0] == 'raise')]
    if normal and all(undecided(s, raises, given) for s in normal):
        rep.count('checks that cannot be evaluated')
        return
    native = [sym for s, o in outs for sym in s.heap.get(('native',), {})]
    ok = not normal and bool(outs)
    msg = '%s is not rejected' % what
    if ok and native:
        ok, msg = False, '%s is rejected only after native code was called (%s)' % (what, ', '.join(sorted(set(native))))
    if ok:
        wrong = {error_name(o[1]) for s, o in outs if o and o[0] == 'raise'} - set(ACCEPTED_ERRORS)
        if wrong:
            ok, msg = False, '%s is rejected by %s' % (what, ', '.join(sorted(wrong)))
    rep.check(ok, rule, key, where, msg)


def run(rep, tier):
    rep.rule('rejected', 'a value outside its documented range is rejected by the constructor before native code is called')
    rep.rule('accepted', 'the first value inside the range is accepted')
    rep.rule('together', 'options that do not fit together are rejected by the constructor')
    rep.rule('late', 'arguments that do not fit are rejected before the work starts, in Python and in native mode')
    prog = program()
    for q, options in LIMITS.items():
        c = prog.cls('pyclustering.' + q)
        init = c.find('__init__')
        rep.count('classes')
        for o, (bad, good) in options.items():
            values = [[]] if isinstance(bad, list) and not bad else bad
            for cc in ((False, True) if switch_of(c, 'ccore') else (False,)):
                for v in values + ([good] if good is not None else []):
                    is_good = good is not None and v is good and v not in values
                    given = {}
                    for d in DATA_NAMES:
                        if d in init.params and d != o:
                            given[d] = K(PTS)
                    if o == 'kmin' and q.endswith('elbow'):
                        given['data'] = K(PTS * 4)
                        given['kmax'] = K(12)
                    if o == 'kstep':
                        given.update(data=K(PTS * 4), kmin=K(1), kmax=K(12))
                    if q.endswith('silhouette_ksearch'):
                        given.update(terms(dict(kmin=2, kmax=3)))
                    if q.endswith('kmeans_plusplus_initializer') and o == 'amount_candidates':
                        given['amount_centers'] = K(2)
                    if q.endswith('initializer') and o == 'data':
                        given['amount_centers'] = K(1)
                    given[o] = K(v)
                    r = Run(prog, c, cc)
                    key = '%s(%s=%s)%s' % (q, o, 'empty' if v == [] else v, ' native' if cc else '')
                    try:
                        outs = [(s, x) for s, slf, x in start(r, c, given, cc)]
                    except TooManyPaths:
                        rep.count('constructors with too many paths')
                        continue
                    if is_good:
                        rep.check(any(not (x and x[0] == 'raise') for s, x in outs), 'accepted', key, init.where(), '%s=%r is in the documented range and is rejected' % (o, v))
                    else:
                        judge_rejected(rep, 'rejected', key, init.where(), outs, '%s=%s' % (o, 'an empty collection' if v == [] else repr(v)), given=(K(v),), raises=r.raises)
    for q, given, what, accept in TOGETHER + NATIVE:
        c = prog.cls('pyclustering.' + q)
        for cc in (True,) if (q, given, what, accept) in NATIVE else ((False, True) if switch_of(c, 'ccore') else (False,)):
            r = Run(prog, c, cc)
            outs = [(s, x) for s, slf, x in start(r, c, terms(given, prog), cc)]
            key = '%s: %s%s' % (q, what, ' native' if cc else '')
            where = c.find('__init__').where()
            if accept:
                rep.check(any(not (x and x[0] == 'raise') for s, x in outs), 'accepted', key, where, '%s is rejected' % what)
            else:
                judge_rejected(rep, 'together', key, where, outs, what, given=tuple(terms(given, prog).values()), raises=r.raises)
    for q, given, meth, margs, what in LATE:
        c = prog.cls('pyclustering.' + q)
        m = c.find(meth)
        for cc in ((False, True) if switch_of(c, 'ccore') else (False,)):
            r = Run(prog, c, cc)
            r.watch = False
            outs = []
            try:
                objs = start(r, c, terms(given, prog), cc)
                r.watch = True
                for s, slf, x in objs:
                    if x and x[0] == 'raise':
                        outs.append((s, x))
                        continue
                    ex = r.ex()
                    vals = solver(prog, terms(margs))
                    kw = {p: vals[p] for p in vals}
                    for p in m.params[1:]:
                        if p not in kw and m.default(p) is None:
                            kw[p] = ('param', p)
                    outs += [(s2, o2) for s2, o2 in ex.call_func(m, [], kw, s.copy(), slf, None, entry=True)]
            except TooManyPaths:
                rep.count('objects with too many paths')
                continue
            key = '%s.%s: %s%s%s' % (q, meth, what, ' (%s)' % margs['solution'] if 'solution' in margs else '', ' native' if cc else '')
            judge_rejected(rep, 'late', key, m.where(), outs, what, given=tuple(terms(margs).values()) if margs else tuple(terms(given, prog).values()))
    for mod, name, given, what in FUNCTIONS:
        g = prog.modules['pyclustering.' + mod].functions[name]
        r = Run(prog, None, False)
        outs = r.ex().call_func(g, [], terms(given), State(), None, None, entry=True)
        judge_rejected(rep, 'late', '%s.%s: %s' % (mod, name, what), g.where(), outs, what)
    rep.floor('rejected', 80)
    rep.floor('accepted', 40)
    rep.floor('together', 5)
    rep.floor('late', 15)


def solver(prog, d):
    out = {}
    for k, v in d.items():
        if k == 'solution':
            e = prog.cls('pyclustering.nnet.solve_type')
            out[k] = enum(prog, e, v[1])
        else:
            out[k] = v
    return out


def enum(prog, cls, member):
    import ast
    ex = Exec(prog)
    st = State()
    node = ast.parse('x.%s' % member, mode='eval').body
    for s, t in ex.getattr(('class', cls), member, st, cls.find('__init__') or next(prog.functions()), node):
        return t
