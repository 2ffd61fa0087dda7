"""P09: distance functions compute their documented formulas, in every implementation and for every way to reach them."""

import os

from .. import cxx, pymodel
from ..algebra import P, num, absv, sqrt, inv, pow_, when, fold, atoms, unknowns, show, from_key, subst, vanishes_with
from ..folds import Bool, Budget, Clo, Const, It, Machine, Rec, Rows, St, Sym, Tup, Unk, Vec, poly
from ..fronts import CxxFront, PyFront
from ..report import Broken

A, B, R = (P.atom(('el', x, 0)) for x in 'ABR')
N = P.atom(('dims',))
DEG = P.atom(('sym', 'degree'))
D = A - B


def S(t):
    return fold('sum', P(), N, t)


def formulas(r=R):
    mod = absv(A) + absv(B)
    return {
        'EUCLIDEAN': sqrt(S(D * D)),
        'EUCLIDEAN_SQUARE': S(D * D),
        'MANHATTAN': S(absv(D)),
        'CHEBYSHEV': fold('max', P(), N, absv(D)),
        'MINKOWSKI': pow_(S(pow_(D, DEG)), inv(DEG)),
        'CANBERRA': S(when(mod, absv(D) * inv(mod))),
        'CHI_SQUARE': S(when(mod, D * D * inv(mod))),
        'GOWER': S(when(r, absv(D) * inv(r))) * inv(N),
        'USER_DEFINED': P.atom(('call', 'user', A.key, B.key)),
    }


NAMES = {'euclidean': 'EUCLIDEAN', 'euclidean_distance': 'EUCLIDEAN', 'euclidean_distance_square': 'EUCLIDEAN_SQUARE', 'manhattan_distance': 'MANHATTAN',
         'chebyshev_distance': 'CHEBYSHEV', 'minkowski_distance': 'MINKOWSKI', 'canberra_distance': 'CANBERRA', 'chi_square_distance': 'CHI_SQUARE',
         'gower_distance': 'GOWER'}


def vec(x, nd=1):
    return Vec(P.atom(('el', x, 0)), name=x, nd=nd)


def verdict(outs, want, shape='number'):
    """'ok', ('bad', message) or ('open', why)"""
    if not outs:
        return ('open', 'no value is returned')
    opened = None
    for v, st in outs:
        got = v
        if isinstance(v, Rows):
            if shape != 'rows':
                return ('bad', 'gives one number per row for two vectors')
            got = v.el
        elif shape == 'rows' and isinstance(v, P) and not unknowns(v):
            return ('bad', 'gives %s for matrices instead of one distance per row' % show(v))
        if isinstance(got, Unk):
            if got.why.startswith('MISALIGNED') and not st.fuzzy:
                return ('bad', 'pairs coordinates of different positions: ' + got.why[12:])
            opened = got.why
            continue
        if isinstance(got, Vec):
            if st.fuzzy:
                opened = 'a condition that is not understood'
                continue
            return ('bad', 'gives a vector (%s per coordinate) instead of a number' % (show(got.el) if isinstance(got.el, P) else '?'))
        if isinstance(got, Const) and got.v is None:
            if st.fuzzy:
                opened = 'a path without a value'
                continue
            return ('bad', 'returns nothing')
        g = poly(got)
        if unknowns(g):
            mis = [u for u in unknowns(g) if u.startswith('MISALIGNED')]
            if mis and not st.fuzzy:
                return ('bad', 'pairs coordinates of different positions: ' + mis[0][12:])
            opened = unknowns(g)[0]
            continue
        if g == want:
            continue
        # under what the path has found out
        f, same = [], False
        for (kind, key), val in st.lits.items():
            if kind == 'nz' and not val:
                s = vanishes_with(from_key(key))
                if s:
                    f.append(s)
            elif kind == 'same' and val:
                f.append(lambda a: A if a == ('el', 'B', 0) else None)

        def sub(a):
            for s in f:
                r = s(a)
                if r is not None:
                    return r
            return None
        if f and subst(g, sub) == subst(want, sub):
            continue
        if st.fuzzy or any(a[0] == 'call' and a[1] in ('if-negative',) for a in atoms(g)):
            opened = 'a condition that is not understood'
            continue
        cond = ''
        if st.lits:
            cond = ' (when %s)' % ', '.join('%s %s' % (show(from_key(k[1])) if k[0] != 'same' else 'both points are one object', {'nz': ('= 0', '!= 0'), 'neg': ('>= 0', '< 0'), 'same': ('not', '')}[k[0]][int(x)]) for k, x in st.lits.items())
        return ('bad', 'computes %s%s, not %s' % (show(g), cond, show(want)))
    return ('open', opened) if opened else 'ok'


def run(rep, tier='quick'):
    prog = pymodel.program()
    facts = cxx.facts()
    und = []

    def judge(rule, construct, where, outs, want, shape='number'):
        rep.count('obligations')
        try:
            r = verdict(outs() if callable(outs) else outs, want, shape)
        except (Budget, RecursionError):
            r = ('open', 'too many paths')
        if r == 'ok':
            rep.ok(rule, construct, where)
        elif r[0] == 'bad':
            rep.bad(rule, construct, where, '%s %s' % (construct, r[1]))
        else:
            und.append('%s: %s' % (construct, r[1]))
        return r

    def call(front, clo, args, kw=None, st=None):
        m = Machine()
        m.front = front
        return list(m.call(clo, args, kw or {}, st or St()))

    rep.rule('formula-python', 'each distance function of the package folds the documented term of equal coordinates over every coordinate')
    rep.rule('formula-native', 'each native distance function folds the same term over every coordinate')
    rep.rule('choice-python', 'a distance_metric of each type computes the formula of that type, with and without numpy and after switching')
    rep.rule('choice-native', 'the native metric made for each type computes the formula of that type')
    rep.rule('bridge', 'the Python wrapper hands the type, the argument and the function of the metric to the native one, and a native metric both points in order')
    want = formulas()
    mm = prog.modules.get('pyclustering.utils.metric')
    um = prog.modules.get('pyclustering.utils')
    if mm is None or um is None:
        raise Broken('pyclustering.utils.metric is gone')

    # functions of the package
    shapes = [('vectors', 1, 1, 'number'), ('matrices', 2, 2, 'rows'), ('a matrix and a vector', 2, 1, 'rows'), ('a vector and a matrix', 1, 2, 'rows')]
    for mod in (mm, um):
        front = PyFront(prog, mod)
        for name, t in sorted(NAMES.items()):
            for suffix in ('', '_numpy'):
                f = mod.functions.get(name + suffix)
                if f is None:
                    continue
                for label, n1, n2, shape in shapes if suffix else shapes[:1]:
                    args = [vec('A', n1), vec('B', n2)] + ([DEG] if t == 'MINKOWSKI' else [vec('R')] if t == 'GOWER' else [])
                    judge('formula-python', '%s of %s' % (f.qual, label) if suffix else f.qual, f.where(), lambda: call(front, front.fn(f), args), want[t], shape)

    # the metric object
    cls = mm.classes.get('distance_metric')
    enum = mm.classes.get('type_metric')
    if cls is None or enum is None:
        raise Broken('distance_metric or type_metric is gone')
    front = PyFront(prog, mm)
    members = [x for x in enum.attrs if not x.startswith('_')]
    col = P.atom(('call', 'column-max', P.atom(('el', 'X', 0)).key)) - P.atom(('call', 'column-min', P.atom(('el', 'X', 0)).key))
    for t in members:
        if t not in want:
            rep.bad('choice-python', 'type_metric.' + t, enum.module.rel, 'metric %s has no documented formula' % t)
            continue
        argsets = [('', {})]
        if t == 'MINKOWSKI':
            argsets = [(' with a degree', {'degree': DEG}), (' without a degree', {})]
        elif t == 'GOWER':
            argsets = [(' with max_range', {'max_range': vec('R')}), (' with data', {'data': vec('X', 2)})]
        elif t == 'USER_DEFINED':
            argsets = [('', {'func': Sym('user')})]
        for al, kw in argsets:
            w = want[t]
            if 'data' in kw:
                w = formulas(col)[t]
            if t == 'MINKOWSKI' and not kw:
                w = sqrt(S(D * D))
            for use, switch in ((False, None), (True, None), (False, 'enable_numpy_usage'), (True, 'disable_numpy_usage')):
                label = 'distance_metric(%s%s)%s%s' % (t, al, ' using numpy' if use else '', ' after ' + switch if switch else '')

                def outs():
                    m = Machine()
                    m.front = front
                    res = []
                    k2 = dict(kw)
                    if use:
                        k2['numpy_usage'] = Const(True)
                    for obj, st in front.construct(m, cls, [Const(t)], St(), k2):
                        sts = [st]
                        if switch:
                            f = cls.find(switch)
                            sts = [n for _, n in m.call(front.fn(f, selfv=obj), [], {}, st)] if f else [st]
                        f = cls.find('__call__')
                        for s in sts:
                            res.extend(m.call(front.fn(f, selfv=obj), [vec('A'), vec('B')], {}, s))
                    return res
                judge('choice-python', label, cls.find('__call__').where() if cls.find('__call__') else mm.rel, outs, w)

    # native functions
    F = facts
    cf = CxxFront(F)
    for name, t in sorted(NAMES.items()):
        ds = [f for f in F.by_q.get('pyclustering::utils::metric::' + name, []) if f.get('body') and not f.get('tmpl')]
        for f in ds:
            args = [vec('A'), vec('B')] + ([DEG] if t == 'MINKOWSKI' else [vec('R')] if t == 'GOWER' else [])
            judge('formula-native', f['q'], '%s:%s' % (f['file'], f['l']), lambda: call(cf, cf.fn(f), args), want[t])
            rep.count('native distance functions')
    mc = [f for f in F.by_q.get('metric_create', []) if f.get('body')]
    mk = [f for f in F.by_q.get('metric_calculate', []) if f.get('body')]
    if not mc or not mk:
        raise Broken('metric_create or metric_calculate is gone')
    names = [v[0] for en in F.enums.values() if en['n'] == 'metric_t' for v in en['vals']]
    for t in names:
        if t not in want:
            continue

        def outs():
            m = Machine()
            m.front = cf
            res = []
            st = St()
            arg = Vec(R, name='R') if t == 'GOWER' else Vec(P.atom(('el', 'args', 0)), name='args')
            for o, s in m.call(cf.fn(mc[0]), [Const(t), arg, Sym('user')], {}, st):
                if isinstance(o, (Unk, Const)):
                    res.append((o, s))
                    continue
                res.extend(m.call(cf.fn(mk[0]), [o, vec('A'), vec('B')], {}, s))
            return res
        judge('choice-native', 'metric_create(%s)' % t, '%s:%s' % (mc[0]['file'], mc[0]['l']), outs, want[t])

    # the wrapper
    wm = prog.modules.get('pyclustering.core.metric_wrapper')
    wc = wm.classes.get('metric_wrapper') if wm else None
    if wc is None or wc.find('create_instance') is None:
        raise Broken('metric_wrapper is gone')
    wf = PyFront(prog, wm)
    for t in members:
        if t not in want:
            continue
        m = Machine()
        m.front = wf
        st = St()
        metric = Rec('metric')
        args = Rec('dict')
        arg = {'MINKOWSKI': ('degree', DEG), 'GOWER': ('max_range', vec('R'))}.get(t)
        if arg:
            st.fields[(args.id, ('item', arg[0]))] = arg[1]
        lam = lambda v: Clo([], ('var', '#v'), {'#v': v}, expr=True, front=wf)
        st.fields[(metric.id, 'get_type')] = lam(Const(t))
        st.fields[(metric.id, 'get_arguments')] = lam(args)
        st.fields[(metric.id, 'get_function')] = lam(Sym('user') if t == 'USER_DEFINED' else Const(None))
        # what the wrapper asks of the metric
        wf2 = WrapperFront(prog, wm, metric)
        wf2.subs = {}
        m.front = wf2
        where = wc.find('create_instance').where()
        rep.count('obligations')
        try:
            outs = list(m.call(wf2.fn(wc.find('create_instance')), [metric], {}, st))
        except (Budget, RecursionError):
            und.append('metric_wrapper(%s): too many paths' % t)
            continue
        bad = None
        seen = False
        for _, s in outs:
            if s.fuzzy:
                continue
            for name, a, kw in s.calls:
                if name != 'metric_create' or len(a) < 3:
                    continue
                seen = True
                if isinstance(a[0], Const) and a[0].v != t:
                    bad = 'asks for metric %s' % a[0].v
                if t == 'MINKOWSKI' and isinstance(a[1], Tup) and (len(a[1].items) != 1 or not isinstance(a[1].items[0], P) or a[1].items[0] != DEG):
                    bad = 'passes %s instead of the degree' % [show(x) if isinstance(x, P) else '?' for x in a[1].items]
                if t == 'MINKOWSKI' and isinstance(a[1], Vec):
                    bad = 'passes the range instead of the degree'
                if t == 'GOWER' and (isinstance(a[1], Tup) or (isinstance(a[1], Const) and a[1].v is None)):
                    bad = 'does not pass the range'
                if t == 'GOWER' and isinstance(a[1], Vec) and isinstance(a[1].el, P) and a[1].el != R:
                    bad = 'passes %s instead of the range' % show(a[1].el)
                if t == 'USER_DEFINED' and isinstance(a[2], Clo):
                    r = verdict(list(m.call(a[2], [vec('A'), vec('B')], {}, s)), want['USER_DEFINED'])
                    if r != 'ok' and r[0] == 'bad':
                        bad = r[1]
        if bad:
            rep.bad('bridge', 'metric_wrapper of %s' % t, where, 'the native metric for %s %s' % (t, bad))
        elif seen:
            rep.ok('bridge', 'metric_wrapper of %s' % t, where)
        else:
            und.append('metric_wrapper(%s): metric_create is not reached' % t)
    rep.count('obligations left undecided', len(und))
    rep.notes.extend('not decided: ' + u for u in und)
    rep.assumptions.append('points have the same, non-zero number of finite coordinates; rounding is not modelled')
    if os.environ.get('VERIF_DEBUG'):
        print('\n'.join(und))
    for r, n in (('formula-python', 1), ('formula-native', 1), ('choice-native', 1)):
        if not rep.obligations.get(r) and not und:
            raise Broken('rule %s found nothing to check' % r)


class WrapperFront(PyFront):
    """the wrapper module: a metric object is a record whose getters are given, metric_wrapper(...) is constructed"""
    def __init__(self, prog, module, metric):
        PyFront.__init__(self, prog, module)
        self.metric = metric

    def of(self, module):
        return self

    def incls(self, cls):
        r = WrapperFront(self.prog, self.module, self.metric)
        r.subs, r.cls = self.subs, cls
        return r

    def method(self, mach, o, name, args, kw, st, e):
        if o is self.metric and (o.id, name) in st.fields:
            yield from mach.call(st.fields[(o.id, name)], args, kw, st)
            return
        yield from PyFront.method(self, mach, o, name, args, kw, st, e)

    def builtin(self, mach, f, args, kw, st):
        if isinstance(f, tuple) and f[0] == 'name' and f[1] == 'metric_wrapper':
            cls = self.module.classes['metric_wrapper']
            # constructed for its call of metric_create
            for o, n in self.construct(mach, cls, args, st, kw):
                st.calls = n.calls
                st.fields.update(n.fields)
                return o
        return PyFront.builtin(self, mach, f, args, kw, st)
