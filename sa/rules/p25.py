"""P25: the metric that was chosen is the only distance that an algorithm measures, in both implementations."""

import re

from .. import cxx, ffi
from ..objects import construct, is_workable, public_methods, switch_of
from ..pexec import NONE, Exec, State, TooManyPaths, show, subterms
from ..pymodel import Class, Func, program

METRIC = ('param', 'metric')
MEASURES = ('numpy.linalg.norm', 'math.dist', 'math.hypot', 'numpy.hypot', 'scipy.spatial')
WORK = ('process', 'train', 'initialize', 'build')


def is_metric(t):
    while t[0] == 'call' and t[1][0] == 'ext' and t[1][1].startswith('copy.') and t[2]:
        t = t[2][0]
    return t == METRIC or t[0] == 'attr' and t[2] == '__call__' and is_metric(t[1])


def is_distance(f):
    return f.module.name.startswith('pyclustering.utils') and f.cls is None and 'distance' in f.name and 'metric' not in f.name


def own_metric_class(c):
    return c.name == 'distance_metric' and c.module.name.startswith('pyclustering.utils')


def rank(t):
    """2 for a collection of points, 1 for a point, 0 for a number, None when it cannot be told"""
    k = t[0]
    if k == 'param':
        return 2 if re.search(r'data|sample|points|centers|medians', t[1]) else 1 if t[1] in ('point',) else None
    if k in ('elem', 'sub'):
        if k == 'sub':
            i = t[2]
            if i[0] == 'slice' or i[0] in ('list', 'listcomp') or i[0] == 'call' and i[1][0] == 'ext' and i[1][1].split('.')[-1] in ('where', 'nonzero', 'argsort', 'array', 'argwhere'):
                return rank(t[1])
        r = rank(t[1])
        return None if r is None else r - 1
    if k == 'call':
        c = t[1]
        if c[0] == 'ext' and c[1].split('.')[-1] in ('array', 'asarray', 'list', 'copy', 'deepcopy', 'vstack', 'tuple') and t[2]:
            return rank(t[2][0])
        if c[0] == 'ext' and c[1].split('.')[-1] == 'zip':
            return None
        if c[0] == 'attr' and c[2] in ('copy', 'tolist'):
            return rank(c[1])
        if c[0] == 'ext' and c[1].split('.')[-1] in ('mean', 'sum', 'average', 'median') and t[2]:
            r = rank(t[2][0])
            return None if r is None else r - 1
        return None
    if k in ('list', 'tuple') and len(t) > 1:
        r = rank(t[1])
        return None if r is None else r + 1
    if k == 'listcomp':
        r = rank(t[1])
        return None if r is None else r + 1
    if k == 'op':
        rs = [rank(x) for x in t[2:] if isinstance(x, tuple)]
        rs = [r for r in rs if r is not None]
        return max(rs) if rs else None
    return None


def squared_difference(t, where):
    """a hand-written coordinate difference"""
    def diff(x):
        if x[0] != 'op' or x[1] != 'Sub' or len(x) < 4:
            return False
        rs = [rank(y) for y in x[2:4]]
        return None not in rs or any(r for r in rs)
    if t[0] == 'op' and t[1] == 'Pow' and diff(t[2]):
        return True
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1].split('.')[-1] in ('square', 'abs', 'absolute', 'fabs') and t[2] and diff(t[2][0]):
        return True
    return False


class Model:
    def __init__(self, prog, cls, rep, user, matrix):
        self.prog, self.cls, self.rep, self.user, self.matrix = prog, cls, rep, user, matrix
        self.short = cls.qual.replace('pyclustering.', '')
        self.phase = 'ctor'
        self.calls = 0

    def mine(self, f):
        return f.qual.replace('pyclustering.', '')

    def on_call(self, ex, c, args, kwargs, st, f, node):
        rep = self.rep
        here = '%s: %s' % (self.short, f.name)
        if is_workable(c):
            return [(st, ('const', True))]
        r = ffi._ext_getattr(ex, c, args, kwargs, st, f, node)
        if r is not None:
            return r
        if ffi.symbol(c):
            return [(st, ('call', c, (), (), (node.lineno, node.col_offset)))]
        if c[0] == 'attr' and c[2] == 'get_type' and is_metric(c[1]):
            return [(st, ('usertype',) if self.user else ('plaintype',))]
        if c[0] == 'func' and c[1].name == 'create_instance' and c[1].cls is not None and c[1].cls.name == 'metric_wrapper':
            rep.check(bool(args) and is_metric(args[0]), 'native', '%s: %s' % (self.short, f.name), f.where(node), 'the native metric is made from %s and not from the option metric' % (show(args[0]) if args else 'nothing'))
            return [(st, ('call', c, (), (), (node.lineno, node.col_offset)))]
        if is_metric(c):
            self.calls += 1
            key = '%s(%s)' % (here, ', '.join(shape(a) for a in args))
            rep.ok('chosen', here, f.where(node))
            if self.matrix and len(ex.stack[0].params if ex.stack else f.params) <= 1 + (self.phase == 'ctor') * 99:
                rep.bad('matrix', here, f.where(node), 'the metric is called although the input is a distance matrix')
            if self.user:
                rs = [rank(a) for a in args]
                if None in rs:
                    rep.count('metric calls with arguments of unknown form')
                else:
                    rep.check(max(rs) <= 1, 'pairs', key, f.where(node), 'a metric defined by the user is called with whole collections of points: %s' % ', '.join(show(a)[:60] for a in args))
            return [(st, ('call', ('ext', 'metric'), tuple(args), (), (node.lineno, node.col_offset)))]
        if c[0] == 'func' and is_distance(c[1]):
            rep.bad('only', '%s: %s' % (here, c[1].name), f.where(node), 'the distance %s is measured instead of the option metric' % c[1].name)
            return [(st, ('call', ('ext', 'metric'), tuple(args), (), (node.lineno, node.col_offset)))]
        if c[0] == 'ext' and c[1].startswith(MEASURES):
            rep.bad('only', '%s: %s' % (here, c[1]), f.where(node), '%s is used instead of the option metric' % c[1])
        if c[0] == 'inst' and own_metric_class(c[2]):
            rep.bad('only', '%s: another metric' % here, f.where(node), 'a metric is used that is not the option metric')
            return [(st, ('call', ('ext', 'metric'), tuple(args), (), (node.lineno, node.col_offset)))]
        if c[0] == 'class' and own_metric_class(c[1]):
            if self.phase != 'ctor':
                rep.bad('only', '%s: another metric' % here, f.where(node), 'a metric is made that is not the option metric')
            return [(st, ex.new(c[1], st))]
        if c[0] == 'class' and c[1] is not self.cls and takes_metric(c[1]):
            init = c[1].find('__init__')
            given = dict(kwargs)
            for p, a in zip(init.params[1:], args):
                given.setdefault(p, a)
            rep.check('metric' in given and is_metric(given['metric']), 'nested', '%s: %s' % (here, c[1].name), f.where(node), '%s is used without the option metric, so it measures its default distance' % c[1].name)
            return [(st, ('call', c, (), (), (node.lineno, node.col_offset)))]
        if c[0] == 'ext' and args and squared_difference(('call', c, tuple(args)), None):
            rep.bad('only', '%s: %s of a difference' % (here, c[1]), f.where(node), 'a distance is calculated by hand instead of by the option metric')
        return None

    def ex(self):
        m = self

        class E(Exec):
            def binop(self, op, a, b):
                t = super().binop(op, a, b)
                if squared_difference(t, None):
                    f = self.stack[-1] if self.stack else m.cls.find('__init__')
                    m.rep.bad('only', '%s: %s: squared difference' % (m.short, f.name), f.where(), 'a distance is calculated by hand instead of by the option metric')
                return t

            def cmp(self, op, a, b):
                for x, y in ((a, b), (b, a)):
                    if x[0] in ('usertype', 'plaintype') and y[0] in ('attr', 'enum', 'const', 'ext', 'sub') or x[0] in ('usertype', 'plaintype') and show(y).find('USER_DEFINED') >= 0:
                        if 'USER_DEFINED' in show(y):
                            return ('const', (x[0] == 'usertype') == (op in ('Eq', 'Is')))
                    if is_metric(x) and y == NONE and op in ('Is', 'IsNot', 'Eq', 'NotEq'):
                        return ('const', op in ('IsNot', 'NotEq'))
                return super().cmp(op, a, b)
        return E(self.prog, inline=lambda g, st: not ffi.opaque(g) and not g.module.name.endswith('_wrapper') and not own_metric_class(g.cls or self.cls) and not g.module.name.startswith('pyclustering.utils'),
                 on_call=self.on_call, merge_key=lambda s: 0, max_paths=4000, max_depth=10)


def shape(t):
    r = rank(t)
    return {None: '?', 0: 'number', 1: 'point', 2: 'points'}.get(r, 'more')


def takes_metric(c):
    init = c.find('__init__')
    return isinstance(init, Func) and not own_metric_class(c) and switch_of(c, 'metric') is not None and not c.module.name.startswith(('pyclustering.core', 'pyclustering.utils'))


def run_class(rep, prog, c):
    modes = [dict(user=u, matrix=None) for u in (True, False)]
    if switch_of(c, 'data_type'):
        modes += [dict(user=False, matrix='distance_matrix')]
    total = 0
    for mode in modes:
        for cc in ((False, True) if switch_of(c, 'ccore') else (False,)):
            if mode['matrix'] and cc:
                continue
            m = Model(prog, c, rep, mode['user'], mode['matrix'])
            vals = {'metric': METRIC}
            if switch_of(c, 'ccore'):
                vals['ccore'] = ('const', cc)
            if switch_of(c, 'data_type'):
                vals['data_type'] = ('const', mode['matrix'] or 'points')
            st = State()
            try:
                objs = construct(m.ex(), c, vals, st)
            except TooManyPaths:
                rep.count('classes with too many paths')
                continue
            for s, slf in objs[:4]:
                m.phase = 'work'
                after = [s]
                for meth in public_methods(c):
                    if meth.name in WORK:
                        try:
                            r = m.ex().run(meth, None, slf, s.copy())
                        except TooManyPaths:
                            rep.count('methods with too many paths')
                            continue
                        after += [x for x, o in r if not (o and o[0] == 'raise')][:3]
                for x in after:
                    for meth in public_methods(c):
                        if meth.name not in WORK:
                            try:
                                m.ex().run(meth, None, slf, x.copy())
                            except TooManyPaths:
                                rep.count('methods with too many paths')
            if mode['matrix']:
                rep.ok('matrix', m.short, c.find('__init__').where())
            if cc is False and not mode['matrix']:
                total += m.calls
    return total


def run(rep, tier):
    rep.rule('chosen', 'a distance is measured by calling the metric the caller chose')
    rep.rule('only', 'no other distance is measured by a class with a metric option')
    rep.rule('nested', 'an algorithm used inside another one gets the metric of the outer one')
    rep.rule('native', 'the native metric is made from the chosen metric')
    rep.rule('pairs', 'a metric defined by the user is called with two points')
    rep.rule('matrix', 'the metric is not called when the input is a distance matrix')
    rep.rule('native-only', 'a native class with a metric measures no other distance')
    rep.rule('native-nested', 'a native algorithm used inside another one gets its metric')
    rep.rule('native-entry', 'an exported function uses the metric it was given')
    prog = program()
    found = [c for c in prog.classes() if takes_metric(c) and c.module.name.startswith('pyclustering.') and '.tests' not in c.module.name and '.examples' not in c.module.name]
    found = [c for c in found if not c.name.startswith('_')]
    rep.count('classes with a metric', len(found))
    for c in found:
        calls = run_class(rep, prog, c)
        rep.count('metric calls followed', calls)
        rep.ok('only', c.qual.replace('pyclustering.', ''), c.find('__init__').where())
    native(rep, cxx.facts())
    rep.floor('chosen', 15)
    rep.floor('only', 9)
    rep.floor('nested', 3)
    rep.floor('native', 8)
    rep.floor('pairs', 10)
    rep.floor('matrix', 3)
    rep.floor('native-only', 8)
    rep.floor('native-nested', 2)
    rep.floor('native-entry', 8)


# ---- C++ -------------------------------------------------------------------

def metric_type(t):
    return bool(re.search(r'\bdistance_metric<|\bdistance_functor<|std::function<double \(const (?:std::vector<double>|point|TypeContainer)[^)]*, const ', t or '')) or (t or '').endswith('::metric')


def record_fields(F, q):
    r = F.records.get(q)
    out = {}
    seen = set()
    todo = [q]
    while todo:
        x = todo.pop()
        if x in seen or x not in F.records:
            continue
        seen.add(x)
        for f in F.records[x].get('fields', []):
            out[f['n']] = f['t']
        todo += [b if isinstance(b, str) else b.get('q', '') for b in F.records[x].get('bases', [])]
    return out


def native_distance(n):
    q = n.get('r') or ''
    return n['k'] == 'DeclRefExpr' and q.startswith('pyclustering::utils::metric::') and 'distance' in q.split('::')[-1] and 'distance_metric' not in q


def native(rep, F):
    classes = {}
    for q in F.records:
        if not q.startswith('pyclustering::clst'):
            continue
        fs = {n: t for n, t in record_fields(F, q).items() if metric_type(t)}
        if fs:
            classes[q] = fs
    rep.count('native classes with a metric', len(classes))
    for q, fields in sorted(classes.items()):
        short = q.replace('pyclustering::', '')
        for f in F.functions:
            if f.get('cls') != q or not f.get('body'):
                continue
            bad = False
            default = f.get('dk') == 'CXXConstructor'
            for n in cxx.fwalk(f):
                where = '%s:%d' % (f['file'], n.get('l') or f['l'])
                if native_distance(n) and not (default and not any(metric_type(p['t']) for p in f['params'])):
                    bad = True
                    rep.bad('native-only', '%s: %s: %s' % (short, f['n'], n['r'].split('::')[-1]), where, '%s is measured instead of the metric of the object' % n['r'].split('::')[-1])
                if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and not default:
                    made = re.sub(r'^const |[ &*]+$', '', n.get('t') or '')
                    target = next((k for k in classes if k != q and (k == made or k.endswith('::' + made))), None)
                    if target and cxx.ch(n) and not any(copy_of(a, made) for a in cxx.ch(n)):
                        got = any(x['k'] == 'MemberExpr' and x.get('n') in fields for a in cxx.ch(n) for x in cxx.walk(a))
                        rep.check(got, 'native-nested', '%s: %s: %s' % (short, f['n'], made.split('::')[-1]), where, '%s is made without the metric of the object, so it measures its default distance' % made.split('::')[-1])
            if not bad:
                rep.ok('native-only', '%s: %s' % (short, f['n']), '%s:%d' % (f['file'], f['l']))
    for name, f in sorted(F.exported().items()):
        if not f.get('body'):
            continue
        mp = [p for p in f['params'] if 'metric' in p['n']]
        if not mp:
            continue
        tainted = {p['id'] for p in mp}
        for _ in range(3):
            for n in cxx.fwalk(f):
                if n['k'] == 'Var' or 'init' in n or n['k'] == 'VarDecl':
                    pass
                if n['k'] == 'DeclStmt':
                    for d in n.get('d') or []:
                        if any(x['k'] == 'DeclRefExpr' and x.get('id') in tainted for x in cxx.walk(d)):
                            tainted.add(d.get('id'))
                if n['k'] in ('BinaryOperator', 'CXXOperatorCallExpr') and len(cxx.ch(n)) >= 2:
                    kids = cxx.ch(n)
                    if n.get('op', '=') == '=' and any(x['k'] == 'DeclRefExpr' and x.get('id') in tainted for x in cxx.walk(kids[-1])):
                        for x in cxx.walk(kids[-2]):
                            if x['k'] == 'DeclRefExpr':
                                tainted.add(x.get('id'))
        done = False
        for n in cxx.fwalk(f):
            if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                made = re.sub(r'^const |[ &*]+$', '', n.get('t') or '')
                target = next((k for k in classes if k == made or k.endswith('::' + made)), None)
                if target and cxx.ch(n) and not any(copy_of(a, made) for a in cxx.ch(n)):
                    done = True
                    got = any(x['k'] == 'DeclRefExpr' and x.get('id') in tainted for a in cxx.ch(n) for x in cxx.walk(a))
                    rep.check(got, 'native-entry', '%s: %s' % (name, made.split('::')[-1]), '%s:%d' % (f['file'], n.get('l') or f['l']), '%s is made without the metric handed to %s' % (made.split('::')[-1], name))
        if not done:
            rep.count('exported functions with a metric that build no algorithm')


def copy_of(a, made):
    t = re.sub(r'^const |[ &*]+$', '', a.get('t') or '')
    return t == made or t.endswith('::' + made.split('::')[-1])
