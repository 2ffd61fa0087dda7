"""P06: a given random seed reaches every generator before it draws."""

import ast
import re

from .. import cexec, cxx, ffi
from ..pexec import Exec, State, TooManyPaths, mentions, show, subterms
from ..pymodel import Class, Func, program

DRAW_MODULES = ('random.', 'numpy.random.')
NOT_DRAW = {'seed', 'getstate', 'setstate', 'get_state', 'set_state', 'Random', 'SystemRandom', 'RandomState', 'default_rng', 'Generator', 'PCG64', 'MT19937', 'SeedSequence'}
SEEDABLE = {'random.Random', 'numpy.random.RandomState', 'numpy.random.default_rng', 'numpy.random.PCG64', 'numpy.random.MT19937', 'numpy.random.SeedSequence', 'numpy.random.Generator'}
ENTROPY = {'os.urandom', 'uuid.uuid4', 'uuid.uuid1', 'random.SystemRandom', 'secrets.token_bytes', 'secrets.randbelow', 'time.time', 'time.perf_counter', 'time.monotonic', 'time.time_ns'}
SEED = ('seed',)


def is_seed(t):
    return bool(t) and t[0] == 'seed'


# --- Python ---------------------------------------------------------------------------------------------

def seeded_classes(prog):
    """(class, way): way is ('param', name), ('kw', name) or ('attr', parameter, attribute)"""
    out = []
    for c in prog.classes():
        init = c.find('__init__')
        if init is None:
            continue
        way = None
        for p in init.params:
            if p == 'random_state' or p.endswith('_random_state'):
                way = ('param', p)
        names = set()
        for k in c.mro():
            if isinstance(k, Class):
                for n in ast.walk(k.node):
                    if isinstance(n, ast.Constant) and n.value == 'random_state':
                        names.add('random_state')
                    if isinstance(n, ast.Attribute) and n.attr == 'random_state' and not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                        names.add('.random_state')
        if way is None and 'random_state' in names and init.node.args.kwarg:
            way = ('kw', 'random_state')
        if way is None and '.random_state' in names:
            for p in init.params:
                if 'param' in p:
                    way = ('attr', p, 'random_state')
        if way is not None:
            out.append((c, way))
    return out


class PyRun:
    def __init__(self, prog, rep, cls, way, value, exported):
        self.prog, self.rep, self.cls, self.way, self.value, self.exported = prog, rep, cls, way, value, exported
        self.bad, self.ok = {}, {}

    def key(self, st):
        return st.heap.get('#rng', {}).get('seeded', frozenset())

    def on_call(self, ex, c, args, kwargs, st, f, node):
        allv = list(args) + [v for v in (kwargs.values() if isinstance(kwargs, dict) else [b for a, b in kwargs])]
        if c == ('ext', 'builtins.isinstance') and args and is_seed(args[0]):
            return [(st, ('const', True))]
        if c in (('ext', 'copy.copy'), ('ext', 'copy.deepcopy')) and args and args[0][0] in ('inst', 'seedparams', 'seed'):
            return [(st, args[0])]
        r = ffi._ext_getattr(ex, c, args, kwargs, st, f, node)
        if r is not None:
            return r
        sym = ffi.symbol(c)
        if sym:
            p = self.exported.get(sym)
            if p is not None:
                for i, q in enumerate(p['params']):
                    if 'random_state' in q['n'] and i < len(args):
                        self.note(mentions(args[i], is_seed), 'native-seed', '%s -> %s' % (f.qual, sym), f, node,
                                  'the seed is not what the native %s receives as its random state when the seed is %d (it gets %s)' % (sym, self.value, show(args[i])))
                    if q['t'].rstrip().endswith('*') and i < len(args):
                        a = args[i]
                        for t in subterms(a):
                            if t and t[0] == 'inst' and t[2].ext_base():
                                h = st.heap.get(t[1], {})
                                for k, v in h.items():
                                    if isinstance(k, str) and 'random_state' in k:
                                        self.note(mentions(v, is_seed), 'native-seed', '%s -> %s' % (f.qual, sym), f, node,
                                                  'the seed is not what the native %s receives as its random state when the seed is %d (it gets %s)' % (sym, self.value, show(v)))
            return None
        if isinstance(c, tuple) and c[0] == 'ext':
            name = c[1]
            m = next((m for m in DRAW_MODULES if name.startswith(m) or name.startswith('builtins.' + m)), None)
            if name in ENTROPY:
                self.note(False, 'entropy', '%s: %s' % (f.qual, name), f, node, '%s makes the result depend on something other than the seed' % name)
                return None
            if m:
                short = name[len(m):].split('.')[0]
                seeded = self.key(st)
                if short == 'seed':
                    good = bool(allv) and mentions(allv[0], is_seed)
                    seeded = (seeded | {m}) if good else (seeded - {m})
                    h = st.heap.setdefault('#rng', {})
                    h['seeded'] = seeded
                    h['by' + m] = ('const', '%s seeded it with %s' % (f.qual, show(allv[0]) if allv else 'nothing')) if not good else None
                    return [(st, ('const', None))]
                if short in NOT_DRAW:
                    return None
                why = st.heap.get('#rng', {}).get('by' + m)
                self.note(m in seeded, 'python-draw', '%s: %s' % (f.qual, name), f, node,
                          '%s draws from the %s generator although it is not seeded with the given random state %d on this path%s' % (
                              name, m[:-1], self.value, ' (%s)' % why[1] if why and why[0] == 'const' else ''))
                return None
        if isinstance(c, tuple) and c[0] == 'attr':
            for t in subterms(c[1]):
                if t and t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'ext' and t[1][1] in SEEDABLE:
                    self.note(mentions(t, is_seed), 'python-draw', '%s: %s' % (f.qual, t[1][1]), f, node, 'a private generator is not initialised with the given random state')
        return None

    def note(self, good, rule, construct, f, node, msg):
        k = (rule, construct)
        if good:
            self.ok[k] = f.where(node)
        else:
            self.bad.setdefault(k, (f.where(node), msg))

    def run(self):
        c = self.cls
        init = c.find('__init__')
        paths = 0

        def inline(g, st):
            return not ffi.opaque(g) and not g.module.name.startswith(('pyclustering.utils.color', 'pyclustering.cluster.__init__'))

        def mk():
            return Exec(self.prog, inline=inline, on_call=self.on_call, merge_key=self.key, max_paths=4000, max_depth=9)
        ex = mk()
        st = State()
        slf = ex.new(c, st)
        val = ('seedparams', self.value) if self.way[0] == 'attr' else SEED + (self.value,)
        pos = [('param', p) if p != self.way[1] else val for p in init.params[1:]]
        kw = {self.way[1]: val} if self.way[0] == 'kw' else {}
        if self.way[0] == 'param' and self.way[1] not in init.params:
            kw[self.way[1]] = val
        finals = [(s, o) for s, o in ex.call_func(init, pos, kw, st, slf, None, entry=True) if not (o and o[0] == 'raise')]
        paths += len(finals)
        done = set()
        for k in c.mro():
            if not isinstance(k, Class):
                continue
            for m in k.methods.values():
                if m.name in done or m.name.startswith('_') or m.static:
                    continue
                done.add(m.name)
                for s, o in finals[:40]:
                    try:
                        paths += len(mk().run(m, None, slf, s.copy()))
                    except TooManyPaths:
                        self.rep.count('methods with too many paths')
        return paths



def patch(ex_cls):
    """a seed is a number: truth, comparison with constants, attribute random_state of a parameter object"""
    class E(ex_cls):
        def truth(self, t):
            if t[0] == 'seed':
                return t[1] != 0
            if t[0] == 'seedparams':
                return True
            return super().truth(t)

        def cmp(self, op, a, b):
            x = ('const', a[1]) if a[0] == 'seed' else a
            y = ('const', b[1]) if b[0] == 'seed' else b
            if a[0] == 'seedparams' or b[0] == 'seedparams':
                if ('const', None) in (a, b):
                    return ('const', op in ('IsNot', 'NotEq'))
            return super().cmp(op, x, y)

        def getattr(self, b, name, st, f, node):
            if b[0] == 'seedparams':
                if name == 'random_state':
                    return [(st, ('seed', b[1]))]
                return [(st, ('attr', b, name))]
            return super().getattr(b, name, st, f, node)
    return E


def python(rep, prog, exported):
    global Exec
    Exec = patch(Exec) if not getattr(Exec, '_p06', False) else Exec
    Exec._p06 = True
    rep.rule('python-draw', 'every draw of a seeded class happens with its generator seeded from the given random state')
    rep.rule('native-seed', 'the native call receives the given random state, zero included')
    cl = seeded_classes(prog)
    for c, way in cl:
        for value in (0, 7):
            r = PyRun(prog, rep, c, way, value, exported)
            n = r.run()
            rep.count('paths', n)
            for (rule, con), where in r.ok.items():
                if (rule, con) not in r.bad:
                    rep.ok(rule, '%s(seed %d): %s' % (c.name, value, con), where)
            for (rule, con), (where, msg) in r.bad.items():
                rep.bad(rule, '%s: %s' % (c.name, con), where, msg)
    rep.count('seeded classes', len(cl))
    return cl


# --- C++ ------------------------------------------------------------------------------------------------

ENGINE = re.compile(r'(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|discard_block_engine|shuffle_order_engine|independent_bits_engine)')
DEVICE = re.compile(r'random_device')


class CRun:
    def __init__(self, F, rep):
        self.F, self.rep = F, rep
        self.ok, self.bad = {}, {}
        self.visited = set()

    def merge_key(self, st):
        return tuple(sorted((repr(k), v) for k, v in st.env.items() if isinstance(v, tuple) and v and v[0] == 'gen'))

    def cond(self, ex, v, st, n, f):
        if v[0] == 'op' and v[1] in ('==', '!='):
            a, b = v[2], v[3]
            for x, y in ((a, b), (b, a)):
                yv = y[2] if y[0] == 'named' else y
                if x[0] == 'seed' and yv[0] == 'const' and isinstance(yv[1], (int, float)) and yv[1] < 0:
                    return v[1] == '!='
        if v[0] == 'op' and v[1] in ('<', '>', '<=', '>='):
            a, b = v[2], v[3]
            bv = b[2] if b[0] == 'named' else b
            if a[0] == 'seed' and bv[0] == 'const':
                return {'<': 5 < bv[1], '>': 5 > bv[1], '<=': 5 <= bv[1], '>=': 5 >= bv[1]}[v[1]] if bv[1] <= 0 and not (v[1] in ('>', '<=') and bv[1] == 0) else None
        return None

    def note(self, good, rule, construct, f, n, msg):
        k = (rule, construct)
        where = '%s:%s' % (f['file'], n.get('l'))
        if good:
            self.ok[k] = where
        else:
            self.bad.setdefault(k, (where, msg))

    def on_call(self, ex, q, base, bkey, vs, ks, s, n, f):
        q = q or ''
        kids = cxx.ch(n)
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            if ENGINE.search(n.get('t', '')):
                good = any(any(t[0] == 'seed' for t in cexec.subterms(v)) for v in vs)
                return [(s, ('gen', good, self.uid(s)), None)]
            return None
        name = q.split('::')[-1]
        if re.fullmatch(r'(std::)?(rand|random|drand48|lrand48)', q):
            self.note(False, 'native-draw', '%s: %s' % (f['q'], q), f, n, '%s does not draw from a generator that the seed initialises' % q)
            return None
        if base is not None and base[0] == 'gen' or (bkey is not None and ex.get(s, bkey)[0] == 'gen'):
            if name == 'seed' and 'operator' not in name:
                good = any(any(t[0] == 'seed' for t in cexec.subterms(v)) for v in vs)
                if bkey is not None:
                    s.env[ex.resolve(s, bkey)] = ('gen', good, self.uid(s))
                return [(s, cexec.UNDEF, None)]
        out = None
        for v, k in [(base, bkey)] + list(zip(vs, ks)):
            if v is None:
                continue
            cur = ex.get(s, k) if k is not None else v
            if cur[0] != 'gen' and v[0] == 'gen':
                cur = v
            if cur[0] == 'gen' and not self.has_body(ex, q, n):
                self.visited.add(id(n))
                self.note(cur[1], 'native-draw', '%s: %s' % (f['q'], short(q)), f, n,
                          'a random number is drawn from a generator that is not seeded with the given random state on this path')
        # a distribution called on a random device
        if '_distribution' in q and name.startswith('operator') and any(DEVICE.search((k or {}).get('t', '')) for k in kids):
            self.note(False, 'native-draw', '%s: %s' % (f['q'], short(q)), f, n, 'a random number is drawn from std::random_device')
        elif '_distribution' in q and name.startswith('operator()'):
            gens = [v for v, k in zip(vs, ks) if (ex.get(s, k) if k is not None else v)[0] == 'gen']
            if not gens and any(ENGINE.search((k or {}).get('t', '')) for k in kids):
                self.visited.add(id(n))
                self.note(False, 'native-draw', '%s: %s' % (f['q'], short(q)), f, n, 'a random number is drawn from a generator that this object never seeds with the given random state')
        return out

    def has_body(self, ex, q, n):
        return bool(ex.callee(q, n.get('ft', ''), n)) if q else False

    def uid(self, s):
        return 0


def short(q):
    return re.sub(r'<.*>', '<>', q or '?')


def touches(F, f, seen):
    """functions of the library a function can call (by name)"""
    out = set()
    for n in cxx.fwalk(f):
        if n.get('r'):
            out.add(n['r'])
    return out


def interesting(F):
    """functions from which a generator, a clock or a random_state parameter is reachable"""
    calls, base = {}, set()
    for f in F.functions:
        if not f.get('body'):
            continue
        k = id(f)
        calls[k] = (f, touches(F, f, None))
        if any('random_state' in p['n'] for p in f['params']):
            base.add(f['q'])
        for n in cxx.fwalk(f):
            if ENGINE.search(n.get('t', '') or '') or 'random_state' in (n.get('n') or '') or DEVICE.search(n.get('t', '') or ''):
                base.add(f['q'])
                break
    over = {}
    for f in F.functions:
        for o in f.get('over', []) or []:
            over.setdefault(o, set()).add(f['q'])
    grow = True
    while grow:
        grow = False
        for f, cs in calls.values():
            if f['q'] in base:
                continue
            if any(c in base or (over.get(c, set()) & base) for c in cs):
                base.add(f['q'])
                grow = True
    return base


def native(rep, F):
    rep.rule('native-draw', 'every draw of a seeded native class or function uses a generator seeded from the given random state on that path')
    rep.rule('native-pass', 'a native component that accepts a random state and is used under a seed receives that seed')
    inter = interesting(F)
    seeded_cls = set()
    entries = []
    for f in F.functions:
        if not f.get('body') or f.get('tmpl'):
            continue
        ps = [p for p in f['params'] if 'random_state' in p['n']]
        if not ps:
            continue
        if f.get('ctor') == 'plain':
            seeded_cls.add(f['cls'])
            entries.append(('ctor', f, ps[0]['n']))
        else:
            entries.append(('func', f, ps[0]['n']))
    structs = [q for q, r in F.records.items() if any(x['n'] == 'random_state' for x in r.get('fields', []))]
    for f in F.functions:
        if f.get('ctor') == 'plain' and f.get('body') and not f.get('tmpl'):
            for p in f['params']:
                if any(p['t'].replace('const ', '').rstrip(' &*') == s for s in structs):
                    entries.append(('sctor', f, p['n']))
    for kind, f, pname in entries:
        R = CRun(F, rep)

        def on_call(ex, q, base, bkey, vs, ks, s, n, fn, R=R):
            # components with a random state of their own
            g = None
            if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                g = ex.ctor(n)
            elif q:
                g = ex.callee(q, n.get('ft', ''), n) or next(iter(ex.virtuals(q)), None)
            if g is not None:
                for i, p in enumerate(g['params']):
                    if 'random_state' in p['n'] and i < len(vs):
                        R.note(any(t[0] == 'seed' for t in cexec.subterms(vs[i])), 'native-pass', '%s -> %s' % (fn['q'], g['q']), fn, n,
                               '%s is not given the random state of its user (it gets %s)' % (g['q'], cexec.show(vs[i])))
            return R.on_call(ex, q, base, bkey, vs, ks, s, n, fn)

        class E(cexec.Exec):
            def e_CXXConstructExpr(self, n, st, f2):
                g = self.ctor(n)
                res = super().e_CXXConstructExpr(n, st, f2)
                if g is not None:
                    # reported once per construction, from the event
                    for s, v, k in res:
                        t = s.trace
                        while t:
                            t, e = t
                            if e.kind == 'ctor' and e.node is n:
                                on_call(self, n['r'], e.base, None, list(e.args), list(e.keys), s, n, f2)
                                break
                        break
                return res
            e_CXXTemporaryObjectExpr = e_CXXConstructExpr

        def inline(g, st):
            return g['q'] in inter

        def mk():
            return E(F, inline=inline, on_call=on_call, on_cond=R.cond, merge_key=R.merge_key, max_paths=3000)
        try:
            if kind == 'func':
                res = mk().run(f, ('this',), {pname: SEED})
                rep.count('native paths', len(res))
            else:
                st = cexec.St()
                val = SEED
                if kind == 'sctor':
                    val = ('param', pname)
                    st.env[('f', val, 'random_state')] = SEED
                res = mk().run(f, ('this',), {pname: val}, st)
                rep.count('native paths', len(res))
                for s, o in res[:8]:
                    if o and o[0] == 'throw':
                        continue
                    if kind == 'sctor':
                        # parameters copied into the object
                        for k, v in list(s.env.items()):
                            if isinstance(k, tuple) and k[0] == 'f' and k[1] == ('this',) and v == val:
                                s.env[('f', ('f', ('this',), k[2]), 'random_state')] = SEED
                    for m in F.methods(f['cls']):
                        if m.get('ctor') or m.get('static') or m.get('tmpl') or m['q'] not in inter or m.get('acc') != 'public' or m['n'].startswith('operator'):
                            continue
                        if f.get('clst') and m.get('clst') != f.get('clst'):
                            continue
                        r2 = mk().run(m, ('this',), {}, s.copy())
                        rep.count('native paths', len(r2))
        except cexec.TooManyPaths:
            rep.count('native entries with too many paths')
            continue
        rep.count('native entries')
        label = f['q'] + ('<%s>' % f.get('clst') if f.get('clst') else '')
        for (rule, con), where in R.ok.items():
            if (rule, con) not in R.bad:
                rep.ok(rule, '%s: %s' % (label, con), where)
        for (rule, con), (where, msg) in R.bad.items():
            rep.bad(rule, con, where, msg)


def run(rep, tier):
    prog = program()
    F = cxx.facts()
    rep.rule('entropy', 'no seeded class consults a clock or another source of entropy')
    python(rep, prog, F.exported())
    native(rep, F)
    rep.floor('python-draw', 10)
    rep.floor('native-seed', 6)
    rep.floor('native-draw', 4)
    rep.floor('native-pass', 6)
