"""P14: every documented option takes effect, with the documented default, in both implementations."""

import ast
import re

from .. import cxx, ffi
from . import p03
from ..objects import public_methods, switch_of
from ..pexec import NONE, Exec, State, TooManyPaths, show, subterms
from ..pymodel import Class, Func, program
from ..objects import is_workable

FALSE, TRUE = ('const', False), ('const', True)
SCOPE = ('pyclustering.cluster', 'pyclustering.nnet', 'pyclustering.gcolor', 'pyclustering.tsp', 'pyclustering.container')
SKIP_MODULES = ('examples', 'tests', 'samples', 'visualizer', '.core')


def documented(doc):
    """name -> text of the documented options"""
    out = {}
    for m in re.finditer(r'^[ \t]*(?:-|@param\[in\])[ \t]*(\*{0,2}\w+)[ \t]*\(([^)]*)\)[ \t]*:(.*?)(?=^[ \t]*(?:-[ \t]+\w+[ \t]*\(|@\w+|<b>|\n[ \t]*\n)|\Z)', doc, re.S | re.M):
        out.setdefault(m.group(1), ' '.join(m.group(3).split()))
    return out


def kwarg_reads(func, seen=None):
    """option -> default expression (or None) that a function takes out of its ** argument"""
    seen = seen or set()
    out = {}
    kw = func.node.args.kwarg
    if kw is None or func in seen:
        return out
    seen.add(func)
    for n in ast.walk(func.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('get', 'pop') and isinstance(n.func.value, ast.Name) and n.func.value.id == kw.arg:
            if n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                out.setdefault(n.args[0].value, n.args[1] if len(n.args) > 1 else ast.Constant(None))
        elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == kw.arg and isinstance(n.slice, ast.Constant):
            out.setdefault(n.slice.value, None)
    return out


def targets(prog):
    out = []
    for c in prog.classes():
        if not c.module.name.startswith(SCOPE) or any(s in c.module.name for s in SKIP_MODULES) or c.ext_base():
            continue
        init = c.methods.get('__init__')
        if init is None or c.name.startswith('_'):
            continue
        work = [m for m in public_methods(c) if m.name in WORK]
        if not work:
            continue
        out.append((c, init))
    return out


WORK = ('process', 'train', 'simulate', 'simulate_static', 'simulate_dynamic', 'initialize', 'segment')


class Model:
    def __init__(self, prog, workable):
        self.prog, self.workable = prog, workable
        self.calls, self.args, self.joined = 0, {}, {}
        self.used = {}           # option -> where it is consulted
        self.native = {}         # symbol -> [(index, term, where)]
        self.phase, self.runs = 'ctor', 0
        self.options = set()

    def labels(self, t, st=None):
        out = set()
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if not isinstance(x, tuple) or not x or id(x) in seen:
                continue
            seen.add(id(x))
            if len(x) == 2 and x[0] == 'param' and isinstance(x[1], str):
                if x[1] in self.options:
                    out.add(x[1])
                continue
            if len(x) > 2 and x[0] == 'unknown' and x[1] == 'join':
                todo += self.joined.get(x[2], ())
                continue
            if x[0] == 'inst':
                if st is not None and not any(x[2].find(w) for w in WORK):
                    todo += [v for v in st.heap.get(x[1], {}).values() if isinstance(v, tuple)]
                continue
            if st is not None and ('ext', x) in st.heap:
                todo += [v for v in st.heap[('ext', x)].values() if isinstance(v, tuple)]
            if x[0] == 'call' and len(x) > 4 and isinstance(x[1], tuple) and x[1] and x[1][0] == 'native':
                todo += self.args.get(x[-1], ())
            todo += [y for y in x if isinstance(y, tuple)]
        return out

    def use(self, t, where, how, st=None):
        for o in self.labels(t, st):
            self.used.setdefault(o, []).append((where, how, self.phase))

    def on_call(self, ex, c, args, kwargs, st, f, node):
        if is_workable(c):
            return [(st, ('const', self.workable))]
        r = ffi._ext_getattr(ex, c, args, kwargs, st, f, node)
        if r is not None:
            return r
        sym = ffi.symbol(c)
        if sym:
            self.calls += 1
            self.args[self.calls] = tuple(args)
            self.native.setdefault(sym, []).append((tuple((a, st.copy()) for a in args), f.where(node), [g.qual for g in ex.stack] + [f.qual]))
            for a in args:
                self.use(a, f.where(node), 'native', st)
            return [(st, ('call', ('native', sym), (), (), self.calls))]
        if c[0] in ('ext', 'attr') and not self.quiet(ex) and not (c[0] == 'attr' and c[2] in ('get', 'pop')) and not (c[0] == 'ext' and c[1].startswith(('copy.', 'builtins.list', 'builtins.len'))):
            for a in args:
                self.use(a, f.where(node), 'argument', st)
        return None

    def quiet(self, ex):
        """the code that runs is the storing or checking part of the object"""
        return any('verify' in g.name or 'validate' in g.name or g.name in ('__getstate__', '__setstate__') for g in ex.stack)

    def ex(self):
        m = self

        class E(Exec):
            def getattr(self, b, name, st, f, node):
                res = super().getattr(b, name, st, f, node)
                if m.phase != 'ctor' and b[0] == 'inst' and not m.quiet(self) and isinstance(getattr(node, 'ctx', None), ast.Load):
                    for s, t in res:
                        m.use(t, f.where(node), 'read')
                return res

            def branch(self, t, x, node, f):
                if not m.quiet(self):
                    m.use(t, f.where(node), 'guard' if guard(f, node) else 'condition')
                return super().branch(t, x, node, f)

            def binop(self, op, a, b):
                t = super().binop(op, a, b)
                if not m.quiet(self):
                    m.use(t, self.stack[-1].where() if self.stack else '', 'operation')
                return t

            def assign(self, tg, t, st, f, aug=False):
                if isinstance(tg, ast.Subscript) and not m.quiet(self):
                    m.use(t, f.where(tg), 'element', st)
                return super().assign(tg, t, st, f, aug)

            def s_For(self, s, st, f):
                if not m.quiet(self):
                    for x, t, o in self.ev(s.iter, st.copy(), f):
                        m.use(t, f.where(s), 'iteration')
                return super().s_For(s, st, f)

            def merge(self, states):
                before = self.joins
                olds = [(dict(x.env), {k: dict(v) for k, v in x.heap.items()}) for x in states]
                out = super().merge(states)
                if self.joins != before:
                    for s in out:
                        for k, v in s.env.items():
                            if v[0] == 'unknown' and len(v) > 3 and v[1] == 'join' and v[2] > before:
                                m.joined[v[2]] = tuple(e[k] for e, h in olds if k in e)
                        for o, d in s.heap.items():
                            for k, v in d.items():
                                if isinstance(v, tuple) and v[0] == 'unknown' and len(v) > 3 and v[1] == 'join' and v[2] > before:
                                    m.joined[v[2]] = tuple(h[o][k] for e, h in olds if o in h and k in h[o])
                return out

            def cmp(self, op, a, b):
                if op in ('Is', 'IsNot', 'Eq', 'NotEq') and NONE in (a, b):
                    o = a if b == NONE else b
                    if o[0] == 'call' and o[1][0] == 'native':
                        return ('const', op in ('IsNot', 'NotEq'))
                return super().cmp(op, a, b)
        e = E(self.prog, inline=lambda g, st: not ffi.opaque(g) and not g.module.name.endswith('.kdtree'), on_call=self.on_call, merge_key=lambda s: 0, max_paths=4000, max_depth=10)
        self.runs += 1
        e.joins = self.runs * 1000000      # joined values are numbered once over all runs
        return e


def guard(f, node):
    """the condition only protects a raise"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.If) and any(x is node for x in ast.walk(n.test)):
            return all(isinstance(s, ast.Raise) for s in n.body)
    return False


def all_options(c, init):
    names = init.params[1:] + [x.arg for x in init.node.args.kwonlyargs]
    kws = kwarg_reads(init)
    for k in c.mro()[1:]:
        if isinstance(k, Class) and '__init__' in k.methods and init.node.args.kwarg:
            for n, d in kwarg_reads(k.methods['__init__']).items():
                kws.setdefault(n, d)
    return names, kws


def run_mode(prog, c, init, ccore):
    m = Model(prog, True)
    names, kws = all_options(c, init)
    works = [w for w in public_methods(c) if w.name in WORK]
    m.options = set(names) | set(kws)
    vals = {n: ('param', n) for n in m.options}
    if 'ccore' in vals:
        vals['ccore'] = ('const', ccore)
        m.options.discard('ccore')
    st = State()
    ex = m.ex()
    slf = ex.new(c, st)
    pos = [vals[p] for p in init.params[1:]]
    kw = {k: vals[k] for k in list(kws) + [x.arg for x in init.node.args.kwonlyargs] if k in vals}
    try:
        res = ex.call_func(init, pos, kw, st, slf, None, entry=True)
    except TooManyPaths:
        return None
    objs = [s for s, o in res if not (o and o[0] == 'raise')]
    m.built = len(objs)
    for s in objs[:4]:
        after = []
        for meth in works:
            m.phase = 'work'
            mine = {p: ('param', '%s(%s)' % (meth.name, p)) for p in meth.params[1:]}
            m.options |= {t[1] for t in mine.values()}
            kw = {k: ('param', '%s(%s)' % (meth.name, k)) for k in kwarg_reads(meth)}
            m.options |= {t[1] for t in kw.values()}
            try:
                r = m.ex().call_func(meth, list(mine.values()), kw, s.copy(), slf, None, entry=True)
            except TooManyPaths:
                continue
            after += [x for x, o in r if not (o and o[0] == 'raise')][:2]
        m.phase = 'getter'
        for x in after[:2]:
            for meth in public_methods(c):
                if meth.name not in WORK and not meth.name.startswith('_'):
                    try:
                        m.ex().run(meth, None, slf, x.copy())
                    except TooManyPaths:
                        continue
    return m


# option of a class -> why the native implementation may leave it alone
STORAGE = 'how the Python object stores its connections; the native network chooses its own storage'
EXEMPT = {
    ('nnet.pcnn.pcnn_network', 'type_conn_represent'): STORAGE, ('nnet.legion.legion_network', 'type_conn_represent'): STORAGE,
    ('nnet.sync.sync_network', 'representation'): STORAGE, ('nnet.hhn.hhn_network', 'type_conn_represent'): STORAGE, ('cluster.syncnet.syncnet', 'conn_repr'): STORAGE,
}
CONSUMED = ('native', 'condition', 'argument', 'operation', 'iteration', 'element')


def one(job):
    qual, ccore = job
    prog = program()
    c = prog.cls(qual)
    m = run_mode(prog, c, c.methods['__init__'], ccore)
    if m is None:
        return job, None
    native = []
    for sym, calls in sorted(m.native.items()):
        for args, where, stack in calls:
            row = []
            for a, st in args:
                x = a
                while isinstance(x, tuple) and x[0] == 'call' and x[1][0] == 'ext' and x[1][1].startswith('ctypes.') and len(x[2]) == 1:
                    x = x[2][0]
                row.append((sorted(m.labels(a, st)), altered(x, m.options), show(x)[:120]))
            native.append((sym, row, where, stack))
    used = {o: sorted(set((h, p, w) for w, h, p in u), key=str)[:40] for o, u in m.used.items()}
    return job, (sorted(m.options), used, native, m.built)


def altered(x, options):
    """the option whose value is changed by arithmetic before it is passed, if any"""
    def go(t):
        if t[0] == 'param':
            return t[1] if t[1] in options else None
        if t[0] == 'op' or t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in CHANGING:
            for y in (t[2:] if t[0] == 'op' else t[2]):
                r = go(y) if isinstance(y, tuple) and y else None
                if r:
                    return r
        return None
    return go(x) if isinstance(x, tuple) and x and x[0] in ('op', 'call') else None


CHANGING = ('builtins.max', 'builtins.min', 'builtins.abs', 'builtins.round', 'builtins.pow', 'math.sqrt', 'math.floor', 'math.ceil', 'numpy.sqrt', 'numpy.square', 'math.pow')


def literal(text):
    """value of a literal or (type, member) text; None when it is neither"""
    try:
        return ('value', ast.literal_eval(text))
    except (ValueError, SyntaxError):
        pass
    if re.fullmatch(r'[a-z_]\w*(\.\w+)+', text):
        return ('member', text.split('.')[-1])
    return None


def doc_default(text):
    m = re.search(r"[Bb]y default(?: is| it is| -| the| equals to| equal to)?\s*:?\s*[`(]?('[^']*'|\"[^\"]*\"|[-\w.]+)", text)
    v = literal(m.group(1).rstrip('.')) if m else None
    if v and isinstance(v[1], str) and v[0] == 'value':
        inner = literal(v[1])
        if inner and (inner[1] is None or isinstance(inner[1], (bool, int, float))):
            return inner
    return v


def run(rep, tier):
    import multiprocessing as mp
    prog = program()
    rep.rule('default', 'an option that is not given takes the default that its documentation states')
    rep.rule('read', 'a documented keyword option is read by the constructor')
    rep.rule('effect', 'the work of an object consults every option, in the Python implementation and in native mode')
    rep.rule('forward', 'a native parameter named after an option receives that option')
    rep.rule('unchanged', 'an option is passed to native code as it was given')
    rep.rule('native-kept', 'a native class keeps every parameter of its constructors')
    rep.rule('native-read', 'a native class consults every option that it keeps')
    found = targets(prog)
    jobs = [(c.qual, cc) for c, init in found for cc in ((False, True) if switch_of(c, 'ccore') else (False,))]
    rep.count('classes with a process', len(found))
    with mp.get_context('fork').Pool(min(8, mp.cpu_count())) as pool:
        results = dict(pool.map(one, jobs, chunksize=1))
    for c, init in found:
        check_docs(rep, c, init)
        for cc in ((False, True) if switch_of(c, 'ccore') else (False,)):
            r = results[(c.qual, cc)]
            if r is None:
                rep.count('classes with too many paths')
                continue
            check_effect(rep, c, init, cc, r)
    for c in prog.classes():
        if c not in [x for x, y in found] and c.module.name.startswith(SCOPE + ('pyclustering.utils',)) and not any(s in c.module.name for s in SKIP_MODULES) and c.methods.get('__init__') is not None:
            check_docs(rep, c, c.methods['__init__'])
    check_native(rep, cxx.facts())
    rep.floor('default', 20)
    rep.floor('read', 50)
    rep.floor('effect', 250)
    rep.floor('forward', 60)
    rep.floor('unchanged', 100)
    rep.floor('native-kept', 60)


def docs_of(c, init):
    d = dict(documented(ast.get_docstring(init.node) or ''))
    for k, v in documented(ast.get_docstring(c.node) or '').items():
        d.setdefault(k, v)
    return d


def check_docs(rep, c, init):
    short = c.qual.replace('pyclustering.', '')
    docs = docs_of(c, init)
    names, kws = all_options(c, init)
    for o, text in sorted(docs.items()):
        if o.startswith('*'):
            continue
        key = '%s: %s' % (short, o)
        if o in names:
            d = init.default(o)
        elif init.node.args.kwarg is not None:
            passed = any(isinstance(n, ast.keyword) and n.arg is None for n in ast.walk(init.node))
            if o not in kws and passed:
                continue
            elsewhere = any(isinstance(n, (ast.Call, ast.Subscript)) and any(isinstance(q, ast.Constant) and q.value == o for q in ((n.args if isinstance(n, ast.Call) else [n.slice]))) for m in c.methods.values() for n in ast.walk(m.node))
            if o not in kws and elsewhere:
                rep.ok('read', key, init.where())
                continue
            rep.check(o in kws, 'read', key, init.where(), 'the documented option %s is never taken out of the keyword arguments' % o)
            d = kws.get(o)
        else:
            rep.count('documented names that are no options')
            continue
        want = doc_default(text)
        if want is None or d is None:
            continue
        have = literal(ast.unparse(d))
        if have is None:
            rep.count('defaults that are no literals')
            continue
        rep.check(want == have or want[0] == have[0] == 'value' and want[1] == have[1] and type(want[1]) is not bool, 'default', key, init.where(d if hasattr(d, 'lineno') else None), 'the documentation states the default %r, the code uses %r' % (want[1], have[1]))


def check_effect(rep, c, init, cc, r):
    options, used, native, built = r
    short = c.qual.replace('pyclustering.', '')
    mode = 'native' if cc else 'Python'
    docs = docs_of(c, init)
    for w in public_methods(c):
        if w.name in WORK:
            for k, v in documented(ast.get_docstring(w.node) or '').items():
                docs['%s(%s)' % (w.name, k)] = v
    rep.count('constructor paths', built)
    # the class hands its work to native code itself, not through an object of another class
    inner = {k.name for k in c.mro()}
    own = cc and any(all(q.split('.')[-1] not in WORK or q.split('.')[-2] in inner for q in quals) for sym, row, where, quals in native)
    for o in options:
        if o not in docs and o not in init.params and '(' not in o:
            rep.count('undocumented keyword options')
            continue
        text = docs.get(o, '').lower()
        if 'not used' in text or '(ignored' in text or cc and 'ignored in case of usage of ccore' in text:
            rep.count('options documented as ignored')
            continue
        if cc and (short, o) in EXEMPT:
            continue
        u = [(h, p, w) for h, p, w in used.get(o, []) if p in ('ctor', 'work')]
        good = [x for x in u if x[0] in CONSUMED or x[0] == 'guard' and '(' in o or x[0] == 'read' and not own]
        key = '%s, %s implementation: %s' % (short, mode, o)
        rep.check(bool(good), 'effect', key, init.where(), 'no code of the %s implementation consults the option %s' % (mode, o))
    if not cc:
        return
    F = cxx.facts()
    protos = {f['n']: f for f in F.exported()} if not isinstance(F.exported(), dict) else F.exported()
    forward = {}
    for sym, row, where, quals in native:
        f = protos.get(sym)
        if f is None or sym == 'free_pyclustering_package':
            continue
        stack = [q.split('.')[-1] for q in quals]
        ps = [p['n'] for p in f['params']]
        for i, (lab, alt, text) in enumerate(row):
            if lab and alt:
                rep.bad('unchanged', '%s: %s -> %s' % (short, alt, sym), where, 'the option %s is passed as %s' % (alt, text))
            elif lab:
                rep.ok('unchanged', '%s: %s -> %s' % (short, ', '.join(lab)[:80], sym), where)
            if i >= len(ps):
                continue
            mine = [o for o in options if p03.words(bare(o)) and p03.words(bare(o)) == p03.words(ps[i]) and ('(' not in o or o.split('(')[0] in stack)]
            if mine:
                forward.setdefault((mine[0], sym, ps[i]), []).append((any(o in lab for o in mine), where, text, mine))
    for (o, sym, par), calls in sorted(forward.items()):
        const = all(re.fullmatch(r'-?[\w.]+', t) for k, w, t, m in calls) and any(h == 'condition' for m in calls[0][3] for h, p, w in used.get(m, []))
        rep.check(any(k for k, w, t, m in calls) or const, 'forward', '%s: %s -> %s' % (short, o, sym), calls[0][1], 'the native parameter %s receives %s, never the option %s' % (par, calls[0][2], o))


def bare(o):
    return o.split('(')[1].rstrip(')') if '(' in o else o


NATIVE_SCOPE = ('pyclustering::clst', 'pyclustering::nnet', 'pyclustering::gcolor', 'pyclustering::tsp')
NATIVE_WORK = {'process', 'simulate', 'initialize', 'simulate_static', 'simulate_dynamic', 'train', 'estimate', 'perform_calculation'}


def plain(q):
    while q and '<' in q:
        t = re.sub(r'<[^<>]*>', '', q)
        if t == q:
            break
        q = t
    return q


def check_native(rep, F):
    by = {}
    for f in F.functions:
        if f.get('cls') and f.get('body'):
            by.setdefault(f['cls'], []).append(f)
    users = {}
    for f in F.functions:
        if f.get('dk') in ('CXXConstructor', 'CXXDestructor') or f['n'].startswith('operator='):
            continue
        for n in cxx.fwalk(f):
            if n['k'] == 'MemberExpr' and n.get('dk') == 'Field':
                users.setdefault(plain(n.get('r')), set()).add(f['q'])
    for c, fs in sorted(by.items()):
        if not c.startswith(NATIVE_SCOPE) or not any(f['n'] in NATIVE_WORK for f in fs):
            continue
        rep.count('native classes')
        for f in fs:
            if f.get('dk') != 'CXXConstructor' or f.get('ctor') != 'plain':
                continue
            for p in f['params']:
                where = '%s:%d' % (f['file'], f['l'])
                key = '%s(%s): %s' % (c.replace('pyclustering::', ''), ', '.join(q['n'] for q in f['params']), p['n'])
                at = [i for i in f.get('inits', []) if any(n['k'] == 'DeclRefExpr' and n.get('id') == p['id'] for n in cxx.walk(i))]
                inside = f.get('body') and any(n['k'] == 'DeclRefExpr' and n.get('id') == p['id'] for n in cxx.walk(f['body']))
                rep.check(bool(at or inside), 'native-kept', key, where, 'the constructor of %s ignores its parameter %s' % (c, p['n']))
                kept = [plain('%s::%s' % (c, i['n'])) for i in at if i.get('n')]
                if f.get('body'):
                    for n in cxx.walk(f['body']):
                        if n['k'] in ('BinaryOperator', 'CXXOperatorCallExpr') and n.get('op') in ('=', None) and any(x['k'] == 'DeclRefExpr' and x.get('id') == p['id'] for x in cxx.walk(n)):
                            kept += [plain(x['r']) for x in cxx.walk(n) if x['k'] == 'MemberExpr' and x.get('dk') == 'Field' and x.get('r')][:1]
                for k in kept:
                    rep.check(k in users, 'native-read', k.replace('pyclustering::', ''), where, 'no method consults %s, which keeps the option %s' % (k, p['n']))
