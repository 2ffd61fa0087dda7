"""P05: without the native library, or with the native switch off, no native function is called and every getter works."""

import ast

from .. import ffi
from ..objects import construct, is_workable, public_methods, switch_of
from ..pexec import NONE, Exec, State, TooManyPaths, mentions, show, subterms
from ..pymodel import Class, Func, program

SWITCH = 'ccore'
FALSE, TRUE = ('const', False), ('const', True)


class Model:
    """one setting of the switch and of the library"""

    def __init__(self, prog, rep, workable, flag, name):
        self.prog, self.rep, self.workable, self.flag, self.name = prog, rep, workable, flag, name
        self.native = {}          # construct -> (where, message)
        self.calls = 0
        self.missing = {}
        self.entry = None
        self.options, self.labels = set(), {}      # options of the entry; native call -> options of the entry among its scalar arguments
        self.watch = None
        self.getter = False
        self.stmts = {}

    def on_call(self, ex, c, args, kwargs, st, f, node):
        if is_workable(c):
            return [(st, ('const', self.workable))]
        r = ffi._ext_getattr(ex, c, args, kwargs, st, f, node)
        if r is not None:
            return r
        sym = ffi.symbol(c)
        if sym:
            self.calls += 1
            stack = [g for g in ex.stack if not g.module.name.startswith('pyclustering.core')]
            top = stack[-1] if stack else f
            lab = set()
            for a in args:
                for x in (filter(None, subterms(a)) if a[0] == 'call' and (ffi.ctype_of(a[1]) in ffi.CT or a[1][0] == 'native') else ()):
                    if x[0] == 'param' and isinstance(x[1], str) and x[1] in self.options:
                        lab.add(x[1])
                    elif x[0] == 'call' and len(x) > 4 and isinstance(x[1], tuple) and x[1][0] == 'native':
                        lab |= self.labels.get(x[-1], set())
            self.labels[self.calls] = lab
            self.native.setdefault((self.entry, top.qual + ('(%s)' % ', '.join(sorted(lab)) if lab else ''), sym), (f.where(node), [g.qual.replace('pyclustering.', '') for g in ex.stack] + [f.qual.replace('pyclustering.', '')]))
            return [(st, ('call', ('native', sym), (), (), self.calls))]
        return None

    def ex(self):
        m = self

        class E(Exec):
            def getattr(self, b, name, st, f, node):
                res = super().getattr(b, name, st, f, node)
                if b[0] == 'inst' and not b[2].ext_base():
                    nm = self.mangle(name, f)
                    for s, t in res:
                        if m.getter and t == ('attr', b, nm) and isinstance(getattr(node, 'ctx', None), ast.Load):
                            m.missing.setdefault((b[2].name, nm), (f.where(node), f.qual, [g.qual for g in self.stack]))
                return res
            def stmt(self, s, st, f):
                if m.watch is not None and f.params:
                    if st.env.get(f.params[0]) == m.watch:
                        m.stmts[id(s)] = (s, f)
                return super().stmt(s, st, f)

            def cmp(self, op, a, b):
                if op in ('Is', 'IsNot', 'Eq', 'NotEq') and NONE in (a, b):
                    o = a if b == NONE else b
                    if o[0] == 'call' and o[1][0] == 'native':
                        return ('const', op in ('IsNot', 'NotEq'))
                return super().cmp(op, a, b)
        return E(self.prog, inline=lambda g, st: not ffi.opaque(g), on_call=self.on_call, merge_key=lambda s: 0, max_paths=4000, max_depth=10)


MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'sort', 'pop', 'remove', 'clear', 'fill', 'setdefault', 'reverse', 'discard'}


def own_writes(stmts):
    """attributes of self that the executed statements assign or change in place"""
    out = set()
    for s, f in stmts:
        if isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With, ast.FunctionDef)):
            continue
        me = f.params[0]

        def attr(e):
            while isinstance(e, (ast.Subscript, ast.Starred)):
                e = e.value
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me:
                return f.cls.mangle(e.attr) if f.cls else e.attr
            return None
        for n in ast.walk(s):
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tg = [n.target]
            for t in tg:
                for e in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if attr(e):
                        out.add(attr(e))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and attr(n.func.value):
                out.add(attr(n.func.value))
            if isinstance(n, ast.Call):          # handed to something that may fill it
                for e in n.args + [k.value for k in n.keywords]:
                    if isinstance(e, ast.Attribute) and attr(e):
                        out.add('?' + attr(e))
    return out


def own_reads(stmts):
    """attributes of self that executed statements read without assigning them"""
    rd, wr = set(), set()
    for s, f in stmts:
        me = f.params[0]
        heads = [s]
        if isinstance(s, (ast.If, ast.While)):
            heads = [s.test]
        elif isinstance(s, ast.For):
            heads = [s.iter]
        elif isinstance(s, (ast.Try, ast.With, ast.FunctionDef)):
            heads = []
        for h in heads:
            for n in ast.walk(h):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                    nm = f.cls.mangle(n.attr) if f.cls else n.attr
                    (rd if isinstance(n.ctx, ast.Load) else wr).add(nm)
    return rd - wr


def is_getter(m):
    """properties and public methods without required arguments"""
    if m.name in WORK or m.name.startswith('_'):
        return False
    if m.prop == 'get':
        return True
    return all(m.default(p) is not None for p in m.params[1:]) and not m.name.startswith('show')


WORK = ('process', 'train', 'simulate', 'simulate_static', 'simulate_dynamic', 'initialize', 'segment')


def run_class(rep, prog, c, way, models):
    written, read = {}, {}
    for m in models:
        m.entry = c.qual.replace('pyclustering.', '')
        m.options = set(c.find('__init__').params)
        ex = m.ex()
        try:
            objs = construct(ex, c, {SWITCH: m.flag})
        except TooManyPaths:
            rep.count('entries with too many paths')
            continue
        rep.count('constructor paths', len(objs))
        for s, o in objs[:2]:
            after = [(s, o, None)]
            for meth in public_methods(c, special=True):
                if meth.name == '__setstate__' and m.flag == FALSE:        # the state of another object, with its own switch
                    continue
                m.watch, m.stmts, m.getter = o, {}, meth.name in WORK or is_getter(meth)
                try:
                    res = m.ex().run(meth, None, o, s.copy())
                except TooManyPaths:
                    rep.count('methods with too many paths')
                    continue
                finally:
                    m.watch = None
                    m.getter = False
                rep.count('method paths', len(res))
                for s2, oc in res[:3]:
                    if oc and oc[0] == 'raise':
                        continue
                    if meth.name in WORK:
                        after.append((s2, o, meth))
                        written.setdefault((meth.name, m.name), set()).update(own_writes(m.stmts.values()))
            for s2, o2, by in after[1:]:
                for meth in public_methods(c):
                    if meth.name in WORK:
                        continue
                    m.watch, m.stmts, m.getter = o2, {}, is_getter(meth)
                    try:
                        res = m.ex().run(meth, None, o2, s2.copy())
                    except TooManyPaths:
                        continue
                    finally:
                        m.watch = None
                        m.getter = False
                    read.setdefault((by.name, meth.name, m.name), (meth, set()))[1].update(own_reads(m.stmts.values()))
                    rep.count('method paths', len(res))
    return written, read


def boolean(c):
    """the option is a switch (a default of None marks a handle)"""
    init = c.find('__init__')
    d = init.default(SWITCH) if init is not None else None
    return init is not None and (SWITCH not in init.params or isinstance(d, ast.Constant) and isinstance(d.value, bool))


def run(rep, tier):
    prog = program()
    rep.rule('switch', 'with the native switch off nothing that the object does calls a native function')
    rep.rule('library', 'without a workable native library nothing that the object does calls a native function')
    rep.rule('attribute', 'every attribute that a public method reads is set in every setting of the switch')
    rep.rule('result', 'a result that a getter reports is set by the native and by the Python implementation')
    entries = [(c, switch_of(c, SWITCH)) for c in prog.classes() if boolean(c) and not c.module.name.startswith('pyclustering.core') and switch_of(c, SWITCH)]
    funcs = [(f, switch_of(f, SWITCH)) for f in prog.functions() if f.name != '__init__' and not f.module.name.startswith('pyclustering.core') and switch_of(f, SWITCH) and f.parent is None]
    rep.count('classes with a native switch', len(entries))
    rep.count('functions with a native switch', len(funcs))
    for c, way in entries:
        models = [Model(prog, rep, True, FALSE, 'switch off'), Model(prog, rep, False, TRUE, 'no library'), Model(prog, rep, True, TRUE, 'native')]
        written, read = run_class(rep, prog, c, way, models)
        short = c.qual.replace('pyclustering.', '')
        for m, rule, what in ((models[0], 'switch', 'although the native switch is off'), (models[1], 'library', 'although the native library is not workable')):
            for (entry, top, sym), (where, path) in sorted(m.native.items()):
                rep.bad(rule, '%s: %s' % (short, top.replace('pyclustering.', '')), where, 'native %s is called %s, through %s' % (sym, what, ' -> '.join(path)))
            if not m.native:
                rep.ok(rule, short, c.find('__init__').where())
        if models[2].native:
            rep.count('classes with a native implementation')
        miss = {}
        for m in models:
            for (cn, nm), (where, fq, stack) in m.missing.items():
                miss.setdefault((cn, nm, fq), (where, []))[1].append(m.name)
        for (cn, nm, fq), (where, names) in sorted(miss.items()):
            rep.bad('attribute', '%s: %s.%s' % (short, cn, nm), where, '%s reads the attribute %s of %s, which no statement executed before has set (%s)' % (fq, nm, cn, ', '.join(sorted(set(names)))))
        if not miss:
            rep.ok('attribute', short, c.find('__init__').where())
        for (w, g, mode), (gf, r) in sorted(read.items(), key=lambda kv: kv[0]):
            other = {'switch off': 'native', 'native': 'switch off'}.get(mode)
            p, n = written.get((w, mode)), written.get((w, other))
            if other is None or p is None or n is None or not models[2].native or not is_getter(gf):
                continue
            lost = sorted(x for x in r & (n - p) if '?' + x not in p)
            k = '%s.%s after %s, %s implementation' % (short, g, w, 'Python' if mode == 'switch off' else 'native')
            if lost:
                rep.bad('result', k + ': ' + ', '.join(lost), gf.where(), '%s reads %s, which %s sets only in the %s implementation' % (g, ', '.join(lost), w, 'native' if mode == 'switch off' else 'Python'))
            else:
                rep.ok('result', k, gf.where())
    for f, way in funcs:
        for m, rule, what in ((Model(prog, rep, True, FALSE, 'switch off'), 'switch', 'although the native switch is off'), (Model(prog, rep, False, TRUE, 'no library'), 'library', 'although the native library is not workable')):
            m.entry = f.qual
            ex = m.ex()
            st = State()
            names = f.params[1:] if f.cls is not None and not f.static else f.params
            pos = [m.flag if p == SWITCH else ('param', p) for p in names]
            slf = ('param', 'self') if f.cls is not None and not f.static else None
            try:
                res = ex.call_func(f, pos, {SWITCH: m.flag} if way == 'kw' else {}, st, slf, None, entry=True)
            except TooManyPaths:
                rep.count('entries with too many paths')
                continue
            rep.count('function paths', len(res))
            for (entry, top, sym), (where, path) in sorted(m.native.items()):
                rep.bad(rule, '%s: %s' % (f.qual.replace('pyclustering.', ''), top.replace('pyclustering.', '')), where, 'native %s is called %s, through %s' % (sym, what, ' -> '.join(path)))
            if not m.native:
                rep.ok(rule, f.qual.replace('pyclustering.', ''), f.where())
    rep.floor('switch', 15)
    rep.floor('library', 15)
    rep.floor('attribute', 15)
    rep.floor('result', 20)
