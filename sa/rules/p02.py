"""P02: native packages and handles are released exactly once; what native code points at stays alive."""

import ast
import re

from .. import cxx, ffi
from ..pexec import NONE, Exec, State, TooManyPaths, mentions, show, subterms
from ..pymodel import Class, Func, Module, program

CORE = 'pyclustering.core'


def core_ref(prog, f):
    """does the function name something of the core package?"""
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Name, ast.Attribute)):
            r = prog.resolve_expr(f.module, n)
            if isinstance(r, (Func, Class)) and r.module.name.startswith(CORE) and not r.module.name.endswith('core.wrapper'):
                return True
    return False


def deletes(f):
    """C++ types that an exported destroy function deletes"""
    out = []
    for n in cxx.fwalk(f):
        if n['k'] == 'CXXDeleteExpr':
            out.append(re.sub(r'^const ', '', cxx.ch(n)[0].get('t', '')).rstrip(' *'))
    return out


def creates(facts, f):
    """C++ types of the objects a creating function can return"""
    out = set()
    for n in cxx.fwalk(f):
        if n['k'] == 'CXXNewExpr' and not n.get('arr') and 'pyclustering_package' not in n.get('nt', ''):
            out.add(n['nt'])
        if n['k'] == 'CallExpr' and n.get('mine') and n.get('t') == 'void *':
            for g in facts.defs(n.get('r', '')):
                if g is not f:
                    out |= creates(facts, g)
    return out


def bases(facts, t, seen=None):
    """the class and the bases that lie at its start"""
    out = [t]
    r = facts.records.get(t)
    if r and r.get('bases'):
        out += bases(facts, r['bases'][0])
    return out


def handle_use(facts, f, index, depth=0):
    """types an exported function casts its void* parameter to"""
    if depth > 4 or index >= len(f['params']):
        return set()
    ids = {f['params'][index]['id']}
    out = set()
    for _ in range(2):
        for n in cxx.fwalk(f):
            if n['k'] == 'Var' and cxx.ch(n) and cxx.ch(n)[0] and n['t'].replace('const ', '').startswith('void *'):
                if any(x['k'] == 'DeclRefExpr' and x.get('id') in ids for x in cxx.walk(cxx.ch(n)[0])):
                    ids.add(n['id'])
    for n in cxx.fwalk(f):
        if n['k'] in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr') and cxx.ch(n) and cxx.ch(n)[0]:
            x = cxx.ch(n)[0]
            while x and x['k'] in ('CStyleCastExpr', 'CXXConstCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr') and cxx.ch(x):
                x = cxx.ch(x)[0]
            if x and x['k'] == 'DeclRefExpr' and x.get('id') in ids:
                t = re.sub(r'\bconst\b', '', n.get('ct', '')).strip()
                if t.endswith('*') and not t.startswith('void'):
                    out.add(t.rstrip('* ').strip())
        if n['k'] == 'CallExpr' and n.get('mine'):
            for i, a in enumerate(cxx.ch(n)[1:] if cxx.ch(n) and cxx.ch(n)[0] and cxx.ch(n)[0].get('dk') == 'Function' else cxx.ch(n)):
                if a and a['k'] == 'DeclRefExpr' and a.get('id') in ids:
                    for g in facts.defs(n.get('r', '')):
                        if g is not f:
                            out |= handle_use(facts, g, i, depth + 1)
    return out


def is_handle(t):
    return isinstance(t, tuple) and t and t[0] == 'handle'


def on_cond(t, st):
    if is_handle(t):
        return True
    if t[0] == 'cmp' and NONE in (t[2], t[3]):
        o = t[3] if t[2] == NONE else t[2]
        if is_handle(o):
            return t[1] in ('IsNot', 'NotEq')
    return None


class Life:
    """executes paths with native creators returning fresh ('handle', creator, id) terms"""

    def __init__(self, prog, facts, exported):
        self.prog, self.facts, self.ex = prog, facts, exported
        self.workable = True
        self.creators = {n for n, f in exported.items() if f['ret'] == 'void *' and f.get('body') and creates(facts, f)}
        self.destroyers = {n: deletes(f) for n, f in exported.items() if f.get('body') and deletes(f) and n != 'free_pyclustering_package'
                           and any(p['t'].replace('const ', '').startswith('void *') for p in f['params'])}

    def on_call(self, ex, c, args, kwargs, st, f, node):
        r = ffi._ext_getattr(ex, c, args, kwargs, st, f, node)
        if r is not None:
            return r
        if c[0] == 'func' and c[1].name == 'workable' and c[1].cls is not None and c[1].cls.name == 'ccore_library':
            return [(st, ('const', self.workable))]
        s = ffi.symbol(c)
        if s in self.creators:
            st.next += 1
            t = ('handle', s, st.next)
            from ..pexec import Ev
            st.emit(Ev('call', ('call', c, tuple(args), (), (getattr(node, 'lineno', 0), 0)), node, f))
            st.emit(Ev('create', t, node, f))
            return [(st, t)]
        return None

    def key(self, st):
        evs = []
        for ev in st.events():
            if ev.kind == 'create':
                evs.append(('c', ev.a))
            elif ev.kind == 'call' and ffi.symbol(ev.a[1]) in self.destroyers:
                evs.append(('d', ev.a[2]))
        heap = tuple(sorted((str(o), str(k), str(v) if is_handle(v) else 'None') for o, fl in st.heap.items() for k, v in fl.items() if is_handle(v) or v == NONE))
        env = tuple(sorted((k, str(v)) for k, v in st.env.items() if is_handle(v)))
        return (tuple(evs), heap, env)

    def exec(self, cls=None, own=None):
        def inline(g, st):
            if ffi.opaque(g):
                return False
            if g.module.name.startswith(CORE):
                return True
            if own is not None and g.cls is not None and g.cls in own:
                return True
            return False
        return Exec(self.prog, inline=inline, on_call=self.on_call, max_paths=4000, on_cond=on_cond, merge_key=self.key)


def release_names(prog):
    """names of helpers of the package module that free the package they were built on"""
    out = set()
    m = prog.modules.get(CORE + '.pyclustering_package')
    if m:
        funcs = list(m.functions.values()) + [x for c in prog.all_classes(m) for x in c.methods.values()]
        for f in funcs:
            if any(isinstance(n, ast.Attribute) and n.attr == 'free_pyclustering_package' for n in ast.walk(f.node)):
                out.add(f.qual)
    return out


def run(rep, tier):
    prog, facts = program(), cxx.facts()
    exported = facts.exported()
    rep.rule('package', 'a package returned by a native call is freed exactly once on every normal path and not touched afterwards')
    rep.rule('handle-path', 'a native object created on a path is destroyed once, kept by an owner, or handed to the caller')
    rep.rule('handle-owner', 'after construction, the destructor of the owner destroys every native object it keeps exactly once, and nothing else')
    rep.rule('handle-type', 'the function that receives a native object treats it as the type it was created with (or its leading base)')
    rep.rule('handle-overwrite', 'an attribute that keeps a native object is overwritten only after the object was destroyed')
    rep.rule('callback', 'a callback that native code keeps is stored with the owner of the native object')
    rep.rule('pointer-lifetime', 'the owner of a native object outlives the calls that use its pointer')
    rep.rule('destructor', 'every element type of a package is deleted with the type it was allocated with')
    rep.assumptions += ['A native call that raises in Python (missing symbol) leaves the process without the object.',
                        'Objects are not copied with copy.copy while they own native objects (no such call in the package).']

    # ---- packages ------------------------------------------------------
    rel = release_names(prog)
    tr, failed = ffi.traces()
    rep.count('paths', len(tr))
    for f in failed:
        rep.bad('package', f.qual, f.where(), 'too many paths to decide')
    for t in tr:
        held = {}
        for ev in t.events:
            if ev.kind != 'call':
                if ev.kind in ('setattr', 'setsub'):
                    for term, h in held.items():
                        if ev.a[2] == term:
                            h[2] = ev
                continue
            s = ffi.symbol(ev.a[1])
            term = ev.a
            args = list(term[2]) + [v for _, v in term[3]]
            if s == 'free_pyclustering_package' or _releases(term, rel, t.state):
                target = args[0] if s else _releases(term, rel, t.state)
                if target in held:
                    held[target][0] += 1
                    continue
                rep.bad('package', '%s frees an unknown package' % ev.func.qual, ev.func.where(ev.node), 'free of %s, which no native call on this path returned' % show(target)[:80])
                continue
            for k, h in held.items():
                if h[0] and (k in args or mentions(term, lambda q, k=k: q == k)):
                    rep.bad('package', '%s uses %s after free' % (ev.func.qual, ffi.symbol(k[1])), ev.func.where(ev.node), 'the package of %s is used after it was freed' % ffi.symbol(k[1]))
            if s and s in exported and 'pyclustering_package' in exported[s]['ret'] and '*' in exported[s]['ret']:
                held[term] = [0, ev, None]
        if t.outcome[0] == 'raise':
            continue
        for term, (n, ev, kept) in held.items():
            key = '%s:%s' % (t.entry.qual, ffi.symbol(term[1]))
            null = any((c == ('cmp', 'Is', term, NONE) and b) or (c == term and not b) or (c == ('cmp', 'IsNot', term, NONE) and not b) or (c == ('op', 'Not', term) and b)
                       for c, b in t.state.cond_list())
            if null:
                continue
            if n == 1:
                rep.ok('package', key, ev.func.where(ev.node))
            else:
                rep.bad('package', key, ev.func.where(ev.node), 'the package returned by %s is freed %d times on a path through %s' % (ffi.symbol(term[1]), n, t.entry.qual))
    rep.floor('package', 30)

    # ---- handles: paths --------------------------------------------------
    life = Life(prog, facts, exported)
    rep.count('native creators', len(life.creators))
    rep.count('native destroyers', len(life.destroyers))
    # (the library is workable: without it no native object exists; p05 covers that side)
    users = [f for f in prog.functions() if not f.module.name.startswith(CORE) and core_ref(prog, f)]
    users += [f for f in prog.functions() if f.module.name.startswith(CORE) and not ffi.opaque(f) and not f.module.name.endswith('core.wrapper')]
    owned = {}          # (class, attr) -> {creator: (func, node)}
    ctor = {}           # class -> list of (position or keyword, creator, func)
    for f in users:
        in_core = f.module.name.startswith(CORE)
        own = set(f.cls.mro()) if f.cls is not None else None
        try:
            res = life.exec(own=own).run(f)
        except TooManyPaths:
            rep.bad('handle-path', f.qual, f.where(), 'too many paths to decide')
            continue
        rep.count('functions', 1)
        for st, out in res:
            fate, dead = {}, {}
            for ev in st.events():
                if ev.kind == 'create':
                    fate[ev.a] = [ev, 0, False]
                elif ev.kind == 'setattr' and is_handle(ev.a[2]):
                    if ev.a[0] == ('param', 'self') and _scratch(f, ev.a[1]):
                        continue
                    fate[ev.a[2]][2] = True
                    b = ev.a[0]
                    cls = f.cls if b[0] == 'param' else b[2] if b[0] == 'inst' else None
                    if cls is not None:
                        owned.setdefault((cls, ev.a[1]), {}).setdefault(ev.a[2][1], (ev.func, ev.node))
                elif ev.kind == 'new':
                    for i, a in list(enumerate(ev.a[1])) + list(ev.a[2]):
                        if is_handle(a):
                            fate[a][2] = True
                            ctor.setdefault(ev.a[0][2], {}).setdefault((i, a[1]), ev.func.where(ev.node))
                elif ev.kind == 'call':
                    s = ffi.symbol(ev.a[1])
                    for i, a in enumerate(ev.a[2]):
                        if is_handle(a):
                            if a in fate and fate[a][1]:
                                rep.bad('handle-path', '%s uses a destroyed %s' % (f.qual, a[1]), ev.func.where(ev.node), 'the object created by %s is used after it was destroyed' % a[1])
                            if s in life.destroyers:
                                fate[a][1] += 1
                            if s:
                                _types(rep, facts, exported, a[1], s, i, ev)
            if out[0] == 'raise':
                continue
            returned = [x for x in subterms(out[1]) if is_handle(x)] if out[0] == 'return' and isinstance(out[1], tuple) else []
            for h, (ev, n, kept) in fate.items():
                key = '%s:%s' % (f.qual, h[1])
                where = ev.func.where(ev.node)
                if n > 1:
                    rep.bad('handle-path', key, where, 'the object created by %s is destroyed %d times' % (h[1], n))
                elif n == 1 and kept:
                    rep.bad('handle-path', key, where, 'the object created by %s is destroyed while its owner keeps the pointer' % h[1])
                elif n == 1 or kept or (h in returned):
                    rep.ok('handle-path', key, where)
                else:
                    rep.bad('handle-path', key, where, 'the object created by %s is neither destroyed, kept nor returned on a path through %s' % (h[1], f.qual))
    rep.floor('handle-path', 25)

    # ---- handles: owners ---------------------------------------------------
    owners = {c for c, _ in owned} | set(ctor)
    todo = set()
    lifeattrs = {}
    for c in owners:
        todo |= {k for k in prog.classes() if c in k.mro()}
    for cls in sorted(todo, key=lambda c: c.qual):
        init, dele = cls.find('__init__'), cls.find('__del__')
        if init is None:
            continue
        variants = [None] + sorted(ctor.get(cls, {}), key=str)
        for var in variants:
            key = cls.qual + ('' if var is None else ' given ' + var[1])
            ex = life.exec(own=set(cls.mro()))
            st = State()
            slf = ex.new(cls, st)
            args = None
            if var is not None:
                pos, creator = var
                st.next += 1
                h = ('handle', creator, st.next)
                names = init.params[1:]
                at = names[pos] if isinstance(pos, int) and pos < len(names) else pos
                args = [h if n == at else ('param', n) for n in names]
                if h not in args:
                    rep.bad('handle-owner', key, init.where(), 'the constructor takes no argument for the native object')
                    continue
            try:
                paths = ex.run(init, args, slf, st)
            except TooManyPaths:
                rep.bad('handle-owner', key, init.where(), 'too many paths to decide')
                continue
            rep.count('constructor paths', len(paths))
            some = False
            for s, o in paths:
                if o[0] == 'raise':
                    continue
                made = [ev.a for ev in s.events() if ev.kind == 'create'] + ([h] if var is not None else [])
                if var is not None:
                    some = True
                for a, v in s.heap.get(slf[1], {}).items():
                    if is_handle(v):
                        lifeattrs.setdefault((cls, a), {})[v[1]] = (init, init.node)
                if dele is None:
                    ends = [(s, None)]
                else:
                    ends = life.exec(own=set(cls.mro())).run(dele, [], slf, s)
                for e, eo in ends:
                    destroyed = {}
                    for i, ev in enumerate(e.events()):
                        if ev.kind == 'call' and ffi.symbol(ev.a[1]) in life.destroyers and ev.a[2]:
                            destroyed.setdefault(ev.a[2][0], []).append(ev)
                            if is_handle(ev.a[2][0]):
                                _types(rep, facts, exported, ev.a[2][0][1], ffi.symbol(ev.a[1]), 0, ev)
                    for hh in made:
                        if hh in destroyed:
                            some = True
                        n = len(destroyed.get(hh, []))
                        ok = n == 1
                        rep_key = '%s:%s' % (key, hh[1])
                        if ok:
                            rep.ok('handle-owner', rep_key, (dele or init).where())
                        else:
                            rep.bad('handle-owner', rep_key, (dele or init).where(), 'an instance of %s leaves the object created by %s destroyed %d times when it goes away' % (cls.qual, hh[1], n))
                    for d in destroyed:
                        if d == NONE:
                            rep.bad('handle-owner', key + ':none', dele.where(), 'the destructor destroys an object that was never created')
                if not made and dele is not None:
                    rep.ok('handle-owner', key + ':no native object', dele.where())
    rep.floor('handle-owner', 20)

    # ---- handles: overwriting and use in methods --------------------------------
    attrs = lifeattrs
    for cls in sorted({c for c, _ in attrs}, key=lambda c: c.qual):
        mine = {a: v for (c, a), v in attrs.items() if c is cls}
        allm = {}
        for k in reversed(cls.mro()):
            allm.update(k.methods)
        setup = {'__init__', '__setstate__'}
        while True:
            more = set()
            for name in allm:
                if name in setup or not name.startswith('_') or name == '__del__':
                    continue
                callers = {o for o, g in allm.items() for n in ast.walk(g.node) if isinstance(n, ast.Attribute) and g.cls.mangle(n.attr) == name}
                if callers and callers <= setup:
                    more.add(name)
            if not more:
                break
            setup |= more
        for name, f in sorted(allm.items()):
            if name in setup:
                continue
            writes = any(isinstance(n, ast.Attribute) and cls.mangle(n.attr) in mine for n in ast.walk(f.node)) or any(
                isinstance(n, ast.Attribute) and k.mangle(n.attr) in mine for k in cls.mro() for n in ast.walk(f.node))
            if not writes:
                continue
            for a, cr in mine.items():
                for creator in cr:
                    ex = life.exec(own=set(cls.mro()))
                    st = State()
                    slf = ex.new(cls, st)
                    h = ('handle', creator, 9999)
                    st.heap[slf[1]][a] = h
                    for b in mine:
                        st.heap[slf[1]].setdefault(b, NONE)
                    try:
                        res = ex.run(f, None, slf, st)
                    except TooManyPaths:
                        continue
                    rep.count('method paths', len(res))
                    bad = None
                    for s, o in res:
                        dead = False
                        for ev in s.events():
                            if ev.kind == 'call':
                                sym = ffi.symbol(ev.a[1])
                                for i, x in enumerate(ev.a[2]):
                                    if x == h:
                                        if dead:
                                            bad = (ev, 'uses the object after it was destroyed')
                                        if sym in life.destroyers:
                                            dead = True
                                        if sym:
                                            _types(rep, facts, exported, creator, sym, i, ev)
                            elif ev.kind == 'setattr' and ev.a[0] == slf and ev.a[1] == a and not dead and ev.a[2] != h:
                                bad = (ev, 'overwrites the attribute without destroying the object it keeps')
                        if o[0] != 'raise' and dead and name != '__del__' and s.heap[slf[1]].get(a) == h:
                            bad = (s.events()[-1], 'destroys the object but keeps its pointer')
                    key = '%s.%s:%s' % (cls.qual, name, creator)
                    if bad:
                        rep.bad('handle-overwrite', key, f.where(bad[0].node), '%s.%s %s (created by %s)' % (cls.qual, name, bad[1], creator))
                    else:
                        rep.ok('handle-overwrite', key, f.where())
    rep.floor('handle-overwrite', 40)
    rep.floor('handle-type', 40)

    # ---- callbacks ---------------------------------------------------------------
    for t in tr:
        stored = [ev.a[2] for ev in t.events if ev.kind == 'setattr']
        for ev in t.events:
            if ev.kind != 'call':
                continue
            s = ffi.symbol(ev.a[1])
            if s not in life.creators:
                continue
            for a in ev.a[2]:
                k = ffi.classify_arg(a, t.state, prog)[0]
                if k == 'callback':
                    key = '%s:%s' % (ev.func.qual, s)
                    rep.check(any(x == a for x in stored), 'callback', key, ev.func.where(ev.node),
                              'the callback given to %s is a temporary: it is collected while the native object still calls it' % s)
                elif a[0] == 'attr' or a[0] == 'param':
                    pass
    # a prototype parameter of function type must be seen as a callback object at least once
    for n, f in exported.items():
        if n in life.creators and any('(*)' in p['t'] for p in f['params']):
            hit = [k for k in rep.obligations.get('callback', {}) if k.endswith(':' + n)]
            if not hit:
                # stored object passed by attribute: find the classification through the attribute
                got = _callback_by_attr(prog, tr, n)
                for where, ok, key in got:
                    rep.check(ok, 'callback', key + ':' + n, where, 'the function given to %s is not a callback object kept by the owner' % n)
    rep.floor('callback', 1)

    # ---- the owner outlives its pointer --------------------------------------------
    accessors = {}
    for (c, a) in owned:
        for name, m in c.methods.items():
            if name.startswith('__'):
                continue
            if any(isinstance(n, ast.Return) and isinstance(n.value, ast.Attribute) and c.mangle(n.value.attr) == a for n in ast.walk(m.node)):
                accessors[name] = c
    for f in prog.functions():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in accessors and not n.args:
                recv = n.func.value
                key = '%s:%s' % (f.qual, n.func.attr)
                if isinstance(recv, ast.Call):
                    rep.bad('pointer-lifetime', key, f.where(n), 'the pointer is taken from a temporary %s, which is destroyed before the pointer is used' % accessors[n.func.attr].name)
                    continue
                returned = any(isinstance(r, ast.Return) and r.value is not None and (r.value is n or (isinstance(r.value, (ast.Tuple, ast.List)) and n in r.value.elts)) for r in ast.walk(f.node))
                names = {t.id for s in ast.walk(f.node) if isinstance(s, ast.Assign) and s.value is n for t in s.targets if isinstance(t, ast.Name)}
                returned = returned or any(isinstance(r, ast.Return) and isinstance(r.value, ast.Name) and r.value.id in names for r in ast.walk(f.node))
                kept_attr = any(isinstance(s, ast.Assign) and s.value is n and any(isinstance(t, ast.Attribute) for t in s.targets) for s in ast.walk(f.node))
                if (returned or kept_attr) and isinstance(recv, ast.Name) and recv.id not in f.params:
                    # the local owner itself must escape the same way
                    esc = any(isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and s.value.id == recv.id and any(isinstance(t, ast.Attribute) for t in s.targets) for s in ast.walk(f.node)) or any(
                        isinstance(r, ast.Return) and isinstance(r.value, ast.Tuple) and any(isinstance(x, ast.Name) and x.id == recv.id for x in r.value.elts) for r in ast.walk(f.node))
                    rep.check(esc, 'pointer-lifetime', key, f.where(n), 'the pointer leaves %s but its owner is destroyed at the end of it' % f.qual)
                    continue
                # rebinding or deletion of the owner between taking and using the pointer
                gone = False
                if isinstance(recv, ast.Name) and names:
                    for s in ast.walk(f.node):
                        if getattr(s, 'lineno', 0) > n.lineno and ((isinstance(s, ast.Delete) and any(isinstance(t, ast.Name) and t.id == recv.id for t in s.targets)) or (
                                isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == recv.id for t in s.targets))):
                            later = any(isinstance(x, ast.Name) and x.id in names and isinstance(x.ctx, ast.Load) and x.lineno > s.lineno for x in ast.walk(f.node))
                            gone = gone or later
                rep.check(not gone, 'pointer-lifetime', key, f.where(n), 'the owner is dropped before the pointer is used')
    rep.floor('pointer-lifetime', 8)

    # ---- destructor of packages ------------------------------------------------------
    TAG = {'PYCLUSTERING_TYPE_INT': 'int', 'PYCLUSTERING_TYPE_UNSIGNED_INT': 'unsigned int', 'PYCLUSTERING_TYPE_FLOAT': 'float', 'PYCLUSTERING_TYPE_DOUBLE': 'double',
           'PYCLUSTERING_TYPE_LONG': 'long', 'PYCLUSTERING_TYPE_CHAR': 'char', 'PYCLUSTERING_TYPE_SIZE_T': 'unsigned long', 'PYCLUSTERING_TYPE_WCHAR_T': 'wchar_t',
           'PYCLUSTERING_TYPE_LIST': 'pyclustering_package *'}
    dtor = [f for f in facts.functions if f['q'].endswith('pyclustering_package::~pyclustering_package') and f.get('body')]
    if not dtor:
        from ..report import Broken
        raise Broken('destructor of pyclustering_package not found')
    d = dtor[0]
    for tag, ty in TAG.items():
        hit = [n for n in cxx.fwalk(d) if n['k'] == 'CXXDeleteExpr' and n.get('arr') and cxx.ch(n)[0].get('t', '').replace('const ', '') == (ty + ' *').replace('* *', '**')]
        rep.check(bool(hit), 'destructor', tag, '%s:%d' % (d['file'], d['l']), 'no array delete of %s for packages tagged %s' % (ty, tag))
    elems = [n for n in cxx.fwalk(d) if n['k'] == 'CXXDeleteExpr' and not n.get('arr') and cxx.ch(n)[0].get('t', '').replace('const ', '').startswith('pyclustering_package *')]
    rep.check(bool(elems), 'destructor', 'elements of a list', '%s:%d' % (d['file'], d['l']), 'packages inside a list package are not deleted')
    # case labels agree with the deleted type
    for n in cxx.fwalk(d):
        if n['k'] == 'CaseStmt':
            lab = next((x.get('n') for x in cxx.walk(cxx.ch(n)[0]) if x['k'] == 'DeclRefExpr'), None)
            dels = [x for x in cxx.walk(cxx.ch(n)[1]) if x['k'] == 'CXXDeleteExpr'] if cxx.ch(n)[1] else []
            for x in dels:
                t = cxx.ch(x)[0].get('t', '').replace('const ', '')
                rep.check(lab in TAG and t == TAG[lab] + ' *', 'destructor', 'case ' + str(lab), '%s:%d' % (d['file'], x['l']), 'packages tagged %s are deleted as %s' % (lab, t))
    # allocation: data of a package with a fixed tag is allocated with the element type of the tag
    seen = 0
    for f in facts.functions:
        if not f.get('body') or 'interface' not in f['file']:
            continue
        tags = {}
        for n in cxx.fwalk(f):
            if n['k'] == 'Var' and n['t'].startswith('pyclustering_package *'):
                lab = [x.get('n') for x in cxx.walk(n) if x['k'] == 'DeclRefExpr' and str(x.get('n', '')).startswith('PYCLUSTERING_TYPE')]
                if len(lab) == 1:
                    tags[n['id']] = lab[0]
        for n in cxx.fwalk(f):
            if n['k'] == 'BinaryOperator' and n.get('op') == '=' and cxx.ch(n)[0] and cxx.ch(n)[0].get('k') == 'MemberExpr' and cxx.ch(n)[0].get('n') == 'data':
                root = next((x for x in cxx.walk(cxx.ch(n)[0]) if x['k'] == 'DeclRefExpr'), None)
                new = next((x for x in cxx.walk(cxx.ch(n)[1]) if x['k'] == 'CXXNewExpr'), None)
                if root and new and root.get('id') in tags:
                    seen += 1
                    want = TAG.get(tags[root['id']])
                    rep.check(new['nt'] == want, 'destructor', 'allocation in %s #%d' % (f['q'], seen), '%s:%d' % (f['file'], n['l']), 'a package tagged %s holds an array of %s' % (tags[root['id']], new['nt']))


def _releases(term, rel, st):
    """package freed by a helper method of the package module"""
    c = term[1]
    if c[0] == 'bound' and c[2].qual in rel and c[1][0] == 'inst':
        h = st.heap.get(c[1][1], {})
        return h.get('#0') or h.get('package_pointer')
    if c[0] == 'func' and c[1].qual in rel and term[2]:
        return term[2][0]
    return None


def _types(rep, facts, exported, creator, sym, i, ev):
    f = exported.get(sym)
    if not f or not f.get('body'):
        return
    made = creates(facts, exported[creator])
    used = handle_use(facts, f, i)
    if not used:
        return
    for m in sorted(made):
        ok = all(u in bases(facts, m) for u in used)
        if ok and len(f['params']) and deletes(f):
            ok = True
        rep.check(ok, 'handle-type', '%s -> %s' % (creator, sym), ev.func.where(ev.node), '%s creates a %s, %s uses it as %s' % (creator, m, sym, ', '.join(sorted(used))))


def _callback_by_attr(prog, tr, sym):
    out = []
    for t in tr:
        for ev in t.events:
            if ev.kind == 'call' and ffi.symbol(ev.a[1]) == sym:
                for a in ev.a[2]:
                    if a[0] == 'attr' and a[1] == ('param', 'self'):
                        out.append((ev.func.where(ev.node), False, ev.func.qual))
    return out


def _scratch(f, attr):
    """the attribute is used by this method only: a local variable in disguise"""
    if f.cls is None:
        return False
    users = {g.qual for k in f.cls.mro() + f.cls.subs for g in list(k.methods.values()) + list(k.setters.values()) for n in ast.walk(g.node)
             if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and k.mangle(n.attr) == attr}
    return users == {f.qual}
