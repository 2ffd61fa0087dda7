"""P03: everything that Python and C++ share by number, position or name of an option agrees."""

import ast
import re

from .. import cexec, cxx, ffi
from ..cxx import facts
from ..objects import construct, is_workable, public_methods, switch_of
from ..pexec import NONE, Exec, State, TooManyPaths, show, subterms
from ..pymodel import Class, program

TRUE = ('const', True)
WORK = ('process', 'train', 'simulate', 'simulate_static', 'simulate_dynamic', 'initialize')

# Python class -> C++ enumeration with the same meaning (names differ too much to be matched)
PAIRS = {
    'type_metric': 'metric_t', 'conn_type': 'connection_t', 'type_conn': 'som_conn_type', 'type_init': 'som_init_type',
    'solve_type': 'solve_type', 'type_link': 'type_link', 'initial_type': 'initial_type', 'splitting_type': 'splitting_type',
    'silhouette_ksearch_type': 'silhouette_ksearch_type', 'pyclustering_type_data': 'pyclustering_data_t',
}
SAME = {'fast': 'forward euler', 'rk4': 'runge kutta 4', 'rkf45': 'runge kutta fehlberg 45', 'list bidir': 'list bidirectional'}
NOISE = {'get', 'index', 'package', 'size', 'type', 'p', 'm', 'c', 'connection', 'som', 'the', 'data', 'ptr', 'pointer', 'number', 'amount', 'of', 'value'}


def toks(name):
    name = re.sub(r'([a-z])([A-Z])', r'\1_\2', name or '')
    return [t for t in re.split(r'[^A-Za-z0-9]+', name.lower()) if t]


def stem(t):
    t = {'representors': 'representative', 'representor': 'representative', 'indexes': 'index', 'indices': 'index', 'repr': 'representative'}.get(t, t)
    if len(t) > 4 and t.endswith('ies'):
        t = t[:-3] + 'y'
    return t[:-1] if len(t) > 3 and t.endswith('s') and not t.endswith('ss') else t


def words(name, noise=frozenset({'get', 'p', 'm', 'c', 'ccore', 'the'})):
    return frozenset(stem(t) for t in toks(name) if t not in noise)


def likeness(a, b):
    """Jaccard similarity of the words of two names"""
    x, y = set(words(a)), set(words(b))
    if not x or not y:
        return 0.0
    both = 0
    for t in sorted(x):
        hit = [u for u in sorted(y) if same_token(t, u)]
        if hit:
            y.discard(hit[0])
            both += 1
    return both / (len(x) + len(y))


def same_token(a, b):
    return a == b or min(len(a), len(b)) > 6 and a[:6] == b[:6]


# ---------------------------------------------------------------- enumerations
def member(name, common):
    t = [x for x in toks(name) if x not in common]
    s = ' '.join(t)
    return SAME.get(s, s)


def members(vals):
    """normalised name -> value; words that (nearly) all names share and fillers are dropped"""
    sets = [set(toks(n)) for n, v in vals]
    common = set.intersection(*sets) if len(sets) > 1 else set()
    return {member(n, common | {'package', 'index', 'size'} if len(toks(n)) > 1 else common): (n, v) for n, v in vals}


def py_enums(prog):
    out = []
    for c in prog.classes():
        v = []
        for k, e in c.attrs.items():
            try:
                x = ast.literal_eval(e)
            except (ValueError, TypeError, SyntaxError):
                continue
            if isinstance(x, int) and not isinstance(x, bool) and not k.startswith('_'):
                v.append((k, x))
        if len(v) >= 2 and len(v) * 2 > len([k for k in c.attrs if not k.startswith('_')]):
            out.append((c, v))
    return out


def check_enums(rep, prog, F):
    enums = [e for e in F.enums.values() if e['file'].startswith('ccore/')]
    for c, vals in py_enums(prog):
        want = PAIRS.get(c.name, c.name)
        cands = [e for e in enums if e['n'] == want]
        mine = members(vals)
        short = c.qual.replace('pyclustering.', '')
        if not cands:
            rep.count('Python number classes without a native counterpart')
            continue
        e = cands[0]
        theirs = members([tuple(v) for v in e['vals']])
        common = set(mine) & set(theirs)
        if not common:
            rep.count('number classes whose members could not be matched')
            continue
        for k in sorted(common):
            (pn, pv), (cn, cv) = mine[k], theirs[k]
            rep.check(pv == cv, 'enum', '%s.%s' % (short, pn), '%s:%d' % (c.module.rel, c.node.lineno),
                      '%s is %d in Python, %s::%s is %d in C++ (%s:%d)' % (pn, pv, e['q'], cn, cv, e['file'], e['l']))
        by_value = {v: (n, k) for k, (n, v) in theirs.items()}
        for k, (pn, pv) in mine.items():
            if k not in common and pv in by_value and by_value[pv][1] in common:
                rep.bad('enum', '%s.%s' % (short, pn), '%s:%d' % (c.module.rel, c.node.lineno), '%s has the number %d of %s::%s' % (pn, pv, e['q'], by_value[pv][0]))


# ---------------------------------------------------------------- structures
def py_fields(cls):
    e = cls.attrs.get('_fields_')
    if not isinstance(e, (ast.List, ast.Tuple)):
        return None
    out = []
    for x in e.elts:
        if not isinstance(x, (ast.Tuple, ast.List)) or len(x.elts) < 2 or not isinstance(x.elts[0], ast.Constant):
            return None
        out.append((x.elts[0].value, ast.unparse(x.elts[1]).split('.')[-1] if not isinstance(x.elts[1], ast.Call) else 'POINTER'))
    return out


def pointee(F, sym, index):
    """record that the exported function takes through parameter number index"""
    f = F.exported().get(sym)
    if f is None or index >= len(f['params']):
        return None
    p = f['params'][index]

    def rec(t):
        t = re.sub(r'\b(const|volatile)\b', '', t or '').replace('*', '').replace('&', '').strip()
        return F.records.get(t)
    if rec(p['t']):
        return rec(p['t'])
    for n in cxx.fwalk(f):
        if n['k'] in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr') and any(m['k'] == 'DeclRefExpr' and m.get('id') == p.get('id') for m in cxx.walk(n)):
            if rec(n.get('ct') or n.get('t')):
                return rec(n.get('ct') or n.get('t'))
    return None


def check_layout(rep, F, cls, r):
    fields = py_fields(cls)
    short = cls.qual.replace('pyclustering.', '')
    where = '%s:%d' % (cls.module.rel, cls.node.lineno)
    if fields is None:
        rep.count('structures that could not be read')
        return
    theirs = [(x['n'], x['t']) for x in r['fields']]
    if len(fields) != len(theirs):
        rep.bad('layout', short, where, '%d fields in Python, %d in %s' % (len(fields), len(theirs), r['q']))
        return
    low = [n.lower() for n, t in theirs]
    for i, ((pn, pt), (cn, ct)) in enumerate(zip(fields, theirs)):
        kind = ('p', 64, False) if pt == 'POINTER' else ffi.CT.get(pt, ('?', 0, False))
        ck = ffi.cpp_kind(ct, F)
        if kind != ck and not (kind[0] == 'b' and ck[0] == 'b'):
            if kind[0] == ck[0] == 'i' and kind[1] == ck[1]:
                rep.ok('layout', '%s.%s' % (short, pn), where)      # sign only: the same bytes for the values in use
                continue
            rep.bad('layout', '%s.%s' % (short, pn), where, 'field %d is %s in Python and %s %s in %s' % (i, pt, ct, cn, r['q']))
            continue
        if pn.lower() != cn.lower() and not _trim(pn) == _trim(cn) and (_trim(pn) in [_trim(x) for x in low] or cn.lower() in [n.lower() for n, t in fields]):
            rep.bad('layout', '%s.%s' % (short, pn), where, 'field %d is %s in Python and %s in %s: another field has that name' % (i, pn, cn, r['q']))
            continue
        rep.ok('layout', '%s.%s' % (short, pn), where)


def _trim(n):
    return re.sub(r'^(m_|c_|p_)', '', n.lower())


def package_layout(rep, prog, F):
    c = [c for c in prog.classes() if c.name == 'pyclustering_package']
    r = F.records.get('pyclustering_package')
    if c and r:
        check_layout(rep, F, c[0], r)


def check_structs(rep, prog, F):
    traces, failed = ffi.traces()
    done = {}
    for tr in traces:
        filled = {}
        wild = set()
        for ev in tr.events:
            if ev.kind == 'setattr':
                b, name, v = ev.a[0], ev.a[1], ev.a[2]
                if b[0] == 'inst':
                    filled.setdefault(b[1], {})[name] = v
            if ev.kind == 'call' and ev.a[1] == ('ext', 'builtins.setattr') and ev.a[2] and ev.a[2][0][0] == 'inst':
                wild.add(ev.a[2][0][1])
            sym = ev.kind == 'call' and ffi.symbol(ev.a[1])
            if not sym:
                continue
            for i, a in enumerate(ev.a[2]):
                k = ffi.classify_arg(a, tr.state, prog)
                if k[0] not in ('struct', 'struct_by_value') or not isinstance(k[1], Class):
                    continue
                cls, inst = k[1], k[2]
                if cls.name == 'pyclustering_package':
                    continue
                r = pointee(F, sym, i)
                if r is None:
                    rep.count('structures whose native type could not be found')
                elif (cls, sym) not in done:
                    done[(cls, sym)] = 1
                    check_layout(rep, F, cls, r)
                fields = py_fields(cls) or []
                got = dict(filled.get(inst[1], {}))
                h = tr.state.heap.get(inst[1], {})
                for j, (n, t) in enumerate(fields):
                    if '#%d' % j in h:
                        got.setdefault(n, h['#%d' % j])
                    elif n in h:
                        got.setdefault(n, h[n])
                if inst[1] in wild:
                    rep.count('structures filled by computed names')
                    continue
                names = {n.lower(): n for n, t in fields}
                short = '%s: %s' % (tr.entry.qual.replace('pyclustering.', ''), cls.name)
                for n, t in fields:
                    key = '%s.%s' % (short, n)
                    if n not in got:
                        rep.bad('fill', key, tr.entry.where(ev.node), 'the field %s is not set on a path to %s, the native side reads zero' % (n, sym))
                        continue
                    src = ffi.leaf_name(got[n])
                    if src and src.lower() != n.lower() and _trim(src) != _trim(n) and (_trim(src) in [_trim(x) for x in names]):
                        rep.bad('fill', key, tr.entry.where(ev.node), 'the field %s is set from the option %s, which has its own field' % (n, src))
                    elif key not in rep.obligations.get('fill', {}):
                        rep.ok('fill', key, tr.entry.where(ev.node))


# ---------------------------------------------------------------- element types of packages
TAG_CPP = {'int': 'c_int', 'unsigned int': 'c_uint', 'float': 'c_float', 'double': 'c_double', 'long': 'c_long', 'char': 'c_char', 'wchar_t': 'c_wchar', 'unsigned long': 'c_size_t'}


def check_tags(rep, prog, F):
    cls = [c for c in prog.classes() if c.name == 'pyclustering_type_data']
    if not cls:
        return
    cls = cls[0]
    const = {}
    for k, e in cls.attrs.items():
        if isinstance(e, ast.Constant):
            const[k] = e.value
    to_c, to_tag = {}, {}
    for name, e in cls.attrs.items():
        if not isinstance(e, ast.Dict):
            continue
        for k, v in zip(e.keys, e.values):
            ks, vs = (ast.unparse(x).split('.')[-1] for x in (k, v))
            kv = const.get(ks, k.value if isinstance(k, ast.Constant) else ks)
            vv = const.get(vs, v.value if isinstance(v, ast.Constant) else vs)
            if isinstance(kv, int):
                to_c[kv] = (vv, ks)
            elif isinstance(vv, int):
                to_tag[kv] = (vv, vs)
    where = '%s:%d' % (cls.module.rel, cls.node.lineno)
    for ct, (tag, name) in sorted(to_tag.items(), key=str):
        if tag in to_c:
            rep.check(to_c[tag][0] == ct, 'tag', 'round trip of %s' % name, where, 'values packed as %s with the tag %s are unpacked as %s' % (ct, name, to_c[tag][0]))
    for f in F.functions:
        if f['n'] != 'get_package_type' or not f.get('targs'):
            continue
        t = f['targs'].strip('<>').strip()
        for st, oc in cexec.Exec(F, inline=lambda *a: False).run(f, None, None, cexec.St()):
            if oc[0] != 'return' or oc[1][0] != 'const' or t not in TAG_CPP:
                rep.count('native element types that could not be decided')
                continue
            tag = oc[1][1]
            want = to_c.get(tag, (None, tag))[0]
            rep.check(want == TAG_CPP[t], 'tag', 'native elements of type %s' % t, '%s:%d' % (f['file'], f['l']), 'C++ gives arrays of %s the tag %s, which Python reads as %s' % (t, tag, want))
    # the data type option
    for f in prog.functions():
        if f.name != 'convert_data_type' or not f.params:
            continue
        e = [x for x in F.enums.values() if x['n'] == 'data_t']
        for name, v in (e[0]['vals'] if e else []):
            vals = set()
            for s, oc in Exec(prog).run(f, [('const', name.lower())]):
                t = oc[1] if oc and oc[0] == 'return' else None
                if t is not None and t[0] == 'call' and ffi.ctype_of(t[1]):
                    t = t[2][0] if t[2] else ('const', 0)
                vals.add(t[1] if t is not None and t[0] == 'const' else None)
            rep.check(vals == {v}, 'enum', 'data type %s' % name.lower(), f.where(), "the data type '%s' is sent as %s, the number of data_t::%s is %d" % (name.lower(), sorted(vals, key=str), name, v))


# ---------------------------------------------------------------- native side: slots, options
class Native:
    """what the exported functions put into slots and hand to the library"""

    def __init__(self, F, rep):
        self.F, self.rep = F, rep
        self.slots, self.single, self.sizes, self.fns = {}, {}, {}, {}
        for sym, f in sorted(F.exported().items()):
            if not f.get('body') or not f['file'].startswith('ccore/src/interface'):
                continue
            packs = {}

            def on_call(ex, q, base, bkey, vs, ks, st, n, f2, packs=packs):
                if q == 'create_package':
                    o = ex.fresh(st, 'pyclustering_package')
                    sized = re.match(r'(const )?unsigned long\b', args_text(n.get('ft', ''))) is not None
                    packs[o] = (vs[1] if len(vs) > 1 else None) if sized or not vs else vs[0]
                    return [(st, o, None)]
                return None
            e = cexec.Exec(F, inline=lambda g, *a: g['file'].startswith('ccore/src/interface') or g['file'].startswith('ccore/include/pyclustering/interface/') and not g['file'].endswith('pyclustering_package.hpp'),
                           on_call=on_call, max_paths=800)
            try:
                res = e.run(f, None, None, cexec.St())
            except cexec.TooManyPaths:
                rep.count('native functions with too many paths')
                continue
            self.fns[sym] = (f, res)
            rep.count('native entry paths', len(res))
            for st, oc in res:
                if oc[0] == 'return':
                    self.returned(sym, f, st, oc[1], packs)

    def returned(self, sym, f, st, v, packs):
        evs = st.events()
        arrays, size, store = {}, {}, []
        for ev in evs:
            if ev.kind == 'set' and ev.key and ev.key[0] == 'f' and ev.key[2] == 'data':
                arrays[ev.key[1]] = ev.args[0]
            elif ev.kind == 'set' and ev.key and ev.key[0] == 'f' and ev.key[2] == 'size':
                size[ev.key[1]] = ev.args[0]
            elif ev.kind == 'set' and ev.key and ev.key[0] == 'e':
                store.append((ev.key[1], ev.key[2], ev.args[0], ev))

        def elements(p):
            return [(k, x, ev) for b, k, x, ev in store if b == arrays.get(p) or b == ('f', p, 'data')]

        def name(p, d=0):
            if p in packs or p in arrays:
                for k, x, ev in elements(p):
                    n = name(x, d + 1) if d < 3 else None
                    if n:
                        return n
                return content(packs[p]) if packs.get(p) is not None else None
            return content(p)
        if v not in arrays and v not in packs:
            n = content(v)
            if n:
                self.single.setdefault(sym, set()).add(n)
            return
        own = elements(v)
        if v in packs or any(k[0] != 'const' for k, x, ev in own) or size.get(v, ('',))[0] != 'const':
            n = name(v)
            if n and not any(k[0] != 'const' for k, x, ev in own):
                self.single.setdefault(sym, set()).add(n)
            return
        n = size[v][1]
        where = '%s:%d' % (f['file'], f['l'])
        have = {k[1] for k, x, ev in own}
        for k in range(n if isinstance(n, int) and n < 100 else 0):
            self.rep.check(k in have, 'filled', '%s[%d]' % (sym, k), where, 'slot %d of the result package of %s is never set on a path that returns it' % (k, sym))
        for k, x, ev in own:
            if k[1] >= n:
                self.rep.bad('filled', '%s[%d]' % (sym, k[1]), where, 'slot %d of the result package of %s is beyond its size %d' % (k[1], sym, n))
            m = name(x)
            if m:
                self.slots.setdefault(sym, {}).setdefault(k[1], set()).add(m)


def args_text(ft):
    return ft[ft.find('(') + 1:]


GENERIC = {'vector', 'allocator', 'function', 'basic_string', 'list', 'string', 'what', 'size', 'begin', 'end', 'data', 'get', 'at', 'back', 'front', 'operator[]'}


def content(v):
    """identifier of the library result that a package is made of: outermost accessor or member"""
    if not isinstance(v, tuple) or not v:
        return None
    if v[0] == 'call' or v[0] == 'member':
        pass
    s = cexec.show(v)
    s = re.sub(r'^create_package(_container)?\((.*)\)$', r'\2', s)
    for m in re.finditer(r'([A-Za-z_]\w*)(\(|\b)', s):
        n = m.group(1)
        if n in GENERIC or n in ('e', 'obj', 'const', 'undef', 'named', 'pyclustering', 'operator', 'nnet', 'clst', 'utils') or re.match(r'(p_)?pointer|p_.*pointer', n) or n.startswith('create_package') or re.fullmatch(r'v\d+', n):
            continue
        # the member read from the value: last '.name', otherwise the outermost call
        mem = re.findall(r'\)\.([A-Za-z_]\w*)', s)
        if mem:
            return re.sub(r'^m_', '', mem[-1])
        return re.sub(r'^m_', '', n)
    return None


# ---------------------------------------------------------------- Python side of the slots
class Slots:
    def __init__(self, rep, prog, F, native):
        self.rep, self.prog, self.F, self.native = rep, prog, F, native
        self.n = 0
        self.args = {}

    def on_call(self, ex, c, args, kwargs, st, f, node):
        if is_workable(c):
            return [(st, TRUE)]
        r = ffi._ext_getattr(ex, c, args, kwargs, st, f, node)
        if r is not None:
            return r
        sym = ffi.symbol(c)
        if sym:
            self.n += 1
            self.args[self.n] = (args, st, f, node, sym)
            return [(st, ('call', ('native', sym), (), (), self.n))]
        return None

    def ex(self):
        class E(Exec):
            def cmp(self, op, a, b):
                if op in ('Is', 'IsNot', 'Eq', 'NotEq') and NONE in (a, b):
                    o = a if b == NONE else b
                    if o[0] == 'call' and o[1][0] == 'native':
                        return ('const', op in ('IsNot', 'NotEq'))
                return super().cmp(op, a, b)

            def truth(self, t):
                # a native package is not an error message (bytes)
                if t[0] == 'call' and t[1] == ('ext', 'builtins.isinstance') and len(t[2]) == 2 and t[2][1] == ('ext', 'builtins.bytes'):
                    return False
                return super().truth(t)
        return E(self.prog, inline=lambda g, st: not ffi.opaque(g), on_call=self.on_call, merge_key=lambda s: 0, max_paths=4000, max_depth=10)

    def source(self, t, st):
        """(symbol, slot) that a value was extracted from, or None"""
        while isinstance(t, tuple) and t:
            if t[0] == 'call' and t[1][0] == 'native':
                return (t[1][1], None)
            if t[0] == 'call' and t[1][0] == 'bound' and t[1][1][0] == 'inst' and t[1][1][2].name == 'package_extractor' and t[1][2].name == 'extract':
                p = st.heap.get(t[1][1][1], {}).get('#0')
                if p and p[0] == 'call' and p[1][0] == 'native':
                    return (p[1][1], None)
                return None
            if t[0] == 'sub':
                s = self.source(t[1], st)
                if s and s[1] is None and isinstance(t[2], tuple) and t[2][0] == 'const' and isinstance(t[2][1], int):
                    return (s[0], t[2][1])
                return s
            if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('tolist', 'copy'):
                t = t[1][1]
                continue
            if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in ('numpy.array', 'builtins.list', 'builtins.tuple', 'numpy.asarray', 'builtins.iter', 'copy.copy') and t[2]:
                t = t[2][0]
                continue
            return None
        return None

    def name(self, src):
        sym, slot = src
        n = (self.native.slots.get(sym, {}).get(slot) if slot is not None else self.native.single.get(sym)) or set()
        return sorted(n)[0] if len(n) == 1 else None

    def pool(self, src):
        """all results that could have been meant: the slots of the same package, or the other getters of the same object"""
        sym, slot = src
        if sym in self.native.slots:
            return [(sym, k) for k in self.native.slots[sym]]
        pre = sym.rsplit('_get_', 1)[0]
        return [(s, None) for s in self.native.single if '_get_' in s and s.rsplit('_get_', 1)[0] == pre]

    def judge(self, what, where, name, t, st):
        src = self.source(t, st)
        if src is None:
            return
        mine = self.name(src)
        if mine is None:
            self.rep.count('results whose native meaning could not be named')
            return
        if not (words(name) & words(mine)):
            # nothing in common: is there a result with exactly this name?
            better = [p for p in self.pool(src) if p != src and self.name(p) and words(self.name(p)) == words(name)]
        else:
            own = likeness(name, mine)
            better = [p for p in self.pool(src) if p != src and self.name(p) and likeness(name, self.name(p)) > own]
        key = '%s <- %s' % (what, src[0])
        if better:
            b = better[0]
            self.rep.bad('slot', key, where, "%s receives the native result '%s' (%s%s), the result '%s' is in %s%s" % (
                what, mine, src[0], '' if src[1] is None else '[%d]' % src[1], self.name(b), b[0], '' if b[1] is None else '[%d]' % b[1]))
        elif key not in self.rep.obligations.get('slot', {}):
            self.rep.ok('slot', key, where)


def check_slots(rep, prog, F, native):
    S = Slots(rep, prog, F, native)
    for sym, names in sorted(native.single.items()):
        if '_get_' not in sym or len(names) != 1 or sym not in native.fns:
            continue
        want, mine = sym.rsplit('_get_', 1)[1], sorted(names)[0]
        better = [p for p in S.pool((sym, None)) if p[0] != sym and S.name(p) and likeness(want, S.name(p)) > likeness(want, mine)]
        f = native.fns[sym][0]
        rep.check(not better, 'slot', 'native %s' % sym, '%s:%d' % (f['file'], f['l']), '%s returns %s, %s is returned by %s' % (sym, mine, S.name(better[0]) if better else '', better[0][0] if better else ''))
    classes = [c for c in prog.classes() if not c.module.name.startswith('pyclustering.core') and (switch_of(c, 'ccore') or any(
        isinstance(n, ast.Name) and n.id == 'ccore_library' or isinstance(n, ast.Attribute) and n.attr == '_ccore_network_pointer' for n in ast.walk(c.node)))]
    used = set()
    for c in classes:
        short = c.qual.replace('pyclustering.', '')
        flag = {'ccore': TRUE} if switch_of(c, 'ccore') else {}
        try:
            objs = construct(S.ex(), c, flag)
        except TooManyPaths:
            rep.count('classes with too many paths')
            continue
        if 'ccore' in flag:
            d = c.find('__init__').default('ccore') if 'ccore' in c.find('__init__').params else None
            if isinstance(d, ast.Constant) and d.value is None:
                try:        # wraps a native object
                    objs = construct(S.ex(), c, {'ccore': ('call', ('native', 'handle'), (), (), 0)})
                except TooManyPaths:
                    continue
        for s, o in objs[:3]:
            for g in public_methods(c):
                if g.name in WORK or len(g.params) > 1 and g.default(g.params[1]) is None and not all(p in ('iteration', 'start_iteration') for p in g.params[1:2]):
                    continue
                try:
                    r = S.ex().run(g, None, o, s.copy())
                except TooManyPaths:
                    continue
                for s3, o3 in r[:6]:
                    if o3 and o3[0] == 'return':
                        S.judge('%s.%s' % (short, g.name), g.where(), g.name, o3[1], s3)
            for w in public_methods(c):
                if w.name not in WORK:
                    continue
                try:
                    res = S.ex().run(w, None, o, s.copy())
                except TooManyPaths:
                    rep.count('methods with too many paths')
                    continue
                for s2, oc in res[:4]:
                    if oc and oc[0] == 'raise':
                        continue
                    for ev in s2.events():
                        if ev.kind == 'setattr':
                            b, nm, v = ev.a[0], ev.a[1], ev.a[2]
                            S.judge('%s: attribute %s' % (short, strip(nm)), ev.func.where(ev.node) if ev.func else '', strip(nm), v, s2)
                            src = S.source(v, s2)
                            if src:
                                used.add(src)
                        elif ev.kind == 'new':
                            k = ev.a[0][2]
                            init = k.find('__init__')
                            for p, v in zip(init.params[1:] if init else [], ev.a[1]):
                                S.judge('%s: %s(%s)' % (short, k.name, p), ev.func.where(ev.node) if ev.func else '', p, v, s2)
                    for g in public_methods(c):
                        if g.name in WORK or g.name.startswith('_') or len(g.params) > 1 and g.default(g.params[1]) is None:
                            continue
                        try:
                            r = S.ex().run(g, None, o, s2.copy())
                        except TooManyPaths:
                            continue
                        for s3, o3 in r[:4]:
                            if o3 and o3[0] == 'return':
                                S.judge('%s.%s' % (short, g.name), g.where(), g.name, o3[1], s3)


def strip(n):
    return re.sub(r'^_[A-Za-z0-9]+?__', '', n)


# ---------------------------------------------------------------- options on the native side
def check_options(rep, F, native):
    for sym, (f, res) in sorted(native.fns.items()):
        names = [p['n'] for p in f['params']]
        ids = {('v', p['id']): p['n'] for p in f['params'] if 'id' in p}
        # used at all
        body_ids = {n.get('id') for n in cxx.fwalk(f) if n['k'] == 'DeclRefExpr'}
        for p in f['params']:
            if not p['n']:
                continue
            rep.check(p.get('id') in body_ids, 'unused', '%s: %s' % (sym, p['n']), '%s:%d' % (f['file'], f['l']), 'the native entry point ignores its parameter %s' % p['n'])
        for st, oc in res:
            for ev in st.events():
                if ev.kind not in ('ctor', 'call') or not ev.q or 'pyclustering::' not in ev.q:
                    continue
                g = callee(F, ev)
                if g is None:
                    continue
                ps = [p['n'] for p in g['params']]
                if len(ps) < len(ev.args):
                    continue
                src = [param_of(a) for a in ev.args]
                for i, s in enumerate(src):
                    if not s or not ps[i]:
                        continue
                    own = likeness(s, ps[i])
                    better = [j for j in range(len(ev.args)) if j != i and ps[j] and likeness(s, ps[j]) > own and likeness(s, ps[j]) >= 0.5 and (src[j] is None or likeness(src[j], ps[j]) < likeness(s, ps[j]))]
                    key = '%s: %s -> %s' % (sym, s, ev.q.split('::')[-1])
                    if better:
                        rep.bad('option', key, '%s:%d' % (f['file'], ev.node['l']), 'the parameter %s is passed as %s of %s, which has a parameter %s' % (s, ps[i], ev.q, ps[better[0]]))
                    elif key not in rep.obligations.get('option', {}):
                        rep.ok('option', key, '%s:%d' % (f['file'], ev.node['l']))


def param_of(a):
    """exported parameter that an argument value is: possibly through a cast or an enum conversion"""
    for _ in range(4):
        if isinstance(a, tuple) and a and a[0] == 'param':
            return a[1]
        if isinstance(a, tuple) and a and a[0] in ('cast', 'deref') and len(a) > 1:
            a = a[-1]
            continue
        break
    return None


def callee(F, ev):
    n = ev.node
    out = [g for g in F.defs(ev.q) if len(g['params']) >= len(ev.args)]
    ft = n.get('ft')
    if ft:
        hit = [g for g in out if cexec.sig(g) == cexec.norm(ft)] if hasattr(cexec, 'sig') else []
        out = hit or out
    return out[0] if len(out) >= 1 else None


def check_selectors(rep, F, native):
    """a numbered choice leads to the implementation that bears its name"""
    by = {e['n']: e for e in F.enums.values()}
    for sym, (f, res) in sorted(native.fns.items()):
        for st, oc in res:
            if oc[0] != 'return':
                continue
            for c, truth in st.cond_list():
                if not truth or c[0] != 'op' or c[1] != '==' or len(c) < 4:
                    continue
                a, b = c[2], c[3]
                if a[0] == 'const':
                    a, b = b, a
                if b[0] != 'const' or not param_of(a):
                    continue
                p = [x for x in f['params'] if x['n'] == param_of(a)][0]
                e = selector_enum(F, f, p, by, b[1])
                if e is None:
                    continue
                all_names = {v: n for n, v in e['vals']}
                name = all_names.get(b[1])
                if name is None:
                    continue
                made = []
                for ev in st.events():
                    if ev.q and ev.kind in ('call', 'ctor', 'new'):
                        made.append(ev.q.split('::')[-1])
                        made.append(re.sub(r'.*?([A-Za-z_]\w*)>*$', r'\1', ev.node.get('t', '') or ''))
                wrong = [(m, n2) for m in made for n2 in all_names.values() if n2 != name and words(m, NOISE | {'allocator'}) == words(n2, NOISE)]
                right = [m for m in made if words(m, NOISE | {'allocator'}) == words(name, NOISE)]
                key = '%s: %s' % (sym, name)
                if wrong and not right:
                    rep.bad('selector', key, '%s:%d' % (f['file'], f['l']), 'the choice %s (%d) leads to %s' % (name, b[1], wrong[0][0]))
                elif right:
                    rep.ok('selector', key, '%s:%d' % (f['file'], f['l']))
                else:
                    rep.count('choices whose implementation could not be named')


def check_switches(rep, F, native):
    """a flag of a native entry point turns on the choice that bears its name"""
    for sym, (f, res) in sorted(native.fns.items()):
        names = {p['id']: p['n'] for p in f['params'] if 'id' in p}
        for n in cxx.fwalk(f):
            if n['k'] != 'IfStmt':
                continue
            kids = [k for k in cxx.ch(n) if k]
            refs = {x.get('id') for x in cxx.walk(kids[0]) if x['k'] == 'DeclRefExpr' and x.get('id') in names}
            ops = [x for x in cxx.walk(kids[0]) if x['k'] in ('BinaryOperator', 'UnaryOperator')]
            if len(refs) != 1 or ops or len(kids) < 2:
                continue
            mine = names[refs.pop()]
            for x in cxx.walk(kids[1]):
                if x['k'] == 'DeclRefExpr' and x.get('dk') == 'EnumConstant':
                    own = likeness(mine, x['n'])
                    better = [o for o in names.values() if o != mine and likeness(o, x['n']) > own]
                    rep.check(not better, 'selector', '%s: %s -> %s' % (sym, mine, x['n']), '%s:%d' % (f['file'], x.get('l') or n['l']), 'the flag %s turns on %s, which is the choice of %s' % (mine, x['n'], better and better[0]))


def check_chosen_class(rep, prog, F, native):
    """a class given as an option (the initializer of Elbow) leads to the native implementation of that class"""
    S = Slots(rep, prog, F, native)
    base = {}
    for c in prog.classes():
        if c.module.name.endswith('cluster.center_initializer') and c.find('initialize'):
            base[re.sub(r'_|center|initializer', '', c.name)] = c
    for host in prog.classes():
        if switch_of(host, 'initializer') != 'kw' or switch_of(host, 'ccore') is None:
            continue
        for short, c in sorted(base.items()):
            try:
                objs = construct(S.ex(), host, {'initializer': ('class', c), 'ccore': TRUE})
                [(s2, oc) for s, o in objs for w in public_methods(host) if w.name == 'process' for s2, oc in S.ex().run(w, None, o, s)]
            except TooManyPaths:
                rep.count('classes with too many paths')
                continue
            syms = {v[4] for v in S.args.values()}
            S.args.clear()
            for sym in sorted(syms):
                if sym not in native.fns:
                    continue
                f, res = native.fns[sym]
                names = set()
                for st, oc in res:
                    for ev in st.events():
                        t = (ev.node or {}).get('targs', '') or (ev.node or {}).get('clst', '')
                        for m in re.findall(r'[A-Za-z_]\w*', t):
                            names.add(re.sub(r'_|center|initializer', '', m))
                near = {k for k in base if any(same_class(k, m) for m in names)}
                if not near:
                    continue
                rep.check(short in near and len(near) == 1, 'selector', '%s(initializer=%s)' % (host.qual.replace('pyclustering.', ''), c.name), '%s:%d' % (f['file'], f['l']),
                          'the initializer %s leads to %s, which uses %s' % (c.name, sym, ', '.join(sorted(near))))


def same_class(a, b):
    return a == b or {a, b} <= {'kmeansplusplus', 'kmeansplus'}


def selector_enum(F, f, p, by, value):
    """enumeration that the cases of a switch over a parameter belong to"""
    todo, seen = [f], []
    while todo:
        g = todo.pop()
        if id(g) in seen:
            continue
        seen.append(id(g))
        for n in cxx.fwalk(g):
            if n['k'] == 'DeclRefExpr' and n.get('dk') == 'EnumConstant' and n.get('ev') == value:
                for e in F.enums.values():
                    if 'indexer' not in e['n'] and [n['n'], value] in [list(v) for v in e['vals']] and (n.get('r') or '').rsplit('::', 1)[0] in (e['q'], e['q'].rpartition('::')[0], n['n']):
                        return e
            elif n['k'] == 'CallExpr' and n.get('r'):
                todo += [h for h in F.defs(n['r']) if h['file'].startswith('ccore/src/interface')]
    return None


def run(rep, tier):
    prog, F = program(), facts()
    rep.rule('enum', 'every member of a numbered choice has the same number in both languages')
    rep.rule('layout', 'every field of a shared structure has the same position and type in both languages')
    rep.rule('fill', 'every field of a shared structure is set, from the option it is named after, before the structure is passed')
    rep.rule('tag', 'the tag of an element type denotes the same type when packing and unpacking, in both languages')
    rep.rule('filled', 'every slot of a result package is set, none beyond its size')
    rep.rule('slot', 'a result is taken from the slot, or native getter, of that name')
    rep.rule('option', 'a parameter of a native entry point reaches the library parameter of that name')
    rep.rule('unused', 'a native entry point uses every parameter')
    rep.rule('selector', 'a numbered choice leads to the native implementation that bears its name')
    check_enums(rep, prog, F)
    package_layout(rep, prog, F)
    check_structs(rep, prog, F)
    check_tags(rep, prog, F)
    native = Native(F, rep)
    rep.count('native entry points', len(native.fns))
    rep.count('named slots', sum(len(v) for v in native.slots.values()))
    check_options(rep, F, native)
    check_selectors(rep, F, native)
    check_slots(rep, prog, F, native)
    check_chosen_class(rep, prog, F, native)
    check_switches(rep, F, native)
    for r, k in (('enum', 60), ('layout', 50), ('fill', 90), ('tag', 12), ('filled', 35), ('slot', 150), ('option', 110), ('unused', 240), ('selector', 12)):
        rep.floor(r, k)
    rep.native = native
    return native
