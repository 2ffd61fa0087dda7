"""P01: every native call matches the native declaration."""

import ast
import re

from .. import cxx, ffi
from ..pexec import show
from ..pymodel import program


def norm(n):
    n = n or ''
    n = re.sub(r'^_[a-z_0-9]+?__', '', n)
    n = re.sub(r'^(p_|m_|self_|_+)', '', n)
    n = n.replace('_', '').lower()
    return n


def leaf_elem(t):
    """innermost element type of a vector type"""
    while True:
        m = re.match(r'^(?:const )?std::vector<(.*?)(?:, std::allocator<.*>)?>(?: ?[&*])?$', t.strip())
        if not m:
            return t.strip()
        t = m.group(1)


def package_elems(f, facts, depth=0):
    """native function -> {package parameter index: set of element types it is read as}"""
    out = {}
    ids = {p['id']: i for i, p in enumerate(f['params'])}
    alias = dict(ids)
    for _ in range(3):
        for n in cxx.fwalk(f):
            if n['k'] == 'Var' and cxx.ch(n):
                for x in cxx.walk(cxx.ch(n)[0]):
                    if x['k'] == 'DeclRefExpr' and x.get('id') in alias and 'pyclustering_package' in n['t'] and '*' in n['t']:
                        alias[n['id']] = alias[x['id']]
    for n in cxx.fwalk(f):
        if n['k'] == 'CXXMemberCallExpr' and n.get('n') == 'extract':
            callee = cxx.ch(n)[0]
            base = cxx.ch(callee)
            root = next((x for x in cxx.walk(base[0]) if x['k'] == 'DeclRefExpr' and x.get('id') in alias), None) if base else None
            if root and len(cxx.ch(n)) > 1:
                out.setdefault(alias[root['id']], set()).add(leaf_elem(cxx.ch(n)[1]['t']))
        # (T *) package->data
        if n['k'] in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr'):
            ct = n.get('ct', '')
            if ct.endswith('*') and 'pyclustering_package' not in ct and 'void' not in ct:
                inner = cxx.ch(n)[0]
                if inner and inner['k'] == 'MemberExpr' and inner.get('n') == 'data':
                    root = next((x for x in cxx.walk(inner) if x['k'] == 'DeclRefExpr' and x.get('id') in alias), None)
                    if root:
                        out.setdefault(alias[root['id']], set()).add(ct.rstrip('* ').replace('const ', ''))
        if n['k'] == 'CXXMemberCallExpr' and n.get('n') == 'at' and cxx.ch(n) and cxx.ch(cxx.ch(n)[0]):
            root = next((x for x in cxx.walk(cxx.ch(n)[0]) if x['k'] == 'DeclRefExpr' and x.get('id') in alias), None)
            t = n.get('t', '')
            if root and 'pyclustering_package' not in t and t in ('double', 'int', 'unsigned long', 'long', 'unsigned int'):
                out.setdefault(alias[root['id']], set()).add(t)
        # handed on to another function of the library
        if depth < 3 and n['k'] == 'CallExpr' and n.get('r'):
            for g in facts.defs(n['r']):
                sub = None
                for j, a in enumerate(cxx.ch(n)[1:]):
                    if a and a['k'] == 'DeclRefExpr' and a.get('id') in alias:
                        sub = sub if sub is not None else package_elems(g, facts, depth + 1)
                        if j in sub:
                            out.setdefault(alias[a['id']], set()).update(sub[j])
    return out


def run(rep, tier):
    facts = cxx.facts()
    prog = program()
    exported = facts.exported()
    traces, failed = ffi.traces()
    rep.rule('symbol', 'the native symbol a wrapper calls is exported by the library')
    rep.rule('arity', 'the number of arguments equals the number of declared parameters')
    rep.rule('argument', 'kind, width and signedness of each argument equal those of the declared parameter')
    rep.rule('element', 'a package is built with the element type its native reader casts to')
    rep.rule('result', 'the declared result type is set on the called symbol, before the call, on every path')
    rep.rule('order', 'an argument is not passed in the slot of another parameter')
    rep.rule('callback', 'the callback prototype equals the native function pointer type')
    rep.count('translation_units', facts.n_tu)
    rep.count('exported_functions', len(exported))
    rep.count('wrapper_paths', len(traces))
    elems = {}
    wrappers_seen = set()
    for f in failed:
        rep.notes.append('not analysed (too many paths): ' + f.qual)
    for tr in traces:
        restype = {}
        for ev in tr.events:
            if ev.kind == 'setattr':
                b, nm, v = ev.a
                s = ffi.symbol(b)
                if s and nm == 'restype':
                    restype[s] = v
                continue
            if ev.kind != 'call':
                continue
            s = ffi.symbol(ev.a[1])
            if not s:
                continue
            wrappers_seen.add((ev.func.qual, s))
            where = ev.func.where(ev.node)
            site = '%s -> %s' % (ev.func.qual, s)
            g = exported.get(s)
            if not rep.check(g is not None and g.get('body') is not None, 'symbol', site, where, 'native symbol %s is not exported by the library' % s):
                continue
            args, kws = ev.a[2], ev.a[3]
            params = g['params']
            if not rep.check(len(args) == len(params) and not kws, 'arity', site, where,
                             '%d argument(s) passed, %s declares %d parameter(s)' % (len(args) + len(kws), s, len(params))):
                continue
            if s not in elems:
                elems[s] = package_elems(g, facts)
            for i, (a, p) in enumerate(zip(args, params)):
                con = '%s #%d %s' % (site, i, p['n'])
                cls, det, inner = ffi.classify_arg(a, tr.state, prog)
                want = ffi.cpp_kind(p['t'], facts)
                is_pkg = 'pyclustering_package' in p['t']
                is_fn = '(*)' in p['t']
                msg = None
                if cls == 'ctype':
                    got = ffi.CT[det]
                    if got[0] != want[0] or got[1] != want[1] or (got[0] == 'i' and got[2] != want[2]):
                        msg = '%s passed for %s' % (det, p['tw'])
                elif cls in ('package', 'struct', 'pointer', 'none', 'callback', 'native'):
                    if cls == 'native' and want[0] != 'p':
                        msg = 'pointer passed for %s' % p['tw']
                    elif cls != 'native' and want[0] != 'p':
                        msg = '%s passed for %s' % (cls, p['tw'])
                    elif is_pkg and cls in ('struct', 'callback'):
                        msg = '%s passed where a package is declared' % cls
                    elif is_fn and cls not in ('callback', 'none'):
                        msg = '%s passed where a function pointer is declared' % cls
                    elif cls == 'callback' and not is_fn:
                        msg = 'callback passed where %s is declared' % p['tw']
                elif cls == 'bytes':
                    if not re.match(r'^(const )?char \*( ?const)?$', p['t'].strip()) and p['t'].replace('const', '').strip() != 'char *':
                        msg = 'bytes passed for %s' % p['tw']
                elif cls in ('int', 'bool'):
                    if want[0] not in ('i', 'b') or want[1] > 32:
                        msg = 'plain %s (passed as a 32-bit int) for %s' % (cls, p['tw'])
                elif cls == 'raw':
                    if want[0] == 'f' or (want[0] == 'i' and want[1] > 32):
                        msg = "value '%s' is passed without a ctypes conversion for %s (default conversion is a 32-bit int)" % (show(a), p['tw'])
                else:
                    msg = 'a %s cannot be passed for %s' % (det or cls, p['tw'])
                rep.check(msg is None, 'argument', con, where, msg)
                if cls == 'package':
                    ct = ffi.ctype_of(det)
                    for et in sorted(elems[s].get(i, ())):
                        k = ffi.cpp_kind(et, facts)
                        ok = ct is not None and ffi.CT.get(ct, ('?',)) == k
                        # signed/unsigned of one width share a representation for indices
                        if ct in ffi.CT and not ok:
                            c = ffi.CT[ct]
                            ok = c[0] == 'i' and k[0] == 'i' and c[1] == k[1]
                        rep.check(ok, 'element', con, where, 'package of %s is read as %s' % (ct or show(det), et))
                if cls == 'callback':
                    check_callback(rep, prog, det, p, con, where)
            check_order(rep, site, where, [ffi.leaf_name(a) for a in args], [p['n'] for p in params])
            # result
            ret = ffi.cpp_kind(g['ret'], facts)
            rt = restype.get(s)
            msg = None
            if ret[0] == 'v' or (ret == ('i', 32, True) and rt is None):
                if rt is not None and rt != ('const', None):
                    msg = 'result type set for a function that returns nothing'
            elif rt is None:
                if not opaque_result(tr, ev, s):
                    msg = 'no result type is set on %s before the call (returns %s, default is a 32-bit int)' % (s, g['retw'])
            elif ret[0] == 'p':
                ct = ffi.ctype_of(rt)
                if not (ffi.is_pointer_type(rt) or ct in ('c_char_p', 'c_wchar_p')):
                    msg = 'result type %s for %s loses the pointer type' % (show(rt), g['retw'])
                elif 'pyclustering_package' in g['ret'] and 'pyclustering_package' not in show(rt):
                    msg = 'result type %s for a package' % show(rt)
                elif 'pyclustering_package' not in g['ret'] and 'pyclustering_package' in show(rt):
                    msg = 'package result type for %s' % g['retw']
            else:
                ct = ffi.ctype_of(rt)
                if ct not in ffi.CT or ffi.CT[ct] != ret:
                    msg = 'result type %s for %s' % (show(rt), g['retw'])
            rep.check(msg is None, 'result', site, where, msg)
    check_python_order(rep, prog)
    rep.count('native_call_sites', len(wrappers_seen))
    rep.floor('symbol', 70)
    rep.floor('argument', 180)
    rep.floor('element', 25)
    rep.floor('result', 70)


def opaque_result(tr, ev, s):
    return False


def check_callback(rep, prog, det, p, con, where):
    if not (isinstance(det, tuple) and len(det) == 2 and isinstance(det[1], ast.Call)):
        return
    m, e = det
    m2 = re.match(r'^(.*?)\(\*\)\((.*)\)$', p['t'])
    if not m2:
        return
    want = [ffi.cpp_kind(m2.group(1))] + [ffi.cpp_kind(x) for x in m2.group(2).split(',') if x.strip()]
    got = []
    for a in e.args:
        src = ast.unparse(a)
        nm = src.split('.')[-1]
        got.append(('p', 64, False) if 'POINTER' in src else ffi.CT.get(nm, ('?', 0, False)))
    rep.check(got == want, 'callback', con, where, 'callback prototype %s for %s' % (ast.unparse(e), p['tw']))


def check_order(rep, site, where, names, params):
    """an argument named after a different parameter than the one it is passed for"""
    np = [norm(x) for x in params]
    for i, n in enumerate(names):
        if not n:
            continue
        a = norm(n)
        others = [j for j, q in enumerate(np) if q == a and j != i]
        bad = others and np[i] != a
        rep.check(not bad, 'order', '%s #%d' % (site, i), where,
                  "'%s' is passed for parameter '%s', but a parameter '%s' exists at position %s" % (n, params[i], params[others[0]] if others else '', others))


def check_python_order(rep, prog):
    """calls from the algorithms into the wrapper layer: same rule, by parameter names"""
    wrappers = {}
    for f in prog.functions():
        if f.module.name.startswith('pyclustering.core') and f.cls is None:
            wrappers[id(f)] = f
    for f in prog.functions():
        if f.module.name.startswith('pyclustering.core'):
            continue
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            g = prog.resolve_expr(f.module, n.func)
            if g is None or id(g) not in wrappers:
                continue
            where = f.where(n)
            names = []
            for a in n.args:
                names.append(a.id if isinstance(a, ast.Name) else a.attr if isinstance(a, ast.Attribute) else None)
            if any(isinstance(a, ast.Starred) for a in n.args):
                continue
            rep.count('wrapper_call_sites')
            site = '%s => %s' % (f.qual, g.qual)
            npos = len(n.args)
            kw = [k.arg for k in n.keywords]
            need = [p for p in g.params if g.default(p) is None]
            ok = npos <= len(g.params) and all(p in g.params[:npos] or p in kw for p in need) and all(k is None or k in g.params for k in kw)
            rep.check(ok or None in kw, 'arity', site, where, 'call does not fit the signature of %s(%s)' % (g.qual, ', '.join(g.params)))
            check_order(rep, site, where, names, g.params[:npos] + [])
            if len(names) and npos <= len(g.params):
                check_order_full(rep, site, where, names, g.params)


def check_order_full(rep, site, where, names, params):
    check_order(rep, site, where, names + [None] * (len(params) - len(names)), params)
