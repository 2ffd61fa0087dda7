"""P04: an error found by native code becomes a Python exception, it never ends the process."""

import re

from .. import cgraph, cxx, ffi
from ..pexec import Exec, TooManyPaths, show, subterms
from ..pymodel import program

# Errors of native code that an exported function may let out, because the wrapped Python code rules the condition out before it calls (P13 decides
# that for the constructor and the methods) or because the native code itself never gets into the condition: text of the error -> (functions, why)
SYNC = {'hsyncnet_create_network', 'syncnet_create_network', 'sync_create_network', 'syncpr_create'}
GRID = {'hsyncnet_create_network', 'legion_create', 'pcnn_create', 'sync_create_network', 'syncnet_create_network', 'syncpr_create'}
RUN = {'hsyncnet_process', 'syncnet_process', 'sync_simulate_static', 'sync_simulate_dynamic', 'syncpr_simulate_static', 'syncpr_simulate_dynamic'}
PP = {'gmeans_algorithm', 'silhouette_ksearch_algorithm', 'xmeans_algorithm'}
INVARIANT = 'cannot happen: '
PYTHON = 'ruled out in Python: '
ANY = None
ALLOWED = {
    'Amount of neurons on each iteration should be the same.': ({'hhn_simulate'}, INVARIANT + 'every stored state comes from the same network'),
    'Amount of objects defined by range should be equal or greater then am': (PP, PYTHON + 'at most as many clusters as points'),
    'Amount of objects should be equal or greater then amount of initializ': (PP, PYTHON + 'at most as many clusters as points'),
    'Input data is empty.': (PP, PYTHON + 'the data is not empty'),
    "Axis is out of matrix's dimension.": ({'gmeans_algorithm'}, INVARIANT + 'the axis is a constant'),
    'Both vectors should have the same size.': ({'gmeans_algorithm'}, INVARIANT + 'both are points of the same data'),
    'Matrix is empty.': ({'gmeans_algorithm'}, INVARIANT + 'a cluster that is split has at least two points'),
    'std::invalid_argument': ({'gmeans_algorithm'}, INVARIANT + 'both are points of the same data'),
    'CURE queue corruption detected': ({'cure_algorithm'}, INVARIANT + 'the queue holds what it was given'),
    'Structure of KD Tree is corrupted': ({'cure_algorithm'}, INVARIANT + 'the tree holds what it was given'),
    'Differetial states should consist of the same number of variables': (RUN | {'hhn_simulate', 'legion_simulate'}, INVARIANT + 'the states of one solver have the same variables'),
    'Dimension of the input data and dimension of the initial cluster cent': (PP | {'kmeans_algorithm'}, PYTHON + 'centers of another dimension are rejected'),
    'kmedians: dimension of the input data and dimension of the initial me': ({'kmedians_algorithm', 'silhouette_ksearch_algorithm'}, PYTHON + 'medians of another dimension are rejected'),
    'Dynamic collection can consist of network states with the same size o': (RUN | {'legion_simulate'}, INVARIANT + 'every stored state comes from the same network'),
    'Forward Euler first-order method is not supported due to low accuracy': ({'hhn_simulate', 'legion_simulate'}, PYTHON + 'the solver is checked'),
    'Not supported solver is used.': ({'legion_simulate'}, PYTHON + 'the solver is checked'),
    'Specified differential solver is not supported.': ({'hhn_simulate'}, PYTHON + 'the solver is checked'),
    'Unknown type of solver': (RUN, PYTHON + 'every member of solve_type is supported'),
    'Grid structure of connection is expected': (GRID, INVARIANT + 'called for grids only'),
    'Invalid number of nodes in the adjacency for': (GRID, PYTHON + 'a grid that does not fit is rejected'),
    'Type of connection is not supported.': (GRID, PYTHON + 'dynamic connections are rejected'),
    'Unknown type of initialization': (SYNC, PYTHON + 'every member of initial_type is supported'),
    'Hyper parameter should be greater than 1.0.': ({'fcm_algorithm'}, PYTHON + 'the parameter is checked'),
    "Incorrect input data type is specified '": ({'dbscan_algorithm', 'optics_algorithm'}, PYTHON + 'the type is converted by name'),
    "Unknown type data is specified": ({'silhouette_ksearch_algorithm'}, INVARIANT + 'the type is a constant'),
    "K max value '": ({'silhouette_ksearch_algorithm'}, PYTHON + 'the range is checked'),
    "K min value '": ({'silhouette_ksearch_algorithm'}, PYTHON + 'the range is checked'),
    "Unknown allocator '": ({'silhouette_ksearch_algorithm'}, PYTHON + 'the algorithm is a member of the enumeration'),
    'Parameter for the probabilistic bound Q(': ({'xmeans_algorithm'}, PYTHON + 'alpha and beta are checked'),
    'Provided ': ({'som_load'}, INVARIANT + 'the state was saved by the same class'),
    "Start index '": (ANY, INVARIANT + 'loops start at zero'),
    'Unknown type of similarity is used.': ({'agglomerative_algorithm'}, PYTHON + 'the link is checked'),
    'invalid size of the pattern, it should be the same as network size': (RUN | {'syncpr_train', 'syncpr_memory_order'}, PYTHON + 'the pattern is checked'),
    'invalid value in the pattern, pattern value should be +1 or -1': (RUN | {'syncpr_train', 'syncpr_memory_order'}, PYTHON + 'the pattern is checked'),
    'pcnn::calculate_states: length of stimulus should be equal to amount ': ({'pcnn_simulate'}, PYTHON + 'the stimulus is checked'),
    'pyclustering_package::at() [': (ANY, INVARIANT + 'packages are built with the types that the function reads (P03)'),
    'pyclustering_package::extract() [': (ANY, INVARIANT + 'packages are built with the types that the function reads (P03)'),
    'std::out_of_range': (GRID | RUN | {'syncpr_train', 'pcnn_simulate', 'legion_simulate', 'syncpr_memory_order', 'hsyncnet_create_network', 'sync_connectivity_matrix', 'sync_local_order',
                                      'sync_dynamic_calculate_local_order', 'syncpr_simulate_static', 'legion_get_size', 'sync_get_size'}, INVARIANT + 'both indexes come from the size of the network'),
}
# functions whose own checks are the only ones for part of what they check: they must turn errors into an error package
GUARDED = {'clique_algorithm', 'kmedoids_algorithm', 'pam_build_algorithm', 'elbow_method_ikpp', 'elbow_method_irnd', 'hhn_dynamic_read'}


def escapes(G, f):
    """{error text: the functions that lead to it} of errors that leave a function"""
    seen, todo, out = set(), [(f, ())], {}
    while todo:
        g, path = todo.pop()
        if id(g) in seen:
            continue
        seen.add(id(g))
        for n, caught in G.calls(g):
            if caught:
                continue
            if n['k'] == 'CXXThrowExpr':
                out.setdefault(cgraph.message(n), (path + (cgraph.plain(g['q']),), '%s:%s' % (g['file'], n.get('l'))))
                continue
            for t in G.targets(n):
                todo.append((t, path + (cgraph.plain(g['q']),)))
    return out, len(seen)


def allowed(message, export):
    for text, (exports, why) in ALLOWED.items():
        if message.startswith(text) and (exports is ANY or export in exports):
            return why
    return None


def via(path):
    names = [p.split('::')[-1] for p in path]
    return ' -> '.join(names if len(names) < 6 else names[:2] + ['...'] + names[-3:])


def handlers(f):
    """catch clauses of a function that catch every standard exception"""
    for n in cxx.fwalk(f):
        if n['k'] == 'CXXTryStmt':
            for k in cxx.ch(n):
                if k and k['k'] == 'CXXCatchStmt':
                    yield n, k


def reports(F, h, null_ok=False):
    """whether a handler returns an error package made of a text on every path, and never throws"""
    rets, bad = 0, None
    body = [k for k in cxx.ch(h) if k]
    for n in cxx.walk(h):
        if n['k'] == 'CXXThrowExpr':
            return 'the handler throws'
        if n['k'] == 'ReturnStmt':
            rets += 1
            calls = [x for x in cxx.walk(n) if x['k'] == 'CallExpr']
            made = [x for x in calls if x.get('r') and makes_text(F, x)]
            if not made and not (null_ok and any(x['k'] == 'CXXNullPtrLiteralExpr' for x in cxx.walk(n))):
                bad = 'the handler returns something else than an error package'
    if not rets or not body or not ends(body[-1]):
        return 'the handler does not return an error package on every path'
    return bad


def ends(n):
    if n['k'] == 'CompoundStmt':
        k = [x for x in cxx.ch(n) if x]
        return bool(k) and ends(k[-1])
    if n['k'] == 'IfStmt':
        k = [x for x in cxx.ch(n) if x]
        return len(k) == 3 and ends(k[1]) and ends(k[2])
    return n['k'] == 'ReturnStmt'


def makes_text(F, call):
    """whether a call makes a package of a text: it returns a package and is given a text (or what it calls does so)"""
    seen, todo = set(), [call]
    while todo:
        x = todo.pop()
        ret, _, pars = (x.get('ft') or '').partition('(')
        if 'pyclustering_package' in ret and re.search(r'\bchar\b|basic_string|std::string', pars):
            return True
        q = x.get('r')
        if q in seen or q is None:
            continue
        seen.add(q)
        for g in F.defs(q):
            if not g.get('tmpl'):
                todo += [y for y in cxx.fwalk(g) if y['k'] in ('CallExpr', 'CXXMemberCallExpr')]
    return False


def run(rep, tier):
    rep.rule('escape', 'an error that can leave an exported function is one that Python or the native code rules out')
    rep.rule('handler', 'the handler of an exported function returns the text of the error as a package on every path')
    rep.rule('wrapper', 'a wrapper raises an exception when native code returns the text of an error')
    rep.rule('noexcept', 'a function that must not throw lets no error out')
    rep.rule('join', 'an error of a parallel task is handed to the thread that waits for it')
    F = cxx.facts()
    G = cgraph.Graph(F)
    guarded = set()
    for name, f in sorted(F.exported().items()):
        if not f.get('body'):
            continue
        out, n = escapes(G, f)
        rep.count('exported functions')
        rep.count('functions in their call graphs', n)
        rep.ok('escape', name, f['file'])
        for message, (path, where) in sorted(out.items()):
            why = allowed(message, name)
            rep.check(why is not None, 'escape', '%s: %s' % (name, message[:60]), where, 'the error "%s" leaves %s (%s) and ends the process' % (message[:60], name, via(path)))
        for t, h in handlers(f):
            guarded.add(name)
            m = reports(F, h, null_ok='pyclustering_package' not in f['ret'])
            rep.check(m is None, 'handler', '%s: %s' % (name, h.get('ct') or '...'), '%s:%s' % (f['file'], h.get('l')), '%s' % m)
    for name in sorted(GUARDED):
        f = F.exported().get(name)
        if f is None:
            continue
        rep.check(name in guarded and not any(allowed(m, name) is None for m in escapes(G, f)[0]) and total(G, f), 'handler', name, f['file'],
                  'an error in %s is not caught' % name)
    for f in F.functions:
        if f.get('noex') and f.get('body') and not f.get('tmpl'):
            out, n = escapes(G, f)
            rep.check(not out, 'noexcept', cgraph.plain(f['q']), f['file'], 'the error "%s" leaves a function that must not throw and ends the process' % next(iter(out), ''))
    joins(rep, F)
    wrappers(rep, F, guarded | GUARDED)
    rep.floor('escape', 60)
    rep.floor('handler', 9)
    rep.floor('wrapper', 5)
    rep.floor('join', 2)


def total(G, f):
    """every call in the function is inside the try block (the only calls outside it are in handlers)"""
    inside = set()
    for t, h in handlers(f):
        for n in cxx.walk(h):
            inside.add(id(n))
    return all(caught or id(n) in inside for n, caught in G.calls(f))


def joins(rep, F):
    """std::async futures are asked for their result"""
    for f in F.functions:
        if not f.get('body') or f.get('tmpl'):
            continue
        asy = [n for n in cxx.fwalk(f) if n['k'] == 'CallExpr' and str(n.get('r', '')) == 'std::async']
        if not asy:
            continue
        got = [n for n in cxx.fwalk(f) if n['k'] == 'CXXMemberCallExpr' and re.match(r'std::(shared_)?future', str(n.get('r', ''))) and str(n['r']).endswith('::get')]
        rep.check(bool(got), 'join', '%s(%s)' % (cgraph.plain(f['q']), len(f['params'])), f['file'], 'the tasks are started with std::async and no future is asked for its result')
    # threads of the pool run tasks; see DESIGN.md


def wrappers(rep, F, guarded):
    prog = program()
    for f in ffi.entries(prog):
        if not f.module.name.startswith('pyclustering.core'):
            continue
        called = {}

        def on_call(ex, c, args, kwargs, st, g, node):
            r = ffi._ext_getattr(ex, c, args, kwargs, st, g, node)
            if r is not None:
                return r
            sym = ffi.symbol(c)
            if sym:
                called[sym] = True
                if sym in guarded:
                    st.heap.setdefault(('err',), {})['sym'] = ('const', sym)
                    g = F.exported().get(sym)
                    if g is not None and 'pyclustering_package' not in g['ret']:
                        return [(st, ('const', None))]
                    return [(st, ('call', c, (), (), ('E',)))]
            if c[0] == 'bound' and c[2].name == 'extract' and c[1][0] == 'inst':
                h = st.heap.get(c[1][1], {})
                if any(len(x) and x[0] == 'call' and x[-1] == ('E',) for v in h.values() if isinstance(v, tuple) for x in subterms(v)):
                    return [(st, ('const', b'native error'))]
            if c == ('ext', 'builtins.isinstance') and args and args[0][0] == 'const' and len(args) == 2:
                t = show(args[1])
                return [(st, ('const', type(args[0][1]).__name__ in t))]
            if c == ('ext', 'builtins.type') and len(args) == 1 and args[0] == ('const', b'native error'):
                return [(st, ('ext', 'builtins.bytes'))]
            return None

        def inline(g, st):
            return not ffi.opaque(g) and g.module.name.startswith('pyclustering.core')
        try:
            res = Exec(prog, inline=inline, on_call=on_call, max_paths=3000).run(f)
        except TooManyPaths:
            rep.count('wrappers with too many paths')
            continue
        for sym in sorted(set(called) & guarded):
            outs = [(s, o) for s, o in res if s.heap.get(('err',), {}).get('sym') == ('const', sym)]
            normal = [o for s, o in outs if o[0] != 'raise']
            text = sym in F.exported() and 'pyclustering_package' in F.exported()[sym]['ret']
            silent = text and [o for s, o in outs if o[0] == 'raise' and not any(x == ('const', b'native error') or x == ('const', 'native error') for x in subterms(o[1]))]
            key = '%s: %s' % (f.qual if hasattr(f, 'qual') else f.name, sym)
            rep.check(not normal and bool(outs), 'wrapper', key, f.where(), 'an error that %s returns as a text is not raised as an exception' % sym)
            if not normal and outs:
                rep.check(not silent, 'wrapper', key + ': text', f.where(), 'the exception does not hold the text of the error')
