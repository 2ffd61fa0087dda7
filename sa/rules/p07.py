"""P07: running the library leaves the caller's arguments unchanged."""

import ast
import re

from .. import cxx, pta
from ..pymodel import program

# parameters that are written by design: the object exists to receive results
OUT_PARAMS = {'observer', 'collector'}
# classes that are building blocks of an algorithm and never meet an object of the caller directly (their arguments are
# covered through the public class that creates them), and pictures/observers whose methods are writers by definition
INTERNAL = re.compile(r'(_block|_directory|_observer|_visualizer|_iterator|_cluster|_descriptor)$')
IN_PLACE = {'pyclustering.cluster.ga_maths.ga_math.set_last_value_to_one(probabilities)':
            'documented to write the argument', }


def lazy_cache(func, node):
    """a store `o.a = ...` guarded by a test that o.a was not set yet: a cache, invisible to the caller"""
    if not isinstance(node, ast.Attribute):
        return False
    for x in ast.walk(func.node):
        if isinstance(x, ast.If):
            t = ast.dump(x.test)
            if "attr='%s'" % node.attr in t and ('NoneType' in t or 'Constant(value=None)' in t or 'Not()' in t):
                if any(node is y for z in x.body for y in ast.walk(z)):
                    return True
            if "attr='%s'" % node.attr in t and any(isinstance(z, ast.Return) for z in x.body):
                return True
    return False


def base_param(root):
    """'q.cls(param).attr:key' -> (qualified entry, parameter)"""
    m = re.match(r'^(.*?)\(([^()]*)\)', root)
    if not m:
        return root, ''
    p = m.group(2)
    rest = root[m.end():]
    if p == '**kwargs' and rest.startswith(':'):
        p = re.match(r':(\w+)', rest).group(1)
    return m.group(1), p


def run(rep, tier):
    prog = program()
    rep.rule('argument', 'no reachable statement stores into an object that may be (part of) an argument of the entry point')
    rep.rule('native-const', 'the native library receives every input package through a pointer to const and never casts that away')
    rep.assumptions += ['numpy functions without an out= argument and constructors of builtin containers do not write their inputs',
                        'callables supplied by the caller are the caller\'s responsibility']
    hits = {}
    for kind, x, p in pta.results(prog):
        rep.count('entry_points')
        rep.count('function_contexts', len(p.frames))
        rep.count('points_to_edges', p.n_edges)
        rep.count('store_sites', len(p.mutations))
        if kind == 'class' and INTERNAL.search(x.name):
            continue
        mod = x.module.name
        for (o, q, what), (f, n) in p.mutations.items():
            if o[0] != 'root':
                continue
            entry, param = base_param(o[1])
            if '__setstate__' in entry or '()' in o[1].split(')', 1)[-1]:
                continue
            if param in OUT_PARAMS or '_observer' in o[1]:
                continue
            if o[1] in IN_PLACE:
                continue
            if mod.startswith('pyclustering.container') and param not in ('data', 'payload', 'point', 'points', 'data_list', 'payload_list'):
                continue
            if param == '**kwargs':
                continue        # the dictionary itself belongs to the callee; its values are tracked by keyword
            if what == 'augmented assignment' and (o not in p.evidence or o[2] >= 2):
                continue
            if what.startswith('attribute') and lazy_cache(f, n):
                continue
            if scalar_param(x, entry, param):
                continue
            hits.setdefault((entry, param, f.qual), []).append((what, f, n))
    # obligations: every parameter of every entry point
    for kind, x, p in pta.results(prog):
        if kind == 'class' and INTERNAL.search(x.name):
            continue
        funcs = [x] if kind == 'func' else ([x.find('__init__')] if x.find('__init__') else []) + list(pta.public_methods(x))
        for f in funcs:
            if f is None or f.name == '__setstate__':
                continue
            name = x.qual if kind == 'func' or f.name == '__init__' else '%s.%s' % (x.qual, f.name)
            for a in f.params[(0 if f.static or kind == 'func' else 1):]:
                bad = [(k, v) for k, v in hits.items() if k[0] == name and k[1] == a]
                if not bad:
                    rep.ok('argument', '%s(%s)' % (name, a), f.file)
    for (entry, param, q), v in sorted(hits.items()):
        what, f, n = v[0]
        rep.bad('argument', '%s(%s) <- %s' % (entry, param, q), '%s:%d' % (f.file, n.lineno),
                '%s in %s may change the %s given to %s' % (what, q, param, entry))
    native(rep)
    rep.floor('argument', 300)
    rep.floor('native-const', 30)


def scalar_param(x, entry, param):
    """a parameter that some function of the entry uses as an index or in integer arithmetic is not a container"""
    funcs = [x] if isinstance(x, pta.Func) else [m for k in x.mro() for m in k.methods.values()]
    for f in funcs:
        last = entry.split('.')[-1]
        if isinstance(x, pta.Func) or f.name == last or (f.name == '__init__' and last == x.name):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Subscript) and any(isinstance(y, ast.Name) and y.id == param for y in ast.walk(n.slice)) and not isinstance(n.slice, ast.Slice):
                    if isinstance(n.slice, ast.Name) or isinstance(n.slice, ast.BinOp):
                        return True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'range' and any(isinstance(y, ast.Name) and y.id == param for a in n.args for y in [a]):
                    return True
    return False


def native(rep):
    facts = cxx.facts()
    for name, f in sorted(facts.exported().items()):
        for p in f['params']:
            t = p['t']
            if 'pyclustering_package' in t and '*' in t and not name.startswith('free_'):
                rep.check(t.startswith('const ') or ' const *' in t, 'native-const', '%s(%s)' % (name, p['n']), f.get('file', ''), 'input package is passed as %s' % t)
    for f in facts.functions:
        for n in cxx.fwalk(f):
            if n['k'] == 'CXXConstCastExpr':
                rep.bad('native-const', 'const_cast in %s' % f['q'], '%s:%d' % (f.get('file', ''), n.get('l', 0)), 'const_cast to %s' % n.get('ct', ''))
