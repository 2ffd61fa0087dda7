"""P24: reading results of an object does not change the object."""

import ast
import re

from .. import pta
from ..pymodel import program

# methods whose purpose is to change the object; every other public method is a reader
WRITER = re.compile(r'^(process|simulate.*|train|insert.*|remove.*|set_.*|add_.*|append.*|collect_.*|initialize|increment|capture_points|merge|notify|enable_.*|disable_.*'
                    r'|split|clear.*|__setstate__|__setitem__|__del__|__init__|__enter__|__exit__|update.*|reset.*)$')
PICTURES = re.compile(r'(visualizer|animator|visualizer_multidim|iterator)$')
EXCEPTIONS = {
    # (class, what is stored): reason
    ('cluster.xmeans.xmeans', 'utils.metric.distance_metric.enable_numpy_usage'): 'the private metric works on numpy arrays for the length of a call',
    ('cluster.xmeans.xmeans', 'utils.metric.distance_metric.disable_numpy_usage'): 'the same',
    ('nnet.som.som', 'nnet.som.som.__download_dump_from_ccore attribute _location'): 'follows from rows and columns, the same every time',
    ('nnet.som.som', 'nnet.som.som._create_connections attribute _neighbors'): 'links of a map with the function neighbourhood, used by the U-matrix only and the same every time',
}


def excepted(short, where, what):
    return (short, where) in EXCEPTIONS or (short, '%s %s' % (where, what)) in EXCEPTIONS


def slice_copy(func, node):
    """the changed object is a local name that only ever holds slices, which are new lists"""
    b = node
    while isinstance(b, (ast.Subscript, ast.Attribute)):
        b = b.value
    if not isinstance(b, ast.Name) or not isinstance(node, ast.Subscript) or node.value is not b:
        return False
    vals = [s.value for s in ast.walk(func.node) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == b.id for t in s.targets)]
    return bool(vals) and all(isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Slice) for v in vals)


def guard(test):
    """attribute names that a test finds unset (None, empty, false) when it holds, and when it does not hold"""
    yes, no = set(), set()
    if isinstance(test, ast.BoolOp):
        for v in test.values:
            y, n = guard(v)
            if isinstance(test.op, ast.And):
                yes |= y
            else:
                no |= n
        return yes, no
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        y, n = guard(test.operand)
        return n, y
    if isinstance(test, ast.Attribute):
        return set(), {test.attr}
    if isinstance(test, ast.Name):
        return set(), {test.id}
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        a, b = test.left, test.comparators[0]
        if isinstance(a, ast.Constant):
            a, b = b, a
        if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'len' and a.args:
            a = a.args[0]
        if isinstance(test.ops[0], (ast.In, ast.NotIn)) and isinstance(b, (ast.Attribute, ast.Name)):
            nm = b.attr if isinstance(b, ast.Attribute) else b.id
            return ({nm}, set()) if isinstance(test.ops[0], ast.NotIn) else (set(), {nm})
        nm = a.attr if isinstance(a, ast.Attribute) else a.id if isinstance(a, ast.Name) else None
        if nm and isinstance(b, ast.Constant) and (b.value is None or b.value == 0):
            if isinstance(test.ops[0], (ast.Is, ast.Eq)):
                return {nm}, set()
            if isinstance(test.ops[0], (ast.IsNot, ast.NotEq, ast.Gt)):
                return set(), {nm}
    return yes, no


def caches(func):
    """names that may stand for a cache: locals, and attributes that some reading method stores"""
    cls = func.cls
    g = func
    while cls is None and getattr(g, 'parent', None) is not None:
        g = g.parent
        cls = g.cls
    out = {n.id for n in ast.walk(func.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    for k in (cls.mro() if cls is not None else ()):
        for m in k.methods.values():
            if WRITER.match(m.name):
                continue
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute):
                    out.add(n.value.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'add', 'update') and isinstance(n.func.value, ast.Attribute):
                    out.add(n.func.value.attr)
    return out


def guarded(func, node):
    """the statement runs only while some attribute is unset: it fills a cache"""
    names = caches(func)
    def inside(body):
        return any(node is y for z in body for y in ast.walk(z))

    def block(body):
        left = False
        for s in body:
            if any(node is y for y in ast.walk(s)):
                if left:
                    return True
                if isinstance(s, ast.If):
                    yes, no = guard(s.test)
                    if inside(s.body):
                        return bool(yes & names) or block(s.body)
                    if inside(s.orelse):
                        return bool(no & names) or block(s.orelse)
                for fld in ('body', 'orelse', 'finalbody'):
                    sub = getattr(s, fld, None)
                    if isinstance(sub, list) and inside(sub):
                        return block(sub)
                return False
            if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)) and guard(s.test)[1] & names:
                left = True
        return False
    return block(func.body)


def from_native(prog, func, node):
    """the stored value is read from the native object"""
    for s in ast.walk(func.node):
        if isinstance(s, ast.Assign) and any(node is y for t in s.targets for y in ast.walk(t)):
            for c in ast.walk(s.value):
                if isinstance(c, ast.Call) and isinstance(c.func, (ast.Name, ast.Attribute)):
                    r = prog.resolve(c.func, func.module) if hasattr(prog, 'resolve') else None
                    nm = ast.unparse(c.func)
                    root = nm.split('.')[0]
                    tgt = func.module.imports.get(root) if hasattr(func.module, 'imports') else None
                    if 'wrapper' in root or 'pyclustering.core' in str(tgt):
                        return True
    return False


def live(p, start):
    """frames a reader reaches through calls that do not fill a cache"""
    out, todo = set(), [start]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        for y, nodes in p.fedges.get(x, {}).items():
            if any(n is None or not guarded(x.func, n) for n in nodes):
                todo.append(y)
    return out


def run(rep, tier):
    prog = program()
    rep.rule('reader', 'a public method that is not meant to change its object stores into nothing that belongs to it, apart from caches filled once and values refreshed from the native object')
    rep.assumptions += ['a local object that the same function has created is not part of the object']
    for kind, x, p in pta.results(prog):
        if kind != 'class' or PICTURES.search(x.name):
            continue
        o = ('inst', x, ('entry', x.qual))
        objs = pta.reachable_objects(p, o)
        short = x.qual.replace('pyclustering.', '')
        setters = {id(m) for k in x.mro() for m in k.setters.values()}
        for m in pta.public_methods(x):
            if m.static or id(m) in setters or WRITER.match(m.name):
                continue
            fr = p.entry_frames.get(('%s.%s' % (x.qual, m.name), id(m.node)))
            if fr is None:
                continue
            rep.count('frames', len(live(p, fr)))
            quals = set()
            bad = None
            for f in sorted(live(p, fr), key=lambda f: (f.func.qual, str(f.ctx))):
                for (ob, what), n in p.fmut.get(f, {}).items():
                    if ob not in objs or ob[0] == 'root' and what.startswith('augmented'):
                        continue
                    if ob[0] != 'inst' and ob[0] != 'root' and isinstance(ob[1], tuple) and ob[1] and ob[1][0] == f.func.qual:
                        continue
                    if ob[0] == 'root' and not what.startswith(('attribute', 'item')) and ob not in p.evidence:
                        continue
                    rep.count('stores')
                    if guarded(f.func, n) or from_native(prog, f.func, n):
                        continue
                    if what.startswith('attribute') and ob[0] == 'inst' and f.func.name == '__init__':
                        continue
                    where = f.func.qual.replace('pyclustering.', '')
                    if excepted(short, where, what) or ob[0] == 'root' and slice_copy(f.func, n):
                        continue
                    key = '%s.%s <- %s %s' % (short, m.name, where, what)
                    bad = bad or (key, f, n, what)
                    rep.bad('reader', key, '%s:%d' % (f.func.file, n.lineno), '%s of %s changes the object: %s in %s' % (m.name, short, what, f.func.qual))
            if not bad:
                rep.ok('reader', '%s.%s' % (short, m.name), m.where() if hasattr(m, 'where') else m.file)
    rep.floor('reader', 350)
