"""Front ends of sa.folds: Python syntax trees and clang syntax trees to the little statement language."""

import ast

from .algebra import P, num, unk, absv, sqrt, inv, pow_, maxv, minv, when, fold, atoms, from_key, subst, vanishes_with
from .folds import Bind, Bool, Clo, Const, It, Ph, Rec, Rows, St, Sym, Tup, Unk, Vec, poly
from .pymodel import Class, Func, Module
from . import cxx

BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.MatMult: '@', ast.FloorDiv: '//', ast.Mod: '%'}
CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.Gt: '>', ast.LtE: '<=', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
DIMS, ROWS = P.atom(('dims',)), P.atom(('rows',))


def raw_sanitise(v):
    """numpy.nan_to_num: 0/0 becomes 0, x/0 a huge number"""
    if not isinstance(v, P):
        return v
    out = P()
    for m, c in v.t.items():
        t = P({m: c})
        for a, e in m:
            if a[0] == 'inv':
                d = from_key(a[1])
                if all(x[0] in ('dims', 'rows') for x in atoms(d)):
                    continue
                s = vanishes_with(d)
                numer = P({tuple(x for x in m if x[0] != a): c})
                if s is not None and subst(numer, s).zero():
                    t = when(d, t)
                else:
                    t = P.atom(('call', 'huge-if-zero', d.key, t.key))
        out = out + t
    return out


class PyFront:
    def __init__(self, prog, module):
        self.prog, self.module = prog, module
        self.subs = {}

    # ---- translation
    def fn(self, f, selfv=None):
        """closure of a Func"""
        front = self if f.module is self.module else self.of(f.module)
        node = f.node
        if f.is_lambda:
            c = Clo(f.params, front.e(node.body), expr=True, front=front, name=f.qual)
        else:
            c = Clo(f.params, front.body(node.body), front=front, name=f.qual)
        for p in f.params:
            d = f.default(p)
            if d is not None:
                c.defaults[p] = Const(d.value) if isinstance(d, ast.Constant) else Unk('default')
                if isinstance(d, ast.Constant) and isinstance(d.value, (int, float)) and not isinstance(d.value, bool):
                    c.defaults[p] = num(d.value)
        c.kwarg = node.args.kwarg.arg if node.args.kwarg else None
        c.selfv = selfv
        c.cls = f.cls
        c.front = front if f.cls is None else front.incls(f.cls)
        if f.cls is not None and c.front is not front:
            c.body = c.front.e(node.body) if f.is_lambda else c.front.body(node.body)
        return c

    def of(self, module):
        r = PyFront(self.prog, module)
        r.subs = self.subs
        return r

    def incls(self, cls):
        r = PyFront(self.prog, self.module)
        r.subs, r.cls = self.subs, cls
        return r

    cls = None

    def mangle(self, n):
        return self.cls.mangle(n) if self.cls is not None else n

    def body(self, stmts):
        out = []
        for s in stmts:
            out.extend(self.s(s))
        return out

    def s(self, s):
        if isinstance(s, ast.Assign):
            v = self.e(s.value)
            if len(s.targets) == 1:
                return [('set', self.t(s.targets[0]), v)]
            return [('set', ('var', '#tmp'), v)] + [('set', self.t(t), ('var', '#tmp')) for t in s.targets]
        if isinstance(s, ast.AnnAssign):
            return [('set', self.t(s.target), self.e(s.value))] if s.value is not None else []
        if isinstance(s, ast.AugAssign):
            return [('aug', self.t(s.target), BIN.get(type(s.op), '?'), self.e(s.value))]
        if isinstance(s, ast.Expr):
            return [('pass',)] if isinstance(s.value, ast.Constant) else [('expr', self.e(s.value))]
        if isinstance(s, ast.Return):
            return [('ret', self.e(s.value) if s.value is not None else None)]
        if isinstance(s, ast.If):
            return [('if', self.e(s.test), self.body(s.body), self.body(s.orelse))]
        if isinstance(s, ast.For):
            return [('for', self.t(s.target), self.e(s.iter), self.body(s.body))] + self.body(s.orelse)
        if isinstance(s, ast.While):
            return [('while', self.e(s.test), self.body(s.body), [])]
        if isinstance(s, ast.With):
            out = []
            for i in s.items:
                if i.optional_vars is not None:
                    out.append(('set', self.t(i.optional_vars), self.e(i.context_expr)))
            return out + self.body(s.body)
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Assert, ast.Global, ast.Delete)):
            return [('pass',)]
        if isinstance(s, ast.Continue):
            return [('continue',)]
        if isinstance(s, ast.Break):
            return [('break',)]
        if isinstance(s, ast.Raise):
            return [('raise',)]
        if isinstance(s, ast.FunctionDef):
            a = s.args
            ps = [x.arg for x in a.posonlyargs + a.args]
            return [('set', ('var', s.name), ('lambda', ps, self.body(s.body), False, {}))]
        names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        return [('opaque', sorted(names))]

    def t(self, t):
        if isinstance(t, ast.Name):
            return ('var', t.id)
        if isinstance(t, (ast.Tuple, ast.List)):
            return ('tuple', [self.t(x) for x in t.elts])
        if isinstance(t, ast.Attribute):
            return ('attr', self.e(t.value), self.mangle(t.attr))
        if isinstance(t, ast.Subscript):
            return ('idx', self.e(t.value), self.e(t.slice))
        return ('var', '#?')

    def dotted(self, e):
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Attribute):
            d = self.dotted(e.value)
            return d + '.' + e.attr if d else None
        return None

    def e(self, e):
        if isinstance(e, ast.Constant):
            return ('const', e.value)
        if isinstance(e, ast.Name):
            return ('var', e.id)
        if isinstance(e, ast.BinOp):
            return ('bin', BIN.get(type(e.op), '?'), self.e(e.left), self.e(e.right))
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.USub):
                return ('neg', self.e(e.operand))
            if isinstance(e.op, ast.Not):
                return ('not', self.e(e.operand))
            return self.e(e.operand) if isinstance(e.op, ast.UAdd) else ('unk', 'operator')
        if isinstance(e, ast.Compare):
            parts, left = [], e.left
            for o, r in zip(e.ops, e.comparators):
                parts.append(('cmp', CMP[type(o)], self.e(left), self.e(r)))
                left = r
            out = parts[-1]
            for p in reversed(parts[:-1]):
                out = ('and', p, out)
            return out
        if isinstance(e, ast.BoolOp):
            vs = [self.e(v) for v in e.values]
            out = vs[-1]
            for v in reversed(vs[:-1]):
                out = ('and' if isinstance(e.op, ast.And) else 'or', v, out)
            return out
        if isinstance(e, ast.IfExp):
            return ('ite', self.e(e.test), self.e(e.body), self.e(e.orelse))
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return ('call', ('name', '#slice'), [self.e(e.value), self.e(e.slice.lower) if e.slice.lower else ('const', None),
                                                     self.e(e.slice.upper) if e.slice.upper else ('const', None), self.e(e.slice.step) if e.slice.step else ('const', None)], {})
            return ('idx', self.e(e.value), self.e(e.slice))
        if isinstance(e, (ast.Tuple, ast.List)):
            return ('tuple', [self.e(x) for x in e.elts])
        if isinstance(e, ast.Lambda):
            return ('lambda', [x.arg for x in e.args.args], self.e(e.body), True, {})
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1:
            g = e.generators[0]
            return ('comp', self.t(g.target), self.e(g.iter), [self.e(c) for c in g.ifs], self.e(e.elt))
        if isinstance(e, ast.NamedExpr):
            return ('assign', self.t(e.target), self.e(e.value))
        if isinstance(e, ast.Attribute):
            d = self.dotted(e)
            if d:
                root = d.split('.')[0]
                if root in self.module.imports and self.prog.resolve_expr(self.module, e) is not None and root != 'self':
                    return ('var', d)
            return ('attr', self.e(e.value), self.mangle(e.attr))
        if isinstance(e, ast.Call):
            if any(isinstance(a, ast.Starred) for a in e.args):
                return ('unk', 'starred call')
            args = [self.e(a) for a in e.args]
            kw = {k.arg: self.e(k.value) for k in e.keywords if k.arg}
            if any(k.arg is None for k in e.keywords):
                kw['**'] = self.e([k.value for k in e.keywords if k.arg is None][0])
            f = e.func
            if isinstance(f, ast.Name):
                return ('call', ('name', f.id), args, kw)
            if isinstance(f, ast.Attribute):
                d = self.dotted(f)
                root = d.split('.')[0] if d else None
                if d and root in self.module.imports:
                    r = self.prog.resolve_expr(self.module, f)
                    if isinstance(r, str):
                        return ('call', ('name', r), args, kw)
                    if isinstance(r, (Func, Class)):
                        return ('call', ('name', d), args, kw)
                if isinstance(f.value, ast.Name) and f.value.id in self.module.classes:
                    return ('call', ('name', d), args, kw)
                return ('mcall', self.e(f.value), self.mangle(f.attr), args, kw)
            return ('call', self.e(f), args, kw)
        return ('unk', type(e).__name__)

    # ---- names
    def lookup(self, name):
        if name in self.subs:
            return self.subs[name]
        m = self.module
        if '.' in name:
            try:
                return self.prog.resolve_expr(m, ast.parse(name, mode='eval').body)
            except SyntaxError:
                return None
        return self.prog.resolve_name(m, name)

    def resolve(self, mach, name, st):
        r = self.lookup(name)
        if isinstance(r, Func):
            return self.fn(r)
        if isinstance(r, Class):
            return Sym('class:' + r.qual)
        if isinstance(r, tuple) and r[0] == 'clsattr':
            return Const(r[2])
        if isinstance(r, Module):
            return Sym('module:' + r.name)
        if isinstance(r, str):
            return Sym(r)
        if r is not None and not isinstance(r, tuple):
            return r
        if name in ('True', 'False', 'None'):
            return Const({'True': True, 'False': False, 'None': None}[name])
        if name in ('abs', 'max', 'min', 'sum', 'len', 'float', 'int', 'list', 'tuple', 'range', 'zip', 'map', 'pow', 'str', 'bool'):
            return Sym('builtins.' + name)
        return Unk('name ' + name)

    def attr(self, mach, o, name, st):
        if isinstance(o, Vec):
            if name == 'shape':
                return Tup([o.hi - o.lo] if o.nd == 1 else [ROWS, o.hi - o.lo])
            if name == 'ndim':
                return num(o.nd)
            if name == 'size':
                return (o.hi - o.lo) if o.nd == 1 else (o.hi - o.lo) * ROWS
            if name == 'T' and o.nd == 1:
                return o
        if isinstance(o, P) and name == 'T':
            return o
        if isinstance(o, Rows):
            if name == 'T':
                return o
            if name == 'shape':
                return Tup([ROWS])
        if isinstance(o, Rec):
            if (o.id, name) in st.fields:
                return st.fields[(o.id, name)]
            if isinstance(o.cls, Class):
                f = o.cls.find(name)
                if f is not None:
                    c = self.fn(f, selfv=o)
                    return c
        if isinstance(o, Sym) and o.name.startswith('class:'):
            cls = self.prog.cls(o.name[6:])
            if cls is not None and cls.find_attr(name):
                return Const(name)
        if isinstance(o, Sym) and name == 'restype':
            return Unk('restype')
        return Unk('attribute ' + name)

    def method(self, mach, o, name, args, kw, st, e):
        if isinstance(o, Rec) and isinstance(o.cls, Class):
            if (o.id, name) in st.fields:
                yield from mach.call(st.fields[(o.id, name)], args, kw, st)
                return
            f = o.cls.find(name)
            if f is not None:
                yield from mach.call(self.fn(f, selfv=None if f.static else o), args, kw, st)
                return
        if isinstance(o, Rec) and o.cls == 'dict':
            if name == 'get' and args and isinstance(args[0], Const):
                d = args[1] if len(args) > 1 else Const(None)
                yield st.fields.get((o.id, ('item', args[0].v)), d), st
                return
        if isinstance(o, Vec):
            r = self.numpy(mach, name, [o] + args, kw)
            if r is None and name in ('copy', 'astype', 'tolist', 'flatten', 'ravel'):
                r = o
            yield (r if r is not None else Unk('method ' + name)), st
            return
        if isinstance(o, Rows):
            if name in ('transpose', 'copy'):
                yield o, st
                return
        if isinstance(o, Rec) and o.cls == 'ccore':
            n = st.copy()
            n.calls = n.calls + ((name, tuple(args), dict(kw)),)
            yield Rec('handle'), n
            return
        if isinstance(o, Rec) and o.cls in ('builder', 'extractor') and name in ('create', 'extract'):
            yield o.const['of'], st
            return
        yield Unk('method ' + name), st

    def construct(self, mach, cls, args, st, kw=None):
        r = Rec(cls)
        f = cls.find('__init__')
        if f is None:
            yield r, st
            return
        for _, n in mach.call(self.fn(f, selfv=r), args, kw or {}, st):
            yield r, n

    def numpy(self, mach, name, args, kw):
        x = args[0] if args else None
        un = {'abs': absv, 'absolute': absv, 'fabs': absv, 'sqrt': sqrt, 'square': lambda v: v * v, 'negative': lambda v: -v, 'nan_to_num': raw_sanitise}
        if name in un and len(args) == 1 and not kw:
            return mach.lift(un[name], x)
        bi = {'subtract': '-', 'add': '+', 'multiply': '*', 'power': '**', 'float_power': '**', 'dot': '@', 'inner': '@'}
        if name in bi and len(args) == 2 and not kw:
            if name in ('dot', 'inner') and any(isinstance(a, Vec) and a.nd == 2 for a in args):
                return Unk('product of matrices')
            return mach.arith(bi[name], *args)
        if name in ('divide', 'true_divide') and len(args) == 2:
            w, o = kw.get('where'), kw.get('out')
            if w is None:
                return mach.div(*args)
            w = Vec(w) if isinstance(w, Bool) else w
            if isinstance(w, Vec) and isinstance(w.el, Bool) and w.el.lit and w.el.lit[0] == 'nz' and w.el.lit[2]:
                d = from_key(w.el.lit[1])
                if isinstance(o, Vec) and isinstance(o.el, P) and o.el.zero():
                    return mach.lift(lambda a, b: when(d, a * inv(b)), *args)
            return Unk('division under a condition')
        if name in ('maximum', 'fmax') and len(args) == 2:
            return mach.lift(maxv, *args)
        if name in ('minimum', 'fmin') and len(args) == 2:
            return mach.lift(minv, *args)
        if name == 'where' and len(args) == 3 and isinstance(x, Vec) and isinstance(x.el, Bool) and x.el.lit and x.el.lit[0] == 'nz':
            d = from_key(x.el.lit[1])
            a, b = args[1:] if x.el.lit[2] else (args[2], args[1])
            return mach.lift(lambda p, q: q + when(d, p - q), a, b)
        if name in ('array', 'asarray', 'asanyarray', 'ravel', 'ascontiguousarray', 'copy', 'float64', 'atleast_1d') and isinstance(x, (Vec, P, Rows)):
            return x
        if name in ('zeros_like', 'ones_like') and isinstance(x, Vec):
            return Vec(num(0 if name[0] == 'z' else 1), x.lo, x.hi, x.nd)
        if name in ('zeros', 'ones'):
            if isinstance(x, Tup) and x.items:
                return Vec(num(0 if name[0] == 'z' else 1), P(), poly(x.items[-1]), len(x.items))
            if isinstance(x, P):
                return Vec(num(0 if name[0] == 'z' else 1), P(), x)
        if name in ('sum', 'max', 'amax', 'min', 'amin', 'mean', 'nansum', 'fsum', 'nanmax'):
            op = {'amax': 'max', 'amin': 'min', 'mean': 'sum', 'nansum': 'sum', 'fsum': 'sum', 'nanmax': 'max'}.get(name, name)
            axis = kw.get('axis', args[1] if len(args) > 1 else None)
            if set(kw) - {'axis'}:
                return Unk('arguments of ' + name)
            if not isinstance(x, Vec):
                return x if isinstance(x, P) else Unk('fold')
            ax = None
            if axis is not None and not (isinstance(axis, Const) and axis.v is None):
                p = poly(axis)
                if not p.is_const():
                    return Unk('axis')
                ax = int(p.value())
            if name == 'nansum':
                x = mach.lift(raw_sanitise, x)
            n = x.hi - x.lo
            if x.nd == 1:
                r = mach.total(op, x)
                return r * inv(n) if name == 'mean' and isinstance(r, P) else r
            if ax in (1, -1):
                r = mach.total(op, x)
                if name == 'mean' and isinstance(r, P):
                    r = r * inv(n)
                return Rows(r)
            if ax in (0, -2):
                return Vec(P.atom(('call', 'column-' + op, poly(x.el).key)), x.lo, x.hi, 1)
            return P.atom(('call', 'all-' + op, poly(x.el).key))
        if name == 'ptp' and isinstance(x, Vec) and x.nd == 2:
            return Vec(P.atom(('call', 'column-max', poly(x.el).key)) - P.atom(('call', 'column-min', poly(x.el).key)))
        if name in ('transpose',) and isinstance(x, Rows):
            return x
        if name == 'norm' and isinstance(x, Vec):
            o = kw.get('ord', args[1] if len(args) > 1 else None)
            if isinstance(o, P) and not o.is_const() or (isinstance(o, Const) and o.v not in (None,)):
                return Unk('norm')
            if x.nd == 2 and not (isinstance(kw.get('axis'), P) and kw['axis'].is_const() and kw['axis'].value() in (1, -1)):
                return Unk('norm of a matrix')
            v = o.value() if isinstance(o, P) else 2
            r = {2: lambda: sqrt(mach.total('sum', mach.lift(lambda a: a * a, x))), 1: lambda: mach.total('sum', mach.lift(absv, x))}.get(v, lambda: Unk('norm'))()
            return Rows(r) if x.nd == 2 else r
        if name in ('inf', 'errstate'):
            return Unk(name)
        return None

    def builtin(self, mach, f, args, kw, st):
        """value of a call of a well-known function, or None"""
        name = f[1] if isinstance(f, tuple) and f[0] == 'name' else f.name if isinstance(f, Sym) else None
        if name is None:
            return None
        if isinstance(f, tuple):
            r = self.lookup(name)
            if isinstance(r, (Func, Class)):
                if isinstance(r, Class):
                    if r.name == 'package_builder':
                        b = Rec('builder')
                        b.const['of'] = args[0]
                        return b
                    if r.name == 'package_extractor':
                        b = Rec('extractor')
                        b.const['of'] = args[0]
                        return b
                    return None
                if r.qual.endswith('ccore_library.get'):
                    return Rec('ccore')
                return None
            if isinstance(r, (Sym, Clo)):
                return None
            if isinstance(r, str):
                name = r
            elif isinstance(r, tuple) and r[0] == 'global' and name == 'metric_callback':
                return args[0]
        if name.startswith('builtins.'):
            name = name[9:]
        if name.startswith('ctypes.') and len(args) == 1:
            return args[0]
        if name.startswith('numpy.'):
            r = self.numpy(mach, name.split('.')[-1], args, kw)
            return r if r is not None else Unk(name)
        if name.startswith('math.'):
            n = name.split('.')[-1]
            if n in ('sqrt', 'fabs', 'pow', 'fsum'):
                if n == 'pow':
                    return mach.arith('**', *args)
                if n == 'fsum':
                    return mach.total('sum', args[0])
                return mach.lift(sqrt if n == 'sqrt' else absv, *args)
            if n == 'dist' and len(args) == 2:
                return sqrt(poly(mach.total('sum', mach.lift(lambda a, b: (a - b) * (a - b), *args))))
            return Unk(name)
        if name.startswith('operator.') or name.startswith('functools.') or name.startswith('itertools.'):
            return Unk(name)
        x = args[0] if args else None
        if name == 'abs' and len(args) == 1:
            return mach.lift(absv, x)
        if name == 'pow' and len(args) == 2:
            return mach.arith('**', *args)
        if name == 'len' and len(args) == 1:
            if isinstance(x, Vec):
                return (x.hi - x.lo) if x.nd == 1 else ROWS
            if isinstance(x, Tup):
                return num(len(x.items))
            if isinstance(x, Rows):
                return ROWS
            return Unk('len')
        if name in ('float', 'list', 'tuple', 'iter') and len(args) == 1:
            return x
        if name == 'int':
            return Unk('int') if not (isinstance(x, P) and x.is_const()) else x
        if name == 'range':
            ps = [poly(a) for a in args]
            lo, hi = (P(), ps[0]) if len(ps) == 1 else ps[:2]
            if len(ps) == 3 and not (ps[2].is_const() and ps[2].value() == 1):
                return Unk('range with a step')
            return Vec(P.atom(('k',)), lo, hi)
        if name in ('zip',):
            if not all(isinstance(a, Vec) and a.nd == 1 for a in args) or not args:
                return Unk('zip')
            lo, hi = args[0].lo, args[0].hi
            if any((a.lo, a.hi) != (lo, hi) for a in args):
                # shifted against each other
                d = [a.hi - a.lo for a in args]
                if all(x2 == d[0] for x2 in d) or True:
                    base = min(args, key=lambda a: repr((a.hi - a.lo).key))
                    els = []
                    for a in args:
                        sh = a.lo - base.lo
                        if not sh.is_const() or not isinstance(a.el, P):
                            return Unk('zip of vectors of different length')
                        n = int(sh.value())
                        els.append(subst(a.el, lambda z, n=n: P.atom((z[0], z[1], z[2] + n)) if z[0] == 'el' else None))
                    return Vec(Tup(els), base.lo, base.hi)
            return Vec(Tup([a.el for a in args]), lo, hi)
        if name == 'enumerate':
            return Vec(Tup([P.atom(('k',)), x.el]), x.lo, x.hi) if isinstance(x, Vec) and x.nd == 1 and len(args) == 1 else Unk('enumerate')
        if name == 'map' and len(args) >= 2:
            vs = args[1:]
            if all(isinstance(v, Vec) and v.nd == 1 and (v.lo, v.hi) == (vs[0].lo, vs[0].hi) for v in vs):
                if isinstance(x, Sym):
                    r = self.builtin(mach, x, [v.el for v in vs], {}, st)
                    return Vec(r, vs[0].lo, vs[0].hi) if r is not None else Unk('map')
                outs = [v for v, _ in mach.call(x, [v.el for v in vs], {}, st)]
                if len(outs) == 1:
                    return Vec(outs[0], vs[0].lo, vs[0].hi)
            return Unk('map')
        if name == 'sum' and isinstance(x, Vec) and x.nd == 1:
            r = mach.total('sum', x)
            return mach.arith('+', r, args[1]) if len(args) > 1 else r
        if name in ('max', 'min'):
            if len(args) == 1 and isinstance(x, Vec) and x.nd == 1 and not (set(kw) - {'default'}):
                return mach.total(name, x)
            if len(args) == 1 and isinstance(x, Tup):
                args = x.items
            if len(args) >= 2 and not kw:
                r = args[0]
                for y in args[1:]:
                    r = mach.lift(maxv if name == 'max' else minv, r, y)
                return r
            return Unk(name)
        if name == 'sorted' or name == 'reversed':
            return Unk(name)
        if name == 'type':
            return Const('type:%s' % ('vector' if isinstance(x, Vec) else 'number' if isinstance(x, P) else '?'))
        if name == 'isinstance':
            return Bool(False) if isinstance(x, Vec) and 'builtins.' in repr([getattr(a, 'name', '') for a in (args[1].items if isinstance(args[1], Tup) else args[1:])]) and not any(
                getattr(a, 'name', '') in ('builtins.list', 'builtins.tuple', 'numpy.ndarray') for a in (args[1].items if isinstance(args[1], Tup) else args[1:])) else Bool()
        if name == '#slice':
            if isinstance(x, Vec) and x.nd == 1:
                lo = poly(args[1]) if not (isinstance(args[1], Const) and args[1].v is None) else x.lo
                hi = x.hi if isinstance(args[2], Const) and args[2].v is None else poly(args[2])
                if not (isinstance(args[3], Const) and args[3].v is None):
                    return Unk('slice with a step')
                if hi.is_const() and hi.value() < 0:
                    hi = x.hi + hi
                return Vec(x.el, lo, hi, 1, x.name)
            return Unk('slice')
        if name in ('print', 'super', 'set', 'dict', 'str', 'hasattr', 'callable', 'open'):
            return Unk(name)
        return None


# ------------------------------------------------------------------------------------------------ C++

class CxxFront:
    def __init__(self, facts):
        self.F = facts

    def fn(self, f):
        c = Clo(['%d' % p['id'] for p in f['params']], self.block(f['body']), front=self, name=f['q'])
        return c

    # names are the ids of the declarations
    def block(self, n):
        if n is None:
            return []
        if n['k'] == 'CompoundStmt':
            out = []
            for c in cxx.ch(n):
                out.extend(self.s(c))
            return out
        return self.s(n)

    def s(self, n):
        if n is None:
            return []
        k = n['k']
        c = cxx.ch(n)
        if k == 'CompoundStmt':
            return [('block', self.block(n))]
        if k == 'DeclStmt':
            return [x for d in n.get('d') or [] if d['k'] == 'Var' for x in self.decl(d)]
        if k == 'ReturnStmt':
            return [('ret', self.e(c[0]) if c and c[0] else None)]
        if k == 'IfStmt':
            pre = self.s(c[0]) if c[0] else []
            return pre + [('if', self.e(c[1]), self.block(c[2]), self.block(c[3]) if len(c) > 3 else [])]
        if k == 'CXXForRangeStmt':
            v = n['v']
            return [('for', ('var', '%d' % v['id']), self.e(c[0]), self.block(c[1]))]
        if k == 'ForStmt':
            init, cond, inc, body = self.forparts(n)
            return (self.s(init) if init else []) + [('while', self.e(cond) if cond else ('const', True), self.block(body), [('expr', self.e(inc))] if inc else [])]
        if k == 'WhileStmt':
            return [('while', self.e(c[-2]), self.block(c[-1]), [])]
        if k == 'ContinueStmt':
            return [('continue',)]
        if k == 'BreakStmt':
            return [('break',)]
        if k == 'NullStmt':
            return [('pass',)]
        if k == 'CXXThrowExpr':
            return [('raise',)]
        if k == 'SwitchStmt':
            cases, cur = [], None
            conds = [x for x in c if x is not None]
            for x in cxx.ch(conds[-1]):
                while x is not None and x['k'] in ('CaseStmt', 'DefaultStmt'):
                    xc = cxx.ch(x)
                    if x['k'] == 'CaseStmt':
                        val = xc[0].get('n') if xc[0]['k'] == 'DeclRefExpr' else xc[0].get('v')
                        sub = xc[-1]
                    else:
                        val, sub = None, xc[-1] if xc else None
                    cur = [val, []]
                    cases.append(cur)
                    x = sub
                if x is not None and cur is not None:
                    cur[1].extend(self.s(x))
            # fall through: a case without statements continues with the next one
            for i in range(len(cases) - 2, -1, -1):
                if not cases[i][1]:
                    cases[i][1] = cases[i + 1][1]
            return [('switch', self.e(conds[0]), [(v, b) for v, b in cases])]
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n.get('op', '').endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
            if n['op'] == '=':
                return [('set', self.e(c[0]), self.e(c[1]))]
            return [('aug', self.e(c[0]), n['op'][:-1], self.e(c[1]))]
        if k in ('CXXTryStmt', 'GotoStmt', 'DoStmt'):
            return [('opaque', None)]
        return [('expr', self.e(n))]

    def decl(self, d):
        c = cxx.ch(d)
        if c and c[0] is not None:
            v = self.e(c[0])
            # default construction of a vector stays empty
            return [('set', ('var', '%d' % d['id']), v)]
        return [('set', ('var', '%d' % d['id']), ('unk', 'uninitialised variable'))]

    @staticmethod
    def forparts(n):
        c = cxx.ch(n)
        if len(c) == 5:
            return c[0], c[2], c[3], c[4]
        return c[0], c[1], c[2], c[3]

    def e(self, n):
        if n is None:
            return ('unk', 'nothing')
        k = n['k']
        c = cxx.ch(n)
        if k in ('IntegerLiteral', 'FloatingLiteral', 'CXXBoolLiteralExpr'):
            v = n.get('v')
            if isinstance(v, str):
                try:
                    v = float(v)
                except ValueError:
                    v = {'true': True, 'false': False}.get(v)
            if k == 'CXXBoolLiteralExpr':
                v = bool(v)
            return ('const', v)
        if k == 'CXXNullPtrLiteralExpr':
            return ('const', None)
        if k == 'DeclRefExpr':
            if (n.get('r') or '').startswith('std::placeholders::_'):
                return ('var', n['r'])
            if n.get('dk') in ('Var', 'ParmVar') and n.get('id') is not None:
                return ('var', '%d' % n['id'])
            if n.get('dk') == 'EnumConstant':
                return ('var', 'enum:' + n['n'])
            return ('var', 'fn:' + (n.get('r') or n.get('n', '')) + '|' + (n.get('targs') or '') + '|' + (n.get('ft') or ''))
        if k in ('ParenExpr', 'ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr',
                 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'SubstNonTypeTemplateParmExpr', 'CXXDefaultArgExpr'):
            t = n.get('ct') or n.get('t') or ''
            if k in ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr') and t in ('int', 'unsigned int', 'long', 'float', 'char', 'short'):
                return ('call', ('name', '#narrow:' + t), [self.e(c[0])], {})
            return self.e(c[0]) if c else ('unk', k)
        if k == 'UnaryOperator':
            op = n.get('op')
            if op == '-':
                return ('neg', self.e(c[0]))
            if op == '!':
                return ('not', self.e(c[0]))
            if op == '*':
                return ('deref', self.e(c[0]))
            if op in ('&', '+'):
                return self.e(c[0])
            if op in ('++', '--'):
                return ('incr', self.e(c[0]), op[0], bool(n.get('post')))
            return ('unk', 'operator ' + str(op))
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            op = n.get('op')
            if op in ('&&', '||'):
                return ('and' if op == '&&' else 'or', self.e(c[0]), self.e(c[1]))
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return ('cmp', op, self.e(c[0]), self.e(c[1]))
            if op == '=':
                return ('assign', self.e(c[0]), self.e(c[1]))
            if op.endswith('='):
                return ('assign', self.e(c[0]), ('bin', op[:-1], self.e(c[0]), self.e(c[1])))
            if op == ',':
                return ('unk', 'comma')
            return self.typed(n, ('bin', op, self.e(c[0]), self.e(c[1])))
        if k == 'ConditionalOperator':
            return ('ite', self.e(c[0]), self.e(c[1]), self.e(c[2]))
        if k == 'ArraySubscriptExpr':
            return ('idx', self.e(c[0]), self.e(c[1]))
        if k == 'CXXOperatorCallExpr':
            op = n.get('op')
            if op == '*' and len(c) == 1:
                return ('deref', self.e(c[0]))
            if op == '[]':
                return ('idx', self.e(c[0]), self.e(c[1]))
            if op in ('++', '--'):
                return ('incr', self.e(c[0]), op[0], len(c) > 1)
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return ('cmp', op, self.e(c[0]), self.e(c[1]))
            if op in ('+', '-') and len(c) == 2:
                return ('bin', op, self.e(c[0]), self.e(c[1]))
            if op == '+=':
                return ('assign', self.e(c[0]), ('bin', '+', self.e(c[0]), self.e(c[1])))
            if op == '()':
                return ('mcall', self.e(c[0]), '()', [self.e(x) for x in c[1:]], {})
            if op == '=':
                return ('assign', self.e(c[0]), self.e(c[1]))
            return ('unk', 'operator ' + str(op))
        if k == 'CXXMemberCallExpr':
            m = c[0]
            mc = cxx.ch(m) if m else []
            base = self.e(mc[0]) if mc and mc[0] is not None else ('var', 'this')
            return ('mcall', base, n.get('n') or m.get('n'), [self.e(x) for x in c[1:]], {})
        if k == 'MemberExpr':
            return ('attr', self.e(c[0]) if c and c[0] else ('var', 'this'), n.get('n'))
        if k == 'CXXThisExpr':
            return ('var', 'this')
        if k == 'CallExpr':
            r = n.get('r')
            if r is None:
                return ('call', self.e(c[0]), [self.e(x) for x in c[1:]], {})
            f = c[0] if c else {}
            return ('call', ('name', 'fn:' + r + '|' + (n.get('targs') or (f or {}).get('targs') or '') + '|' + (n.get('ft') or '')), [self.e(x) for x in c[1:]], {})
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            t = n.get('t') or ''
            r = n.get('r') or ''
            cls = r.rsplit('::', 1)[0]
            if len(c) == 1 and self.copies(n):
                return self.e(c[0])
            return ('new', (t, r, n.get('ft') or ''), [self.e(x) for x in c])
        if k == 'CXXNewExpr':
            return self.e(c[-1]) if c else ('unk', 'new')
        if k == 'LambdaExpr':
            return ('lambda', ['%d' % p['id'] for p in n.get('params', [])], self.block(c[-1]), False, {})
        if k == 'InitListExpr':
            return ('tuple', [self.e(x) for x in c])
        return ('unk', k)

    def typed(self, n, e):
        """integer arithmetic on two integers loses the fraction of a division"""
        if e[1] == '/' and not any(x in (n.get('t') or '') for x in ('double', 'float', 'dependent')):
            return ('bin', '//', e[2], e[3])
        return e

    @staticmethod
    def copies(n):
        """constructions that keep the value: copies, moves, conversions of iterators, wrapping in std::function"""
        t, r, ft = n.get('t') or '', n.get('r') or '', n.get('ft') or ''
        if 'std::function<' in t or '__normal_iterator' in t or 'std::_Bind' in t or '(lambda' in t:
            return True
        arg = ft[ft.find('(') + 1:ft.rfind(')')] if '(' in ft else ''
        base = arg.replace('const ', '').replace('&', '').strip()
        return base == t.replace('const ', '').strip()

    # ---- names
    def resolve(self, mach, name, st):
        if name.startswith('std::placeholders::_'):
            return Ph(int(name.rsplit('_', 1)[1]))
        if name.startswith('enum:'):
            return Const(name[5:])
        if name.startswith('fn:'):
            q, targs, ft = name[3:].split('|', 2)
            f = self.find(q, targs)
            if f is not None:
                return self.fn(f)
            return Sym(name)
        if name == 'this':
            return Unk('this')
        return Unk('name')

    def find(self, q, targs):
        ds = self.F.defs(q)
        if not ds:
            return None
        if targs:
            m = [f for f in ds if (f.get('targs') or '') == targs]
            if m:
                return m[0]
        m = [f for f in ds if not f.get('tmpl')]
        return m[0] if len(m) == 1 else (m[0] if m else None)

    def attr(self, mach, o, name, st):
        if isinstance(o, Rec):
            return st.fields.get((o.id, name), Unk('field ' + str(name)))
        return Unk('field ' + str(name))

    def builtin(self, mach, f, args, kw, st):
        name = f[1] if isinstance(f, tuple) and f[0] == 'name' else f.name if isinstance(f, Sym) else None
        if name is None:
            return None
        if name.startswith('#narrow:'):
            return args[0] if isinstance(args[0], P) and args[0].is_const() and args[0].value().denominator == 1 else P.atom(('call', 'narrowed to ' + name[8:], poly(args[0]).key)) if isinstance(args[0], P) else args[0]
        if not name.startswith('fn:'):
            return None
        q, targs, ft = name[3:].split('|', 2)
        base = q.split('::')[-1]
        if q.startswith('pyclustering::') and self.find(q, targs):
            return None
        if base in ('abs', 'fabs', 'labs') and len(args) == 1:
            if base != 'fabs' and not any(t in ft for t in ('double', 'float')):
                return P.atom(('call', 'integer abs', poly(args[0]).key))
            return mach.lift(absv, args[0])
        if base == 'sqrt':
            return mach.lift(sqrt, args[0])
        if base == 'pow':
            return mach.arith('**', *args)
        if base in ('max', 'fmax', 'min', 'fmin') and len(args) == 2:
            return mach.lift(maxv if 'max' in base else minv, *args)
        if base in ('move', 'forward', 'ref', 'cref') and len(args) == 1:
            return args[0]
        if base == 'bind':
            return Bind(args[0], args[1:])
        if base == 'size' and len(args) == 1 and isinstance(args[0], Vec):
            return args[0].hi - args[0].lo
        if base in ('begin', 'cbegin', 'end', 'cend') and len(args) == 1 and isinstance(args[0], Vec):
            return It(args[0], args[0].lo if 'begin' in base else args[0].hi)
        if base == 'next' and args and isinstance(args[0], It):
            return It(args[0].vec, args[0].pos + (poly(args[1]) if len(args) > 1 else num(1)))
        if base == 'distance' and len(args) == 2 and all(isinstance(a, It) for a in args):
            return args[1].pos - args[0].pos
        if base == 'create_package' and len(args) == 1:
            return args[0]
        if base == 'inner_product' and len(args) in (4, 6) and all(isinstance(a, It) for a in args[:3]):
            a, b, c, init = args[:4]
            if b.pos == a.vec.hi and a.pos == c.pos == P():
                ops = args[4:] or (None, None)
                pe = [(x, st) for x in ([poly(a.vec.el) * poly(c.vec.el)] if ops[1] is None else [])] or list(mach.call(ops[1], [a.vec.el, c.vec.el], {}, st))
                if len(pe) == 1 and isinstance(pe[0][0], P):
                    if ops[0] is None or (isinstance(ops[0], Sym) and 'plus' in ops[0].name):
                        return poly(init) + fold('sum', P(), a.vec.hi, pe[0][0])
            return Unk('inner_product')
        if self.find(q, targs) is None:
            return Unk('function ' + base)
        return None

    def method(self, mach, o, name, args, kw, st, e):
        if name == '()':
            if isinstance(o, Rec) and (o.id, 'm_functor') in st.fields:
                ds = [f for f in self.F.by_q.get('pyclustering::utils::metric::distance_metric<std::vector<double>>::operator()', []) if f.get('body')]
                if ds:
                    c = self.fn(ds[0])
                    c.env = {'this': o}
                    yield from mach.call(c, args, {}, st)
                    return
            yield from mach.call(o, args, kw, st)
            return
        if isinstance(o, Vec):
            if name in ('size', 'length') and o.nd == 1:
                yield o.hi - o.lo, st
                return
            if name in ('begin', 'cbegin', 'end', 'cend'):
                yield It(o, o.lo if 'begin' in name else o.hi), st
                return
            if name == 'at':
                yield mach.index(o, args[0], st), st
                return
            if name == 'empty':
                yield mach.compare('==', o.hi - o.lo, P()), st
                return
            if name == 'extract' and e[3] and e[3][0][0] == 'var':
                n = st.copy()
                n.env[e[3][0][1]] = o
                yield Unk('void'), n
                return
        if isinstance(o, Rec):
            t = o.cls if isinstance(o.cls, str) else ''
            ds = [f for f in self.F.by_q.get(t + '::' + str(name), []) if f.get('body') and not f.get('tmpl')]
            if len(ds) == 1:
                c = self.fn(ds[0])
                c.env = {'this': o}
                yield from mach.call(c, args, {}, st)
                return
        yield Unk('method ' + str(name)), st

    def construct(self, mach, what, args, st):
        t, r, ft = what
        ds = [f for f in self.F.by_q.get(r, []) if not f.get('tmpl') and (f.get('body') or f.get('inits'))]
        ds = [f for f in ds if len(f['params']) == len(args)]
        if t.startswith('std::vector<'):
            yield (Vec(P(), P(), P()) if not args else Unk('vector')), st
            return
        if not ds:
            yield Unk('construction of ' + t[:40]), st
            return
        f = ds[0]
        obj = Rec(t)
        env = {'%d' % p['id']: v for p, v in zip(f['params'], args)}
        env['this'] = obj
        inner = st.copy()
        inner.env = env
        self.inits(mach, f, obj, inner)
        out = st.copy()
        out.fields = inner.fields
        yield obj, out

    def inits(self, mach, f, obj, st):
        for i in f.get('inits', []):
            c = cxx.ch(i)
            if i.get('base') and c and c[0] is not None:
                x = c[0]
                if x['k'] == 'CXXConstructExpr' and x.get('r'):
                    ds = [g for g in self.F.by_q.get(x['r'], []) if not g.get('tmpl') and g.get('inits') and len(g['params']) == len(cxx.ch(x))]
                    if ds:
                        vals = [next(iter(mach.expr(self.e(a), st)))[0] for a in cxx.ch(x)]
                        sub = st.copy()
                        sub.env = {'%d' % p['id']: v for p, v in zip(ds[0]['params'], vals)}
                        sub.env['this'] = obj
                        self.inits(mach, ds[0], obj, sub)
                        st.fields.update(sub.fields)
            elif i.get('n') or i.get('field') or i.get('m'):
                nm = i.get('n') or i.get('field') or i.get('m')
                if c and c[0] is not None:
                    for v, n in mach.expr(self.e(c[0]), st):
                        st.fields[(obj.id, nm)] = v
                        break
