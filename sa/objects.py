"""Runs objects of a class abstractly: constructor, then sequences of public methods, with chosen argument terms."""

import ast

from . import ffi
from .pexec import Exec, State, TooManyPaths
from .pymodel import Class, Func


def switch_of(cls_or_func, name):
    """how a class (constructor) or function takes an option: 'param', 'kw' or None"""
    f = cls_or_func.find('__init__') if isinstance(cls_or_func, Class) else cls_or_func
    if f is None:
        return None
    a = f.node.args
    if name in f.params or name in [x.arg for x in a.kwonlyargs]:
        return 'param'
    if a.kwarg:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Constant) and n.value == name:
                return 'kw'
    return None


def public_methods(cls, special=False):
    out, seen = [], set()
    for k in cls.mro():
        if not isinstance(k, Class):
            continue
        for m in k.methods.values():
            if m.name in seen:
                continue
            seen.add(m.name)
            if m.name == '__init__' or m.static or m.classm:
                continue
            if m.name.startswith('_') and not (special and m.name.startswith('__') and m.name.endswith('__')):
                continue
            out.append(m)
    return out


def construct(ex, cls, values, st=None):
    """[(state, instance)] of the normal ends of the constructor; values: option name -> term, the others are parameters"""
    st = st or State()
    slf = ex.new(cls, st)
    init = cls.find('__init__')
    if init is None:
        return [(st, slf)]
    a = init.node.args
    names = init.params[1:]
    pos = [values.get(p, ('param', p)) for p in names]
    kw = {k: v for k, v in values.items() if k not in names and (a.kwarg or k in [x.arg for x in a.kwonlyargs])}
    for x in a.kwonlyargs:
        kw.setdefault(x.arg, ('param', x.arg))
    res = ex.call_func(init, pos, kw, st, slf, None, entry=True)
    return [(s, slf) for s, o in res if not (o and o[0] == 'raise')]


def is_workable(c):
    return isinstance(c, tuple) and ((c[0] == 'func' and c[1].name == 'workable' and c[1].cls is not None and c[1].cls.name == 'ccore_library')
                                     or (c[0] == 'bound' and c[2].name == 'workable' and c[2].cls is not None and c[2].cls.name == 'ccore_library'))
