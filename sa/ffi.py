"""The Python side of the native boundary: abstract traces of every wrapper, decoded native calls."""

import ast
import re

from .pexec import Exec, State, TooManyPaths, show
from .pymodel import Class, Func, program

OPAQUE_SUFFIX = ('core.pyclustering_package', 'core.wrapper')

CT = {  # ctypes name -> (kind, bits, signed)
    'c_double': ('f', 64, True), 'c_float': ('f', 32, True),
    'c_size_t': ('i', 64, False), 'c_ulong': ('i', 64, False), 'c_ulonglong': ('i', 64, False), 'c_uint64': ('i', 64, False),
    'c_long': ('i', 64, True), 'c_longlong': ('i', 64, True), 'c_int64': ('i', 64, True), 'c_ssize_t': ('i', 64, True),
    'c_uint': ('i', 32, False), 'c_uint32': ('i', 32, False), 'c_int': ('i', 32, True), 'c_int32': ('i', 32, True),
    'c_bool': ('b', 8, False), 'c_char': ('i', 8, True), 'c_ubyte': ('i', 8, False), 'c_byte': ('i', 8, True), 'c_short': ('i', 16, True), 'c_ushort': ('i', 16, False),
    'c_char_p': ('p', 64, False), 'c_void_p': ('p', 64, False), 'c_wchar_p': ('p', 64, False), 'py_object': ('p', 64, False), 'c_wchar': ('i', 32, True),
}


def cpp_kind(t, facts=None):
    """canonical C++ type -> (kind, bits, signed)"""
    t = re.sub(r'\b(const|volatile)\b', '', t)
    t = re.sub(r'\s+', ' ', t).strip()
    if t.endswith('*') or '(*)' in t or t.endswith('&'):
        return ('p', 64, False)
    t = {'unsigned': 'unsigned int'}.get(t, t)
    m = {'double': ('f', 64, True), 'float': ('f', 32, True), 'unsigned long': ('i', 64, False), 'long': ('i', 64, True),
         'unsigned long long': ('i', 64, False), 'long long': ('i', 64, True), 'unsigned int': ('i', 32, False), 'int': ('i', 32, True),
         'bool': ('b', 8, False), 'char': ('i', 8, True), 'unsigned char': ('i', 8, False), 'short': ('i', 16, True), 'unsigned short': ('i', 16, False), 'void': ('v', 0, False)}
    if t in m:
        return m[t]
    if facts is not None and t in facts.enums:
        return cpp_kind(facts.enums[t]['ut'], facts)
    return ('?', 0, False)


def is_lib(t):
    if not isinstance(t, tuple):
        return False
    if t[0] == 'call':
        c = t[1]
        if c[0] == 'func' and c[1].name == 'get' and c[1].cls is not None and c[1].cls.name == 'ccore_library':
            return True
        if c[0] == 'ext' and c[1].endswith('.LoadLibrary'):
            return True
    if t[0] == 'clsattr' and t[1].endswith('ccore_library') and t[2].endswith('__library'):
        return True
    return False


def symbol(t):
    """name of the native symbol a callee term denotes"""
    if isinstance(t, tuple) and t[0] == 'attr' and is_lib(t[1]):
        return t[2]
    return None


def opaque(f):
    return any(f.module.name.endswith(s) for s in OPAQUE_SUFFIX)


class Trace:
    def __init__(self, entry, state, outcome):
        self.entry, self.state, self.outcome = entry, state, outcome
        self.events = state.events()


_cache = None


def _ext_getattr(ex, c, args, kwargs, st, f, node):
    if c == ('ext', 'builtins.getattr') and len(args) >= 2 and args[1][0] == 'const' and isinstance(args[1][1], str):
        return ex.getattr(args[0], args[1][1], st, f, node)
    if c == ('ext', 'builtins.setattr') and len(args) == 3 and args[1][0] == 'const' and isinstance(args[1][1], str):
        return [(s, ('const', None)) for s in ex.setattr(args[0], args[1][1], args[2], st, f, node)]
    return None


def entries(prog):
    out = []
    for f in prog.functions():
        if f.module.name.startswith('pyclustering.core') and not f.module.name.endswith('pyclustering_package'):
            out.append(f)
        elif any(isinstance(n, ast.Name) and n.id == 'ccore_library' for n in ast.walk(f.node)):
            out.append(f)
    return out


def traces():
    """every path of every function at the native boundary"""
    global _cache
    if _cache is not None:
        return _cache
    prog = program()
    out, failed = [], []
    for f in entries(prog):
        in_core = f.module.name.startswith('pyclustering.core')

        def inline(g, st, f=f):
            if opaque(f):
                return True
            return not opaque(g) and g.module.name.startswith('pyclustering.core')
        ex = Exec(prog, inline=inline, on_call=_ext_getattr, max_paths=3000)
        try:
            if f.cls is not None and not f.static:
                st = State()
                slf = ('param', f.params[0] if f.params else 'self')
                res = ex.run(f, None, None, st)
            else:
                res = ex.run(f)
        except TooManyPaths:
            failed.append(f)
            continue
        for s, o in res:
            out.append(Trace(f, s, o))
    _cache = (out, failed)
    return _cache


def ctype_of(t):
    """ctypes class named by a term, or None"""
    if isinstance(t, tuple) and t[0] == 'ext' and t[1].startswith('ctypes.'):
        return t[1].split('.')[-1]
    return None


def is_pointer_type(t):
    return isinstance(t, tuple) and t[0] == 'call' and t[1] == ('ext', 'ctypes.POINTER')


def classify_arg(t, state, prog):
    """what a term passed to a native function is: (class, detail)"""
    k = t[0]
    if k == 'call':
        c = t[1]
        ct = ctype_of(c)
        if ct in CT:
            return ('ctype', ct, t[2][0] if t[2] else ('const', 0))
        if ct in ('pointer', 'byref') and t[2]:
            a = t[2][0]
            if a[0] == 'inst':
                return ('struct', a[2], a)
            return ('pointer', None, a)
        if ct == 'cast':
            return ('pointer', None, t)
        if c[0] == 'bound' and c[2].name == 'create' and c[1][0] == 'inst' and c[1][2].name == 'package_builder':
            h = state.heap.get(c[1][1], {})
            return ('package', h.get('#1', h.get('c_data_type', ('const', None))), h.get('#0', h.get('dataset')))
        if c[0] == 'global':
            m = prog.modules.get(c[1])
            e = m.globals.get(c[2]) if m else None
            if isinstance(e, ast.Call) and ast.unparse(e.func).split('.')[-1] in ('CFUNCTYPE', 'PYFUNCTYPE'):
                return ('callback', (m, e), t)
        if c[0] == 'call' and ctype_of(c[1]) in ('CFUNCTYPE', 'PYFUNCTYPE'):
            return ('callback', c, t)
        if symbol(c):
            return ('native', symbol(c), t)
        if c[0] == 'attr' and c[2] == 'encode':
            return ('bytes', None, t)
    if k == 'const':
        if t[1] is None:
            return ('none', None, t)
        if isinstance(t[1], bool):
            return ('bool', None, t)
        if isinstance(t[1], int):
            return ('int', None, t)
        if isinstance(t[1], bytes):
            return ('bytes', None, t)
        return ('const', type(t[1]).__name__, t)
    if k == 'inst' and t[2].ext_base():
        return ('struct_by_value', t[2], t)
    if k == 'cmp' or (k == 'op' and t[1] in ('And', 'Or', 'Not')):
        return ('bool', None, t)
    return ('raw', None, t)


def leaf_name(t):
    """identifier an argument term comes from (parameter or attribute), through ctypes wrapping"""
    if not isinstance(t, tuple):
        return None
    if t[0] == 'param':
        return t[1]
    if t[0] == 'attr':
        return t[2]
    if t[0] == 'call' and ctype_of(t[1]) in CT and t[2]:
        return leaf_name(t[2][0])
    return None
