"""C++ facts: builds the clang extractor, runs it over every translation unit, loads the result."""

import glob
import hashlib
import json
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

from .pymodel import REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, 'build')
SRC = os.path.join(HERE, 'cxx', 'extract.cpp')
FLAGS = ['-std=c++14', '-DEXPORT_PYCLUSTERING_INTERFACE', '-fsyntax-only', '-w',
         '--gcc-install-dir=/usr/lib/gcc/x86_64-linux-gnu/10']


class Broken(Exception):
    """the analysis itself cannot run"""


def _digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:24]


def tool():
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, 'extract-' + _digest([SRC]))
    if not os.path.exists(exe):
        fd, tmp = tempfile.mkstemp(dir=BUILD)
        os.close(fd)
        cmd = ['clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', SRC, '-o', tmp,
               '-L/usr/lib/llvm-18/lib', '-Wl,-rpath,/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18']
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Broken('extractor does not build:\n' + r.stdout[-3000:])
        os.chmod(tmp, 0o755)
        os.rename(tmp, exe)
    return exe


def sources(repo=REPO):
    return sorted(glob.glob(os.path.join(repo, 'ccore/src/**/*.cpp'), recursive=True))


def headers(repo=REPO):
    return sorted(glob.glob(os.path.join(repo, 'ccore/include/**/*'), recursive=True))


def extract(repo=REPO):
    srcs = sources(repo)
    hdrs = [h for h in headers(repo) if os.path.isfile(h)]
    key = _digest(srcs + hdrs + [SRC])
    out = os.path.join(BUILD, 'facts-' + key + '.jsonl')
    if os.path.exists(out):
        return out, len(srcs)
    exe = tool()
    root = os.path.join(repo, 'ccore')

    def one(s):
        r = subprocess.run([exe, root, s, '--'] + FLAGS + ['-I' + os.path.join(repo, 'ccore/include')],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise Broken('clang cannot parse %s:\n%s' % (s, r.stderr[-2000:]))
        return r.stdout

    with ThreadPoolExecutor(8) as ex:
        parts = list(ex.map(one, srcs))
    seen, lines = set(), []
    for s, p in zip(srcs, parts):
        for ln in p.split('\n'):
            if not ln:
                continue
            d = json.loads(ln)
            k = (d['k'], d['q'], d['file'], d['l'], d.get('def'), d.get('targs'), d.get('clst'), d.get('tmpl'),
                 tuple(x['t'] for x in d.get('params', [])))
            if k in seen:
                continue
            seen.add(k)
            d['tu'] = os.path.relpath(s, repo)
            d['file'] = os.path.relpath(d['file'], repo)
            lines.append(json.dumps(d))
    # old caches
    for old in sorted(glob.glob(os.path.join(BUILD, 'facts-*.jsonl')), key=lambda p: os.path.getmtime(p) if os.path.exists(p) else 0)[:-16]:
        try:
            os.unlink(old)
        except OSError:
            pass
    fd, tmp = tempfile.mkstemp(dir=BUILD)
    with os.fdopen(fd, 'w') as f:
        f.write('\n'.join(lines))
    os.rename(tmp, out)
    return out, len(srcs)


class Facts:
    def __init__(self, repo=REPO):
        path, self.n_tu = extract(repo)
        self.functions, self.records, self.enums, self.globals = [], {}, {}, {}
        with open(path) as f:
            for ln in f:
                d = json.loads(ln)
                k = d['k']
                if k == 'Function':
                    self.functions.append(d)
                elif k == 'Record':
                    self.records.setdefault(d['q'], d)
                elif k == 'Enum':
                    self.enums.setdefault(d['q'], d)
                elif k == 'Global':
                    if ch(d) or d['q'] not in self.globals:     # the definition rather than a declaration
                        self.globals[d['q']] = d
        self.by_q = {}
        for f in self.functions:
            self.by_q.setdefault(f['q'], []).append(f)

    def defs(self, q):
        return [f for f in self.by_q.get(q, []) if f.get('body')]

    def exported(self):
        """extern "C" functions by name: definition preferred over declaration"""
        out = {}
        for f in self.functions:
            if f.get('extc') and (f['n'] not in out or f.get('body')):
                out[f['n']] = f
        return out

    def methods(self, cls):
        return [f for f in self.functions if f.get('cls') == cls and f.get('body')]


def ch(n):
    return n.get('c') or []


def walk(n):
    """every node of a tree, preorder, lambdas included"""
    st = [n]
    while st:
        x = st.pop()
        if x is None:
            continue
        yield x
        kids = list(ch(x))
        for d in x.get('d', []) or []:
            kids.append(d)
        if x.get('cv'):
            kids.append(x['cv'])
        st.extend(reversed(kids))


def subtree_roots(f):
    """body and constructor initialisers of a function"""
    out = [i for i in f.get('inits', [])]
    if f.get('body'):
        out.append(f['body'])
    return out


def fwalk(f):
    for r in subtree_roots(f):
        yield from walk(r)


_cached = None


def facts():
    global _cached
    if _cached is None:
        _cached = Facts()
    return _cached
