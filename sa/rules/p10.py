"""P10: the iterations of a parallel loop of the native library do not interfere."""

import re

from .. import cgraph, cxx

ACCESS = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'at', 'data', 'front', 'back', 'get', 'find', 'operator[]', 'operator*', 'operator->', 'size', 'empty', 'lower_bound', 'upper_bound',
          'what', 'load', 'str', 'c_str', 'equal_range', 'first', 'second', 'wait', 'native_handle', 'operator bool', 'max', 'min', 'count'}
ELEMENT = {'at', 'front', 'back', 'operator[]', 'operator*', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'data', 'find'}
POINTS = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'data'}      # lead to elements without reading one
STD_WRITES = {'sort', 'stable_sort', 'partial_sort', 'nth_element', 'fill', 'fill_n', 'iota', 'swap', 'generate', 'generate_n', 'shuffle', 'random_shuffle', 'reverse', 'rotate', 'unique', 'remove', 'remove_if',
              'partition', 'stable_partition', 'replace', 'replace_if', 'exchange', 'swap_ranges', 'make_heap', 'push_heap', 'pop_heap', 'sort_heap', 'iter_swap'}
STD_WRITES_LAST = {'copy': -1, 'copy_n': -1, 'copy_if': 2, 'transform': -2, 'partial_sum': 2, 'adjacent_difference': 2, 'move': 2, 'set_difference': 4, 'set_union': 4, 'merge': 4}
ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '&=', '|=', '^='}
REFLIKE = re.compile(r'[&*]\s*(const)?$|iterator|reference_wrapper|_ptr<|move_iterator')
LOCKS = re.compile(r'std::(lock_guard|unique_lock|scoped_lock|shared_lock)<')
ATOMIC = re.compile(r'std::(atomic|mutex|recursive_mutex|shared_mutex|condition_variable)|std::__atomic|pyclustering::parallel::spinlock')
MAPS = re.compile(r'std::(unordered_)?(multi)?map<')


def name_of(r):
    return r.rsplit('::', 1)[-1] if r else ''


class Loop:
    """what the body of one parallel loop writes and reads outside itself"""

    def __init__(self, F, G):
        self.F, self.G = F, G
        self.writes, self.reads = [], {}
        self.fields, self.oid = {}, 0
        self.memo, self.functions = set(), set()
        self.locked = 0
        self.stack = ()

    def local(self):
        self.oid += 1
        return ('L', self.oid)

    def write(self, reg, n, f, what=''):
        if reg is None or reg[0] != 'S':
            return
        self.writes.append((reg, self.locked > 0, '%s:%s' % (f['file'], n.get('l')), name_of(f.get('q') or '') or 'lambda', what))

    def read(self, reg, n, f, deep=False):
        if reg is not None and reg[0] == 'S':
            self.reads.setdefault((reg[1], reg[2], deep), '%s:%s' % (f['file'], n.get('l')))

    # -- regions
    def member(self, reg, name):
        if reg is None:
            return None
        if reg[0] == 'L':
            return self.fields.get((reg[1], name), reg)
        return ('S', reg[1] + '.' + name, reg[2])

    def element(self, reg, own):
        if reg is None or reg[0] == 'L':
            return reg
        return ('S', reg[1] + '[]', reg[2] or own)

    def own(self, e, env):
        """whether a value is a function of the loop's own index that differs from every other iteration's"""
        if e is None:
            return False
        k = e['k']
        if k == 'DeclRefExpr' and e.get('id') is not None:
            return bool(env.get(e['id'], {}).get('own'))
        if k in ('CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'InitListExpr'):
            c = cxx.ch(e)
            return len(c) == 1 and self.own(c[0], env)
        if k == 'BinaryOperator' and e.get('op') in ('+', '-', '*', '/'):
            a, b = cxx.ch(e)
            if e['op'] == '/':
                # only a division by the step of the loop keeps indexes apart; a constant one does not
                return self.own(a, env) and b['k'] != 'IntegerLiteral' and not self.own(b, env)
            return self.own(a, env) != self.own(b, env)
        return False

    def reg(self, e, env, this, f):
        """memory an expression denotes (for values of pointer, reference or iterator type: the memory that it leads to)"""
        if e is None:
            return None
        k, c = e['k'], cxx.ch(e)
        if k == 'DeclRefExpr':
            if e.get('id') is not None:
                v = env.get(e['id'])
                if v is None:
                    return None
                return v['reg']
            if e.get('dk') == 'Var':
                return ('S', '::' + str(e.get('r')), False)
            return None
        if k == 'CXXThisExpr':
            return this
        if k == 'MemberExpr':
            if e.get('dk') in ('Field', None, 'IndirectField'):
                return self.member(self.reg(c[0], env, this, f) if c else this, e.get('n') or '?')
            if e.get('dk') == 'Var':
                return ('S', '::' + str(e.get('r')), False)
            return self.reg(c[0], env, this, f) if c else this
        if k == 'ArraySubscriptExpr':
            return self.element(self.reg(c[0], env, this, f), self.own(c[1], env))
        if k == 'UnaryOperator':
            return self.reg(c[0], env, this, f)
        if k == 'BinaryOperator':
            if e.get('op') in ('+', '-'):
                own = self.own(c[1], env)
                r = self.reg(c[0], env, this, f)
                return ('S', r[1], True) if own and r and r[0] == 'S' and r[1].endswith('[]') else r
            if e.get('op') in ASSIGN:
                return self.reg(c[0], env, this, f)
            return None
        if k == 'CXXOperatorCallExpr':
            op = e.get('op')
            if op == '[]' and len(c) == 2:
                return self.element(self.reg(c[0], env, this, f), self.own(c[1], env))
            if op == '+' and len(c) == 2:
                r = self.reg(c[0], env, this, f)
                return ('S', r[1], True) if self.own(c[1], env) and r and r[0] == 'S' and r[1].endswith('[]') else r
            if op in ('*', '->', '=', '+=', '-=', '++', '--') and c:
                return self.reg(c[0], env, this, f)
            return None
        if k in ('CXXMemberCallExpr', 'CallExpr'):
            return self.result(e, env, this, f)
        if k in ('CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr'):
            return self.reg(c[0], env, this, f) if c else None
        if k == 'ConditionalOperator':
            a, b = self.reg(c[1], env, this, f), self.reg(c[2], env, this, f)
            return a if a and a[0] == 'S' and not a[2] else b or a
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len(c) == 1 and REFLIKE.search(e.get('t', '')):
            return self.reg(c[0], env, this, f)
        return None

    def result(self, e, env, this, f):
        c = cxx.ch(e)
        ret = (e.get('ft') or '').partition('(')[0].strip()
        q = e.get('r') or ''
        n = name_of(q)
        if e['k'] == 'CXXMemberCallExpr':
            callee = c[0]
            obj = self.reg(cxx.ch(callee)[0], env, this, f) if callee['k'] == 'MemberExpr' and cxx.ch(callee) else this
            if q.startswith('std::'):
                if n in ELEMENT:
                    return self.element(obj, len(c) > 1 and n == 'at' and self.own(c[1], env))
                if n == 'get' or REFLIKE.search(ret):
                    return obj
                return None
            if not REFLIKE.search(ret):
                return None
            for g in self.G.targets(e):
                r = returned(g)
                if r is not None:
                    en = {p['id']: {'reg': self.reg(a, env, this, f), 'own': self.own(a, env)} for p, a in zip(g['params'], c[1:])}
                    return self.reg(r, en, obj, g)
            return obj
        if q.startswith('std::'):
            if n in ('begin', 'end', 'cbegin', 'cend', 'prev', 'next'):
                return self.element(self.reg(c[1], env, this, f), False) if n not in ('prev', 'next') else self.reg(c[1], env, this, f)
            if n in ('move', 'forward', 'ref', 'cref', 'get', 'max_element', 'min_element', 'find', 'find_if', 'lower_bound', 'upper_bound', 'addressof', 'max', 'min') and len(c) > 1:
                return self.reg(c[1], env, this, f) if n not in ('max', 'min') or REFLIKE.search(ret) else None
            return None
        if REFLIKE.search(ret):
            for a in c[1:]:
                r = self.reg(a, env, this, f)
                if r and r[0] == 'S':
                    return r
        return None

    # -- effects
    def body(self, n, env, this, f):
        """effects of a statement or expression; env is changed by declarations"""
        if n is None:
            return
        k, c = n['k'], cxx.ch(n)
        if k == 'CompoundStmt':
            keep = self.locked
            for s in c:
                self.body(s, env, this, f)
            self.locked = keep
            return
        if k == 'DeclStmt':
            for d in n.get('d') or []:
                self.declare(d, env, this, f)
            return
        if k == 'CXXForRangeStmt':
            self.body(c[0], env, this, f)
            r = self.reg(c[0], env, this, f)
            v = n['v']
            if REFLIKE.search(v['t']):
                env[v['id']] = {'reg': self.element(r, False), 'own': False}
                self.read(self.element(r, False), n, f)
            else:
                env[v['id']] = {'reg': self.local(), 'own': False}
                self.read(self.element(r, False), n, f)
            self.body(c[1], env, this, f)
            return
        if k == 'LambdaExpr':
            # runs where it is used; its own parameters lead nowhere shared
            en = env
            for p in n.get('params') or []:
                en.setdefault(p['id'], {'reg': self.local(), 'own': False})
            self.body(c[0], en, this, f)
            return
        if k in ('IfStmt', 'WhileStmt') and n.get('cv'):
            self.declare(n['cv'], env, this, f)
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n.get('op') in ASSIGN:
            self.assign(n, c[0], c[1], env, this, f)
            self.lvalue(c[0], env, this, f)
            self.body(c[1], env, this, f)
            return
        if k == 'UnaryOperator' and n.get('op') in ('++', '--'):
            self.write_to(c[0], n, env, this, f)
            self.lvalue(c[0], env, this, f)
            return
        if k == 'CXXOperatorCallExpr':
            op = n.get('op')
            if op in ASSIGN or op in ('++', '--') or (op == '<<' and 'basic_ostream' not in n.get('t', '')):
                if op == '=' and len(c) == 2:
                    self.read(self.reg(c[1], env, this, f), n, f, deep=not REFLIKE.search(c[0].get('t', '')))
                    self.assign(n, c[0], c[1], env, this, f)
                else:
                    self.write_to(c[0], n, env, this, f)
                self.lvalue(c[0], env, this, f)
                for a in c[1:]:
                    self.body(a, env, this, f)
                return
            if op == '[]' and MAPS.search((c[0].get('t') or '')) and not n.get('cm', 1):
                self.write(self.reg(c[0], env, this, f), n, f, 'inserts into a map')
        if k in ('CXXMemberCallExpr', 'CallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXOperatorCallExpr', 'CXXNewExpr'):
            self.call(n, env, this, f)
        if k in ('MemberExpr', 'ArraySubscriptExpr') or (k == 'CXXOperatorCallExpr' and n.get('op') in ('[]', '*', '->')) or (k == 'CXXMemberCallExpr' and name_of(n.get('r')) in ELEMENT - POINTS) \
                or (k == 'DeclRefExpr'):
            self.read(self.reg(n, env, this, f), n, f)
        for x in c:
            self.body(x, env, this, f)

    def lvalue(self, n, env, this, f):
        """effects inside the target of an assignment: indexes and calls, but not the target itself"""
        k, c = n['k'], cxx.ch(n)
        if k in ('ArraySubscriptExpr',) or (k == 'CXXOperatorCallExpr' and n.get('op') == '[]'):
            self.lvalue(c[0], env, this, f)
            self.body(c[1], env, this, f)
        elif k in ('CXXMemberCallExpr', 'CallExpr'):
            self.call(n, env, this, f)
            for a in c[1:]:
                self.body(a, env, this, f)
            if cxx.ch(c[0]):
                self.lvalue(cxx.ch(c[0])[0], env, this, f)
        elif k in ('MemberExpr', 'UnaryOperator') or (k == 'CXXOperatorCallExpr'):
            for x in c:
                self.lvalue(x, env, this, f)
        elif k not in ('DeclRefExpr', 'CXXThisExpr'):
            self.body(n, env, this, f)

    def declare(self, d, env, this, f):
        init = (cxx.ch(d) or [None])[0]
        t = d.get('t', '')
        if d.get('static'):
            env[d['id']] = {'reg': ('S', 'static ' + d['n'], False), 'own': False}
            if init is not None:
                self.body(init, env, this, f)
            return
        if LOCKS.search(t):
            self.locked += 1
        reg = self.reg(init, env, this, f) if init is not None and REFLIKE.search(t) else None
        if 'shared_ptr' in t and reg is None:
            reg = None
        env[d['id']] = {'reg': reg if reg is not None else self.local(), 'own': init is not None and self.own(init, env) and d['id'] not in self.changed}
        if init is not None:
            self.body(init, env, this, f)

    def assign(self, n, left, right, env, this, f):
        t = left.get('t', '')
        plain_var = left['k'] == 'DeclRefExpr' and left.get('id') is not None
        if REFLIKE.search(t) and '&' not in t[-2:]:
            r = self.reg(right, env, this, f)
            if plain_var and left['id'] in env and env[left['id']]['reg'] and not env[left['id']].get('cap'):
                if r is not None:
                    env[left['id']] = {'reg': r, 'own': False}
                return                  # a local pointer is set
            base = self.reg(cxx.ch(left)[0], env, this, f) if left['k'] == 'MemberExpr' and cxx.ch(left) else this if left['k'] == 'MemberExpr' else None
            if base is not None and base[0] == 'L':
                if r is not None:
                    self.fields[(base[1], left.get('n'))] = r
                return
        self.write_to(left, n, env, this, f)

    def write_to(self, e, n, env, this, f):
        if e['k'] == 'DeclRefExpr' and e.get('id') is not None:
            v = env.get(e['id'])
            if v is not None and not v.get('cap') and not self.refvar.get(e['id']):
                return                  # a variable of the iteration itself
        r = self.reg(e, env, this, f)
        if r and r[0] == 'S':
            t = e.get('t') or ''
            if ATOMIC.search(t):
                return
            what = ''
            if r[2] and bits(e):
                r = ('S', r[1], False)
                what = 'packed bits of neighbouring elements'
            self.write(r, n, f, what)

    def call(self, n, env, this, f):
        k, c = n['k'], cxx.ch(n)
        q = n.get('r') or ''
        nm = name_of(q)
        if k == 'CXXMemberCallExpr':
            callee = c[0]
            base = cxx.ch(callee)[0] if callee['k'] == 'MemberExpr' and cxx.ch(callee) else None
            obj = self.reg(base, env, this, f) if base is not None else this
            args = c[1:]
            if q.startswith('std::') or not n.get('mine', 1):
                t = (base or {}).get('t') or ''
                if q.startswith('std::mersenne') or not n.get('cm') and nm not in ACCESS and not ATOMIC.search(q) and not LOCKS.search(q + '<'):
                    self.write(obj, n, f, 'calls %s()' % nm)
                elif ATOMIC.search(q) and nm == 'lock':
                    self.locked += 1
                elif ATOMIC.search(q) and nm == 'unlock':
                    self.locked -= 1
                return
        elif k == 'CXXOperatorCallExpr':
            if n.get('op') == '()' and c:
                t = c[0].get('t') or ''
                # a generator or distribution changes with every call
                if re.search(r'std::(mersenne_twister|linear_congruential|uniform_|normal_|discrete_|poisson_|bernoulli_|random_device)', t):
                    self.write(self.reg(c[0], env, this, f), n, f, 'draws from a generator')
                for a in c[1:]:
                    if re.search(r'std::(mersenne_twister|linear_congruential|random_device)', a.get('t') or ''):
                        self.write(self.reg(a, env, this, f), n, f, 'draws from a generator')
                if re.search(r'std::function<', t) and c[0]['k'] == 'MemberExpr':
                    self.bound(c[0], n, env, this, f)
            obj, args = None, c
            if not n.get('mine') and not (self.F.by_q.get(q)):
                if n.get('op') in ('()', '==', '!=', '<', '>'):
                    for a in c[1:]:
                        self.read(self.reg(a, env, this, f), n, f, deep='iterator' not in (a.get('t') or ''))
                return
        elif k == 'CallExpr':
            obj, args = None, c[1:]
            if q.startswith('std::'):
                if nm not in POINTS and nm not in ('move', 'forward', 'ref', 'cref', 'get', 'addressof', 'bind', 'size'):
                    for a in args:
                        self.read(self.reg(a, env, this, f), n, f, deep=True)
                if nm == 'move' and len(args) == 1:
                    if 'const' not in (args[0].get('t') or ''):
                        r = self.reg(args[0], env, this, f)
                        if not (args[0]['k'] == 'DeclRefExpr' and not self.refvar.get(args[0].get('id'))):
                            self.write(r, n, f, 'moves from it')
                elif nm in STD_WRITES:
                    for a in args[:2]:
                        self.write(self.reg(a, env, this, f), n, f, 'std::%s' % nm)
                elif nm in STD_WRITES_LAST and len(args) > 2:
                    i = STD_WRITES_LAST[nm]
                    if -len(args) <= i < len(args):
                        self.write(self.reg(args[i], env, this, f), n, f, 'std::%s' % nm)
                elif nm in ('rand', 'srand'):
                    self.write(('S', 'std::rand', False), n, f, 'draws from a generator')
                return
            if nm in ('rand', 'srand', 'strtok', 'localtime', 'gmtime'):
                self.write(('S', nm, False), n, f, 'calls %s()' % nm)
                return
            if nm in ('parallel_for', 'parallel_for_each'):
                return          # the nested loop is judged on its own; its body runs in this iteration
        else:
            obj, args = self.local(), c
        if not self.enter(n, obj, args, env, this, f) and nm not in ACCESS:
            for a in args:
                self.read(self.reg(a, env, this, f), n, f, deep=True)

    def bound(self, field, n, env, this, f):
        """methods that a std::function member may be bound to"""
        cls = None
        r = field.get('r') or ''
        cls = r.rpartition('::')[0]
        base = self.reg(cxx.ch(field)[0], env, this, f) if cxx.ch(field) else this
        for g in self.F.functions:
            if not g.get('body') or g.get('tmpl') or cgraph.plain(g.get('cls') or '') not in {cgraph.plain(x) for x in {cls} | self.G.subclasses(cls)}:
                continue
            for x in cxx.fwalk(g):
                if x['k'] in ('CXXOperatorCallExpr', 'BinaryOperator', 'CallExpr') and (x.get('op') == '=' or x['k'] == 'CallExpr'):
                    if not any(y['k'] == 'MemberExpr' and y.get('r') == r for y in cxx.walk(x)) and x['k'] != 'CallExpr':
                        continue
                    for y in cxx.walk(x):
                        if y['k'] == 'UnaryOperator' and y.get('op') == '&' and cxx.ch(y) and cxx.ch(y)[0].get('dk') == 'CXXMethod':
                            for m in self.F.defs(cxx.ch(y)[0].get('r')):
                                if not m.get('tmpl') and cgraph.plain(m.get('cls') or '') == cgraph.plain(g.get('cls') or ''):
                                    self.function(m, base, [], [], env, this, f)

    def enter(self, n, obj, args, env, this, f):
        found = False
        for g in self.G.targets(n):
            if not g.get('body') and not g.get('inits'):
                continue
            regs = [self.reg(a, env, this, f) for a in args]
            owns = [self.own(a, env) for a in args]
            o = obj if g.get('cls') and not g.get('static') else None
            if n['k'] == 'CXXOperatorCallExpr' and g.get('cls'):
                o, regs, owns = regs[0], regs[1:], owns[1:]
            self.function(g, o, regs, owns, env, this, f)
            found = True
        return found

    def function(self, g, obj, regs, owns, env, this, f):
        sig = (id(g), tuple((r[0], r[1:] if r[0] == 'S' else ()) if r else None for r in regs), tuple(owns), (obj[0], obj[1:] if obj[0] == 'S' else ()) if obj else None, self.locked > 0)
        if sig in self.memo or len(self.stack) > 30:
            return
        self.memo.add(sig)
        self.functions.add(id(g))
        en = {}
        keep = self.changed, self.refvar, self.stack
        self.changed, self.refvar = changed(g), dict(refvars(g))
        self.stack += (g['q'],)
        for i, p in enumerate(g['params']):
            r = regs[i] if i < len(regs) else None
            ref = bool(REFLIKE.search(p['t']))
            en[p['id']] = {'reg': r if ref and r is not None else self.local(), 'own': i < len(owns) and owns[i] and p['id'] not in self.changed}
        locked = self.locked
        for root in cxx.subtree_roots(g):
            if root['k'] == 'Init':
                for x in cxx.ch(root):
                    self.body(x, en, obj, g)
                    if root.get('n') and obj and obj[0] == 'L':
                        r = self.reg(x, en, obj, g)
                        if r is not None and r[0] == 'S':
                            self.fields[(obj[1], root['n'])] = r
            else:
                self.body(root, en, obj, g)
        self.locked = locked
        self.changed, self.refvar, self.stack = keep


def bits(e):
    return e['k'] == 'CXXOperatorCallExpr' and e.get('op') == '[]' and 'vector<bool' in (cxx.ch(e)[0].get('t') or '') or 'vector<bool' in (e.get('r') or '') or '_Bit_reference' in (e.get('t') or '')


def returned(g):
    """the expression that a function returns, when it does nothing else"""
    b = [x for x in cxx.ch(g.get('body') or {}) if x]
    if len(b) == 1 and b[0]['k'] == 'ReturnStmt' and cxx.ch(b[0]):
        return cxx.ch(b[0])[0]
    return None


def changed(f):
    out = set()
    for n in (cxx.fwalk(f) if 'k' in f and f['k'] == 'Function' else cxx.walk(f)):
        if (n['k'] in ('BinaryOperator', 'CompoundAssignOperator') and n.get('op') in ASSIGN) or (n['k'] == 'UnaryOperator' and n.get('op') in ('++', '--')):
            t = cxx.ch(n)[0]
            if t['k'] == 'DeclRefExpr' and t.get('id') is not None:
                out.add(t['id'])
    return out


def refvars(f):
    """ids of the variables and parameters that are references"""
    for p in f.get('params') or []:
        if p['t'].rstrip().endswith('&'):
            yield p['id'], True
    for n in (cxx.fwalk(f) if f['k'] == 'Function' else cxx.walk(f)):
        for d in (n.get('d') or []) + ([n['v']] if isinstance(n.get('v'), dict) else []) + (n.get('params') or []):
            if d.get('t', '').rstrip().endswith('&') or d.get('static'):
                yield d['id'], True


def judge(F, G, f, call, lam, elementwise, container):
    """(writes that race, the analysis) of the body of one parallel loop"""
    L = Loop(F, G)
    env = {}
    decls = {d['id']: d for n in cxx.fwalk(f) for d in (n.get('d') or [])}
    this = ('S', 'this', False)
    L.changed = changed(f)
    L.refvar = dict(refvars(f))
    outer = {p['id']: {'reg': ('S', p['n'], False), 'own': False} for p in f['params']}

    def region(i, name, seen=()):
        d = decls.get(i)
        if d is not None and i not in seen and REFLIKE.search(d.get('t', '')) and cxx.ch(d):
            for x in cxx.walk(cxx.ch(d)[0]):
                if x['k'] == 'DeclRefExpr' and x.get('id') is not None and x['id'] not in outer and x['id'] != i:
                    outer[x['id']] = {'reg': region(x['id'], x['n'], seen + (i,)), 'own': False}
            r = L.reg(cxx.ch(d)[0], outer, this, f)
            if r is not None:
                return r
        return ('S', name, False)
    for c in lam.get('caps') or []:
        if c['n'] == 'this' or c.get('id') is None:
            continue
        r = region(c['id'], c['n'])
        if not c.get('ref') and not REFLIKE.search(c.get('t') or ''):
            r = L.local()
        env[c['id']] = {'reg': r, 'own': False, 'cap': True}
        if c.get('ref'):
            L.refvar[c['id']] = True
    for i, p in enumerate(lam.get('params') or []):
        if i == 0 and elementwise and REFLIKE.search(p['t']):
            env[p['id']] = {'reg': ('S', '%s[]' % container, True), 'own': True}
        else:
            env[p['id']] = {'reg': L.local(), 'own': i == 0 and p['id'] not in L.changed}
    # variables of the iteration that are references
    L.body(cxx.ch(lam)[0], env, this, f)
    races, seen = [], set()
    for reg, locked, where, fn, what in L.writes:
        if locked:
            continue
        if not reg[2]:
            k = ('shared', reg[1])
            if k not in seen:
                seen.add(k)
                races.append((reg[1], where, 'every iteration writes %s%s' % (pretty(reg[1]), ' (%s)' % what if what else '')))
            continue
        for (path, own, deep), at in L.reads.items():
            if not own and (path == reg[1] or path.startswith(reg[1] + '.') or path.startswith(reg[1] + '[]') or deep and (reg[1].startswith(path + '[]') or reg[1].startswith(path + '.'))) and ('read', reg[1]) not in seen:
                seen.add(('read', reg[1]))
                races.append((reg[1], where, 'an iteration writes its element of %s while others read it (%s)' % (pretty(reg[1]), at)))
    return races, L


def pretty(p):
    return p.replace('this.', '')


def lambda_of(f, e):
    """the lambda that an argument is, directly or through a variable"""
    if e['k'] == 'LambdaExpr':
        return e
    if e['k'] == 'DeclRefExpr' and e.get('id') is not None:
        for n in cxx.fwalk(f):
            for d in n.get('d') or []:
                if d['id'] == e['id'] and cxx.ch(d):
                    return lambda_of(f, cxx.ch(d)[0])
    for x in cxx.ch(e):
        if x and e['k'] in ('CXXConstructExpr', 'CXXFunctionalCastExpr', 'MaterializeTemporaryExpr'):
            return lambda_of(f, x)
    return None


def run(rep, tier):
    rep.rule('race', 'what an iteration writes outside itself is its own element, atomic, or guarded by a lock, and no other iteration reads it')
    rep.rule('capture', 'a task keeps its own copy of what changes while tasks are started')
    rep.rule('chunk', 'each task begins where the one before it ends')
    rep.rule('threads', 'the amount of threads that the work is divided by is never zero')
    F = cxx.facts()
    G = cgraph.Graph(F)
    done = set()
    for f in F.functions:
        if not f.get('body') or f.get('tmpl'):
            continue
        i = 0
        for n in cxx.fwalk(f):
            if n['k'] == 'CallExpr' and name_of(n.get('r')) in ('parallel_for', 'parallel_for_each') and not (f.get('q') or '').startswith('pyclustering::parallel::'):
                args = cxx.ch(n)[1:]
                each = name_of(n['r']) == 'parallel_for_each'
                lams = [lambda_of(f, a) for a in args]
                lam = next((x for x in lams if x is not None), None)
                key = '%s #%d' % (cgraph.plain(f['q']).replace('pyclustering::', ''), i)
                i += 1
                where = '%s:%s' % (f['file'], n.get('l'))
                if lam is None:
                    rep.count('parallel loops whose body was not found')
                    continue
                cont = args[0].get('n') or 'container'
                races, L = judge(F, G, f, n, lam, each, cont)
                rep.count('parallel loops')
                rep.count('functions that parallel loops run', len(L.functions))
                rep.count('writes outside an iteration', len(L.writes))
                rep.count('memory read', len(L.reads))
                rep.ok('race', key, where)
                for path, at, m in races:
                    rep.bad('race', '%s: %s' % (key, pretty(path)), at, '%s, in the parallel loop at %s' % (m, where))
    tasks(rep, F)
    threads(rep, F)
    rep.floor('race', 10)
    rep.floor('capture', 2)


def tasks(rep, F):
    """the tasks that parallel_for and parallel_for_each start"""
    for f in F.functions:
        if not f.get('body') or f.get('tmpl'):
            continue
        asy = [n for n in cxx.fwalk(f) if n['k'] == 'CallExpr' and n.get('r') == 'std::async']
        if not asy:
            continue
        name = cgraph.plain(f['q']).replace('pyclustering::', '') + '(%d)' % len(f['params'])
        ch = changed_anywhere(f)
        for n in asy:
            for a in cxx.ch(n)[1:]:
                lam = lambda_of(f, a)
                if lam is None:
                    continue
                bad = [c['n'] for c in lam.get('caps') or [] if c.get('ref') and c.get('id') in ch]
                rep.check(not bad, 'capture', name, '%s:%s' % (f['file'], lam.get('l')), 'a task refers to %s, which changes while tasks are started' % ', '.join(bad))
                chunk(rep, f, lam, name)


def changed_anywhere(f):
    out = set(changed(f))
    for n in cxx.fwalk(f):
        if n['k'] == 'CXXOperatorCallExpr' and (n.get('op') in ASSIGN or n.get('op') in ('++', '--')):
            t = cxx.ch(n)[0]
            if t['k'] == 'DeclRefExpr' and t.get('id') is not None:
                out.add(t['id'])
    return out


def chunk(rep, f, lam, name):
    """for (i = S; i < E; ...) in a task: afterwards S takes the value of E before E moves on, and the caller's own loop starts at S"""
    loop = next((n for n in cxx.walk(cxx.ch(lam)[0]) if n['k'] == 'ForStmt'), None)
    if loop is None:
        return
    init, cond = cxx.ch(loop)[0], cxx.ch(loop)[1]
    caps = {c.get('id'): c['n'] for c in lam['caps']}
    s = next((x['id'] for x in cxx.walk(init) if x['k'] == 'DeclRefExpr' and x.get('id') in caps), None)
    e = next((x['id'] for x in cxx.walk(cond) if x['k'] == 'DeclRefExpr' and x.get('id') in caps), None)
    if s is None or e is None or s == e:
        return
    decl = {}
    for n in cxx.fwalk(f):
        for d in n.get('d') or []:
            if d['id'] in (s, e) and cxx.ch(d):
                decl[d['id']] = cxx.ch(d)[0]
    # the loop in which the tasks are started
    for b in cxx.fwalk(f):
        if b['k'] not in ('ForStmt', 'WhileStmt') or not any(x is lam for x in cxx.walk(b)):
            continue
        vals = {s: {('v', s): 1}, e: {('v', e): 1}}
        where = loop
        for x in cxx.walk(b):
            if any(x is y for y in cxx.walk(lam)):
                continue
            t = cxx.ch(x)[0] if cxx.ch(x) else None
            if t is None or t['k'] != 'DeclRefExpr' or t.get('id') not in (s, e):
                continue
            if x['k'] in ('BinaryOperator', 'CompoundAssignOperator', 'CXXOperatorCallExpr') and x.get('op') in ASSIGN:
                r = linear(cxx.ch(x)[1], vals)
                vals[t['id']] = r if x['op'] == '=' else add(vals[t['id']], r, 1) if x['op'] == '+=' else add(vals[t['id']], r, -1) if x['op'] == '-=' else None
                where = x
            elif x['k'] in ('UnaryOperator', 'CXXOperatorCallExpr') and x.get('op') in ('++', '--'):
                vals[t['id']] = add(vals[t['id']], {1: 1}, 1 if x['op'] == '++' else -1)
                where = x
        gap = add(vals[s], {('v', e): 1}, -1)
        beyond(rep, f, b, s, e, decl, vals, name, where)
        aligned(rep, f, b, loop, s, e, decl, name)
        if gap and not {('v', s), ('v', e)} & set(gap):
            pass                        # a constant away from the end of the task before
        elif gap and s in decl and e in decl:
            # while it runs, the end is as far from the beginning as when it was entered, provided an iteration keeps that distance
            d0 = add(linear(decl[e], {s: {('v', s): 1}}), {('v', s): 1} if refers(decl[e], s) else linear(decl[s], {}), -1)
            d1 = add(vals[e], vals[s], -1)
            if d0 is not None and d1 is not None and ('v', s) not in d0:
                dd = substitute(d1, s, e, d0)
                if dd == d0:
                    gap = substitute(gap, s, e, d0)
                else:
                    gap = None
            else:
                gap = None
        if gap is None:
            rep.count('task boundaries that are not linear')
            return
        rep.check(not gap, 'chunk', name, '%s:%s' % (f['file'], where.get('l')), 'the next task does not begin where the one before it ends')
        rest = [y for y in cxx.fwalk(f) if y['k'] == 'ForStmt' and y is not b and y is not loop and not any(z is y for z in cxx.walk(b)) and cxx.ch(y)[0] is not None]
        rest = [y for y in rest if any(z['k'] in ('CallExpr', 'CXXOperatorCallExpr') and z.get('op', '()') == '()' for z in cxx.walk(cxx.ch(y)[-1]))]
        if rest:
            rep.check(any(z['k'] == 'DeclRefExpr' and z.get('id') == s for y in rest for z in cxx.walk(cxx.ch(y)[0])), 'chunk', name + ': the rest', '%s:%s' % (f['file'], rest[0].get('l')), 'the calling thread does not begin where the last task ends')
        return


def beyond(rep, f, b, s, e, decl, vals, name, where):
    """as many tasks as there are whole steps: each takes no more than a step"""
    cond = cxx.ch(b)[1] if b['k'] == 'ForStmt' else cxx.ch(b)[0]
    if cond is None or refers(cond, e) or s not in decl or e not in decl:
        return              # guarded by the end itself
    limits = [x for x in cxx.walk(cond) if x['k'] == 'DeclRefExpr' and x.get('id') is not None]
    for n in cxx.fwalk(f):
        for d in n.get('d') or []:
            if not any(x['id'] == d['id'] for x in limits) or not cxx.ch(d):
                continue
            q = cxx.ch(d)[0]
            while q['k'] in ('CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'InitListExpr') and len(cxx.ch(q)) == 1:
                q = cxx.ch(q)[0]
            if q['k'] != 'BinaryOperator' or q.get('op') != '/':
                continue
            step = linear(cxx.ch(q)[1], {})
            first = add(linear(decl[e], {s: {('v', s): 1}}), {('v', s): 1} if refers(decl[e], s) else linear(decl[s], {}), -1)
            grow = add(vals[e], {('v', e): 1}, -1)
            if step is None or first is None or grow is None or {('v', s), ('v', e)} & set(grow):
                rep.count('task boundaries that are not linear')
                return
            over = [x for x in (add(first, step, -1), add(grow, step, -1)) if x and all(v > 0 for v in x.values())]
            rep.check(not over, 'chunk', name + ': amount', '%s:%s' % (f['file'], where.get('l')), 'the tasks may take more than there is: their number is for steps that are smaller')


def aligned(rep, f, b, loop, s, e, decl, name):
    """with a step, a part is a whole number of steps: otherwise the parts visit different indexes than one loop would"""
    inc = cxx.ch(loop)[2]
    if inc is None or inc.get('op') != '+=' or s not in decl or e not in decl:
        return
    step = cxx.ch(inc)[1]
    if step['k'] != 'DeclRefExpr' or step.get('id') is None:
        return
    d = add(linear(decl[e], {s: {('v', s): 1}}), {('v', s): 1} if refers(decl[e], s) else linear(decl[s], {}), -1)
    if not d or any(k[0] != 'v' for k in d if k != 1) or 1 in d:
        return
    env = {step['id']: True}
    flow(f.get('body'), env, step['id'], b)
    got = [env.get(k[1]) for k in d]
    if any(x is None for x in got):
        rep.count('parts whose length was not followed')
        return
    rep.check(all(got), 'chunk', name + ': step', '%s:%s' % (f['file'], b.get('l')), 'a part may end between two steps, so the next one visits other indexes than a single loop')


def flow(n, env, step, stop):
    """carries which variables are multiples of the step through statements; False at the statement to stop at"""
    if n is None:
        return True
    if n is stop:
        return False
    k, c = n['k'], cxx.ch(n)
    if k == 'CompoundStmt':
        for x in c:
            if not flow(x, env, step, stop):
                return False
        return True
    if k == 'DeclStmt':
        for d in n.get('d') or []:
            env[d['id']] = mult(cxx.ch(d)[0], env, step) if cxx.ch(d) else None
        return True
    if k == 'IfStmt':
        flow(c[0], env, step, stop)
        a, o = dict(env), dict(env)
        refine(c[1], a, o, step)
        go = flow(c[2], a, step, stop)
        flow(c[3], o, step, stop)
        da, do = ends(c[2]), ends(c[3])
        for v in set(a) | set(o):
            env[v] = o.get(v) if da else a.get(v) if do else None if a.get(v) is None or o.get(v) is None else a[v] and o[v]
        return go
    if k in ('BinaryOperator', 'CompoundAssignOperator') and n.get('op') in ASSIGN and c[0]['k'] == 'DeclRefExpr' and c[0].get('id') is not None:
        i = c[0]['id']
        if n['op'] == '=':
            env[i] = mult(c[1], env, step)
        elif n['op'] == '-=' and remainder(c[1], c[0], step):
            env[i] = True
        elif n['op'] in ('+=', '-='):
            m = mult(c[1], env, step)
            env[i] = None if m is None or env.get(i) is None else m and env[i]
        elif n['op'] == '*=':
            env[i] = env.get(i) or mult(c[1], env, step)
        else:
            env[i] = False
        return True
    if any(x is stop for x in cxx.walk(n)):
        return False
    return True


def ends(n):
    """whether a statement certainly leaves the function"""
    return n is not None and (n['k'] in ('ReturnStmt', 'CXXThrowExpr') or n['k'] == 'CompoundStmt' and any(ends(x) for x in cxx.ch(n) if x))


def remainder(e, of, step):
    return e['k'] == 'BinaryOperator' and e.get('op') == '%' and text(cxx.ch(e)[0]) == text(of) and cxx.ch(e)[1].get('id') == step


def refine(cond, yes, no, step):
    r, op = cond, '!='
    if cond['k'] == 'BinaryOperator' and cond.get('op') in ('!=', '==', '>') and number(cxx.ch(cond)[1]) == 0:
        r, op = cxx.ch(cond)[0], cond['op']
    if r['k'] == 'BinaryOperator' and r.get('op') == '%' and cxx.ch(r)[0]['k'] == 'DeclRefExpr' and cxx.ch(r)[1].get('id') == step:
        (yes if op == '==' else no)[cxx.ch(r)[0].get('id')] = True


def mult(e, env, step):
    """whether a value is a multiple of the step: True, False (not in general) or None (not known)"""
    k, c = e['k'], cxx.ch(e)
    if k == 'IntegerLiteral':
        return int(e['v']) == 0
    if k == 'DeclRefExpr':
        return env.get(e['id']) if e.get('id') in env else False if e.get('id') is not None else None
    if k in ('CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'InitListExpr', 'ParenExpr') and len(c) == 1:
        return mult(c[0], env, step)
    if k == 'BinaryOperator':
        a, b = mult(c[0], env, step), mult(c[1], env, step)
        if e.get('op') == '-' and remainder(c[1], c[0], step):
            return True
        if e.get('op') == '*':
            return True if a or b else None if a is None or b is None else False
        if e.get('op') in ('+', '-'):
            return None if a is None or b is None else a and b
        return False
    if k == 'ConditionalOperator':
        y, o = dict(env), dict(env)
        refine(c[0], y, o, step)
        a, b = mult(c[1], y, step), mult(c[2], o, step)
        return None if a is None or b is None else a and b
    if k == 'CallExpr' and name_of(e.get('r')) in ('max', 'min') and len(c) == 3:
        a, b = mult(c[1], env, step), mult(c[2], env, step)
        return None if a is None or b is None else a and b
    return None


def refers(e, i):
    return any(x['k'] == 'DeclRefExpr' and x.get('id') == i for x in cxx.walk(e))


def add(a, b, sign):
    if a is None or b is None:
        return None
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + sign * v
    return {k: v for k, v in out.items() if v}


def substitute(form, s, e, distance):
    """a linear form in which the end is the beginning and a distance"""
    n = form.get(('v', e), 0)
    out = {k: v for k, v in form.items() if k != ('v', e)}
    out = add(out, {('v', s): n}, 1)
    return add(out, {k: v * n for k, v in distance.items()}, 1)


def linear(e, vals):
    """{symbol: factor} of an expression over variables"""
    k, c = e['k'], cxx.ch(e)
    if k == 'IntegerLiteral':
        return {1: int(e['v'])} if int(e['v']) else {}
    if k == 'DeclRefExpr' and e.get('id') is not None:
        return vals.get(e['id'], {('v', e['id']): 1})
    if k in ('BinaryOperator', 'CXXOperatorCallExpr') and e.get('op') in ('+', '-') and len(c) == 2:
        return add(linear(c[0], vals), linear(c[1], vals), 1 if e['op'] == '+' else -1)
    if k == 'CallExpr' and e.get('r') in ('std::next', 'std::prev') and len(c) > 1:
        return add(linear(c[1], vals), linear(c[2], vals) if len(c) > 2 else {1: 1}, 1 if e['r'] == 'std::next' else -1)
    if len(c) == 1 and k in ('CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'InitListExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr'):
        return linear(c[0], vals)
    if any(x['k'] == 'DeclRefExpr' and x.get('id') in vals for x in cxx.walk(e)):
        return None
    return {('e', text(e)): 1}


def text(n):
    return (n['k'], n.get('n'), n.get('v'), n.get('op'), tuple(text(x) for x in cxx.ch(n) if x))


def threads(rep, F):
    """the constant that the loops divide their work by (the default of their last parameter) is positive whatever hardware_concurrency() gives"""
    used = {x['r'] for f in F.functions if name_of(f.get('q')) in ('parallel_for', 'parallel_for_each') for x in cxx.fwalk(f) if x['k'] == 'DeclRefExpr' and x.get('r') in F.globals}
    for q in sorted(used):
        g = F.globals[q]
        if not cxx.ch(g):
            continue
        lo = lower(cxx.ch(g)[0], {})
        if lo is None:
            rep.count('constants that were not bounded')
            continue
        rep.check(lo > 0, 'threads', q.replace('pyclustering::', ''), g.get('file', ''), 'the amount of threads may be zero on a machine with few processors, and the work is divided by it')


def source(e):
    """name of the unknown that an expression is, behind casts and constants: hardware_concurrency() or None"""
    while e['k'] in ('CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'InitListExpr') and len(cxx.ch(e)) == 1:
        e = cxx.ch(e)[0]
    if e['k'] == 'CallExpr' and 'hardware_concurrency' in str(e.get('r')):
        return 'hc'
    if e['k'] == 'DeclRefExpr' and e.get('r') in cxx.facts().globals:
        g = cxx.facts().globals[e['r']]
        return source(cxx.ch(g)[0]) if cxx.ch(g) else None
    return None


def number(e):
    while e['k'] in ('CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'InitListExpr') and len(cxx.ch(e)) == 1:
        e = cxx.ch(e)[0]
    return int(e['v']) if e['k'] == 'IntegerLiteral' else None


def lower(e, facts):
    """lower bound of an unsigned expression, given lower bounds of hardware_concurrency()"""
    k, c = e['k'], cxx.ch(e)
    if k == 'IntegerLiteral':
        return int(e['v'])
    if k in ('CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'InitListExpr') and len(c) == 1:
        return lower(c[0], facts)
    if source(e) == 'hc':
        return facts.get('hc', 0)
    if k == 'BinaryOperator' and e.get('op') in ('-', '+'):
        a, b = lower(c[0], facts), lower(c[1], facts)
        if a is None or b is None:
            return None
        if e['op'] == '+':
            return a + b
        return a - b if a - b >= 0 else 0
    if k == 'ConditionalOperator':
        t, f = dict(facts), dict(facts)
        cond = c[0]
        if source(cond) == 'hc':
            t['hc'] = max(t.get('hc', 0), 1)
        elif cond['k'] == 'BinaryOperator':
            a, b, op = cxx.ch(cond)[0], cxx.ch(cond)[1], cond.get('op')
            if source(b) == 'hc':
                a, b, op = b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            v = number(b)
            if source(a) == 'hc' and v is not None:
                if op in ('>', '>='):
                    t['hc'] = max(t.get('hc', 0), v + (op == '>'))
                elif op in ('<', '<='):
                    f['hc'] = max(f.get('hc', 0), v + (op == '<='))
                elif op == '==' and v == f.get('hc', 0):
                    f['hc'] = v + 1
                elif op == '!=' and v == t.get('hc', 0):
                    t['hc'] = v + 1
        a, b = lower(c[1], t), lower(c[2], f)
        return None if a is None or b is None else min(a, b)
    if k == 'CallExpr' and name_of(e.get('r')) == 'max':
        v = [lower(x, facts) for x in c[1:]]
        return max([x for x in v if x is not None], default=None)
    if k == 'DeclRefExpr' and e.get('r'):
        g = cxx.facts().globals.get(e['r'])
        return lower(cxx.ch(g)[0], facts) if g and cxx.ch(g) else None
    return None
