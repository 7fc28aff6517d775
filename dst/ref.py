"""Reference model: a small executable semantics of the Scheme subset that the
generators of gen.py emit.

Written from R5RS / SRFI texts and doc/spec.txt (escape-only continuations:
a continuation is valid until the call/cc that made it returns or is escaped
from, its after thunks included; guard clauses are evaluated in the dynamic context of the raise), not
from the C code's structure. Programs are JSON-able trees:

  int, bool       themselves            {"s": "abc"}   string literal
  "x"             variable / symbol     {"c": 65}      character
  [f, a, ...]     combination           {"d": [a, b]}  dotted tail: (a . b)
"""
import sys
sys.setrecursionlimit(20000)


class Sym:
    __slots__ = ('n',)
    tab = {}

    def __init__(self, n):
        self.n = n


def intern(n):
    s = Sym.tab.get(n)
    if s is None:
        s = Sym.tab[n] = Sym(n)
    return s


class Str:
    __slots__ = ('s', 'const')

    def __init__(self, s, const=False):
        self.s = s
        self.const = const


class Ch:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c


class Pair:
    __slots__ = ('a', 'd')

    def __init__(self, a, d):
        self.a = a
        self.d = d


class Vec:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Uniq:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n


NIL = Uniq('()')
UNDEF = Uniq('#<undef>')
EOF = Uniq('#<eof>')


class Clo:
    __slots__ = ('params', 'rest', 'body', 'env')

    def __init__(self, params, rest, body, env):
        self.params = params
        self.rest = rest
        self.body = body
        self.env = env


class Prim:
    __slots__ = ('f', 'n', 'lo', 'hi')

    def __init__(self, n, f, lo, hi):
        self.n = n
        self.f = f
        self.lo = lo
        self.hi = hi


class Cont:
    __slots__ = ('dyn', 'valid')

    def __init__(self, dyn):
        self.dyn = dyn
        self.valid = True


class MV:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Err:
    """an error object: cls is the class of the failure"""
    __slots__ = ('reason', 'objs')

    def __init__(self, reason, objs):
        self.reason = reason
        self.objs = objs


class Promise:
    __slots__ = ('done', 'val', 'exp', 'env')

    def __init__(self, exp, env):
        self.done = False
        self.val = None
        self.exp = exp
        self.env = env


class OPort:
    __slots__ = ('b',)

    def __init__(self):
        self.b = []


class IPort:
    __slots__ = ('s', 'i')

    def __init__(self, s):
        self.s = s
        self.i = 0


class Table:
    __slots__ = ('d',)

    def __init__(self):
        self.d = {}


class Escape(Exception):
    def __init__(self, k, val):
        self.k = k
        self.val = val


class Fatal(Exception):
    pass


class Budget(Exception):
    """the program is too long for the model: discard it"""


class Unknown(Exception):
    """outside of the modelled subset"""


class Env:
    __slots__ = ('d', 'up')

    def __init__(self, d, up):
        self.d = d
        self.up = up


def lst(xs, tail=NIL):
    r = tail
    for x in reversed(xs):
        r = Pair(x, r)
    return r


def unlst(l):
    out = []
    while isinstance(l, Pair):
        out.append(l.a)
        l = l.d
    return out, l


def is_int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def b2s(bs):
    return bs


def pr_bytes(s):
    o = []
    for c in s.encode('utf-8'):
        if c in (34, 92):
            o.append('\\' + chr(c))
        elif c < 0x20 or c >= 0x7f:
            o.append('\\x%02x;' % c)
        else:
            o.append(chr(c))
    return ''.join(o)


def show(o, depth=0):
    if depth > 60:
        return '...'
    if o is True:
        return '#t'
    if o is False:
        return '#f'
    if isinstance(o, int):
        return str(o)
    if isinstance(o, Uniq):
        return o.n
    if isinstance(o, Sym):
        return '|%s|' % pr_bytes(o.n)
    if isinstance(o, Str):
        return '"%s"/%d' % (pr_bytes(o.s), len(o.s))
    if isinstance(o, Ch):
        return '#\\x%x' % o.c
    if isinstance(o, Pair):
        p = []
        while isinstance(o, Pair):
            p.append(show(o.a, depth + 1))
            o = o.d
        return '(' + ' '.join(p) + (
            '' if o is NIL else ' . ' + show(o, depth + 1)) + ')'
    if isinstance(o, Vec):
        return '#(' + ' '.join(show(x, depth + 1) for x in o.v) + ')'
    if isinstance(o, Clo):
        return '#<closure>'
    if isinstance(o, Prim):
        return '#<func>'
    if isinstance(o, Cont):
        return '#<cont>'
    if isinstance(o, MV):
        return '#<values>'
    if isinstance(o, (OPort, IPort)):
        return '#<port 1>'
    if isinstance(o, Err):
        if o.reason == 'E_other':
            return '#<error E_other>'
        return '#<error %s %s>' % (
            o.reason if isinstance(o.reason, str) else show(o.reason, depth + 1),
            show(lst(o.objs), depth + 1))
    return '#<other>'


def norm(line):
    """map an error object printed by the simulator to the model's classes"""
    out = []
    i = 0
    while True:
        j = line.find('#<error ', i)
        if j < 0:
            out.append(line[i:])
            return ''.join(out)
        out.append(line[i:j])
        # find the reason: first token
        k = j + 8
        if line[k] == '"':
            e = k + 1
            while line[e] != '"':
                e += 2 if line[e] == '\\' else 1
            reason = line[k:e + 1]
            e += 1
            while e < len(line) and line[e] in '/0123456789':
                e += 1
            tok = line[k:e]
        else:
            e = line.find(' ', k)
            reason = tok = line[k:e]
        # the objs list: balanced up to the closing '>'
        d = 0
        p = e + 1
        instr = False
        q = p
        while q < len(line):
            c = line[q]
            if instr:
                if c == '\\':
                    q += 1
                elif c == '"':
                    instr = False
            elif c == '"':
                instr = True
            elif c == '(':
                d += 1
            elif c == ')':
                d -= 1
                if d == 0:
                    break
            q += 1
        objs = line[p:q + 1]
        i = q + 2
        if 'expired continuation' in reason:
            out.append('#<error E_expired ()>')
        elif 'handler returned' in reason:
            out.append('#<error E_hret %s>' % norm(objs))
        elif reason.startswith('"in sim-step'):
            out.append('#<error E_step %s>' % norm(objs))
        elif reason.startswith('"u:'):
            out.append('#<error %s %s>' % (tok, norm(objs)))
        else:
            out.append('#<error E_other>')


def undatum(x):
    if isinstance(x, Sym):
        return x.n
    if isinstance(x, Str):
        return {'s': x.s}
    if isinstance(x, Ch):
        return {'c': x.c}
    if isinstance(x, Vec):
        return {'v': [undatum(y) for y in x.v]}
    if isinstance(x, Pair) or x is NIL:
        l, t = unlst(x)
        l = [undatum(y) for y in l]
        return l if t is NIL else {'d': l + [undatum(t)]}
    return x


class Ref:
    def __init__(self, stepfail=(), budget=60000):
        self.g = {}
        self.handlers = None
        self.dyn = None
        self.ks = []
        self.log = []
        self.steps = 0
        self.stepfail = set(stepfail)
        self.budget = budget
        self.fired = 0
        self.features = set()
        self.prims()

    # ------------------------------------------------------------ errors
    def err(self, reason='E_other', objs=()):
        return self.raise_(Err(reason, list(objs)))

    def raise_(self, obj):
        if self.handlers is None:
            raise Fatal(obj)
        h, rest = self.handlers

        def thunk():
            self.call(h, [obj])
            self.features.add('handler-returned')
            return self.err('E_hret', [h, obj])
        return self.with_handlers(rest, thunk)

    def with_handlers(self, hs, thunk):
        prev = self.handlers

        def before():
            self.handlers = hs

        def after():
            self.handlers = prev
        return self.dynwind(before, thunk, after)

    def dynwind(self, before, thunk, after):
        before()
        frame = (after, self.dyn)
        self.dyn = frame
        r = thunk()
        self.dyn = self.dyn[1]
        after()
        return r

    # ----------------------------------------------------- continuations
    def unwind_k(self, k):
        while self.ks:
            x = self.ks.pop()
            x.valid = False
            if x is k:
                return True
        return False

    def callcc(self, f):
        k = Cont(self.dyn)
        self.ks.append(k)
        try:
            r = f(k)
        except Escape as e:
            if e.k is not k:
                raise
            return e.val
        self.unwind_k(k)
        return r

    def throw(self, k, val):
        if not k.valid or k not in self.ks:
            self.features.add('expired')
            return self.err('E_expired')
        while self.ks[-1] is not k:
            self.ks.pop().valid = False
        while self.dyn is not None and self.dyn is not k.dyn:
            after = self.dyn[0]
            self.dyn = self.dyn[1]
            after()
        self.unwind_k(k)
        self.features.add('escape')
        raise Escape(k, val)

    def call(self, f, args):
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        if isinstance(f, Clo):
            n = len(f.params)
            if len(args) < n or (f.rest is None and len(args) > n):
                return self.err()
            d = dict(zip(f.params, args))
            if f.rest is not None:
                d[f.rest] = lst(args[n:])
            return self.body(f.body, Env(d, f.env))
        if isinstance(f, Prim):
            if len(args) < f.lo or (f.hi is not None and len(args) > f.hi):
                return self.err()
            return f.f(*args)
        if isinstance(f, Cont):
            return self.throw(f, args[0] if len(args) == 1 else MV(args))
        return self.err()

    # -------------------------------------------------------------- eval
    def body(self, forms, env):
        r = UNDEF
        for x in forms:
            r = self.ev(x, env)
        return r

    def lookup(self, n, env):
        while env is not None:
            if n in env.d:
                return env.d[n]
            env = env.up
        if n in self.g:
            return self.g[n]
        return self.err()

    def datum(self, x):
        if x is True or x is False or isinstance(x, int):
            return x
        if isinstance(x, str):
            return intern(x)
        if isinstance(x, dict):
            if 's' in x:
                return Str(x['s'], True)
            if 'c' in x:
                return Ch(x['c'])
            if 'v' in x:
                return Vec([self.datum(y) for y in x['v']])
            d = [self.datum(y) for y in x['d']]
            return lst(d[:-1], d[-1])
        return lst([self.datum(y) for y in x])

    def ev(self, x, env):
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        if isinstance(x, str):
            return self.lookup(x, env)
        if isinstance(x, (bool, int)):
            return x
        if isinstance(x, dict):
            return self.datum(x)
        h = x[0]
        if isinstance(h, str):
            m = self.forms.get(h)
            if m is not None:
                return m(self, x, env)
        f = self.ev(h, env)
        return self.call(f, [self.ev(a, env) for a in x[1:]])

    def f_quote(self, x, env):
        return self.datum(x[1])

    def f_if(self, x, env):
        if self.ev(x[1], env) is not False:
            return self.ev(x[2], env)
        return self.ev(x[3], env) if len(x) > 3 else UNDEF

    def f_lambda(self, x, env):
        p = x[1]
        if isinstance(p, str):
            return Clo([], p, x[2:], env)
        if isinstance(p, dict):
            return Clo(p['d'][:-1], p['d'][-1], x[2:], env)
        return Clo(p, None, x[2:], env)

    def f_let(self, x, env):
        if isinstance(x[1], str):
            name, bs, body = x[1], x[2], x[3:]
            vals = [self.ev(b[1], env) for b in bs]
            e = Env({}, env)
            f = Clo([b[0] for b in bs], None, body, e)
            e.d[name] = f
            return self.call(f, vals)
        vals = [self.ev(b[1], env) for b in x[1]]
        return self.body(x[2:], Env(dict(zip([b[0] for b in x[1]], vals)), env))

    def f_letstar(self, x, env):
        for b in x[1]:
            env = Env({b[0]: self.ev(b[1], env)}, env)
        return self.body(x[2:], Env({}, env))

    def f_letrec(self, x, env):
        e = Env({}, env)
        vals = [self.ev(b[1], e) for b in x[1]]
        for b, v in zip(x[1], vals):
            e.d[b[0]] = v
        return self.body(x[2:], e)

    def f_begin(self, x, env):
        return self.body(x[1:], env)

    def f_set(self, x, env):
        v = self.ev(x[2], env)
        e = env
        while e is not None:
            if x[1] in e.d:
                e.d[x[1]] = v
                return UNDEF
            e = e.up
        if x[1] in self.g:
            self.g[x[1]] = v
            return UNDEF
        return self.err()

    def f_define(self, x, env):
        if isinstance(x[1], list):
            v = Clo(x[1][1:], None, x[2:], env)
            n = x[1][0]
        else:
            n = x[1]
            v = self.ev(x[2], env)
        if env is None:
            self.g[n] = v
        else:
            env.d[n] = v
        return UNDEF

    def f_and(self, x, env):
        r = True
        for y in x[1:]:
            r = self.ev(y, env)
            if r is False:
                return r
        return r

    def f_or(self, x, env):
        r = False
        for y in x[1:]:
            r = self.ev(y, env)
            if r is not False:
                return r
        return r

    def clauses(self, cs, env):
        """cond clauses; returns None if no clause matches"""
        for c in cs:
            if c[0] == 'else':
                return self.body(c[1:], env)
            t = self.ev(c[0], env)
            if t is not False:
                if len(c) == 1:
                    return t
                if c[1] == '=>':
                    return self.call(self.ev(c[2], env), [t])
                return self.body(c[1:], env)
        return None

    def f_cond(self, x, env):
        r = self.clauses(x[1:], env)
        return UNDEF if r is None else r

    def f_case(self, x, env):
        v = self.ev(x[1], env)
        for c in x[2:]:
            if c[0] == 'else' or any(self.eqv(v, self.datum(d)) for d in c[0]):
                return self.body(c[1:], env)
        return UNDEF

    def f_do(self, x, env):
        """(do ((v init step) ...) (test res ...) cmd ...)"""
        e = Env({b[0]: v for b, v in
                 [(b, self.ev(b[1], env)) for b in x[1]]}, env)
        while self.ev(x[2][0], e) is False:
            for c in x[3:]:
                self.ev(c, e)
            e = Env({b[0]: v for b, v in
                     [(b, self.ev(b[2], e) if len(b) > 2 else e.d[b[0]])
                      for b in x[1]]}, env)
        return self.body(x[2][1:], e)

    def f_delay(self, x, env):
        return Promise(x[1], env)

    def f_guard(self, x, env):
        (var, *cs), body = x[1], x[2:]

        def with_k(gk):
            def handler(cond):
                def hk_body(hk):
                    r = self.clauses(cs, Env({var: cond}, env))
                    if r is not None:
                        self.features.add('guard-caught')
                        self.throw(gk, r)
                    self.features.add('guard-reraise')
                    self.throw(hk, None)
                self.callcc(hk_body)
                return self.raise_(cond)
            h = Prim('handler', handler, 1, 1)

            def thunk():
                r = self.body(body, Env({}, env))
                self.throw(gk, r)
            return self.with_handlers((h, self.handlers), thunk)
        return self.callcc(with_k)

    def f_quasi(self, x, env):
        return self.qq(x[1], env)

    def qq(self, x, env):
        if isinstance(x, list):
            if x and x[0] == 'unquote':
                return self.ev(x[1], env)
            if len(x) > 2 and x[-2] == 'unquote':   # (a . ,b)
                l, _ = unlst(self.qq(x[:-2], env))
                return lst(l, self.ev(x[-1], env))
            out = []
            for y in x:
                if isinstance(y, list) and y and y[0] == 'unquote-splicing':
                    l, t = unlst(self.ev(y[1], env))
                    if t is not NIL:
                        return self.err()
                    out += l
                else:
                    out.append(self.qq(y, env))
            return lst(out)
        if isinstance(x, dict) and 'v' in x:
            return Vec(unlst(self.qq(x['v'], env))[0])
        if isinstance(x, dict) and 'd' in x:
            l, _ = unlst(self.qq(x['d'][:-1], env))
            return lst(l, self.qq(x['d'][-1], env))
        return self.datum(x)

    def f_receive(self, x, env):
        v = self.ev(x[2], env)
        a = v.v if isinstance(v, MV) else [v]
        p = x[1]
        if isinstance(p, str):
            d = {p: lst(a)}
        elif isinstance(p, dict):
            n = len(p['d']) - 1
            if len(a) < n:
                return self.err()
            d = dict(zip(p['d'], a[:n]))
            d[p['d'][-1]] = lst(a[n:])
        else:
            if len(a) != len(p):
                return self.err()
            d = dict(zip(p, a))
        return self.body(x[3:], Env(d, env))

    # macros that the prelude of gen.py defines with define-macro
    def f_mor(self, x, env):
        v = self.ev(x[1], env)
        return v if v is not False else self.ev(x[2], env)

    def f_munless(self, x, env):
        if self.ev(x[1], env) is False:
            return self.body(x[2:], Env({}, env))
        return False

    def f_minc(self, x, env):
        return self.f_set([0, x[1], ['+', x[1], x[2]]], env)

    def f_mlet(self, x, env):
        return self.f_let([0, x[1]] + x[2:], env)

    def f_mseta(self, x, env):
        return self.ev(['+', ['-', x[1]], x[2]], env)

    def f_msetb(self, x, env):
        return self.ev(['-', x[1], x[2]], env)

    def f_mrest(self, x, env):
        return self.ev(['+', ['+', 1, x[1]], x[2]], env)

    forms = {'m-seta': f_mseta, 'm-setb': f_msetb, 'm-rest': f_mrest,
             'm-or': f_mor, 'm-unless': f_munless, 'm-inc!': f_minc,
             'm-let': f_mlet, 'quote': f_quote, 'if': f_if, 'lambda': f_lambda, 'let': f_let,
             'let*': f_letstar, 'letrec': f_letrec, 'begin': f_begin,
             'set!': f_set, 'define': f_define, 'and': f_and, 'or': f_or,
             'cond': f_cond, 'case': f_case, 'do': f_do, 'delay': f_delay,
             'guard': f_guard, 'quasiquote': f_quasi, 'receive': f_receive}

    # ------------------------------------------------------------- prims
    def eqv(self, a, b):
        if is_int(a) and is_int(b):
            return a == b
        if isinstance(a, Ch) and isinstance(b, Ch):
            return a.c == b.c
        return a is b

    def equal(self, a, b):
        if isinstance(a, Pair) and isinstance(b, Pair):
            return self.equal(a.a, b.a) and self.equal(a.d, b.d)
        if isinstance(a, Str) and isinstance(b, Str):
            return a.s == b.s
        if isinstance(a, Vec) and isinstance(b, Vec):
            return len(a.v) == len(b.v) and all(
                self.equal(x, y) for x, y in zip(a.v, b.v))
        return self.eqv(a, b)

    def p(self, name, lo, hi=-1):
        def deco(f):
            self.g[name] = Prim(name, f, lo, lo if hi == -1 else hi)
            return f
        return deco

    def prims(self):
        p = self.p
        E = self.err

        def arith(name, fn, unit):
            def f(*a):
                if not all(is_int(x) for x in a):
                    return E()
                r = unit
                if name == '-':
                    if not a:
                        return E()
                    r = -a[0] if len(a) == 1 else a[0] - sum(a[1:])
                else:
                    for x in a:
                        r = fn(r, x)
                if not -(1 << 55) < r < (1 << 55):
                    raise Unknown('range')
                return r
            self.g[name] = Prim(name, f, 0, None)
        arith('+', lambda a, b: a + b, 0)
        arith('*', lambda a, b: a * b, 1)
        arith('-', None, 0)

        def cmp(name, fn):
            def f(*a):
                if not all(is_int(x) for x in a):
                    return E()
                return all(fn(x, y) for x, y in zip(a, a[1:]))
            self.g[name] = Prim(name, f, 2, None)
        cmp('<', lambda a, b: a < b)
        cmp('=', lambda a, b: a == b)
        cmp('>', lambda a, b: a > b)

        @p('not', 1)
        def _(a):
            return a is False

        @p('eq?', 2)
        def _(a, b):
            return self.eqv(a, b)

        @p('equal?', 2)
        def _(a, b):
            return self.equal(a, b)

        @p('cons', 2)
        def _(a, b):
            return Pair(a, b)

        @p('list', 0, None)
        def _(*a):
            return lst(list(a))

        @p('car', 1)
        def _(a):
            return a.a if isinstance(a, Pair) else E()

        @p('cdr', 1)
        def _(a):
            return a.d if isinstance(a, Pair) else E()

        @p('set-car!', 2)
        def _(a, b):
            if not isinstance(a, Pair):
                return E()
            a.a = b
            return UNDEF

        @p('null?', 1)
        def _(a):
            return a is NIL

        @p('pair?', 1)
        def _(a):
            return isinstance(a, Pair)

        @p('integer?', 1)
        def _(a):
            return is_int(a)

        @p('symbol?', 1)
        def _(a):
            return isinstance(a, Sym)

        @p('string?', 1)
        def _(a):
            return isinstance(a, Str)

        @p('procedure?', 1)
        def _(a):
            return isinstance(a, (Clo, Prim, Cont))

        @p('length', 1)
        def _(a):
            l, t = unlst(a)
            return len(l) if t is NIL else E()

        @p('reverse', 1)
        def _(a):
            l, t = unlst(a)
            return lst(l[::-1]) if t is NIL else E()

        @p('append', 0, None)
        def _(*a):
            if not a:
                return NIL
            r = a[-1]
            for x in reversed(a[:-1]):
                l, t = unlst(x)
                if t is not NIL:
                    return E()
                r = lst(l, r)
            return r

        @p('vector', 0, None)
        def _(*a):
            return Vec(list(a))

        @p('make-vector', 2)
        def _(n, x):
            if not is_int(n) or n < 0:
                return E()
            return Vec([x] * n)

        @p('vector-ref', 2)
        def _(v, i):
            if not isinstance(v, Vec) or not is_int(i) or \
                    not 0 <= i < len(v.v):
                return E()
            return v.v[i]

        @p('vector-set!', 3)
        def _(v, i, x):
            if not isinstance(v, Vec) or not is_int(i) or \
                    not 0 <= i < len(v.v):
                return E()
            v.v[i] = x
            return UNDEF

        @p('vector-length', 1)
        def _(v):
            return len(v.v) if isinstance(v, Vec) else E()

        @p('vector->list', 1)
        def _(v):
            return lst(v.v) if isinstance(v, Vec) else E()

        @p('list->vector', 1)
        def _(l):
            l, t = unlst(l)
            return Vec(l) if t is NIL else E()

        @p('string-append', 0, None)
        def _(*a):
            if not all(isinstance(x, Str) for x in a):
                return E()
            return Str(''.join(x.s for x in a))

        @p('string-length', 1)
        def _(a):
            return len(a.s) if isinstance(a, Str) else E()

        @p('substring', 3)
        def _(a, i, j):
            if not isinstance(a, Str) or not is_int(i) or not is_int(j) or \
                    not 0 <= i <= j <= len(a.s):
                return E()
            return Str(a.s[i:j])

        @p('string->symbol', 1)
        def _(a):
            return intern(a.s) if isinstance(a, Str) else E()

        @p('symbol->string', 1)
        def _(a):
            return Str(a.n, True) if isinstance(a, Sym) else E()

        @p('number->string', 1)
        def _(a):
            return Str(str(a)) if is_int(a) else E()

        @p('string->list', 1)
        def _(a):
            return lst([Ch(ord(c)) for c in a.s]) \
                if isinstance(a, Str) else E()

        @p('list->string', 1)
        def _(a):
            l, t = unlst(a)
            if t is not NIL or not all(isinstance(c, Ch) for c in l):
                return E()
            return Str(''.join(chr(c.c) for c in l))

        @p('string-set!', 3)
        def _(s, i, c):
            if not isinstance(s, Str) or s.const or not is_int(i) or \
                    not isinstance(c, Ch) or not 0 <= i < len(s.s):
                return E()
            s.s = s.s[:i] + chr(c.c) + s.s[i + 1:]
            return UNDEF

        @p('string-copy', 1)
        def _(s):
            return Str(s.s) if isinstance(s, Str) else E()

        @p('sim-log', 1)
        def _(a):
            self.log.append('L ' + show(a))
            return a

        @p('sim-step', 1)
        def _(a):
            self.steps += 1
            if self.steps in self.stepfail:
                self.fired += 1
                return E('E_step', [a])
            return a

        @p('interaction-environment', 0)
        def _():
            return UNDEF

        @p('eval', 2)
        def _(x, e):
            return self.ev(undatum(x), None)

        @p('sim-gc', 0)
        def _():
            return UNDEF

        @p('sim-call', 1, None)
        def _(f, *a):
            return self.call(f, list(a))

        @p('apply', 2, None)
        def _(f, *a):
            l, t = unlst(a[-1])
            if t is not NIL:
                return E()
            return self.call(f, list(a[:-1]) + l)

        def _map(f, *ls):
            cols = []
            for l in ls:
                c, t = unlst(l)
                if t is not NIL:
                    raise Unknown('map')
                cols.append(c)
            if len(set(map(len, cols))) > 1:
                raise Unknown('map lengths')
            return lst([self.call(f, list(r)) for r in zip(*cols)])
        self.g['map'] = Prim('map', _map, 2, None)

        def _foreach(f, *ls):
            _map(f, *ls)
            return UNDEF
        self.g['for-each'] = Prim('for-each', _foreach, 2, None)

        @p('call-with-current-continuation', 1)
        def _(f):
            if not isinstance(f, (Clo, Prim, Cont)):
                return E()
            return self.callcc(lambda k: self.call(f, [k]))
        self.g['call/cc'] = self.g['call-with-current-continuation']

        @p('dynamic-wind', 3)
        def _(b, t, a):
            if not all(isinstance(f, (Clo, Prim, Cont)) for f in (b, t, a)):
                return E()
            return self.dynwind(lambda: self.call(b, []),
                                lambda: self.call(t, []),
                                lambda: self.call(a, []))

        @p('values', 0, None)
        def _(*a):
            return a[0] if len(a) == 1 else MV(list(a))

        @p('call-with-values', 2)
        def _(prod, cons):
            v = self.call(prod, [])
            return self.call(cons, v.v if isinstance(v, MV) else [v])

        @p('raise', 1)
        def _(o):
            return self.raise_(o)

        @p('error', 1, None)
        def _(m, *o):
            return E(show(m) if isinstance(m, Str) else m, o)

        @p('with-exception-handler', 2)
        def _(h, t):
            if not all(isinstance(f, (Clo, Prim, Cont)) for f in (h, t)):
                return E()
            return self.with_handlers((h, self.handlers),
                                      lambda: self.call(t, []))

        @p('%%error-object?', 1)
        def _(o):
            return isinstance(o, Err)

        @p('force', 1)
        def _(pr):
            if not isinstance(pr, Promise):
                return E()
            if pr.done:
                return pr.val
            v = self.ev(pr.exp, pr.env)
            if not pr.done:
                pr.done = True
                pr.val = v
                pr.exp = pr.env = None
            else:
                self.features.add('reentrant-force')
            return pr.val

        @p('open-output-string', 0)
        def _():
            return OPort()

        @p('get-output-string', 1)
        def _(o):
            return Str(''.join(o.b)) if isinstance(o, OPort) else E()

        @p('display', 2)
        def _(x, o):
            if not isinstance(o, OPort):
                return E()
            if isinstance(x, Str):
                o.b.append(x.s)
            elif is_int(x):
                o.b.append(str(x))
            elif isinstance(x, Sym):
                o.b.append(x.n)
            else:
                raise Unknown('display')
            return UNDEF

        @p('open-input-string', 1)
        def _(s):
            return IPort(s.s) if isinstance(s, Str) else E()

        @p('read-char', 1)
        def _(i):
            if not isinstance(i, IPort):
                return E()
            if i.i >= len(i.s):
                return EOF
            i.i += 1
            return Ch(ord(i.s[i.i - 1]))

        @p('eof-object?', 1)
        def _(x):
            return x is EOF

    # ------------------------------------------------------------ driver
    def run(self, forms):
        """evaluate top-level forms; the log as the simulator prints it"""
        r = UNDEF
        try:
            for f in forms:
                r = self.ev(f, None)
        except Fatal as e:
            self.log.append('FATAL ' + show(e.args[0]))
            return self.log
        self.log.append('R ' + show(r))
        return self.log


def src(x):
    """tree -> Scheme source"""
    if x is True:
        return '#t'
    if x is False:
        return '#f'
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return x
    if isinstance(x, dict):
        if 's' in x:
            return '"%s"' % x['s'].replace('\\', '\\\\').replace('"', '\\"')
        if 'c' in x:
            return '#\\' + (chr(x['c']) if x['c'] > 32 else 'x%x' % x['c'])
        if 'v' in x:
            return '#(' + ' '.join(src(y) for y in x['v']) + ')'
        return '(' + ' '.join(src(y) for y in x['d'][:-1]) + ' . ' + \
            src(x['d'][-1]) + ')'
    if len(x) == 2 and x[0] == 'quote':
        return "'" + src(x[1])
    if len(x) == 2 and x[0] == 'quasiquote':
        return '`' + src(x[1])
    if len(x) == 2 and x[0] == 'unquote':
        return ',' + src(x[1])
    if len(x) == 2 and x[0] == 'unquote-splicing':
        return ',@' + src(x[1])
    return '(' + ' '.join(src(y) for y in x) + ')'
