"""P29 each expression is evaluated as often, and in the order, its form says."""
import json
from .. import util as U

PROP = 'P29'
LEVEL = 'exploration'
TECH = ('histories of nested control forms with errors and escapes at every '
        'point, and GC schedules')
VARIANTS = ['compact', 'compact-opt', 'fatty-opt', 'hygienic']
COUNT = {'quick': 9000, 'thorough': 200000}
CAP = {'quick': 300, 'thorough': 3000}
RULE = ('a case is a history of up to 10 toplevel forms that nest if, cond '
        '(also =>), case, and, or, begin, let, let*, letrec, do, named let, '
        'and-let*, let-optionals*, delay and force, quasiquote, apply, '
        'for-each, values, dynamic-wind, guard, call/cc and eval, and calls of '
        'earlier procedures whose bodies are such forms, so that the same code '
        'runs again after it has raised or been escaped from; every evaluation '
        'of a traced expression and every result is compared with a reference '
        'interpreter; it counts once per distinct event log')
ASSUME = ['the clauses of a guard are evaluated where the object is raised (see '
          'P05)',
          'where the order is free (operands, initialisers, steps) at most one '
          'of the expressions has effects',
          'the value of a form that has none (if, cond or case without a match, '
          'for-each, set!) is not looked at']
PROBES = ['probe:trace', 'probe:error', 'probe:escape', 'probe:reraise',
          'probe:again', 'probe:arrow', 'probe:forced', 'probe:default',
          'probe:wind', 'probe:false']
SETUP = r"""
(require-extension (srfi 2) (srfi 8) (srfi 34))
(define (sh x) (cond ((%%error-object? x) 'o) ((or (integer? x) (boolean? x) (symbol? x) (char? x)) x)
 ((null? x) x) ((pair? x) (cons (sh (car x)) (sh (cdr x))))
 ((vector? x) (list 'v (sh (vector->list x))))
 (else 'o)))
(define (lg i x) (sim-log (list 'l i (sh x))) x)
(define (ev x) (eval x (interaction-environment)))
(define (tl i t)
  (lg i (guard (e ((%%error-object? e) 'err) (#t (list 'raised e))) (t))))
(define x 0)
"""
SYMS = ['p', 'q', 'r']
CHARS = 'az'


class Raised(Exception):
    pass


class Esc(Exception):
    pass


class Endless(Exception):
    pass


class Interp:
    def __init__(self, ctx=None):
        self.log = []
        self.fs = {}
        self.ran = set()
        self.fuel = 2500
        self.depth = 0
        self.ctx = ctx
        self.top = self.x = [0]     # the variable x
        self.hs = []        # handlers, innermost last

    def P(self, n):
        if self.ctx:
            self.ctx.count('probe:' + n)

    def ev(self, e):
        self.fuel -= 1
        self.depth += 1
        try:
            if self.fuel < 0 or self.depth > 120:
                raise Endless()
            v = getattr(self, 'e_' + e[0])(e)
            if v is False:
                self.P('false')
            return v
        finally:
            self.depth -= 1

    def out(self, i, v):
        self.log.append('(|l| %d %s)' % (i, sh(v)))

    def e_c(self, e):
        return val(e[1])

    def e_x(self, e):
        return self.x[0]

    def e_t(self, e):
        v = self.ev(e[2])
        self.P('trace')
        self.out(e[1], v)
        return v

    def seq(self, xs):
        v = None
        for y in xs:
            v = self.ev(y)
        return v

    def e_seq(self, e):
        return self.seq(e[1:])

    def e_if(self, e):
        if self.ev(e[1]) is not False:
            return self.ev(e[2])
        if len(e) > 3:
            return self.ev(e[3])

    def clauses(self, cs, els):
        """value, or None if none matches"""
        for k, t, b in cs:
            v = self.ev(t)
            if v is not False:
                if k == '=>':
                    self.P('arrow')
                    return self.fn(b, v)
                return self.seq(b) if b else v
        if els:
            return self.seq(els)
        return NONE

    def e_cond(self, e):
        v = self.clauses(e[1], e[2])
        return None if v is NONE else v

    def e_case(self, e):
        k = self.ev(e[1])
        for ds, b in e[2]:
            if any(eqv(val(d), k) for d in ds):
                return self.seq(b)
        if e[3]:
            return self.seq(e[3])

    def e_and(self, e):
        v = True
        for y in e[1:]:
            v = self.ev(y)
            if v is False:
                return False
        return v

    def e_or(self, e):
        for y in e[1:]:
            v = self.ev(y)
            if v is not False:
                return v
        return False

    def fn(self, b, v):
        """the procedure (lambda (x) b)"""
        o, self.x = self.x, [v]
        try:
            return self.seq(b)
        finally:
            self.x = o

    def e_let(self, e):
        v = self.ev(e[2])
        if e[1] in ('al', 'al2') and v is False:
            return False
        if e[1] == 'al2':       # a second clause, a test
            o, self.x = self.x, [v]
            try:
                if self.ev(e[4]) is False:
                    return False
                return self.seq(e[3])
            finally:
                self.x = o
        return self.fn(e[3], v)

    def e_opt(self, e):
        if e[1] is not None:
            v = self.ev(e[1])
        else:
            self.P('default')
            v = self.ev(e[2])
        return self.fn(e[3], v)

    def e_do(self, e):
        _, init, n, step, test, body, res = e
        v = self.ev(init)
        for i in range(n):
            o, self.x = self.x, [v]
            try:
                if test and self.ev(test) is False:
                    return self.seq(res)
                self.seq(body)
                v = self.ev(step)
            finally:
                self.x = o
        return self.fn(res, v)

    def e_named(self, e):
        _, init, n, step, body, res = e
        v = self.ev(init)
        for i in range(n):
            o, self.x = self.x, [v]
            try:
                self.seq(body)
                v = self.ev(step)
            finally:
                self.x = o
        return self.fn(res, v)

    def e_force(self, e):
        """a promise forced n times"""
        x = self.x
        done = False
        v = None
        for i in range(e[2]):
            if not done:
                self.P('forced')
                o, self.x = self.x, x
                try:
                    v = self.ev(e[1])
                finally:
                    self.x = o
                done = True
        return v if e[2] else val('p')

    def e_qq(self, e):
        return self.q(e[1])

    def q(self, t):
        if t[0] == 'u':
            return self.ev(t[1])
        if t[0] == 'd':
            return val(t[1])
        out = []
        for y in t[1:]:
            if y[0] == 's':
                v = self.ev(y[1])
                if not isinstance(v, list):
                    raise Endless()
                out += v
            else:
                out.append(self.q(y))
        return out if t[0] == 'l' else [('v',), out]

    def e_list(self, e):
        return [self.ev(y) for y in e[1:]]

    def e_vals(self, e):
        return self.fn(e[2], [self.ev(y) for y in e[1]])

    def e_each(self, e):
        for y in e[1]:
            self.fn(e[2], val(y))

    def e_wind(self, e):
        self.P('wind')
        self.seq(e[1])
        x, hs = self.x, self.hs
        try:
            v = self.seq(e[2])
        except (Raised, Esc):
            self.x, self.hs = x, hs
            self.seq(e[3])
            raise
        self.seq(e[3])
        return v

    def e_guard(self, e):
        h = (e, self.x, self.hs)
        self.hs = self.hs + [h]
        x, hs = h[1:]
        try:
            return self.seq(e[1])
        except Esc as z:
            if z.args[0] is not h:
                raise
            return z.args[1]
        finally:
            self.x, self.hs = x, hs

    def throw(self, v):
        """the clauses are evaluated where the object is raised"""
        for h in reversed(self.hs):
            self.P('error')
            self.hs = h[2]
            self.x = [v]
            o = self.depth
            w = self.clauses(h[0][2], h[0][3])
            self.depth = o
            if w is not NONE:
                raise Esc(h, w)
            self.P('reraise')
        raise Raised(v)

    def e_raise(self, e):
        self.throw(self.ev(e[1]))

    def e_err(self, e):
        self.throw(ERR)

    def e_cc(self, e):
        """(call/cc (lambda (kN) ...))"""
        try:
            return self.seq(e[2])
        except Esc as z:
            if z.args[0] != e[1]:
                raise
            return z.args[1]

    def e_esc(self, e):
        v = self.ev(e[2])
        self.P('escape')
        raise Esc(e[1], v)

    def e_call(self, e):
        v = self.ev(e[2])
        if e[1] not in self.fs:
            raise Endless()
        if e[1] in self.ran:
            self.P('again')
        self.ran.add(e[1])
        return self.fn(self.fs[e[1]], v)

    def e_eval(self, e):
        n, self.x = self.x, self.top
        try:
            return self.ev(e[1])
        finally:
            self.x = n

    def e_set(self, e):
        self.x[0] = self.ev(e[1])

    def form(self, j, f):
        self.x = self.top
        self.hs = []
        self.depth = 0
        if f[0] == 'define':
            self.fs[f[1]] = f[2]
            self.ran.discard(f[1])
            return
        try:
            v = self.ev(f)
        except Raised as r:
            v = r.args[0]
            v = ('s', 'err') if v == ERR else [('s', 'raised'), v]
        self.out(1000 + j, v)


NONE = object()
ERR = ('error',)


def val(d):
    """a datum: int, bool, or a name for a symbol, or #\\c"""
    if isinstance(d, str):
        return ('c', d[2]) if d[0] == '#' else ('s', d)
    return [val(y) for y in d] if isinstance(d, list) else d


def eqv(a, b):
    return type(a) == type(b) and a == b and not (isinstance(a, list) and a)


def sh(v):
    if v is True or v is False:
        return '#t' if v else '#f'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, list):
        return '(' + ' '.join('|v|' if y == ('v',) else sh(y) for y in v) + ')'
    if v and v[0] == 's':
        return '|%s|' % v[1]
    if v and v[0] == 'c':
        return '#\\x%x' % ord(v[1])
    return '|o|'


# -------------------------------------------------------------- source text
def dat(d):
    if d is True or d is False:
        return '#t' if d else '#f'
    if isinstance(d, list):
        return '(%s)' % ' '.join(map(dat, d))
    return str(d)


def body(xs):
    return ' '.join(map(src, xs))


def csrc(cs, els):
    out = []
    for k, t, b in cs:
        out.append('(%s => (lambda (x) %s))' % (src(t), body(b)) if k == '=>'
                   else '(%s%s)' % (src(t), ' ' + body(b) if b else ''))
    if els:
        out.append('(else %s)' % body(els))
    return ' '.join(out)


def src(e):
    k = e[0]
    if k == 'c':
        d = dat(e[1])
        return "'" + d if d[0] not in '#0123456789-' or d[:2] == '#(' else d
    if k == 'x':
        return 'x'
    if k == 't':
        return '(lg %d %s)' % (e[1], src(e[2]))
    if k == 'seq':
        return '(begin %s)' % body(e[1:])
    if k in ('if', 'and', 'or', 'list'):
        return '(%s)' % ' '.join([k] + [src(y) for y in e[1:]])
    if k == 'cond':
        return '(cond %s)' % csrc(e[1], e[2])
    if k == 'case':
        return '(case %s %s)' % (src(e[1]), ' '.join(
            ['((%s) %s)' % (' '.join(map(dat, ds)), body(b))
             for ds, b in e[2]] + (['(else %s)' % body(e[3])] if e[3] else [])))
    if k == 'let':
        b = body(e[3])
        v = src(e[2])
        return {'let': '(let ((x %s)) %s)', 'lets': '(let* ((x %s)) %s)',
                'lam': '((lambda (y) (let ((x y)) %s)) %s)',
                'app': '(apply (lambda (x) %s) (list %s))',
                'def': '(let ((y %s)) (define x y) %s)',
                'al': '(and-let* ((x %s)) %s)',
                'al2': '(and-let* ((x %s) (@)) %s)'}[e[1]].replace(
                    '@', src(e[4]) if e[1] == 'al2' else '') % (
                        (b, v) if e[1] in ('lam', 'app') else (v, b))
    if k == 'opt':
        return '(let-optionals* (list %s) ((x %s)) %s)' % (
            src(e[1]) if e[1] is not None else '', src(e[2]), body(e[3]))
    if k == 'do':
        _, init, n, step, test, b, res = e
        t = '(= n 0)' if not test else '(or (= n 0) (not %s))' % src(test)
        return '(do ((n %d (- n 1)) (x %s %s)) (%s %s) %s)' % (
            n, src(init), src(step), t, body(res), body(b))
    if k == 'named':
        _, init, n, step, b, res = e
        return '(let loop ((n %d) (x %s)) (if (= n 0) (begin %s) (begin %s '\
            '(loop (- n 1) %s))))' % (n, src(init), body(res), body(b),
                                      src(step))
    if k == 'force':
        return '(let ((y (delay %s))) %s)' % (src(e[1]), ' '.join(
            ['(force y)'] * e[2]) or "'p")
    if k == 'qq':
        return '`' + qsrc(e[1])
    if k == 'vals':
        return '(receive x (values %s) %s)' % (body(e[1]), body(e[2]))
    if k == 'each':
        return "(for-each (lambda (x) %s) '(%s))" % (
            body(e[2]), ' '.join(map(dat, e[1])))
    if k == 'wind':
        return '(dynamic-wind %s)' % ' '.join(
            '(lambda () %s)' % body(y) for y in e[1:])
    if k == 'guard':
        return '(guard (x %s) %s)' % (csrc(e[2], e[3]), body(e[1]))
    if k == 'raise':
        return '(raise %s)' % src(e[1])
    if k == 'err':
        return "(car 'p)"
    if k == 'cc':
        return '(call/cc (lambda (k%d) %s))' % (e[1], body(e[2]))
    if k == 'esc':
        return '(k%d %s)' % (e[1], src(e[2]))
    if k == 'call':
        return '(f%d %s)' % (e[1], src(e[2]))
    if k == 'eval':
        return "(ev '%s)" % src(e[1])
    if k == 'set':
        return '(set! x %s)' % src(e[1])


def qsrc(t):
    if t[0] == 'u':
        return ',' + src(t[1])
    if t[0] == 's':
        return ',@' + src(t[1])
    if t[0] == 'd':
        return dat(t[1])
    return ('#(' if t[0] == 'v' else '(') + ' '.join(map(qsrc, t[1:])) + ')'


# -------------------------------------------------------------- generation
KINDS = ['if', 'cond', 'case', 'and', 'or', 'seq', 'let', 'opt', 'do', 'named',
         'force', 'qq', 'list', 'vals', 'wind', 'guard', 'cc', 'call', 'eval',
         't']


class G:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.k = 0
        self.ks = []
        self.nf = 0
        self.inner = False      # x is bound by a procedure
        self.w = {k: r.choice((0, .5, 1, 3)) for k in KINDS}
        self.w['t'] = 2
        self.fault = r.choice((0, .04, .15))

    def datum(self):
        return self.r.choice([False, False, True, 0, 1, 2, 3, 'p', 'q', 'r',
                              '#\\a', '#\\z', []])

    def c(self):
        d = self.datum()
        return ['c', d] if self.r.random() < .8 else ['x']

    def t(self, d=0):
        self.n += 1
        return ['t', self.n, self.e(d - 1) if d > 0 and self.r.random() < .5
                else self.c()]

    def body(self, d, some=True):
        r = self.r
        xs = [self.stmt(d) for _ in range(r.choice((0, 0, 1, 2)))]
        return xs + [self.e(d)]

    def stmt(self, d):
        r = self.r
        k = r.random()
        if k < .4 or d <= 0:
            return self.t(d)
        if k < .5 and self.inner:
            return ['set', self.e(d - 1)]
        if k < .6:
            return ['each', [self.datum() for _ in range(r.randrange(4))],
                    self.with_x(d - 1)]
        if k < .68:
            return ['if', self.e(d - 1), self.e(d - 1)]
        if k < .76:
            return ['cond', self.cls(d - 1), []]
        if k < .84:
            x = self.case(d - 1)
            x[3] = []
            return x
        return self.e(d)

    def with_x(self, d):
        o, self.inner = self.inner, True
        b = self.body(d)
        self.inner = o
        return b

    def cls(self, d):
        r = self.r
        out = []
        for _ in range(r.choice((1, 1, 2, 3))):
            k = r.random()
            t = self.t(d) if r.random() < .6 else self.e(d)
            out.append(['', t, []] if k < .2 else
                       ['=>', t, self.with_x(d)] if k < .4 else
                       ['', t, self.body(d)])
        return out

    def case(self, d):
        r = self.r
        return ['case', self.e(d), [
            [[self.datum() for _ in range(r.randrange(4))], self.body(d)]
            for _ in range(r.choice((1, 2, 3)))], self.body(d)]

    def ops(self, n, d):
        """n operands, at most one of them impure"""
        i = self.r.randrange(n) if n else 0
        return [self.e(d) if j == i else ['c', self.datum()]
                for j in range(n)]

    def q(self, d, box):
        r = self.r
        k = r.random()
        if k < .35 or d <= 0:
            if box and r.random() < .6:
                return ['u', box.pop()]
            return ['d', self.datum()]
        xs = []
        for _ in range(r.randrange(4)):
            if box and r.random() < .3:
                xs.append(['s', ['list', box.pop(), ['c', 2]]])
            elif r.random() < .15:
                xs.append(['s', ['c', [1, 'p']]])
            elif r.random() < .2:
                xs.append(['u', ['c', self.datum()]])
            else:
                xs.append(self.q(d - 1, box))
        return [r.choice('llv')] + xs

    def e(self, d):
        r = self.r
        if r.random() < self.fault:
            k = r.random()
            if self.ks and k < .4:
                return ['esc', r.choice(self.ks), self.e(d - 1)]
            return ['err'] if k < .6 else ['raise', self.e(d - 1)]
        if d <= 0:
            return self.t() if r.random() < .6 else self.c()
        ks = [k for k in self.w if self.w[k]]
        k = r.choices(ks, [self.w[k] for k in ks])[0]
        d -= 1
        if k == 't':
            return self.t(d)
        if k == 'if':
            return [k, self.e(d), self.e(d), self.e(d)]
        if k == 'cond':
            return [k, self.cls(d), self.body(d)]
        if k == 'case':
            return self.case(d)
        if k in ('and', 'or'):
            return [k] + [self.e(d) for _ in range(r.randrange(4))]
        if k == 'seq':
            return [k] + self.body(d)
        if k == 'let':
            w = r.choice(('let', 'lets', 'lam', 'app', 'def', 'al', 'al2'))
            v = self.e(d)
            return [k, w, v, self.with_x(d), self.c() if r.random() < .3
                    else self.t()]
        if k == 'opt':
            return [k, self.e(d) if r.random() < .5 else None, self.e(d),
                    self.with_x(d)]
        if k in ('do', 'named'):
            i = self.ops(1, d)[0]
            n = r.randrange(4)
            o, self.inner = self.inner, True
            s = self.e(d)
            if k == 'do':
                x = [k, i, n, s, self.t() if r.random() < .4 else None,
                     [self.stmt(d) for _ in range(r.randrange(3))],
                     self.body(d)]
            else:
                x = [k, i, n, s, [self.stmt(d) for _ in range(r.choice((
                    1, 2)))], self.body(d)]
            self.inner = o
            return x
        if k == 'force':
            return [k, self.e(d), r.randrange(4)]
        if k == 'qq':
            return [k, self.q(3, [self.e(d)])]
        if k == 'list':
            return [k] + self.ops(r.randrange(4), d)
        if k == 'vals':
            return [k, self.ops(r.randrange(4), d), self.with_x(d)]
        if k == 'wind':
            f, self.fault = self.fault, 0       # (P04 has those)
            ks, self.ks = self.ks, []
            a, b = [self.t()], [self.t()]
            self.fault, self.ks = f, ks
            return [k, a, self.body(d), b]
        if k == 'guard':
            b = self.body(d)
            if r.random() < .5:
                b = [self.t(), ['raise', self.e(d)], self.t()]
            o, self.inner = self.inner, True
            els = self.body(d) if r.random() < .7 else []
            x = [k, b, self.cls(d), els]
            self.inner = o
            return x
        if k == 'cc':
            self.k += 1
            n = self.k
            self.ks.append(n)
            b = self.body(d)
            if r.random() < .3:
                b[-1] = ['esc', n, b[-1]]
            self.ks.remove(n)
            return [k, n, b]
        if k == 'call':
            return [k, r.randrange(self.nf), self.e(d)] if self.nf else self.t()
        # eval: another world
        ks, self.ks = self.ks, []
        o, self.inner = self.inner, False
        x = ['eval', self.e(d)]
        self.ks, self.inner = ks, o
        return x

    def form(self):
        d = self.r.choice((2, 3, 4))
        self.ks = []
        if self.r.random() < .35:
            self.inner = True
            b = self.body(d)
            self.inner = False
            j = self.nf if self.nf < 3 else self.r.randrange(3)
            self.nf = max(self.nf, j + 1)
            return ['define', j, b]
        if self.nf and self.r.random() < .4:
            return ['call', self.r.randrange(self.nf), ['c', self.datum()]]
        return self.e(d)


def gen(rng, i):
    g = G(rng)
    n = rng.choice((2, 4, 7, 10))
    fs = []
    for _ in range(3 * n):
        nf = g.nf
        f = g.form()
        if len(str(f)) > 6000 or endless(fs + [f]):
            g.nf = nf
            continue
        fs.append(f)
        if len(fs) >= n:
            break
    return {'fs': [json.dumps(f) for f in fs], 'variant': rng.choice(VARIANTS),
            'heap': rng.choice([U.HEAP, 'heap 1024 256 512 1 16']),
            'gc': U.gc_schedule(rng, .6) + '\ngclimit 400'}


def endless(fs):
    p = Interp()
    try:
        for j, f in enumerate(fs):
            p.form(j, f)
    except (Endless, Esc):
        return True
    return False


def text(j, f):
    if f[0] == 'define':
        return '(define (f%d x) %s)' % (f[1], body(f[2]))
    return '(tl %d (lambda () %s))' % (1000 + j, src(f))


def run(c, ctx):
    fs = [json.loads(f) for f in c['fs']]
    p = Interp(ctx)
    out = []
    try:
        for j, f in enumerate(fs):
            p.form(j, f)
            out.append(text(j, f))
    except (Endless, Esc, KeyError, IndexError, TypeError):
        return []       # (only while minimising)
    r = ctx.sim(c['variant'], U.scen(
        c['heap'], 'cpu 6', 'maxallocs 2000000', 'quietio', 'op init',
        U.ev(SETUP, True), c['gc'], 'op gcgo', *[U.ev(x, True) for x in out],
        'op fini'))
    e = U.abnormal(r)
    if e:
        return [e]
    got = [l[2:] for l in r.lines if l.startswith('L ')]
    ctx.key(c['variant'], got[:6], len(got))
    for k, (x, y) in enumerate(zip(got, p.log)):
        if x != y:
            return ['trace: item %d is %s, expected %s' % (k, x, y)]
    if len(got) != len(p.log):
        return ['trace: %d items, expected %d' % (len(got), len(p.log))]
    return []


STM = ('set', 'each')


def isx(x):
    return isinstance(x, list) and x and isinstance(x[0], str) and \
        hasattr(Interp, 'e_' + x[0]) and (x[0] != 'c' or len(x) == 2)


def cuts(e):
    """smaller expressions in place of e"""
    if e[0] in ('c', 'x'):
        return
    def subs(x):
        for y in x:
            if isx(y):
                if y[0] not in STM and not (y[0] in ('if', 'cond', 'case') and (
                        y[0] == 'if' and len(y) < 4 or
                        y[0] != 'if' and not y[-1])):
                    yield y
            elif isinstance(y, list):
                yield from subs(y)
    yield from subs(e[1:])
    yield ['c', 1]
    yield ['c', False]

    def inside(x, top):
        """x with one part made smaller"""
        for i, y in enumerate(x):
            if isx(y):
                for z in cuts(y):
                    yield x[:i] + [z] + x[i + 1:]
            elif isinstance(y, list):
                for z in inside(y, False):
                    yield x[:i] + [z] + x[i + 1:]
            if not top and isx(y) and len(x) > 1 and i < len(x) - 1 and \
                    all(map(isx, x)):
                yield x[:i] + x[i + 1:]
    yield from inside(e, e[0] != 'seq')


def simpler(c):
    n = len(c['fs'])
    for j in range(n):
        yield dict(c, fs=c['fs'][:j] + c['fs'][j + 1:])
    for k, v in (('variant', 'compact'), ('gc', 'gc none')):
        if c[k] != v:
            yield dict(c, **{k: v})
    for j in range(n):
        f = json.loads(c['fs'][j])
        it = (f[:2] + [y[1:]] for y in cuts(['seq'] + f[2])
              if y[0] == 'seq') if f[0] == 'define' else cuts(f)
        for y in it:
            yield dict(c, fs=c['fs'][:j] + [json.dumps(y)] + c['fs'][j + 1:])
