"""P28 a name means the innermost binding around it."""
from .. import util as U

PROP = 'P28'
LEVEL = 'exploration'
TECH = ('histories of closures over few names, with errors, escapes and GC '
        'schedules')
VARIANTS = ['compact', 'compact-opt', 'fatty-opt', 'hygienic']
COUNT = {'quick': 12000, 'thorough': 200000}
CAP = {'quick': 300, 'thorough': 3000}
RULE = ('a case is a history of up to 14 toplevel forms over four names that '
        'are bound again and again by every binding form (lambda with and '
        'without rest, let, let*, letrec, named let, do, internal definitions, '
        'and-let*, let-optionals*, '
        'receive, guard, call/cc, delay, eval of toplevel definitions), '
        'assigned and captured by closures that are kept and called later, '
        'with errors and escapes in between; every logged value is compared '
        'with a reference interpreter; it counts once per distinct event log')
ASSUME = ['operands have no side effects (their order is free)',
          'initialisers of letrec and of internal definitions do not refer to '
          'the names they define before these are initialised']
PROBES = ['probe:captured', 'probe:error', 'probe:escape', 'probe:internal',
          'probe:assigned', 'probe:later-call', 'probe:forced',
          'probe:redefined']
SETUP = r"""
(require-extension (srfi 2) (srfi 8) (srfi 34))
(define ks (make-vector 6 0))
(define (sh x) (cond ((integer? x) x) ((procedure? x) 'p) (else 'o)))
(define (lg i x) (sim-log (list 'l i (sh x))))
(define (tl i t)
  (lg i (guard (e ((%%error-object? e) 'err) (#t 'raised)) (t))))
(define (td t) (guard (e (#t 0)) (t)))
(define (ev x) (eval x (interaction-environment)))
(define (ie? x y) (and (integer? x) (eqv? x y)))
(define a 1) (define b 2) (define c (lambda x 3))
"""
NAMES = ['a', 'b', 'c', 'd']
SKIP = 0


class Fail(Exception):      # an error object
    pass


class Raised(Exception):
    pass


class Esc(Exception):
    pass


class Endless(Exception):
    pass


class Clo:
    def __init__(self, ps, rest, body, env):
        self.ps, self.rest, self.body, self.env = ps, rest, body, env


class Cont:
    valid = True


class Prom:
    def __init__(self, e, env):
        self.e, self.env, self.done, self.v = e, env, False, None


class Env:
    def __init__(self, b, up):
        self.b, self.up = b, up


OTHER = ('other',)
UNINIT = ('uninit',)


class Interp:
    def __init__(self, ctx=None):
        self.g = Env({'a': 1, 'b': 2, 'c': Clo([], 'x', ['n', 3], None)}, None)
        self.ks = [0] * 6
        self.log = []
        self.fuel = 4000
        self.ctx = ctx
        self.depth = 0

    def P(self, x):
        if self.ctx:
            self.ctx.count('probe:' + x)

    def find(self, n, env):
        while env:
            if n in env.b:
                if env.b[n] is UNINIT:
                    raise AssertionError('uninitialised ' + n)
                return env
            env = env.up
        raise Fail()

    def int(self, x):
        if not isinstance(x, int):
            raise Fail()
        return x

    def call(self, f, args):
        if isinstance(f, Cont):
            if not f.valid:
                raise Fail()
            if len(args) != 1:
                raise Endless()     # (not judged here)
            self.P('escape')
            raise Esc(f, args[0])
        if not isinstance(f, Clo):
            raise Fail()
        if len(args) < len(f.ps) or len(args) > len(f.ps) and not f.rest:
            raise Fail()
        b = dict(zip(f.ps, args))
        if f.rest:
            b[f.rest] = OTHER
        return self.ev(f.body, Env(b, f.env or self.g))

    def ev(self, e, env):
        self.fuel -= 1
        self.depth += 1
        try:
            if self.fuel < 0 or self.depth > 150:
                raise Endless()
            return getattr(self, 'e_' + e[0])(e, env)
        finally:
            self.depth -= 1

    def e_n(self, e, env):
        return e[1]

    def e_v(self, e, env):
        f = self.find(e[1], env)
        return f.b[e[1]]

    def e_plus(self, e, env):
        x, y = self.ev(e[1], env), self.ev(e[2], env)
        z = self.int(x) + self.int(y)
        if abs(z) > 10 ** 9:
            raise Endless()
        return z

    def e_set(self, e, env):
        v = self.ev(e[2], env)
        self.find(e[1], env).b[e[1]] = v
        self.P('assigned')

    def e_log(self, e, env):
        self.out(e[1], self.ev(e[2], env))

    def out(self, i, v):
        self.log.append('(|l| %d %s)' % (i, v if isinstance(v, int) else
                        '|p|' if isinstance(v, (Clo, Cont)) else '|o|'))

    def e_seq(self, e, env):
        v = None
        for x in e[1:]:
            v = self.ev(x, env)
        return v

    def e_if(self, e, env):
        x, y = self.ev(e[1], env), self.ev(e[2], env)
        return self.ev(e[3] if isinstance(x, int) and isinstance(y, int) and
                       x == y else e[4], env)

    def e_let(self, e, env):
        b = {n: self.ev(x, env) for n, x in e[1]}
        return self.ev(e[2], Env(b, env))

    def e_lets(self, e, env):
        for n, x in e[1]:
            env = Env({n: self.ev(x, env)}, env)
        return self.ev(e[2], Env({}, env))

    def e_al(self, e, env):
        for n, x in e[1]:
            v = self.ev(x, env)
            if x != ['v', n]:       # (else only a test)
                env = Env({n: v}, env)
        return self.ev(e[2], Env({}, env))

    def e_opt(self, e, env):
        _, args, bs, rest, body = e
        args = [self.ev(x, env) for x in args]
        for n, x in bs:
            env = Env({n: args.pop(0) if args else self.ev(x, env)}, env)
        if rest:
            env = Env({rest: OTHER}, env)
        return self.ev(body, Env({}, env))

    def e_letrec(self, e, env):
        env = Env({n: UNINIT for n, x in e[1]}, env)
        for n, x in e[1]:
            env.b[n] = self.ev(x, env)
        return self.ev(e[2], env)

    def e_body(self, e, env):
        """internal definitions"""
        self.P('internal')
        env = Env({n: UNINIT for n, x in e[1]}, env)
        for n, x in e[1]:
            env.b[n] = self.ev(x, env)
        return self.ev(e[2], env)

    def e_lam(self, e, env):
        return Clo(e[1], e[2], e[3], env)

    def e_call(self, e, env):
        return self.call(self.ev(e[1], env), [self.ev(x, env) for x in e[2:]])

    e_app = e_call

    def e_named(self, e, env):
        """(let n ((v init) (n0 k)) (if (= n0 0) r (begin b (n next (- n0 1)))))"""
        _, n, v, init, k, res, body, nxt = e
        env = Env({n: None}, env)
        i = self.ev(init, env.up)
        loop = Clo([v, 'n0'], None, ['nloop', n, res, body, nxt], env)
        env.b[n] = loop
        return self.call(loop, [i, k])

    def e_nloop(self, e, env):
        _, n, res, body, nxt = e
        if self.int(self.ev(['v', 'n0'], env)) == 0:
            return self.ev(res, env)
        self.ev(body, env)
        f, x = self.ev(['v', n], env), self.ev(nxt, env)
        return self.call(f, [x, self.ev(['v', 'n0'], env) - 1])

    def e_do(self, e, env):
        """(do ((v init step)... (n0 k (- n0 1))) ((= n0 0) res) body)"""
        _, bs, k, res, body = e
        b = {v: self.ev(i, env) for v, i, s in bs}
        b['n0'] = k
        f = Env(b, env)
        while f.b['n0'] != 0:
            self.ev(body, f)
            b = {v: self.ev(s, f) for v, i, s in bs}
            b['n0'] = f.b['n0'] - 1
            f = Env(b, env)
        return self.ev(res, f)

    def e_recv(self, e, env):
        _, ps, rest, vs, body = e
        v = [self.ev(x, env) for x in vs]
        return self.call(Clo(ps, rest, body, env), v)

    def e_guard(self, e, env):
        _, n, body, els = e
        try:
            return self.ev(body, Env({}, env))
        except Fail:
            x = OTHER
        except Raised as r:
            x = r.args[0]
        self.P('error')
        return self.ev(els, Env({n: x}, env))

    def e_raise(self, e, env):
        raise Raised(self.ev(e[1], env))

    def e_cc(self, e, env):
        k = Cont()
        try:
            return self.ev(e[2], Env({e[1]: k}, env))
        except Esc as x:
            if x.args[0] is not k:
                raise
            return x.args[1]
        finally:
            k.valid = False

    def e_delay(self, e, env):
        return Prom(e[1], env)

    def e_force(self, e, env):
        p = self.ev(e[1], env)
        if not isinstance(p, Prom):
            raise Fail()
        if not p.done:
            v = self.ev(p.e, p.env)
            if not p.done:
                p.done, p.v = True, v
        self.P('forced')
        return p.v

    def e_top(self, e, env):
        """a definition or assignment in the toplevel environment"""
        if e[1] == 'set!' and e[2] not in self.g.b:
            raise Fail()
        self.g.b[e[2]] = e[3]
        self.P('redefined')

    def e_topref(self, e, env):
        return self.e_v(['v', e[1]], self.g)

    def e_put(self, e, env):
        v = self.ev(e[2], env)
        self.ks[e[1]] = v
        if isinstance(v, Clo):
            self.P('captured')

    def e_get(self, e, env):
        if isinstance(self.ks[e[1]], Clo):
            self.P('later-call')
        return self.ks[e[1]]

    # -- toplevel forms
    def form(self, j, f):
        try:
            if f[0] == 'define':
                try:
                    v = self.ev(f[2], self.g)
                except (Fail, Raised):
                    v = 0
                self.g.b[f[1]] = v
                return
            try:
                v = self.ev(f, self.g)
            except (Fail, Raised):
                self.P('error')
                v = OTHER
            self.out(1000 + j, v)
        except RecursionError:
            raise Endless()


# -------------------------------------------------------------- source text
def src(e):
    k = e[0]
    if k == 'n':
        return str(e[1])
    if k == 'v':
        return e[1]
    if k == 'plus':
        return '(+ %s %s)' % (src(e[1]), src(e[2]))
    if k == 'set':
        return '(set! %s %s)' % (e[1], src(e[2]))
    if k == 'log':
        return '(lg %d %s)' % (e[1], src(e[2]))
    if k == 'seq':
        return '(begin %s)' % ' '.join(map(src, e[1:]))
    if k == 'if':
        return '(if (ie? %s %s) %s %s)' % tuple(map(src, e[1:]))
    if k in ('let', 'lets', 'letrec'):
        return '(%s (%s) %s)' % ({'lets': 'let*'}.get(k, k), ' '.join(
            '(%s %s)' % (n, src(x)) for n, x in e[1]), src(e[2]))
    if k == 'al':
        return '(and-let* (%s) %s)' % (' '.join(
            n if x == ['v', n] else '(%s %s)' % (n, src(x))
            for n, x in e[1]), src(e[2]))
    if k == 'opt':
        _, args, bs, rest, body = e
        return '(let-optionals* (list %s) %s %s)' % (
            ' '.join(map(src, args)),
            formals(['(%s %s)' % (n, src(x)) for n, x in bs], rest), src(body))
    if k == 'body':
        return '(let () %s %s)' % (' '.join(
            '(define %s %s)' % (n, src(x)) if x[0] != 'lam' or SKIP else
            '(define (%s . %s) %s)' % (n, formals(x[1], x[2]), src(x[3]))
            for n, x in e[1]), src(e[2]))
    if k == 'lam':
        return '(lambda %s %s)' % (formals(e[1], e[2]), src(e[3]))
    if k == 'call':
        return '(%s)' % ' '.join(map(src, e[1:]))
    if k == 'app':
        return '(apply %s (list %s))' % (src(e[1]), ' '.join(map(src, e[2:])))
    if k == 'named':
        _, n, v, init, c, res, body, nxt = e
        return '(let %s ((%s %s) (n0 %d)) (if (= n0 0) %s (begin %s (%s %s (- '\
            'n0 1)))))' % (n, v, src(init), c, src(res), src(body), n, src(nxt))
    if k == 'do':
        _, bs, c, res, body = e
        return '(do (%s (n0 %d (- n0 1))) ((= n0 0) %s) %s)' % (' '.join(
            '(%s %s%s)' % (v, src(i), '' if s == ['v', v] else ' ' + src(s))
            for v, i, s in bs), c, src(res), src(body))
    if k == 'recv':
        _, ps, rest, vs, body = e
        return '(receive %s (values %s) %s)' % (
            formals(ps, rest), ' '.join(map(src, vs)), src(body))
    if k == 'guard':
        return '(guard (%s (#t %s)) (let () %s))' % (e[1], src(e[3]), src(e[2]))
    if k == 'raise':
        return '(raise %s)' % src(e[1])
    if k == 'cc':
        return '(call/cc (lambda (%s) %s))' % (e[1], src(e[2]))
    if k in ('delay', 'force'):
        return '(%s %s)' % (k, src(e[1]))
    if k == 'top':
        return "(ev '(%s %s %d))" % tuple(e[1:])
    if k == 'topref':
        return "(ev '%s)" % e[1]
    if k == 'put':
        return '(vector-set! ks %d %s)' % (e[1], src(e[2]))
    if k == 'get':
        return '(vector-ref ks %d)' % e[1]


def formals(ps, rest):
    if not ps and rest:
        return rest
    return '(%s%s)' % (' '.join(ps), ' . ' + rest if rest else '')


# -------------------------------------------------------------- generation
class G:
    """generates forms; `sc` says what the names are likely to hold"""

    def __init__(self, r):
        self.r = r
        self.n = 0
        self.names = NAMES[:r.choice((2, 3, 4))]
        self.w = {k: r.choice((0, .5, 1, 3)) for k in (
            'let', 'lets', 'letrec', 'body', 'call', 'app', 'named', 'do',
            'recv', 'guard', 'cc', 'force', 'lam', 'if', 'get', 'al', 'opt')}
        self.w['call'] += r.choice((0, 4))
        self.puts = {0: 'i'}
        self.sc = [{'a': 'i', 'b': 'i', 'c': (0, 'x')}]
        self.wild = r.choice((0, .05, .3))

    def name(self):
        return self.r.choice(self.names)

    def names2(self, n):
        return self.r.sample(self.names, min(n, len(self.names)))

    def kind(self, n):
        for f in reversed(self.sc):
            if n in f:
                return f[n]

    def setkind(self, n, k):
        for f in reversed(self.sc):
            if n in f:
                f[n] = k
                return

    def of(self, e):
        if e[0] == 'lam':
            return (len(e[1]), e[2])
        if e[0] == 'v':
            return self.kind(e[1])
        return {'n': 'i', 'plus': 'i', 'delay': 'd'}.get(e[0])

    def into(self, b, d, gen=None):
        """a body below the bindings b"""
        self.sc.append(dict(b))
        x = (gen or self.body)(d)
        self.sc.pop()
        return x

    def int(self, ban=()):
        r = self.r
        ok = [n for n in self.names if n not in ban and (
            self.kind(n) == 'i' or r.random() < self.wild)]
        if not ok or r.random() < .2:
            return ['n', r.randrange(10)]
        return ['v', r.choice(ok)]

    def pure(self, ban=()):
        r = self.r
        k = r.random()
        ok = [n for n in self.names if n not in ban and (
            self.kind(n) or r.random() < self.wild)]
        if k < .2 or not ok:
            return ['n', r.randrange(10)]
        if k < .8:
            return ['v', r.choice(ok)]
        if k < .85:
            return ['topref', self.name()]
        return ['plus', self.int(ban), self.int(ban)]

    def lam(self, d):
        r = self.r
        ps = self.names2(r.choice((0, 0, 1, 1, 2)))
        rest = self.name() if r.random() < .15 else None
        if rest in ps:
            rest = None
        b = {n: r.choice(('i', 'i', None)) for n in ps}
        if rest:
            b[rest] = 'o'
        return ['lam', ps, rest, self.into(b, d - 1)]

    def stmt(self, d):
        r = self.r
        k = r.random()
        if k < .4:
            self.n += 1
            return ['log', self.n, self.pure()]
        if k < .62:
            n, v = self.name(), self.val(d)
            self.setkind(n, self.of(v))
            return ['set', n, v]
        if k < .75:
            v = self.val(d)
            i = r.randrange(6)
            self.puts[i] = self.of(v)
            return ['put', i, v]
        if k < .8:
            n = self.name()
            self.sc[0][n] = 'i'
            return ['top', r.choice(('define', 'set!', 'set!')), n,
                    r.randrange(100)]
        self.n += 1
        return ['log', self.n, self.e(d - 1)]

    def val(self, d):
        k = self.r.random()
        if k < .4 and d > 0:
            return self.lam(d)
        if k < .5 and d > 0:
            return ['delay', self.body(d - 1)]
        return self.pure()

    def body(self, d):
        xs = [self.stmt(d) for _ in range(self.r.choice((0, 1, 1, 2, 3)))] \
            if d > 0 else []
        x = self.e(d) if self.r.random() < .8 else self.val(d)
        return ['seq'] + xs + [x] if xs else x

    def fun(self, d):
        """a procedure and its likely formals"""
        r = self.r
        ns = [n for n in self.names if isinstance(self.kind(n), tuple)]
        gs = [i for i in self.puts if isinstance(self.puts[i], tuple)]
        k = r.random()
        if ns and k < .6:
            n = r.choice(ns)
            return ['v', n], self.kind(n)
        if gs and k < .85:
            n = r.choice(gs)
            return ['get', n], self.puts[n]
        if r.random() < self.wild:
            return ['v', self.name()], (1, None)
        f = self.lam(d)
        return f, self.of(f)

    def e(self, d):
        r = self.r
        if d <= 0:
            if r.random() < .4:
                f, k = self.fun(0)
                return ['call', f] + [self.pure() for _ in range(k[0])]
            return self.pure()
        if r.random() < .12:
            return self.pure()
        ks = [k for k in self.w if self.w[k]]
        k = r.choices(ks, [self.w[k] for k in ks])[0] if ks else 'call'
        d -= 1
        if k == 'opt':
            ns = [self.name() for _ in range(r.choice((0, 1, 2, 3)))]
            rest = self.name() if not ns or r.random() < .3 else None
            args = [self.pure() for _ in range(r.randrange(4))]
            ks = [self.of(x) for x in args]
            self.sc.append({})
            bs = []
            for j, n in enumerate(ns):
                x = self.e(d) if r.random() < .3 else self.val(d)
                bs.append([n, x])
                self.sc.append({n: ks[j] if j < len(ks) else self.of(x)})
            if rest:
                self.sc.append({rest: 'o'})
            b = self.body(d)
            del self.sc[-1 - len(ns) - bool(rest):]
            return [k, args, bs, rest, b]
        if k in ('let', 'lets', 'al'):
            ns = self.names2(r.choice((1, 1, 2, 3)))
            if k != 'let' and r.random() < .3:
                ns = [self.name() for _ in range(3)]
            if k == 'let':
                bs = [[n, self.val(d)] for n in ns]
                return [k, bs, self.into({n: self.of(x) for n, x in bs}, d)]
            bs = []
            for n in ns:
                x = self.val(d)
                bs.append([n, x])
                self.sc.append({n: self.of(x)})
            b = self.body(d)
            del self.sc[-len(ns):]
            return [k, bs, b]
        if k == 'letrec':
            ns = self.names2(2)
            self.sc.append({n: None for n in ns})
            bs = []
            for n in ns:
                x = self.lam(d)
                self.sc[-1][n] = self.of(x)
                bs.append([n, x])
            b = self.body(d)
            self.sc.pop()
            return [k, bs, b]
        if k == 'body':
            ns = self.names2(r.choice((1, 2, 3)))
            self.sc.append({n: None for n in ns})
            bs = []
            for n in ns:
                x = self.lam(d) if r.random() < .5 else self.pure(ns)
                self.sc[-1][n] = self.of(x)
                bs.append([n, x])
            b = self.body(d)
            self.sc.pop()
            return [k, bs, b]
        if k in ('call', 'app'):
            f, ps = self.fun(d)
            n = ps[0] if r.random() > self.wild else r.randrange(3)
            if ps[1]:
                n += r.randrange(2)
            return [k, f] + [self.pure() for _ in range(n)]
        if k == 'named':
            n, v, x = self.name(), self.name(), self.pure()
            self.sc += [{n: None}, {v: self.of(x)}]
            y = ['seq'] + [self.stmt(d) for _ in range(r.choice((1, 2)))]
            z = [self.pure(), self.pure()]
            del self.sc[-2:]
            return [k, n, v, x, r.randrange(4), z[0], y, z[1]]
        if k == 'do':
            ns = self.names2(r.choice((1, 2)))
            i = [self.pure() for n in ns]
            self.sc.append({n: self.of(x) for n, x in zip(ns, i)})
            y = ['seq'] + [self.stmt(d) for _ in range(r.choice((1, 2)))]
            bs = [[n, x, r.choice([self.pure(), ['v', n]])]
                  for n, x in zip(ns, i)]
            b = self.body(d)
            self.sc.pop()
            return [k, bs, r.randrange(4), b, y]
        if k == 'recv':
            ps = self.names2(r.choice((0, 1, 2)))
            rest = None if r.random() < .7 else self.name()
            if rest in ps or not ps and not rest:
                ps, rest = ps[:1] or ['a'], None
            xs = [self.pure() for _ in range(
                len(ps) if r.random() > self.wild else r.randrange(4))]
            b = dict(zip(ps, map(self.of, xs)))
            if rest:
                b[rest] = 'o'
            return [k, ps, rest, xs, self.into(b, d)]
        if k == 'guard':
            b = self.body(d)
            t = None
            if r.random() < .4:
                b = ['seq', self.stmt(d), ['raise', self.pure()]]
                t = self.of(b[2][1])
            n = self.name()
            return [k, n, b, self.into({n: t}, d)]
        if k == 'cc':
            n = self.name()
            if r.random() < .4:
                return [k, n, self.into({n: 'k'}, d, lambda d: [
                    'seq', self.stmt(d), ['call', ['v', n], self.pure()]])]
            return [k, n, self.into({n: 'k'}, d)]
        if k == 'force':
            ds = [['v', n] for n in self.names if self.kind(n) == 'd'] + \
                [['get', i] for i in self.puts if self.puts[i] == 'd']
            return [k, r.choice(ds) if ds and r.random() < .8 else
                    ['delay', self.body(d)]]
        if k == 'lam':
            return self.lam(d)
        if k == 'if':
            return [k, self.pure(), self.pure(), self.body(d), self.body(d)]
        return ['get', r.choice(list(self.puts))]

    def form(self):
        d = self.r.choice((2, 3, 4, 5))
        if self.r.random() < .25:
            n = self.name()
            x = self.r.choice([self.lam(d), self.val(d), self.e(d)])
            self.sc[0][n] = self.of(x)
            return ['define', n, x]
        return self.body(d)


def gen(rng, i):
    g = G(rng)
    fs = []
    n = rng.choice((2, 5, 9, 14))
    for _ in range(3 * n):
        f = g.form()
        t = src(f) if f[0] != 'define' else src(f[2])
        if len(t) > 3000 or not endless(fs + [f]):
            if len(t) <= 3000:
                fs.append(f)
        if len(fs) >= n:
            break
    return {'fs': [__import__('json').dumps(f) for f in fs],
            'variant': rng.choice(VARIANTS),
            'heap': rng.choice([U.HEAP, 'heap 1024 256 512 1 16']),
            'gc': U.gc_schedule(rng, .6) + '\ngclimit 400'}


def endless(fs):
    p = Interp()
    try:
        for j, f in enumerate(fs):
            p.form(j, f)
    except (Endless, Esc):
        return True
    return False


def run(c, ctx):
    fs = [__import__('json').loads(f) for f in c['fs']]
    p = Interp(ctx)
    out = []
    try:
        for j, f in enumerate(fs):
            p.form(j, f)
            out.append('(define %s (td (lambda () %s)))' % (f[1], src(f[2]))
                       if f[0] == 'define' else
                       '(tl %d (lambda () %s))' % (1000 + j, src(f)))
    except (Endless, Esc):
        return []       # (only while minimising)
    r = ctx.sim(c['variant'], U.scen(
        c['heap'], 'cpu 6', 'maxallocs 2000000', 'quietio', 'op init',
        U.ev(SETUP, True), c['gc'], 'op gcgo', *[U.ev(x, True) for x in out],
        'op fini'))
    e = U.abnormal(r)
    if e:
        return [e]
    got = [l[2:] for l in r.lines if l.startswith('L ')]
    ctx.key(c['variant'], got[:6], len(got))
    for k, (x, y) in enumerate(zip(got, p.log)):
        if x != y:
            return ['value: log item %d is %s, expected %s' % (k, x, y)]
    if len(got) != len(p.log):
        return ['lost: %d of %d log lines' % (len(got), len(p.log))]
    return []


def simpler(c):
    import json
    n = len(c['fs'])
    for j in range(n):
        yield dict(c, fs=c['fs'][:j] + c['fs'][j + 1:])
    for k, v in (('variant', 'compact'), ('gc', 'gc none')):
        if c[k] != v:
            yield dict(c, **{k: v})

    def cuts(e):
        """smaller expressions in place of e"""
        if e[0] in ('n', 'v'):
            return
        for x in e[1:]:
            if isinstance(x, list) and x and isinstance(x[0], str) and \
                    x[0] not in ('set', 'log', 'put', 'top') and \
                    hasattr(Interp, 'e_' + x[0]):
                yield x
        if e[0] == 'seq':
            for i in range(1, len(e) - 1):
                yield e[:i] + e[i + 1:]
        if e[0] not in ('lam',):
            yield ['n', 1]
        for i in range(1, len(e)):
            x = e[i]
            if isinstance(x, list) and x and isinstance(x[0], str) and \
                    hasattr(Interp, 'e_' + x[0]):
                for y in cuts(x):
                    yield e[:i] + [y] + e[i + 1:]
            elif isinstance(x, list) and x and isinstance(x[0], list):
                for m, b in enumerate(x):
                    if len(b) > 1 and isinstance(b[1], list):
                        for y in cuts(b[1]):
                            yield e[:i] + [x[:m] + [[b[0], y] + b[2:]] +
                                           x[m + 1:]] + e[i + 1:]
    for j in range(n):
        f = json.loads(c['fs'][j])
        if f[0] == 'define':
            it = (f[:2] + [y] for y in cuts(f[2]))
        else:
            it = cuts(f)
        for y in it:
            yield dict(c, fs=c['fs'][:j] + [json.dumps(y)] + c['fs'][j + 1:])
