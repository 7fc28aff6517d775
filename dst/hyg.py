"""programs of hygienic macros, and what they evaluate to.

Data are ints, bools, strings (symbols) and lists.  Macros are expanded when
they are evaluated; a symbol that an expansion introduces is an alias of the
symbol at the definition of its macro."""
PRIMS = {'+': lambda *a: sum(num(x) for x in a),
         '*': lambda a, b: num(a) * num(b) % 100003,
         '<': lambda a, b: num(a) < num(b),
         'list': lambda *a: list(a)}
SPECIALS = ['if', 'let', 'let*', 'letrec', 'lambda', 'begin', 'set!', 'do',
            'and', 'or', 'cond', 'case', 'let-syntax', 'letrec-syntax',
            'syntax-rules', 'define']


class Err(Exception):
    """the program raises an error"""


class Unjudged(Exception):
    pass


def num(x):
    if isinstance(x, bool) or not isinstance(x, int):
        raise Err
    return x


class Alias:
    def __init__(self, of, env):
        self.of, self.env = of, env


class Macro:
    def __init__(self, lits, rules, env):
        self.lits, self.rules, self.env = lits, rules, env


class Closure:
    def __init__(self, formals, body, env):
        self.formals, self.body, self.env = formals, body, env


class Env:
    def __init__(self, up, vals):
        self.up, self.vals = up, vals


def ident(x):
    return isinstance(x, (str, Alias))


def name_of(x):
    while isinstance(x, Alias):
        x = x.of
    return x


def inner_ellipsis(t, inside=False):
    """an ellipsis of a macro that a template defines: R5RS has no way to
    write that"""
    if ident(t):
        return inside and name_of(t) == '...'
    if not isinstance(t, list) or not t:
        return False
    inside = inside or ident(t[0]) and name_of(t[0]) == 'syntax-rules'
    return any(inner_ellipsis(x, inside) for x in t)


def frame(x, env):
    """(frame, key) that an identifier refers to"""
    while True:
        e = env
        while e is not None:
            if x in e.vals:
                return e, x
            if e.up is None:
                top = e
            e = e.up
        if isinstance(x, Alias):
            x, env = x.of, x.env
        else:
            return top, x


class World:
    def __init__(self, glob, rtl=False, early=False):
        g = dict((s, ('special', s)) for s in SPECIALS)
        g.update((p, ('prim', p)) for p in PRIMS)
        g.update(glob)
        self.top = Env(None, g)
        self.rtl = rtl
        self.early = early
        self.steps = 0

    def find(self, x, env):
        f, k = frame(x, env)
        if k not in f.vals:
            raise Err
        v = f.vals[k]
        if v is None:
            raise Unjudged          # used before its initialisation
        return v

    def special(self, x, env):
        if not ident(x):
            return None
        f, k = frame(x, env)
        v = f.vals.get(k)
        return v[1] if isinstance(v, tuple) and v[0] == 'special' else None

    def same(self, a, ea, b, eb):
        if not ident(a) or not ident(b):
            return not ident(a) and not ident(b) and a == b and \
                type(a) is type(b)
        fa, fb = frame(a, ea), frame(b, eb)
        return fa[0] is fb[0] and fa[1] == fb[1]

    def match(self, p, f, mac, env, m):
        if ident(p):
            if p in mac.lits:
                return ident(f) and self.same(p, mac.env, f, env)
            m[p] = f
            return True
        if isinstance(p, list):
            if not isinstance(f, list):
                return False
            if len(p) > 1 and p[-1] == '...':
                n = len(p) - 2
                if len(f) < n or not ident(p[-2]):
                    return False
                m[p[-2]] = ('many', f[n:])
                return all(self.match(a, b, mac, env, m)
                           for a, b in zip(p[:n], f))
            return len(p) == len(f) and all(
                self.match(a, b, mac, env, m) for a, b in zip(p, f))
        return not isinstance(f, (str, Alias, list)) and p == f and \
            type(p) is type(f)

    def expand(self, mac, form, env):
        for p, t in mac.rules:
            m = {}
            if self.match(p[1:], form[1:], mac, env, m):
                new = {}

                def inst(t):
                    if ident(t):
                        if t in m:
                            return m[t]
                        if t not in new:
                            new[t] = Alias(t, mac.env)
                        return new[t]
                    if isinstance(t, list):
                        out = []
                        for i, e in enumerate(t):
                            if e == '...':
                                continue
                            x = inst(e)
                            if isinstance(x, tuple):
                                out += x[1]
                            else:
                                out.append(x)
                        return out
                    return t
                return inst(t)
        raise Err

    def macro(self, spec, env, menv):
        if not isinstance(spec, list) or \
                self.special(spec[0], env) != 'syntax-rules':
            raise Unjudged
        if len(spec) < 3 or not isinstance(spec[1], list):
            raise Unjudged
        for r in spec[2:]:
            if len(r) != 2 or not isinstance(r[0], list):
                raise Unjudged
            pv = [x for x in r[0][1:] if x not in spec[1]]
            if any(not ident(x) or x in pv[:i] for i, x in enumerate(pv)):
                raise Unjudged
            if inner_ellipsis(r[1]):
                raise Unjudged
        return Macro(spec[1], [tuple(r) for r in spec[2:]], menv)

    def seq(self, xs, env):
        v = None
        for x in xs:
            v = self.eval(x, env)
        return v

    def body(self, xs, env):
        defs = []
        while len(xs) > len(defs):
            x = xs[len(defs)]
            if not isinstance(x, list) or not x or not ident(x[0]) or \
                    name_of(x[0]) != 'define':
                break
            if self.special(x[0], env) != 'define' or len(x) < 3:
                raise Unjudged
            defs.append(x)
        if not defs:
            return self.seq(xs, env)
        names = [x[1] if ident(x[1]) else x[1][0] for x in defs]
        e = self.bind(names, [None] * len(names), env)
        vals = []
        for x in defs:
            if ident(x[1]):
                if len(x) != 3:
                    raise Unjudged
                vals.append(self.eval(x[2], e))
            else:
                self.bind(x[1][1:], x[1][1:], env)
                vals.append(Closure(x[1][1:], x[2:], e))
        for n, v in zip(names, vals):
            e.vals[n] = v
        return self.seq(xs[len(defs):], e)

    def define(self, x):
        """a form at the toplevel that defines"""
        x, env = self.top_expand(x)
        if not isinstance(x, list) or not x or not ident(x[0]):
            raise Unjudged
        s = self.special(x[0], env)
        if s == 'begin':
            for y in x[1:]:
                self.define(y)
        elif s == 'define' and len(x) >= 3:
            if ident(x[1]):
                n, v = x[1], self.eval(x[2], env)
            else:
                n, v = x[1][0], Closure(x[1][1:], x[2:], env)
            if not isinstance(n, str) or isinstance(
                    self.top.vals.get(n), (tuple, Macro)):
                raise Unjudged
            self.top.vals[n] = v
        else:
            raise Unjudged

    def top_expand(self, x):
        env = self.top
        while isinstance(x, list) and x and ident(x[0]):
            f, k = frame(x[0], env)
            v = f.vals.get(k)
            if not isinstance(v, Macro):
                break
            x = self.expand(v, x, env)
        return x, env

    def args(self, xs, env):
        if self.rtl:
            return [self.eval(x, env) for x in xs[::-1]][::-1]
        return [self.eval(x, env) for x in xs]

    def bind(self, names, vals, env):
        for i, n in enumerate(names):
            if not ident(n) or n in names[:i]:
                raise Unjudged
        return Env(env, dict(zip(names, vals)))

    def apply(self, f, a):
        if isinstance(f, Closure):
            if len(a) != len(f.formals):
                raise Err
            return self.body(f.body, self.bind(f.formals, a, f.env))
        if isinstance(f, tuple) and f[0] == 'prim':
            try:
                return PRIMS[f[1]](*a)
            except TypeError:
                raise Err
        raise Err

    def eval(self, x, env):
        self.steps += 1
        if self.steps > 4000:
            raise Unjudged
        if ident(x):
            v = self.find(x, env)
            if isinstance(v, Macro) or isinstance(v, tuple) and \
                    v[0] == 'special':
                raise Unjudged
            return v
        if not isinstance(x, list):
            return x
        if not x:
            raise Unjudged
        if ident(x[0]):
            f, k = frame(x[0], env)
            v = f.vals.get(k)
            if isinstance(v, Macro):
                return self.eval(self.expand(v, x, env), env)
            s = self.special(x[0], env)
            if s:
                try:
                    return getattr(self, 's_' + s.strip('!').replace(
                        '*', 'x').replace('-', '_'))(x, env)
                except (IndexError, AttributeError, TypeError, ValueError):
                    raise Unjudged
        if self.rtl:
            a = self.args(x[1:], env)
            return self.apply(self.eval(x[0], env), a)
        f = self.eval(x[0], env)
        if self.early:
            # a call that fails may fail before its arguments are evaluated
            if isinstance(f, Closure):
                if len(f.formals) != len(x) - 1:
                    raise Err
            elif not isinstance(f, tuple) or f[0] != 'prim':
                raise Err
        return self.apply(f, self.args(x[1:], env))

    def s_if(self, x, env):
        if len(x) not in (3, 4):
            raise Err
        if self.eval(x[1], env) is not False:
            return self.eval(x[2], env)
        if len(x) == 3:
            raise Unjudged
        return self.eval(x[3], env)

    def s_begin(self, x, env):
        if len(x) < 2:
            raise Unjudged
        return self.seq(x[1:], env)

    def s_lambda(self, x, env):
        if len(x) < 3 or not isinstance(x[1], list):
            raise Unjudged
        self.bind(x[1], x[1], env)
        return Closure(x[1], x[2:], env)

    def s_set(self, x, env):
        if len(x) != 3 or not ident(x[1]):
            raise Unjudged
        v = self.eval(x[2], env)
        f, k = frame(x[1], env)
        if k not in f.vals:
            raise Err
        if isinstance(f.vals[k], (Macro, tuple)):
            raise Unjudged
        f.vals[k] = v
        return 'undef'

    def s_let(self, x, env):
        if len(x) < 3:
            raise Unjudged
        if ident(x[1]):
            name, bs, body = x[1], x[2], x[3:]
            vals = self.args([b[1] for b in bs], env)
            e = Env(env, {name: None})
            c = Closure([b[0] for b in bs], body, e)
            e.vals[name] = c
            return self.apply(c, vals)
        vals = self.args([b[1] for b in x[1]], env)
        return self.body(x[2:], self.bind([b[0] for b in x[1]], vals, env))

    def s_letx(self, x, env):
        for b in x[1]:
            env = self.bind([b[0]], [self.eval(b[1], env)], env)
        return self.body(x[2:], Env(env, {}))

    def s_letrec(self, x, env):
        e = self.bind([b[0] for b in x[1]], [None] * len(x[1]), env)
        vals = self.args([b[1] for b in x[1]], e)
        for b, v in zip(x[1], vals):
            e.vals[b[0]] = v
        return self.body(x[2:], e)

    def s_do(self, x, env):
        bs, test, cmds = x[1], x[2], x[3:]
        e = self.bind([b[0] for b in bs],
                      self.args([b[1] for b in bs], env), env)
        while self.eval(test[0], e) is False:
            for c in cmds:
                self.eval(c, e)
            vals = self.args([b[2] if len(b) > 2 else b[0] for b in bs], e)
            e = self.bind([b[0] for b in bs], vals, env)
        return self.seq(test[1:], e)

    def is_else(self, x, env):
        if not ident(x) or name_of(x) != 'else':
            return False
        if frame(x, env)[0].up is not None:
            raise Unjudged
        return True

    def s_cond(self, x, env):
        for c in x[1:]:
            if self.is_else(c[0], env):
                return self.seq(c[1:], env)
            v = self.eval(c[0], env)
            if v is not False:
                if len(c) == 1:
                    return v
                if ident(c[1]) and name_of(c[1]) == '=>':
                    return self.apply(self.eval(c[2], env), [v])
                return self.seq(c[1:], env)
        raise Unjudged

    def s_case(self, x, env):
        v = self.eval(x[1], env)
        for c in x[2:]:
            if self.is_else(c[0], env) or any(
                    type(v) is type(d) and v == d for d in c[0]):
                return self.seq(c[1:], env)
        raise Unjudged

    def s_and(self, x, env):
        v = True
        for y in x[1:]:
            v = self.eval(y, env)
            if v is False:
                return v
        return v

    def s_or(self, x, env):
        for y in x[1:]:
            v = self.eval(y, env)
            if v is not False:
                return v
        return False

    def s_let_syntax(self, x, env, rec=False):
        if len(x) < 3:
            raise Unjudged
        e = self.bind([b[0] for b in x[1]], [None] * len(x[1]), env)
        for b in x[1]:
            e.vals[b[0]] = self.macro(b[1], env, e if rec else env)
        return self.body(x[2:], e)

    def s_letrec_syntax(self, x, env):
        return self.s_let_syntax(x, env, True)


def show(v):
    if v is True or v is False:
        return '#t' if v else '#f'
    if isinstance(v, list):
        return '(' + ' '.join(map(show, v)) + ')'
    if isinstance(v, int):
        return str(v)
    raise Unjudged


def result(defs, prog, gval):
    """what each program gives in turn; None where it is not judged.
    defs: [[name, spec]]; prog: expressions; gval: values of globals"""
    def one(rtl, early):
        w = World(dict(gval), rtl, early)
        for n, spec in defs:
            w.top.vals[n] = Macro(spec[1], [tuple(r) for r in spec[2:]], w.top)
        out = []
        for p in prog:
            w.steps = 0
            try:
                if isinstance(p, dict):
                    w.define(p['top'])
                    out.append('(|ok|)')
                else:
                    out.append('(%s)' % show(w.eval(p, w.top)))
            except Err:
                out.append('|err|')
            except (Unjudged, RecursionError):
                return out + [None] * (len(prog) - len(out))
        return out
    out = []
    for x, y, z in zip(one(False, False), one(True, False), one(False, True)):
        if x is None or x != y or x != z:
            break
        out.append(x)
    return out + [None] * (len(prog) - len(out))


# ---- generator
NAMES = ['t', 'u', 'x', 'y']
RARE = ['g1', 'g2', 'if', '+', 'list', 'let', 'else', 'h0', 'h1', 'begin']
GLOB = {'g1': 100, 'g2': 7}


class Gen:
    def __init__(self, r):
        self.r = r
        self.nest = 0

    def name(self):
        r = self.r
        return r.choice(NAMES) if r.random() < .85 else r.choice(RARE)

    def atom(self, sc):
        r = self.r
        k = r.random()
        if sc and k < .7:
            return r.choice(sc)
        if k < .85:
            return r.choice(list(GLOB))
        return r.choice([0, 1, 2, 3, True, False])

    def names(self, n):
        out = []
        while len(out) < n:
            x = self.name()
            if x not in out:
                out.append(x)
        return out

    def expr(self, d, sc, macs, top=True):
        """sc: names in scope that hold values; macs: usable macros"""
        r = self.r
        if d <= 0 or r.random() < .12:
            return self.atom(sc)

        def sub(s=sc, m=macs):
            return self.expr(d - 1, s, m, top)
        if macs and r.random() < .4:
            n = r.choice(list(macs))
            return self.use(n, macs, d, sc, top)
        k = r.randrange(17)
        if k < 2:
            return ['+', sub(), sub()]
        if k < 4:
            ns = self.names(r.choice((1, 1, 2)))
            return ['let', [[n, sub()] for n in ns], sub(sc + ns)]
        if k == 4:
            ns = self.names(r.choice((1, 2)))
            s, bs = sc, []
            for n in ns:
                bs.append([n, sub(s)])
                s = s + [n]
            return ['let*', bs, sub(s)]
        if k == 5:
            ns = self.names(r.choice((1, 2)))
            return [['lambda', ns, sub(sc + ns)]] + [sub() for n in ns]
        if k == 6:
            return ['if', ['<', sub(), sub()], sub(), sub()]
        if k == 7 and sc:
            return ['begin', ['set!', r.choice(sc), sub()], sub()]
        if k == 8:
            a, b = self.names(2)
            return ['let', a, [[b, 0]], ['if', ['<', b, 2], ['begin', sub(
                sc + [b]), [a, ['+', b, 1]]], sub(sc + [b])]]
        if k == 9:
            a, = self.names(1)
            return ['do', [[a, 0, ['+', a, 1]]], [['<', 1, a], sub(sc + [a])],
                    sub(sc + [a])]
        if k == 10:
            return [r.choice(['and', 'or']), sub(), sub()]
        if k == 11:
            a, b = self.names(2)
            return ['letrec', [[a, ['lambda', [b], sub(sc + [b])]]],
                    [a, sub()]]
        if k == 12 and (top or r.random() < .3):
            n = r.choice(['h0', 'h9', 'm', self.name()])
            k, spec = self.macro(d - 1, sc, macs, top)
            m = dict(macs)
            m[n] = k
            return [r.choice(['let-syntax', 'letrec-syntax']), [[n, spec]],
                    sub([s for s in sc if s != n], m)]
        if k == 13:
            a, = self.names(1)
            return ['cond', r.choice([[sub(), sub()], [sub()], [
                ['and', sub(), sub()], '=>', ['lambda', [a], sub(sc + [a])]]]),
                ['else', sub()]]
        if k == 14:
            return ['case', sub(), [[0, 1, 100], sub()], ['else', sub()]]
        if k == 15:
            a, b, c = self.names(3)
            return ['let', [], ['define', a, sub()],
                    ['define', [b, c], sub(sc + [c])],
                    r.choice([[b, sub(sc + [a])], sub(sc + [a])])]
        return ['list', sub(), sub()]

    def use(self, n, macs, d, sc, top):
        r = self.r
        out = [n]
        args = r.choice(macs[n])
        new = []
        for k in args:
            if k == 'id':
                x = self.name()
                new.append(x)
                out.append(x)
        out = [n]
        new2 = list(new)
        for k in args:
            if k == 'id':
                out.append(new2.pop(0))
            elif k == 'many':
                out += [self.expr(d - 1, sc, macs, top)
                        for _ in range(r.choice((0, 1, 2, 3)))]
            elif k == 'body':
                out.append(self.expr(d - 1, sc + new, macs, top))
            elif k[0] == '=':
                out.append(k[1:] if r.random() < .8 else
                           self.expr(d - 1, sc, macs, top))
            else:
                out.append(self.expr(d - 1, sc, macs, top))
        return out

    def macro(self, d, sc, macs, top=True):
        """(kinds of arguments by rule, the syntax-rules form)"""
        r = self.r
        rules, kinds = [], []
        self.nest += 1
        lits = r.sample(['else', 'of', 't', 'g1'], r.choice((0, 0, 1)))
        for _ in range(r.choice((1, 1, 2))):
            pat, ks, es, ids, bodies = ['_'], [], [], [], []
            many = None
            for j in range(r.choice((0, 1, 2, 3))):
                v = ('p%d' % j) if top else 'q%d_%d' % (self.nest, j)
                q = r.random()
                if lits and q < .3:
                    ks.append('=' + lits[0])
                    pat.append(lits[0])
                    continue
                pat.append(v)
                if q < .5:
                    es.append(v)
                    ks.append('expr')
                elif q < .75:
                    ids.append(v)
                    ks.append('id')
                else:
                    bodies.append(v)
                    ks.append('body')
            if top and r.random() < .15:
                many = 'pm'
                pat += [many, '...']
                ks.append('many')
            t = self.tmpl(d, sc, es, ids, bodies, many, macs)
            rules.append([pat, t])
            kinds.append(ks)
        return kinds, ['syntax-rules', lits] + rules

    def tmpl(self, d, sc, es, ids, bodies, many, macs):
        r = self.r
        # an expression over the arguments, its own temporaries and globals
        scope = list(sc) + list(es) * 3
        inner = self.expr(max(d, 1), scope + bodies * 2 + ids, macs, False)
        for i in ids:
            inner = r.choice([
                ['let', [[i, self.expr(1, scope, macs, False)]], inner],
                ['let', [[i, self.atom(scope)],
                         [r.choice(NAMES), self.atom(scope)]], inner],
                [['lambda', [r.choice(NAMES), i], inner],
                 self.atom(scope), self.atom(scope)],
                ['do', [[i, 0, ['+', i, 1]]], [['<', 1, i], inner]],
                ['let', i, [[r.choice(NAMES), 3]], inner]])
        if many:
            inner = ['list', inner, r.choice([
                ['+', many, '...'], ['list', many, '...'],
                ['and', many, '...'], ['or', many, '...'],
                ['let', [[r.choice(NAMES), 1]], ['list', many, '...']]])]
        return inner


def gen(rng):
    g = Gen(rng)
    defs, macs = [], {}
    for n in ['h%d' % i for i in range(rng.choice((1, 2, 3)))]:
        k, spec = g.macro(rng.choice((1, 2, 3)), [], macs)
        defs.append([n, spec])
        macs[n] = k
    defs.append(['d0', ['syntax-rules', [], [
        ['_', 'n', 'e'], rng.choice([
            ['define', 'n', 'e'], ['begin', ['define', 'n', 'e']],
            ['define', ['n', 't'], ['+', 't', 'e']],
            ['define', 'n', ['let', [['t', 1]], ['+', 't', 'e']]],
            ['d1', 'e', 'n']])]]])
    defs.append(['d1', ['syntax-rules', [], [
        ['_', 'e', 'n'], ['define', 'n', 'e']]]])
    prog, sc = [], []
    for _ in range(rng.choice((1, 2, 4))):
        if rng.random() < .15:
            n = rng.choice(['u', 'v', 'g1'])
            prog.append({'top': rng.choice([
                ['d0', n, g.expr(1, sc, macs)],
                ['begin', ['d0', n, 1], ['d1', 2, 'v']]])})
            sc.append(n)
        prog.append(g.expr(rng.choice((2, 3, 4)), sc, macs))
    return defs, prog
