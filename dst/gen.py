"""Random programs over the subset of ref.py. Swarm: every program draws its
own weights, so that rare features dominate some programs."""

FEATURES = ['callcc', 'throw', 'gthrow', 'wind', 'guard', 'weh', 'raise',
            'error', 'step', 'log', 'let', 'lambda', 'apply', 'values', 'loop',
            'promise', 'list', 'vector', 'string', 'set', 'map', 'simcall',
            'setk', 'case', 'qq', 'receive', 'badop', 'strport', 'gc',
            'capture', 'macro', 'shadow']


class Gen:
    def __init__(self, rng, size=60, focus=(), ban=(), globs=4):
        self.r = rng
        self.left = size
        self.n = 0
        self.w = {}
        for f in FEATURES:
            x = rng.choice([0, 0.3, 1, 1, 3])
            if f in focus:
                x = rng.choice([1, 3, 6])
            if f in ban:
                x = 0
            self.w[f] = x
        self.gi = ['g%d' % i for i in range(globs)]
        self.gk = ['kg0', 'kg1', 'kg2']
        self.gp = ['pg0', 'pg1', 'pg2']

    def new(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def vars(self, env, t):
        return [n for n, k in env if k == t]

    def any(self, env, d):
        """an expression of any printable type"""
        r = self.r.random()
        if r < .6:
            return self.i(env, d)
        if r < .75:
            return self.l(env, d)
        if r < .85:
            return self.s(env, d)
        if r < .9:
            return ['quote', self.r.choice(['a', 'b', 'sym'])]
        if r < .95:
            return self.r.random() < .5
        if self.w['qq'] and r < .98:
            return ['quasiquote', self.qt(env, d - 1)]
        return ['vector', self.i(env, d), self.l(env, d - 1)]

    def b(self, env, d):
        r = self.r
        k = r.randrange(6)
        if d <= 0 or k == 0:
            return r.random() < .5
        if k == 1:
            return ['<', self.i(env, d - 1), self.i(env, d - 1)]
        if k == 2:
            return ['=', self.i(env, d - 1), r.randrange(-2, 3)]
        if k == 3:
            return ['not', self.b(env, d - 1)]
        if k == 4:
            return [r.choice(['and', 'or']), self.b(env, d - 1),
                    self.b(env, d - 1)]
        return ['null?', self.l(env, d - 1)]

    def l(self, env, d):
        r = self.r
        vs = self.vars(env, 'l')
        if vs and r.random() < .4:
            return r.choice(vs)
        if d <= 0:
            return r.choice([['quote', []], ['list', r.randrange(9)],
                             ['quote', [1, 2, 3]]])
        self.left -= 1
        k = r.randrange(9)
        if k == 0:
            return ['list'] + [self.i(env, d - 1) for _ in range(r.randrange(4))]
        if k == 1:
            return ['cons', self.i(env, d - 1), self.l(env, d - 1)]
        if k == 2:
            return ['append', self.l(env, d - 1), self.l(env, d - 1)]
        if k == 3:
            return ['reverse', self.l(env, d - 1)]
        if k == 4 and self.w['map']:
            return ['map', self.f(env, d - 1), self.l(env, d - 1)]
        if k == 5 and self.w['vector']:
            return ['vector->list', self.v(env, d - 1)]
        if k == 6 and self.w['qq']:
            return ['quasiquote', self.qt(env, d - 1)]
        if k == 7:
            return ['if', self.b(env, d - 1), self.l(env, d - 1),
                    self.l(env, d - 1)]
        if k == 8 and self.w['receive']:
            n = self.new('r')
            return ['receive', n, self.mv(env, d - 1), n]
        return ['list', self.i(env, d - 1)]

    def qt(self, env, d):
        """a quasiquote template for a list"""
        r = self.r
        out = []
        for _ in range(r.randrange(5)):
            k = r.randrange(8)
            if k < 3:
                out.append(['unquote', self.i(env, d - 1)])
            elif k < 6:
                out.append(['unquote-splicing', self.l(env, d - 1)])
            elif k == 6 and d > 0:
                t = self.qt(env, d - 1)
                q = r.randrange(4)
                if q == 0 and t:
                    out.append({'d': t + [['unquote', self.i(env, d - 1)]]})
                elif q == 1:
                    out.append({'v': t})
                else:
                    out.append(t)
            else:
                out.append(r.choice([1, 2, 'a', {'s': 'q'}]))
        return out

    def mv(self, env, d):
        return ['values'] + [self.i(env, d - 1)
                             for _ in range(self.r.choice([0, 1, 2, 2, 3]))]

    def v(self, env, d):
        r = self.r
        vs = self.vars(env, 'v')
        if vs and r.random() < .5:
            return r.choice(vs)
        k = r.randrange(3)
        if d <= 0 or k == 0:
            return ['make-vector', r.randrange(4), self.i(env, 0)]
        if k == 1:
            return ['vector'] + [self.i(env, d - 1)
                                 for _ in range(r.randrange(4))]
        return ['list->vector', self.l(env, d - 1)]

    def s(self, env, d):
        r = self.r
        vs = self.vars(env, 's')
        if vs and r.random() < .4:
            return r.choice(vs)
        k = r.randrange(8)
        if d <= 0 or k == 0:
            return {'s': r.choice(['', 'a', 'bcd', 'hello', 'x y', '\u3042z'])}
        self.left -= 1
        if k == 1:
            return ['string-append', self.s(env, d - 1), self.s(env, d - 1)]
        if k == 2:
            return ['number->string', self.i(env, d - 1)]
        if k == 3:
            return ['symbol->string', ['quote', r.choice(['a', 'foo'])]]
        if k == 4:
            return ['list->string', ['string->list', self.s(env, d - 1)]]
        if k == 5 and self.w['strport']:
            o = self.new('o')
            return ['let', [[o, ['open-output-string']]],
                    ['display', self.i(env, d - 1), o],
                    ['display', self.s(env, d - 1), o],
                    ['get-output-string', o]]
        if k == 6:
            n = self.new('s')
            e = env + [(n, 's')]
            return ['let', [[n, ['string-copy', self.s(env, d - 1)]]],
                    ['if', ['<', 0, ['string-length', n]],
                     ['string-set!', n, 0, {'c': r.choice([65, 97, 0x3044])}],
                     0], self.s(e, d - 1)]
        return ['if', self.b(env, d - 1), self.s(env, d - 1),
                self.s(env, d - 1)]

    def t(self, env, d, t='i'):
        """thunk"""
        return ['lambda', []] + self.seq(env, d, t)

    def seq(self, env, d, t='i', n=None):
        n = self.r.choice([0, 0, 1, 1, 2]) if n is None else n
        return [self.stmt(env, d) for _ in range(n if d > 0 else 0)] + \
            [self.i(env, d)]

    def f(self, env, d):
        """int -> int"""
        r = self.r
        vs = self.vars(env, 'f')
        if vs and r.random() < .4:
            return r.choice(vs)
        if r.random() < .05:
            ks = self.vars(env, 'k')
            if ks:
                return r.choice(ks)
        n = self.new('x')
        return ['lambda', [n]] + self.seq(env + [(n, 'i')], d - 1)

    def handler(self, env, d):
        hs = self.vars(env, 'h')
        if hs and self.r.random() < .4:
            return self.r.choice(hs)
        ks = self.vars(env, 'k')
        if ks and self.r.random() < .08:
            return self.r.choice(ks)
        c = self.new('c')
        e = env + [(c, 'c')]
        r = self.r
        k = r.randrange(4)
        pre = [['sim-log', c]] if r.random() < .7 else []
        if k == 0:
            body = [self.i(e, d - 1)]
        elif k == 1:
            body = [['if', ['integer?', c], ['+', c, 1], self.i(e, d - 1)]]
        elif k == 2:
            body = [['if', ['integer?', c], self.i(e, d - 1), ['raise', c]]]
        else:
            body = self.seq(e, d - 1)
        return ['lambda', [c]] + pre + body

    def stmt(self, env, d):
        r = self.r
        self.left -= 1
        w = self.w
        ch = [('log', w['log'] + .5), ('setg', w['set'] + .3),
              ('setk', w['setk'] if self.vars(env, 'k') else 0),
              ('setp', w['promise'] * .5),
              ('gc', w['gc'] * .3),
              ('vset', w['vector'] * .5 if self.vars(env, 'v') else 0),
              ('setl', w['set'] * .7 + .2
               if any(n[0] != 'n' for n in self.vars(env, 'i')) else 0),
              ('setcar', w['apply'] * .6 if self.vars(env, 'L') else 0),
              ('foreach', w['map'] * .3), ('expr', .6)]
        k = self.pick(ch)
        if k == 'log':
            return ['sim-log', self.any(env, d - 1)]
        if k == 'setg':
            return ['set!', r.choice(self.gi), self.i(env, d - 1)]
        if k == 'setl':         # (a loop variable is left alone)
            return ['set!', r.choice([n for n in self.vars(env, 'i')
                                      if n[0] != 'n']), self.i(env, d - 1)]
        if k == 'setcar':
            v = r.choice(self.vars(env, 'L'))
            return ['if', ['null?', v], 0, ['set-car!', v,
                                            self.i(env, d - 1)]]
        if k == 'setk':
            return ['set!', r.choice(self.gk), r.choice(self.vars(env, 'k'))]
        if k == 'setp':
            return ['set!', r.choice(self.gp), ['delay', self.i(env, d - 1)]]
        if k == 'gc':
            return ['sim-gc']
        if k == 'vset':
            v = r.choice(self.vars(env, 'v'))
            return ['if', ['<', 0, ['vector-length', v]],
                    ['vector-set!', v, 0, self.i(env, d - 1)], 0]
        if k == 'foreach':
            return ['for-each', self.f(env, d - 1), self.l(env, d - 1)]
        return self.i(env, d - 1)

    def pick(self, ch):
        tot = sum(x for _, x in ch)
        x = self.r.random() * tot
        for k, p in ch:
            x -= p
            if x < 0:
                return k
        return ch[-1][0]

    def i(self, env, d):
        r = self.r
        vs = self.vars(env, 'i')
        if d <= 0 or self.left <= 0:
            return r.choice(vs + self.gi[:2] + [r.randrange(10)])
        self.left -= 1
        w = self.w
        ch = [('lit', .5), ('var', 1 if vs else 0), ('glob', .4),
              ('arith', 1), ('if', .8), ('begin', .8),
              ('let', w['let']), ('callcc', w['callcc']),
              ('throw', w['throw'] if self.vars(env, 'k') else 0),
              ('gthrow', w['gthrow'] * .5), ('wind', w['wind']),
              ('guard', w['guard']), ('weh', w['weh']),
              ('raise', w['raise'] * .6), ('error', w['error'] * .4),
              ('step', w['step']), ('log', w['log'] * .5),
              ('app', w['lambda']), ('apply', w['apply'] * .5),
              ('values', w['values'] * .6), ('loop', w['loop'] * .6),
              ('force', w['promise']), ('car', w['list'] * .6),
              ('vref', w['vector'] * .6), ('slen', w['string'] * .4),
              ('case', w['case'] * .4), ('simcall', w['simcall'] * .6),
              ('receive', w['receive'] * .5), ('badop', w['badop'] * .3),
              ('strport', w['strport'] * .3), ('capture', w['capture'] * .4),
              ('macro', w['macro'] * .6), ('shadow', w['shadow'] * .4)]
        k = self.pick(ch)
        d -= 1
        if k == 'lit':
            return r.randrange(-5, 100)
        if k == 'var':
            return r.choice(vs)
        if k == 'glob':
            return r.choice(self.gi)
        if k == 'arith':
            return [r.choice(['+', '-', '+']), self.i(env, d), self.i(env, d)]
        if k == 'if':
            return ['if', self.b(env, d), self.i(env, d), self.i(env, d)]
        if k == 'begin':
            return ['begin'] + self.seq(env, d, n=r.choice([1, 1, 2]))
        if k == 'let':
            t = r.choice(['i', 'i', 'l', 's', 'f', 'v'])
            n = self.new(t)
            bs = [[n, getattr(self, t)(env, d)]]
            e = env + [(n, t)]
            if r.random() < .3:
                m = self.new('i')
                bs.append([m, self.i(env, d)])
                e = e + [(m, 'i')]
            h = r.choice(['let', 'let*']) if t != 'f' else \
                r.choice(['let', 'letrec'])
            if h == 'letrec':
                bs, e = bs[:1], env + [(n, t)]
            return [h, bs] + self.seq(e, d)
        if k == 'callcc':
            n = self.new('k')
            pre = [['set!', r.choice(self.gk), n]] \
                if r.random() < .15 * w['setk'] else []
            return ['call/cc', ['lambda', [n]] + pre +
                    self.seq(env + [(n, 'k')], d)]
        if k == 'throw':
            return [r.choice(self.vars(env, 'k')), self.i(env, d)]
        if k == 'gthrow':
            return [r.choice(self.gk), self.i(env, d)]
        if k == 'wind':
            def th():
                return ['lambda', []] + (
                    [['sim-log', self.i(env, d - 1)]]
                    if r.random() < .6 else self.seq(env, d - 1))
            return ['dynamic-wind', th(), self.t(env, d), th()]
        if k == 'guard':
            n = self.new('c')
            e = env + [(n, 'c')]
            cl = []
            for _ in range(r.choice([0, 1, 1, 2])):
                q = r.randrange(6)
                if q == 0:
                    cl.append([['integer?', n]] + self.seq(e + [(n, 'i')], d))
                elif q == 1:
                    cl.append([['symbol?', n]] + self.seq(e, d))
                elif q == 2:
                    cl.append([['%%error-object?', n], ['sim-log', n],
                               self.i(e, d)])
                elif q == 3:
                    cl.append([self.b(e, d), self.i(e, d)])
                elif q == 4:
                    cl.append([['and', ['integer?', n], n], '=>',
                               self.f(env, d)])
                else:
                    cl.append([['begin', ['sim-log', n], False]])
            if r.random() < .6:
                cl.append(['else', ['sim-log', n]] + self.seq(e, d))
            if not cl:
                cl.append([False, 0])
            return ['guard', [n] + cl] + self.seq(env, d)
        if k == 'weh' and r.random() < .3:
            h = self.new('h')
            e = env + [(h, 'h')]
            return ['let', [[h, self.handler(env, d)]],
                    ['with-exception-handler', h, self.t(e, d)]]
        if k == 'weh':
            return ['with-exception-handler', self.handler(env, d),
                    self.t(env, d)]
        if k == 'raise':
            cs = self.vars(env, 'c')
            if cs and r.random() < .4:
                return ['raise', r.choice(cs)]
            return ['raise', self.any(env, d)]
        if k == 'error':
            return ['error', {'s': 'u:' + r.choice(['e', 'bad'])}] + \
                [self.any(env, d) for _ in range(r.randrange(3))]
        if k == 'step':
            return ['sim-step', self.i(env, d)]
        if k == 'log':
            return ['sim-log', self.i(env, d)]
        if k == 'app':
            q = r.randrange(4)
            if q == 0:
                n = self.new('y')
                return [['lambda', {'d': [n, 'rest']}, self.i(
                    env + [(n, 'i'), ('rest', 'l')], d)]] + \
                    [self.i(env, d) for _ in range(r.randrange(1, 4))]
            if q == 1:
                return [self.t(env, d)]
            return [self.f(env, d), self.i(env, d)]
        if k == 'apply':
            q = r.randrange(5)
            if q == 0:
                return ['apply', self.f(env, d), ['list', self.i(env, d)]]
            # the callee assigns its variables and alters its rest list; the
            # list that was spliced must not notice
            n = r.randrange(1, 4)
            ps = [self.new('y') for _ in range(r.randrange(n + 1))]
            rest = self.new('r') if r.random() < .5 or not ps else None
            if rest is None:
                n = len(ps)
            k0 = r.randrange(n)
            e = env + [(p, 'i') for p in ps] + \
                ([(rest, 'l'), (rest, 'L')] if rest else [])
            f = ['lambda', rest if not ps else {'d': ps + [rest]} if rest
                 else ps] + self.seq(e, d)
            pre = [self.i(env, d) for _ in range(k0)]
            c = r.randrange(3)
            if c == 0:
                return ['apply', f] + pre + \
                    [['quote', [r.randrange(20) for _ in range(n - k0)]]]
            if c == 1:
                return ['apply', f] + pre + \
                    [['list'] + [self.i(env, d) for _ in range(n - k0)]]
            a = self.new('al')
            x = ['apply', f] + pre + [a]
            return ['let', [[a, ['list'] + [self.i(env, d)
                                            for _ in range(n - k0)]]],
                    self.stmt(env + [(a, 'l')], d), ['sim-log', x],
                    ['sim-log', a], x]
        if k == 'values':
            a, b = self.new('v'), self.new('v')
            q = r.randrange(3)
            if q == 0:
                return ['call-with-values', ['lambda', [], self.mv(env, d)],
                        ['lambda', a, ['length', a]]]
            kv = self.vars(env, 'k')
            return ['call-with-values', ['lambda', [],
                    ['values', self.i(env, d), self.i(env, d)]],
                    ['lambda', [a, b], self.i(
                        env + [(a, 'i'), (b, 'i')], d)]]
        if k == 'loop':
            n, acc, lp = self.new('n'), self.new('a'), self.new('lp')
            e = env + [(n, 'i'), (acc, 'i')]
            cnt = r.randrange(1, 4)
            if r.random() < .5:
                return ['let', lp, [[n, 0], [acc, self.i(env, d)]],
                        ['if', ['<', n, cnt],
                         ['begin', self.stmt(e, d),
                          [lp, ['+', n, 1], self.i(e, d)]], acc]]
            return ['do', [[n, 0, ['+', n, 1]], [acc, self.i(env, d),
                                                 self.i(e, d)]],
                    [['=', n, cnt], acc], self.stmt(e, d)]
        if k == 'force':
            q = r.randrange(3)
            if q == 0:
                return ['force', ['delay', self.i(env, d)]]
            if q == 1:
                n = self.new('p')
                return ['let', [[n, ['delay', ['begin'] + self.seq(env, d)]]],
                        ['+', ['force', n], ['force', n]]]
            return ['force', r.choice(self.gp)]
        if k == 'car':
            return r.choice([
                lambda: ['car', ['cons', self.i(env, d), self.l(env, d)]],
                lambda: ['length', self.l(env, d)],
                lambda: ['apply', '+', self.l(env, d)]])()
        if k == 'vref':
            return r.choice([
                lambda: ['vector-ref', ['vector', self.i(env, d),
                                        self.i(env, d)], r.choice([0, 1, 1, 2])],
                lambda: ['vector-length', self.v(env, d)]])()
        if k == 'slen':
            return ['string-length', self.s(env, d)]
        if k == 'case':
            return ['case', self.i(env, d), [[0, 1, 2], self.i(env, d)],
                    [[5, 7], self.i(env, d)], ['else', self.i(env, d)]]
        if k == 'simcall':
            return ['sim-call', self.f(env, d), self.i(env, d)]
        if k == 'receive':
            a, b = self.new('r'), self.new('r')
            return ['receive', {'d': [a, b]},
                    ['values', self.i(env, d), self.i(env, d),
                     self.i(env, d)],
                    self.i(env + [(a, 'i'), (b, 'l')], d)]
        if k == 'badop':
            # (what is evaluated before the failure is detected is
            # unspecified, hence no effects in here)
            return r.choice([
                ['car', r.randrange(9)], ['undefined-var'],
                [r.randrange(9), 1], ['vector-ref', ['vector', 1], 9],
                ['+', {'s': 'x'}, 1], [['lambda', ['z'], 'z'], 1, 2],
                ['length', ['quote', {'d': [1, 2]}]]])
        if k == 'strport':
            p = self.new('ip')
            return ['let', [[p, ['open-input-string', self.s(env, d)]]],
                    ['read-char', p],
                    ['if', ['eof-object?', ['read-char', p]],
                     self.i(env, d), self.i(env, d)]]
        if k == 'macro':
            q = r.randrange(4)
            if q == 0:
                return ['m-or', ['if', self.b(env, d), self.i(env, d), False],
                        self.i(env, d)]
            if q == 1:
                return ['m-or', ['m-unless', self.b(env, d)] +
                        self.seq(env, d), self.i(env, d)]
            if q == 2:
                n = self.new('mi')
                return ['let', [[n, self.i(env, d)]],
                        ['m-inc!', n, self.i(env, d)], n]
            if r.random() < .4:
                return [r.choice(['m-seta', 'm-setb', 'm-rest']),
                        self.i(env, d), self.i(env, d)]
            n = self.new('ml')
            return ['m-let', [[n, self.i(env, d)]]] + \
                self.seq(env + [(n, 'i')], d)
        if k == 'shadow':
            return self.shadow(env, d)
        if k == 'capture':
            if r.random() < .5:
                return self.nest(env, d)
            # several continuations alive at once, one of them is taken
            a, b = self.new('k'), self.new('k')
            e = env + [(a, 'k'), (b, 'k')]
            return ['call/cc', ['lambda', [a],
                    ['dynamic-wind', ['lambda', [], ['sim-log', {'s': 'in'}]],
                     ['lambda', [], ['+', 1000, ['call/cc',
                      ['lambda', [b]] + self.seq(e, d)]]],
                     ['lambda', [], ['sim-log', {'s': 'out'}]]]]]
        raise AssertionError(k)

    def shadow(self, env, d):
        """special forms used where local variables have the names that
        their implementation may rely on"""
        r = self.r
        th, f, tl, fl, p, mv = [self.new(c) for c in
                                ('st', 'sf', 'sl', 'sg', 'sp', 'sv')]
        x = self.new('x')

        def inner(d):
            if d <= 0:
                return r.choice([[th], [th], [f, r.randrange(9)],
                                 r.randrange(100)])
            d -= 1
            v = self.new('w')
            k = r.choice(['guard', 'guard', 'guard=>', 'guardelse', 'cond',
                          'cond=>', 'case', 'do', 'force', 'receive', 'qq',
                          'let', 'letstar', 'named', 'define', 'app'])
            if k[:5] == 'guard' and r.random() < .4:
                v = r.choice(['raise', 'quote', 'error', 'condition', 'body',
                              'lex-env', 'guard-k', 'handler-k'])
            if k == 'guard':
                return ['guard', [v, [[p, v], inner(d)]], inner(d)]
            if k == 'guard=>':
                return ['guard', [v, [r.choice([[p, v], [th], v]), '=>', f]],
                        inner(d)]
            if k == 'guardelse':
                return ['guard', [v, ['else', inner(d)]], inner(d)]
            if k == 'cond':
                return ['cond', [[p, inner(d)], inner(d)],
                        ['else', inner(d)]]
            if k == 'cond=>':
                return ['cond', [inner(d), '=>', f], ['else', inner(d)]]
            if k == 'case':
                return ['case', inner(d), [[0, 1, 2, 3, 4], inner(d)],
                        ['else', inner(d)]]
            if k == 'do':
                return ['do', [[v, 7, inner(d)]], [[p, v], inner(d)],
                        inner(d)]
            if k == 'force':
                return ['force', ['delay', inner(d)]]
            if k == 'receive':
                v2 = self.new('w')
                return ['receive', {'d': [v, v2]}, [mv], inner(d)]
            if k == 'qq':
                return [fl, ['quasiquote', [1, ['unquote', [th]],
                             ['unquote-splicing', [tl]],
                             ['unquote', inner(d)]]]]
            if k == 'let':
                return ['let', [[v, inner(d)]], inner(d), v]
            if k == 'letstar':
                v2 = self.new('w')
                return ['let*', [[v, inner(d)], [v2, v]], v2]
            if k == 'named':
                v2 = self.new('w')
                return ['let', v, [[v2, inner(d)]], v2]
            if k == 'define':
                return ['let', [[v, 0]], ['set!', v, inner(d)], v]
            return [f, inner(d)]
        names = ['raise', 'quote', 'error', 'apply', 'values', 'list', 'cons',
                 'condition', 'lex-env', 'cond-catch', 'body', 'guard-k',
                 'handler-k', 'lambda', 'if', 'append', 'list->vector',
                 'eqv?', 'memv', 'call-with-current-continuation', 'call/cc',
                 'dynamic-wind', 'with-exception-handler', 'make-promise',
                 'call-with-values', '%%error-object?', 'and', 'or']
        sh = r.sample(names, r.choice([2, 4, 8, len(names)]))
        if r.random() < .5 and 'raise' not in sh:
            sh.append('raise')
        return ['let', [
            [th, ['lambda', []] + self.seq(env, d - 1)],
            [f, ['lambda', [x], ['sim-log', x], self.i(env, d - 1)]],
            [tl, ['lambda', [], self.l(env, d - 1)]],
            [fl, ['lambda', [x], ['apply', '+', x]]],
            [p, ['lambda', [x], ['if', ['integer?', x],
                                 ['<', x, r.choice([0, 50, 1000])], False]]],
            [mv, ['lambda', [], ['values', self.i(env, 0),
                                 self.i(env, d - 1)]]]],
            ['let', [[s, r.choice([1, False, f, {'s': s[:2]}])] for s in sh],
             inner(r.choice([1, 2, 3]))]]

    def nest(self, env, d):
        """nested extents whose thunks leave them by themselves"""
        r = self.r
        ks = [self.new('k') for _ in range(r.randrange(2, 5))]
        e = env + [(k, 'k') for k in ks]
        out = [r.choice(ks + ks[:1]), self.i(e, min(d, 1))]

        def leave(j, p):
            if r.random() > p:
                return []
            q = r.random()
            if q < .7:
                return [[r.choice(ks[:j + 1]), r.randrange(100, 200)]]
            if q < .85:
                return [['raise', r.randrange(200, 300)]]
            return [['sim-step', 0]]
        for j in reversed(range(len(ks))):
            out = ['dynamic-wind',
                   ['lambda', [], ['sim-log', {'s': 'i%d' % j}]] +
                   leave(j, .06),
                   ['lambda', [], out],
                   ['lambda', [], ['sim-log', {'s': 'o%d' % j}]] +
                   leave(j, .35)]
            out = ['call/cc', ['lambda', [ks[j]],
                               ['+', 10 ** (j + 3), out]]]
            if r.random() < .2:
                n = self.new('c')
                out = ['guard', [n, [['integer?', n], ['+', n, 1]]], out]
        return out

    def try_(self, e, style):
        if style == 0:
            return ['try', ['lambda', []] + e]
        return ['guard', ['c', ['else', ['list', ['quote', 'caught'], 'c']]]] \
            + e

    def program(self, ntests, depth=5):
        out = []
        for _ in range(ntests):
            env = []
            e = self.seq(env, depth)
            out.append(['sim-log', self.try_(e, self.r.randrange(2))])
            if self.r.random() < .4:
                out.append(['sim-log', ['list'] + self.gi])
        return out


PRELUDE = [
    ['define', 'g0', 0], ['define', 'g1', 1], ['define', 'g2', 2],
    ['define', 'g3', 3],
    ['define', 'kg0', ['lambda', ['x'], ['error', {'s': 'u:nok'}, 'x']]],
    ['define', 'kg1', 'kg0'], ['define', 'kg2', 'kg0'],
    ['define', 'pg0', ['delay', 10]], ['define', 'pg1', ['delay', ['+', 'g0',
                                                                  1]]],
    ['define', 'pg2', False],
    ['define', ['try', 'thunk'],
     ['call/cc', ['lambda', ['k'],
                  ['with-exception-handler',
                   ['lambda', ['e'], ['k', ['list', ['quote', 'caught'],
                                            'e']]],
                   'thunk']]]],
]
EPILOGUE = [['sim-log', ['list', 'g0', 'g1', 'g2', 'g3']], ['quote', 'end']]
# what the programs need beyond the default environment
SETUP = """(use srfi-6) (use srfi-8) (use srfi-23) (use srfi-34)
(define-macro (m-or a b) `(let ((%t ,a)) (if %t %t ,b)))
(define-macro (m-unless c . body) `(if ,c #f (let () ,@body)))
(define-macro m-inc! (lambda (v n) (list 'set! v (list '+ v n))))
(define-macro (m-seta a b) (set! a (list '- a)) (list '+ a b))
(define-macro m-setb (lambda (a . r) (set! r (list '- a (car r))) (set! a 5) r))
(define-macro (m-rest . r) (set-car! r (list '+ 1 (car r))) (cons '+ r))
(define-macro (m-let bs . body) `(let ,bs ,@body))"""
