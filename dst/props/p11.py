"""P11 redirections and encodings end with the call that made them."""
from .. import util as U

PROP = 'P11'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt']
COUNT = {'quick': 7000, 'thorough': 250000}
CAP = {'quick': 300, 'thorough': 3000}
TECH = 'open, close and write faults, escapes and errors'
RULE = ('a case is a random nest of with-output-to-file, '
        'with-input-from-file, with-char-codec, load, require (with and without an encoding in the '
        'prelude), dynamic-wind, guard, '
        'with-exception-handler and call/cc that is left by return, escape, '
        'error, injected error or a failing open or close; where each output '
        'went, what each input gave and which encoding was in force at each '
        'point is compared with a model; it counts once per distinct event '
        'log')
ASSUME = ['a handler of with-exception-handler and the clauses of a guard run '
          'with the redirections of the raise, as this implementation with '
          'its escaping continuations does']
PROBES = ['probe:escape', 'probe:raise', 'probe:open-failed',
          'probe:close-failed', 'probe:load', 'probe:require',
          'probe:prelude', 'fault:step']
CODECS = ['UTF-8', 'EUC-JP', 'Shift_JIS', 'ISO-8859-1', 'EUC-KR', 'EUC-CN']
INS = {'/i0': 'abcdefghijklmnopqrstuvwxyz', '/i1': 'ABCDEF', '/i2': ''}
OUTS = ['/o0', '/o1', '/o2']
BAD = ['/none']
SETUP = '(require-extension (srfi 34))' + ''.join(
    '(define k%d #f)' % i for i in range(40))


class G:
    def __init__(self, r):
        self.r = r
        self.calm = r.random() < .25    # no errors but those of close
        self.n = 0
        self.k = 0
        self.ks = []

    def body(self, d):
        return [self.node(d) for _ in range(self.r.choice((1, 1, 2, 3)))]

    def num(self):
        self.n += 1
        return self.n

    def node(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < .3:
            return self.leaf()
        if k < .45:
            return ['out', r.choice(OUTS + BAD * (r.random() < .2 and not self.calm)),
                    self.body(d - 1)]
        if k < .58:
            return ['in', r.choice(list(INS) + BAD * (r.random() < .5 and not self.calm)),
                    self.body(d - 1)]
        if k < .7:
            return ['codec', r.choice(CODECS), self.body(d - 1)]
        if k < .76:
            return ['load', self.num(), self.body(d - 1),
                    r.choice((None, None) + tuple(CODECS[:5])),
                    r.choice(('load', 'load', 'require'))]
        if k < .84:
            return ['guard', self.body(d - 1)]
        if k < .9:
            return ['dw', [self.leaf(0)], self.body(d - 1), [self.leaf(0)]]
        j = self.k % 40
        self.k += 1
        self.ks.append(j)
        b = self.body(d - 1)
        self.ks.pop()
        return ['kk' if r.random() < .6 else 'weh', j, b]

    def leaf(self, jump=1):
        r = self.r
        k = r.random()
        if k < .4:
            return ['emit', self.num()]
        if k < .55:
            return ['readc']
        if k < .75:
            return ['logc']
        if not jump or self.calm:
            return ['emit', self.num()]
        if k < .8:
            return ['setc', r.choice(CODECS)]
        if k < .85 and self.ks:
            return ['esc', r.choice(self.ks)]
        if k < .9:
            return ['raise', self.num()]
        if k < .92:
            return ['err']
        if k < .94:
            return ['gc']
        return ['step']


def gen(rng, i):
    g = G(rng)
    c = {'top': [g.node(rng.choice((2, 3, 4, 5)))
                 for _ in range(rng.choice((1, 2, 4)))]}
    c['dirs'] = []
    for _ in range(rng.choice((0, 0, 1, 2))):
        c['dirs'].append([rng.choice(list(INS)[:2] + OUTS),
                          'close' if g.calm else rng.choice(['open', 'open',
                                                             'close']),
                          rng.choice((1, 1, 2, 3)), rng.choice((5, 13, 24)),
                          rng.choice((0, 0, 1))])
    c['sf'] = sorted({rng.randrange(1, 6) for _ in range(rng.choice(
        (0, 1, 1, 2)))})
    c['variant'] = rng.choice(VARIANTS)
    c['gc'] = U.gc_schedule(rng, .4) + '\ngclimit 300'
    return c


def src(n, files):
    k = n[0]

    def seq(b):
        return ' '.join(src(x, files) for x in b)
    if k == 'emit':
        return '(display "<%d>")' % n[1]
    if k == 'readc':
        return '(sim-log (list \'c (read-char)))'
    if k == 'logc':
        return '(sim-log (list \'e (%%current-char-codec)))'
    if k == 'setc':
        return '(%%%%set-current-char-codec! "%s")' % n[1]
    if k == 'esc':
        return '(k%d 1)' % n[1]
    if k == 'raise':
        return '(raise %d)' % n[1]
    if k == 'err':
        return '(car 1)'
    if k == 'gc':
        return '(sim-gc)'
    if k == 'step':
        return '(sim-step 1)'
    if k == 'out':
        return '(with-output-to-file "%s" (lambda () %s))' % (n[1], seq(n[2]))
    if k == 'in':
        return '(with-input-from-file "%s" (lambda () %s))' % (n[1], seq(n[2]))
    if k == 'codec':
        return '(with-char-codec "%s" (lambda () %s))' % (n[1], seq(n[2]))
    if k == 'load':
        files['/l%d.scm' % n[1]] = (
            '#! sscm -C %s\n' % n[3] if n[3] else '') + '\n'.join(
                src(x, files) for x in n[2])
        return '(%s "/l%d.scm")' % (n[4], n[1])
    if k == 'guard':
        return ('(guard (e (#t (guard (e2 (#t 1)) (display "!")) (sim-log (list \'g (if '
                '(%%%%error-object? e) \'err e))))) %s)' % seq(n[1]))
    if k == 'dw':
        return '(dynamic-wind (lambda () %s) (lambda () %s) (lambda () %s))' % (
            seq(n[1]), seq(n[2]), seq(n[3]))
    if k == 'kk':
        return '(call/cc (lambda (k) (set! k%d k) %s))' % (n[1], seq(n[2]))
    if k == 'weh':
        return ('(call/cc (lambda (k) (set! k%d k) (with-exception-handler '
                '(lambda (e) (guard (e2 (#t 1)) (display "?")) (sim-log (list \'h '
                '(%%%%current-char-codec))) (k%d 2)) (lambda () %s))))' % (
                    n[1], n[1], seq(n[2])))


class Esc(Exception):
    pass


class Rai(Exception):
    pass


class H:
    def __init__(self, path):
        self.path, self.pos = path, 0


class Model:
    def __init__(self, c, ctx):
        self.c, self.ctx = c, ctx
        self.log = []
        self.codec = 'UTF-8'
        self.files = {'<stdout>': bytearray()}
        self.out = H('<stdout>')
        self.inp = H('<stdin>')
        self.data = dict(INS)
        self.data['<stdin>'] = 'STDIN'
        self.cnt = {}
        self.steps = 0
        self.handlers = []      # innermost last: ['guard'] or ['weh', node]
        self.live = {}          # k -> the activation number
        self.act = 0
        self.closeseen = {}

    def fault(self, path, op):
        n = self.cnt[path, op] = self.cnt.get((path, op), 0) + 1
        for p, o, at, e, pers in self.c['dirs']:
            if p == path and o == op and (n == at or pers and n >= at):
                self.ctx.count('probe:%s-failed' % op)
                return True
        return False

    def emit(self, s):
        h = self.out
        if h.path is None:      # only the clauses and handlers write there
            return
        f = self.files[h.path]
        f.extend(b'\0' * (h.pos - len(f)))
        f[h.pos:h.pos + len(s)] = s.encode()
        h.pos += len(s)

    def signal(self, o):
        """raise: handlers run in the context of the raise"""
        if self.handlers and self.handlers[-1][0] == 'weh':
            h = self.handlers[-1]
            save = self.handlers
            self.handlers = self.handlers[:-1]
            try:
                self.emit('?')
                self.log.append('L (|h| "%s"/%d)' % (self.codec,
                                                     len(self.codec)))
                raise Esc(h[1])
            finally:
                self.handlers = save
        if self.handlers:
            save = self.handlers
            self.handlers = self.handlers[:-1]
            try:
                self.emit('!')
                self.log.append('L (|g| %s)' % o)
            finally:
                self.handlers = save
        raise Rai(o)

    def seq(self, b):
        for x in b:
            self.node(x)

    def node(self, n):
        k = n[0]
        if k == 'emit':
            self.emit('<%d>' % n[1])
        elif k == 'readc':
            h = self.inp
            t = self.data[h.path]
            self.log.append('L (|c| %s)' % (
                '#\\x%x' % ord(t[h.pos]) if h.pos < len(t) else '#<eof>'))
            if h.pos < len(t):
                h.pos += 1
        elif k == 'logc':
            self.log.append('L (|e| "%s"/%d)' % (self.codec, len(self.codec)))
        elif k == 'setc':
            self.codec = n[1]
        elif k == 'esc':
            self.ctx.count('probe:escape')
            raise Esc(n[1])
        elif k == 'raise':
            self.ctx.count('probe:raise')
            self.signal(n[1])
        elif k == 'err':
            self.signal('|err|')
        elif k == 'step':
            self.steps += 1
            if self.steps in self.c['sf']:
                self.signal('|err|')
        elif k == 'out':
            if n[1] in BAD or self.fault(n[1], 'open'):
                self.signal('|err|')
            self.files[n[1]] = bytearray()
            save = self.out
            self.out = H(n[1])
            try:
                self.seq(n[2])
                if self.fault(n[1], 'close'):
                    # the error is signalled inside, on the closed port
                    self.out.path = None
                    self.signal('|err|')
            finally:
                self.out = save
        elif k == 'in':
            if n[1] in BAD or self.fault(n[1], 'open'):
                self.signal('|err|')
            save = self.inp
            self.inp = H(n[1])
            try:
                self.seq(n[2])
                if self.fault(n[1], 'close'):
                    self.signal('|err|')
            finally:
                self.inp = save
        elif k in ('codec', 'load'):
            save = self.codec
            if k == 'codec':
                self.codec = n[1]
            else:
                self.ctx.count('probe:' + n[4])
                if n[3]:
                    self.ctx.count('probe:prelude')
                    self.codec = n[3]
            try:
                self.seq(n[2])
            finally:
                self.codec = save
        elif k == 'guard':
            save = self.handlers
            self.handlers = save + [['guard']]
            try:
                self.seq(n[1])
                self.handlers = save
            except Rai:
                pass
            finally:
                self.handlers = save
        elif k == 'dw':
            save = self.handlers
            self.seq(n[1])
            try:
                self.seq(n[2])
            finally:
                h = self.handlers
                self.handlers = save
                self.seq(n[3])
                self.handlers = h
        elif k == 'kk' or k == 'weh':
            save = self.handlers
            if k == 'weh':
                self.handlers = save + [['weh', n[1]]]
            try:
                self.seq(n[2])
            except Esc as e:
                if e.args[0] != n[1]:
                    raise
            finally:
                self.handlers = save


def run(c, ctx):
    files = {}
    forms = []
    for n in c['top']:
        forms.append(src(['guard', [n, ['logc'], ['emit', 0]]], files))
    used = set()

    def paths(n):
        for x in n:
            if isinstance(x, list):
                paths(x)
        if n and n[0] in ('out', 'in'):
            used.add(n[1])
    paths(c['top'])
    # closing faults also hit ports the collector closes at unknown moments:
    # one of them, in programs that abandon no port before it
    cl = [d[:4] + [0] for d in c['dirs'] if d[1] == 'close'][:1]
    if _abandons(c):
        cl = []
    c = dict(c, dirs=[d for d in c['dirs'] if d[1] != 'close'] + cl)
    m = Model(c, ctx)
    for n in c['top']:
        m.node(['guard', [n, ['logc'], ['emit', 0]]])
    # after everything: the original ports and the original encoding
    forms.append('(sim-log (list (%%current-char-codec))) (display "end") '
                 "(sim-log (read-char))")
    h = m.inp
    want = m.log + ['L ("%s"/%d)' % (m.codec, len(m.codec)), 'L ' + (
        '#\\x%x' % ord('STDIN'[h.pos]) if h.pos < 5 else '#<eof>')]
    m.emit('end')
    r = ctx.sim(c['variant'], U.scen(
        U.HEAP, 'cpu 6', 'maxallocs 2000000', 'quietio',
        'file <stdin> ' + b'STDIN'.hex(),
        *['file %s %s' % (p, t.encode().hex()) for p, t in INS.items()],
        'op init', U.ev(SETUP, True), 'op snapshot',
        *['file %s %s' % (p, t.encode().hex()) for p, t in files.items()],
        *['fault %s %s %d %d %d' % tuple(d) for d in c['dirs']],
        'fault /none open 1 13 1', U.step_dir(c['sf']), c['gc'], 'op gcgo',
        *[U.ev(f, True) for f in forms], 'op fini', 'op stdflush'))
    e = U.abnormal(r)
    if e:
        return [e]
    d = U.first_diff(want, U.logs(r))
    if d:
        return ['log: event %d: expected %s, got %s' % d]
    for p in ['<stdout>'] + OUTS:
        w = bytes(m.files.get(p, b''))
        g = r.files.get(p, b'')
        if w != g:
            return ['output: %s holds %r, expected %r' % (p, g[:200], w[:200])]
    return []


def _abandons(c):
    """may a port be left open by an escape or an error?"""
    s = repr(c['top'])
    return any(x in s for x in ("'esc'", "'raise'", "'err'", "'step'",
                                '/none')) or any(
        d[1] == 'open' for d in c['dirs'])


def simpler(c):
    if c['gc'] != 'gc none':
        yield dict(c, gc='gc none')
    if c['sf']:
        yield dict(c, sf=[])

    def hoist(t):
        for i, n in enumerate(t):
            for s in n:
                if isinstance(s, list) and s and isinstance(s[0], list):
                    yield t[:i] + s + t[i + 1:]
            for j, s in enumerate(n):
                if isinstance(s, list):
                    for x in hoist(s) if s and isinstance(s[0], list) else ():
                        m = list(n)
                        m[j] = x
                        yield t[:i] + [m] + t[i + 1:]
                    if len(s) > 1 and isinstance(s[0], list):
                        for q in range(len(s)):
                            m = list(n)
                            m[j] = s[:q] + s[q + 1:]
                            yield t[:i] + [m] + t[i + 1:]
        for i in range(len(t)):
            if len(t) > 1:
                yield t[:i] + t[i + 1:]
    for t in hoist(c['top']):
        yield dict(c, top=t)


SHRINK = ['dirs']
SHRINK_INTS = False
