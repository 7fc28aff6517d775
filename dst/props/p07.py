"""P07 input is a function of the bytes."""
from .. import util as U
from .. import iotext

PROP = 'P07'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt']
COUNT = {'quick': 4000, 'thorough': 120000}
CAP = {'quick': 300, 'thorough': 3000}
TECH = 'read splits, buffer sizes, port kinds and GC schedules'
RULE = ('a case is a byte text (data with known values, possibly followed by '
        'something that is no datum, or junk with broken '
        'encodings and NULs), an encoding and a random sequence of read, '
        'read-char, peek-char and char-ready? calls, run over a stream that '
        'delivers it at once, in random pieces, unbuffered, as stdin and as a '
        'string port, with and without the peeks; it counts once per distinct '
        'event log')
ASSUME = ['the simulated stream stands for read(2): it returns between 1 and '
          'the asked number of bytes until the end']
PROBES = ['probe:known', 'probe:junk', 'probe:error', 'probe:peek',
          'probe:string-port', 'probe:encoded', 'probe:bad']
CODECS = ['UTF-8'] * 5 + ['EUC-JP', 'EUC-KR', 'EUC-CN', 'Shift_JIS',
                          'ISO-8859-1']
# what is no datum, also when the text ends behind it
BAD = ['#\\', '#\\\u307841', '#\\\u307a20 ', '#\\xd800', '#\\x110000',
       '#\\foo', '#\\ab ', '"\\x41"', '"\\x0;"', '"a\\x000;b" ', '"\\xd800;"',
       '"\\q"', '"\\x;"', '"abc', '"\\', '(1 2', '#(1', ')', '#q', "'", '`', ',@',
       '(. 1)', '(1 . 2 3)', '(1 . )', '#x', '#xg', '1+2', '#', '#(1 . 2)',
       '(a . b . c)', '#\\xg', '#b2', '#o8 ', ']', '[1]', '{', '+5a', '#x--f',
       '12a', '(x #\\', '("y', '(a . ', "('", '#(#(', '(quote "z']
SETUP = r"""
(require-extension (srfi 34))
(define (try t) (guard (e (#t (list 'caught e))) (t)))
(define (do-op p o) (try (lambda () (cond ((eq? o 'c) (read-char p))
  ((eq? o 'p) (peek-char p)) ((eq? o 'y) (char-ready? p))
  ((eq? o 'r) (read p))))))
(define (ops p l) (for-each (lambda (o) (let ((x (do-op p o)))
  (sim-log (list o x)))) l))
(define (drain p o) (let lp ((n 0) (bad 0)) (let ((x (do-op p o)))
  (sim-log (list 'd x))
  (cond ((eof-object? x) 'eof) ((> n 700) 'many) ((> bad 40) 'errors)
        (else (lp (+ n 1) (if (and (pair? x) (eq? (car x) 'caught)) (+ bad 1)
         bad)))))))
"""


def gen(rng, i):
    c = {'codec': 'UTF-8', 'known': None}
    if rng.random() < .5:
        t, k = iotext.Gen(rng).text(rng.choice((1, 2, 4, 8)))
        c['bytes'] = t.encode().hex()
        c['known'] = [x[0] for x in k]
        if rng.random() < .3:
            c['bad'] = rng.choice(BAD)
            c['bytes'] = (t + '\n' + c['bad']).encode().hex()
    else:
        c['codec'] = rng.choice(CODECS)
        if c['codec'] != 'UTF-8' and rng.random() < .6:
            # characters of the encoding
            t = U.codec_chars(c['codec'])
            b = b''.join(rng.choice(t) if rng.random() < .6 else
                         bytes([rng.choice(b'ab "\\#();\n')])
                         for _ in range(rng.choice((1, 3, 8, 20, 60))))
            if rng.random() < .2:
                b = b'"' + b.replace(b'"', b'').replace(b'\\', b'') + b'"'
            c['bytes'] = b.hex()
        else:
            c['bytes'] = iotext.junk(rng, rng.choice(
                (1, 3, 6, 12, 20))).hex()
    w = rng.choice(['r', 'rp', 'c', 'cp', 'rcp', 'rcpy', 'cy'])
    c['ops'] = ''.join(rng.choice(w) for _ in range(rng.choice((0, 2, 5, 12))))
    c['drain'] = rng.choice('rrc') if w != 'c' else 'c'
    if c['codec'] != 'UTF-8' and rng.random() < .5:
        c['ops'], c['drain'] = '', 'c'
    c['chunks'] = [rng.choice((1, 1, 2, 3, 5, 17))
                   for _ in range(rng.choice((1, 1, 2, 5)))]
    c['buf'] = rng.choice((-1, -1, 0, 1, 2, 3, 7, 64))
    c['stdin'] = rng.random() < .2
    c['variant'] = rng.choice(VARIANTS)
    c['gc'] = U.gc_schedule(rng, .6) + '\ngclimit 300'
    return c


def prog(c, ops, port):
    return ('(with-char-codec "%s" (lambda () (let ((p %s)) (ops p \'(%s)) '
            '(drain p \'%s))))' % (c['codec'], port, ' '.join(ops),
                                   c['drain']))


def one(ctx, c, ops, port, *dirs):
    r = ctx.sim(c['variant'], U.scen(
        U.HEAP, 'cpu 6', 'maxallocs 2000000', 'quietio', 'op init',
        U.ev(SETUP, True), 'op snapshot', *dirs, 'op gcgo',
        U.ev(prog(c, ops, port), True), 'op fini'))
    return r, U.abnormal(r)


def run(c, ctx):
    f = 'file /t %s' % c['bytes']
    ops = list(c['ops'])
    P = '(open-input-file "/t")'
    a, e = one(ctx, c, ops, P, f)
    if e:
        return [e]
    la = U.logs(a)
    ctx.count('probe:known' if c['known'] else 'probe:junk')
    if any('|caught|' in l for l in la):
        ctx.count('probe:error')
    dirs = ['chunks %s %s' % ('%s', ' '.join(map(str, c['chunks']))),
            'bufsize %%s %d' % c['buf']]
    b, e = one(ctx, c, ops, P, f, c['gc'], *[d % '/t' for d in dirs])
    if e:
        return [e]
    d = U.first_diff(la, U.logs(b))
    if d:
        return ['delivery: whole %s, in pieces %s' % (d[1][:200], d[2][:200])]
    if c['stdin']:
        b, e = one(ctx, c, ops, '(current-input-port)',
                   'file <stdin> %s' % c['bytes'],
                   *[d % '<stdin>' for d in dirs])
        if e:
            return [e]
        if c['codec'] == 'UTF-8':
            d = U.first_diff(la, U.logs(b))
            if d:
                return ['stdin: file %s, stdin %s' % (d[1][:200], d[2][:200])]
    if set(ops) & set('py'):
        ctx.count('probe:peek')
        b, e = one(ctx, c, [o for o in ops if o not in 'py'], P, f)
        if e:
            return [e]
        x = [l for l in la if not l.startswith(('L (|p| ', 'L (|y| '))]
        d = U.first_diff(x, U.logs(b))
        if d:
            return ['peek: with peeks %s, without %s' % (
                d[1][:200], d[2][:200])]
    raw = bytes.fromhex(c['bytes'])
    if c['codec'] == 'UTF-8' and b'\0' not in raw:
        try:
            t = raw.decode()
        except UnicodeDecodeError:
            t = None
        if t is not None:
            ctx.count('probe:string-port')
            b, e = one(ctx, c, ops, '(open-input-string (list->string (map '
                       "integer->char '(%s))))" % ' '.join(
                           str(ord(x)) for x in t), c['gc'])
            if e:
                return [e]
            d = U.first_diff(la, U.logs(b))
            if d:
                return ['string port: file %s, string %s' % (
                    d[1][:200], d[2][:200])]
            if not ops and c['drain'] == 'c':
                want = ['L (|d| #\\x%x)' % ord(x) for x in t[:702]]
                if len(t) < 702:
                    want.append('L (|d| #<eof>)')
                d = U.first_diff(want, la)
                if d:
                    return ['chars: expected %s, got %s' % d[1:]]
    if c['codec'] != 'UTF-8' and not ops and c['drain'] == 'c' and \
            b'\0' not in raw:
        py = U.PYCODEC[c['codec']]
        try:
            t = [x.encode(py) for x in raw.decode(py)]
        except UnicodeError:
            t = None
        if t is not None and max(map(len, t), default=0) <= 3 and \
                b''.join(t) == raw:
            ctx.count('probe:encoded')
            want = ['L (|d| #\\x%x)' % int.from_bytes(x, 'big')
                    for x in t[:702]]
            if len(t) < 702:
                want.append('L (|d| #<eof>)')
            d = U.first_diff(want, la)
            if d:
                return ['encoded chars: expected %s, got %s' % d[1:]]
    if c['known'] is not None and not ops and c['drain'] == 'r':
        want = ['L (|d| %s)' % s for s in c['known']]
        if c.get('bad'):
            ctx.count('probe:bad')
            n = len(want)
            want.append('L (|d| (|caught| ..')
            la = la[:n] + [l[:len(want[-1]) - 2] + '..' for l in la[n:n + 1]]
        else:
            want.append('L (|d| #<eof>)')
        d = U.first_diff(want, la)
        if d:
            return ['value: expected %s, got %s' % (d[1][:200], d[2][:200])]
    return []


def simpler(c):
    if c['gc'] != 'gc none':
        yield dict(c, gc='gc none')
    if c['known'] is not None and c['ops']:
        yield dict(c, known=None)
    b = c['bytes']
    if c['known'] is None:
        for n in (32, 8, 2):
            for i in range(0, len(b), n):
                yield dict(c, bytes=b[:i] + b[i + n:])


SHRINK = ['ops', 'chunks']
SHRINK_STRS = True
