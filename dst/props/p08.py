"""P08 failing input streams."""
from .. import util as U
from .. import iotext

PROP = 'P08'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt']
COUNT = {'quick': 5000, 'thorough': 150000}
CAP = {'quick': 300, 'thorough': 3000}
TECH = 'read errors at any read(2), transient or lasting'
RULE = ('a case is a text of data with known values and boundaries, its '
        'division into reads, and a read error (EIO, EINTR, EAGAIN, EISDIR, '
        'ENOMEM) that lasts or passes after some attempts at one of the '
        'reads; the objects or characters read before, the errors, the rest '
        'read after a passing error, a second healthy port and a reopened '
        'port are compared with what the text says; it counts once per '
        'distinct event log')
ASSUME = ['after a passing error inside a datum the reader goes on behind '
          'the bytes it has consumed']
PROBES = ['probe:lasting', 'probe:passing', 'probe:inside-datum',
          'fault:read']
SETUP = r"""
(require-extension (srfi 34))
(define (try t) (guard (e (#t (list 'caught (if (error? e) 'error e)))) (t)))
(define (error? e) (%%error-object? e))
(define nerr 0)
(define qp #f)
(define (drain p rd tag lim) (let lp ((n 0) (bad 0))
  (let ((x (try (lambda () (rd p)))))
  (sim-log (list tag x))
  (if qp (sim-log (list 'q (read qp))))
  (cond ((eof-object? x) 'eof) ((> n 6000) 'many) ((>= bad lim) 'errors)
   (else (lp (+ n 1) (if (and (pair? x) (eq? (car x) 'caught)) (+ bad 1)
         bad)))))))
"""


def gen(rng, i):
    g = iotext.Gen(rng)
    t, k = g.text(rng.choice((1, 2, 4, 8)))
    b = t.encode()
    c = {'bytes': b.hex(), 'known': k,
         'mode': rng.choice(['read', 'read', 'read-char', 'peek'])}
    c['chunks'] = [rng.choice((1, 1, 2, 3, 5, 17, 60))
                   for _ in range(rng.choice((1, 1, 2, 5)))]
    # reads until everything has been delivered, plus the one for the end
    n = pos = 0
    while pos < len(b):
        pos += c['chunks'][n % len(c['chunks'])]
        n += 1
    c['at'] = rng.randrange(1, n + 2)
    c['times'] = rng.choice((0, 1, 1, 2, 3))
    c['err'] = rng.choice((5, 5, 4, 11, 21, 12))
    c['q'] = rng.random() < .3
    c['stdin'] = rng.random() < .15
    c['how'] = rng.choice(['open', 'open', 'call', 'with'])
    c['variant'] = rng.choice(VARIANTS)
    c['gc'] = U.gc_schedule(rng, .6) + '\ngclimit 300'
    return c


RD = {'read': 'read', 'read-char': 'read-char',
      'peek': '(lambda (p) (peek-char p) (read-char p))'}


def prog(c, tag, path):
    d = "(drain p %s '%s %d)" % (RD[c['mode']], tag, c['lim'])
    if c['stdin'] and tag == 'd':
        return '(let ((p (current-input-port))) %s)' % d
    if c['how'] == 'call':
        return ('(call-with-input-file "%s" (lambda (p) %s))' % (path, d))
    if c['how'] == 'with':
        return ('(with-input-from-file "%s" (lambda () (let ((p '
                '(current-input-port))) %s)))' % (path, d))
    return ('(let ((p (open-input-file "%s"))) %s (close-input-port p))' % (
        path, d))


def run(c, ctx):
    raw = bytes.fromhex(c['bytes'])
    c = dict(c, lim=c['times'] + 2 if c['times'] else 3)
    path = '<stdin>' if c['stdin'] else '/t'
    # where the fault strikes: the offset delivered before read number `at`
    off = 0
    for i in range(c['at'] - 1):
        off += c['chunks'][(i % len(c['chunks']))]
    off = min(off, len(raw))
    # failing reads count as reads: the division of the rest is irrelevant
    faults = []
    if c['times']:
        ctx.count('probe:passing')
        for j in range(c['times']):
            faults.append('fault %s read %d %d' % (path, c['at'] + j,
                                                   c['err']))
    else:
        ctx.count('probe:lasting')
        faults.append('fault %s read %d %d 1' % (path, c['at'], c['err']))
    base = [U.HEAP, 'cpu 6', 'maxallocs 2000000', 'quietio', 'op init',
            U.ev(SETUP, True), 'op snapshot']
    Q = ' '.join('(item %d)' % j for j in range(700))
    r = ctx.sim(c['variant'], U.scen(
        *base, 'file %s %s' % (path, c['bytes']), 'file /q ' +
        Q.encode().hex(), 'file /u ' + b'1 "x" (2)'.hex(),
        'bufsize %s 4096' % path,
        'chunks %s %s' % (path, ' '.join(map(str, c['chunks']))), *faults,
        c['gc'], 'op gcgo',
        U.ev('(set! qp (open-input-file "/q"))', True) if c['q'] else '',
        U.ev(prog(c, 'd', path), True),
        U.ev('(set! qp #f)' + prog(c, 'u', '/u') if not c['stdin'] else '1',
             True),
        'op fini'))
    e = U.abnormal(r)
    if e:
        return [e]
    lines = U.logs(r)
    # complete characters before the fault, partial ones stay in the port
    pre = raw[:off].decode('utf-8', 'ignore').encode()
    rest = raw[len(pre):]
    fired = [l for l in r.lines if l.startswith('! ')]
    err = 'L (|d| (|caught| |error|))'
    if c['mode'] == 'read':
        want = []
        inside = False
        last = 0
        for shown, end, closed in c['known']:
            if end < off or end == off and closed:
                want.append('L (|d| %s)' % shown)
                last = end
            elif end == off:
                # a token whose delimiter has not arrived
                inside = True
                break
            else:
                inside = last < off
                break
    else:
        want = ['L (|d| #\\x%x)' % ord(x) for x in pre.decode()]
        inside = False
    if inside:
        ctx.count('probe:inside-datum')
    if not fired:
        # the reader stopped before (a lasting error does not strike then)
        if c['at'] <= 1:
            return ['harness: fault did not fire']
    nerr = c['times'] or 3
    want += [err] * nerr
    if c['times']:
        # the rest, read as a file of its own, is what follows
        b = ctx.sim(c['variant'], U.scen(
            *base, 'file /t ' + rest.hex(),
            U.ev(prog(dict(c, how='open', stdin=False, lim=2), 'd', '/t'),
                 True),
            'op fini'))
        e = U.abnormal(b)
        if e:
            return [e]
        more = U.logs(b)
    else:
        more = []
    got = [l for l in lines if l.startswith('L (|d| ')]
    if c['times']:
        # errors of the rest count against the same limit
        n = 0
        full = []
        for l in want + more:
            full.append(l)
            if l == err:
                n += 1
                if n > c['lim']:
                    break
        want = full
        m = min(len(want), len(got))
        d = U.first_diff(want[:m], got[:m])
        if not d and len(got) != len(want) and \
                sum(x == err for x in got) <= c['lim']:
            d = (0, 'length %d' % len(want), 'length %d' % len(got))
    else:
        d = U.first_diff(want + [err] * 1, got)
    if d:
        return ['after a read error at offset %d (%s): expected %s, got %s' % (
            off, c['mode'], d[1][:200], d[2][:200])]
    q = [l for l in lines if l.startswith('L (|q| ')]
    d = U.first_diff(['L (|q| %s)' % ('(|item| %d)' % j if j < 700 else '#<eof>') for j in range(len(q))], q)
    if d:
        return ['other port: expected %s, got %s' % d[1:]]
    if not c['stdin']:
        u = [l for l in lines if l.startswith('L (|u| ')]
        w = {'read': ['1', '"x"/1', '(2)']}.get(
            c['mode'], ['#\\x%x' % ord(x) for x in '1 "x" (2)'])
        d = U.first_diff(['L (|u| %s)' % x for x in w + ['#<eof>']], u)
        if d:
            return ['later port: expected %s, got %s' % d[1:]]
    f = [l for l in r.lines if l.startswith('FINI')][0]
    if not f.endswith('open=0'):
        return ['open: streams left open at the end: ' + f]
    return []


def simpler(c):
    if c['gc'] != 'gc none':
        yield dict(c, gc='gc none')
    for k, v in (('q', False), ('stdin', False), ('how', 'open')):
        if c[k] != v:
            yield dict(c, **{k: v})
    if c['times'] > 1:
        yield dict(c, times=1)


SHRINK = []
