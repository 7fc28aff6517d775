"""P09 output arrives in order and complete, or the failure is signalled."""
import re
from .. import util as U

PROP = 'P09'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt']
COUNT = {'quick': 6000, 'thorough': 200000}
CAP = {'quick': 300, 'thorough': 3000}
TECH = 'write errors, full disks, short writes and GC schedules'
RULE = ('a case is a sequence of output operations over two files, stdout, a '
        'redirected file and an output string, the way the devices split and '
        'buffer writes, and errors at chosen writes (EIO, EINTR, ENOSPC, '
        'EDQUOT, once or lasting), at closes, or a disk that gets full; it '
        'counts once per distinct event log')
ASSUME = ['stdio loses the bytes of a failed flush, so the bytes behind a '
          'first failure are only checked for order',
          'write, display and newline flush, as the implementation documents '
          'by doing so on every port']
PROBES = ['probe:faultless', 'probe:failed-op', 'probe:full-disk',
          'fault:write', 'probe:durable', 'probe:string-port']
PATHS = ['/a', '/b', '<stdout>', '/r', 'str']
SETUP = r"""
(require-extension (srfi 34) (srfi 6))
(define cnt 0)
(define (op t) (let ((x (guard (e (#t (if (%%error-object? e) 'caught
  (list 'other e)))) (t) 'ok)))
  (sim-log (list 'o cnt x (sim-fsize "/a") (sim-fsize "/b")
   (sim-fsize "<stdout>") (sim-fsize "/r")))
  (set! cnt (+ cnt 1))))
(define pa (open-output-file "/a"))
(define pb (open-output-file "/b"))
(define ps (open-output-string))
(define po (current-output-port))
"""


def word(r, i):
    n = r.choice((1, 2, 5, 9, 30, 30, 200, 1500)) if r.random() < .3 else 4
    return ''.join(r.choice('abcdefg hij') for _ in range(n))


def mkop(r, i):
    """[port, kind, argument source, text, flushes]"""
    m = '<%d:' % i
    k = r.randrange(8)
    w = m + word(r, i) + '>'
    if k == 0:
        return ['display', '"%s"' % w, w, 1]
    if k == 1:
        return ['write', '"%s"' % w, '"%s"' % w, 1]
    if k == 2:
        return ['display', "(list \"%s\" 'x #\\y 12)" % w, '(%s x y 12)' % w,
                1]
    if k == 3:
        return ['write', "'#(\"%s\" #\\a (a . #t))" % w,
                '#("%s" #\\a (a . #t))' % w, 1]
    if k == 4:
        return ['newline', '', '\n', 1]
    if k == 5:
        c = r.choice('uvw')
        return ['write-char', '#\\' + c, c, 0]
    if k == 6:
        return ['display', "(string->symbol \"%s\")" % w, w, 1]
    return ['display', str(-100 - i), str(-100 - i), 1]


def gen(rng, i):
    c = {'ops': [], 'dirs': []}
    ports = rng.sample([0, 1, 2, 4], rng.choice((1, 2, 3, 4)))
    n = rng.choice((2, 4, 8, 16, 30))
    redir = rng.random() < .3
    for j in range(n):
        p = rng.choice(ports)
        if redir and rng.random() < .4:
            p = 3
        if p < 2 and rng.random() < .05:
            c['ops'].append([p, 'close', '', '', 1])
            continue
        c['ops'].append([p] + mkop(rng, j))
    kind = rng.choice(['none', 'none', 'fault', 'fault', 'fault', 'cap', 'close',
                       'many'])
    for path in ('/a', '/b', '/r', '<stdout>'):
        if rng.random() < .5:
            c['dirs'].append('wchunks %s %s' % (path, ' '.join(
                str(rng.choice((1, 2, 3, 7, 50))) for _ in range(3))))
        if rng.random() < .5:
            c['dirs'].append('bufsize %s %d' % (path, rng.choice(
                (0, 1, 2, 8, 64, 300))))
    tgt = rng.sample(['/a', '/b', '/r', '<stdout>'],
                     1 if kind != 'many' else 3)
    for t in tgt:
        if kind in ('fault', 'many'):
            c['dirs'].append('fault %s write %d %d%s' % (
                t, rng.randrange(1, rng.choice((3, 10, 40))), rng.choice(
                    (5, 28, 4, 122, 27)), rng.choice(('', '', ' 1'))))
        elif kind == 'cap':
            c['dirs'].append('capacity %s %d' % (t, rng.choice(
                (0, 1, 5, 20, 50, 150, 1000))))
        elif kind == 'close':
            c['dirs'].append('fault %s close 1 5' % t)
    c['variant'] = rng.choice(VARIANTS)
    c['gc'] = U.gc_schedule(rng, .6) + '\ngclimit 300'
    return c


PV = ['pa', 'pb', 'po', '(current-output-port)', 'ps']


def form(o):
    p, kind, src, text, fl = o
    if kind == 'close':
        return '(close-output-port %s)' % PV[p]
    port = PV[p]
    if p == 3:
        port = ''
    return '(%s %s %s)' % (kind, src, port)


def run(c, ctx):
    f = []
    n = len(c['ops'])
    j = 0
    groups = []          # operations on the redirected port run in one call
    while j < n:
        if c['ops'][j][0] == 3 and not groups:
            k = j
            # redirect from the first such operation to the last
            last = max(i for i in range(n) if c['ops'][i][0] == 3)
            f.append('(guard (e ((%%%%error-object? e) (sim-log \'redir))) '
                     '(with-output-to-file "/r" (lambda () %s)))' % ' '.join(
                         '(op (lambda () %s))' % form(c['ops'][i])
                         for i in range(k, last + 1)))
            groups.append((k, last))
            j = last + 1
            continue
        f.append('(op (lambda () %s))' % form(c['ops'][j]))
        j += 1
    f.append("(op (lambda () (set! cnt 1000) (sim-log (list 's "
             '(get-output-string ps)))))')
    f.append('(guard (e (#t (sim-log e))) (call-with-output-file "/u" '
             '(lambda (p) (write \'(u "v") p))) (sim-log (list \'u (sim-fsize '
             '"/u"))))')
    r = ctx.sim(c['variant'], U.scen(
        U.HEAP, 'cpu 6', 'maxallocs 2000000', 'quietio', 'op init',
        *[d for d in c['dirs']],
        U.ev(SETUP, True), c['gc'], 'op gcgo', U.ev('\n'.join(f), True),
        'op fini', 'op stdflush'))
    e = U.abnormal(r)
    if e:
        return [e]
    if not any('fault' in d or 'capacity' in d for d in c['dirs']):
        ctx.count('probe:faultless')
    # ---- walk over the log
    exp = ['', '', '', '', '']        # text of operations so far, per port
    failed = [None] * 5               # size on disk at the first failure
    flushed = [0] * 5
    closed = [False] * 5
    faults = set()
    gcfault = set()
    want_err = False
    redir_done = False
    slices = []
    prev_sizes = [0, 0, 0, -1]
    k = 0
    for l in r.lines:
        if l.startswith('! '):
            w = l.split(' ')
            if w[2] in ('write', 'close'):
                faults.add(PATHS.index(w[1]))
            continue
        if l.startswith('L |redir|'):
            # the close at the end of with-output-to-file failed
            if 3 not in faults:
                return ['error: with-output-to-file failed without a fault']
            if failed[3] is None:
                failed[3] = len(exp[3].encode())
            faults.discard(3)
            redir_done = True
            continue
        m = re.match(r'L \(\|o\| (\d+) (\|ok\||\|caught\||.*?) (-?\d+) (-?\d+)'
                     r' (-?\d+) (-?\d+)\)$', l)
        if not m:
            continue
        i = int(m.group(1))
        if i >= 1000:
            break
        if i != k:
            return ['order: operation %d logged as %d' % (k, i)]
        k += 1
        p, kind, src, text, fl = c['ops'][i]
        sizes = [int(m.group(x)) for x in (3, 4, 5, 6)]
        res = m.group(2)
        if groups and i == groups[0][1] + 1 and 3 in faults:
            return ['swallowed: the close of the redirected file failed '
                    'unnoticed']
        ctx.key(kind, p, res, fl, p in faults)
        others = faults - {p}
        if others:
            return ['fault: operation %d on %s ran into a fault of %s' % (
                i, PATHS[p], [PATHS[x] for x in others])]
        if closed[p]:
            if kind != 'close' and res != '|caught|':
                return ['closed: %s on a closed port gave %s' % (kind, res)]
            if sizes[:3] != prev_sizes[:3]:
                return ['closed: a closed port was written']
            prev_sizes = sizes
            continue
        if p in faults:
            if res != '|caught|':
                return ['swallowed: %s of operation %d on %s ran into a fault '
                        'and gave %s' % (kind, i, PATHS[p], res)]
            ctx.count('probe:failed-op')
            if failed[p] is None:
                exp[p] += text
                failed[p] = sizes[p]
        else:
            if res != '|ok|':
                return ['error: operation %d on %s without a fault gave %s' % (
                    i, PATHS[p], res)]
            if failed[p] is None:
                exp[p] += text
            if p < 4 and fl:
                if failed[p] is None and sizes[p] != len(exp[p].encode()):
                    return ['durable: after %s of operation %d %s holds %d '
                            'bytes, expected %d' % (kind, i, PATHS[p],
                                                    sizes[p], len(exp[p]))]
                slices.append((p, sizes[p], text))
                ctx.count('probe:durable')
        if kind == 'close':
            closed[p] = True
        faults.clear()
        prev_sizes = sizes
    if k < len(c['ops']):
        if not (groups and any(l.startswith('L |redir|') for l in r.lines)):
            return ['lost: operation %d never completed' % k]
    if any('capacity' in d for d in c['dirs']) and any(failed):
        ctx.count('probe:full-disk')
    # ---- final contents
    for p in range(4):
        got = r.files.get(PATHS[p], b'').decode('latin-1')
        if failed[p] is None and p not in faults:
            late = [l for l in r.lines if l.startswith('! %s ' % PATHS[p])]
            if got != exp[p] and not late:
                return ['content: %s holds %r, expected %r' % (
                    PATHS[p], got[-200:], exp[p][-200:])]
        elif failed[p] is not None:
            if not exp[p].startswith(got[:failed[p]]):
                return ['prefix: %s holds %r, not a prefix of %r' % (
                    PATHS[p], got[:200], exp[p][:200])]
            ids = [int(x) for x in re.findall(r'<(\d+):', got)]
            if any(a >= b for a, b in zip(ids, ids[1:])):
                return ['order: %s holds operations %s' % (PATHS[p], ids)]
        for q, end, text in slices:
            if q == p and got[max(0, end - len(text)):end] != text:
                return ['content: %s lacks %r at %d' % (PATHS[p], text[:100],
                                                       end - len(text))]
    from ..iotext import prb
    ctx.count('probe:string-port')
    s = 'L (|s| "%s"/%d)' % (prb(exp[4].encode()), len(exp[4]))
    if s not in r.lines:
        return ['string port: expected %s' % s[:300]]
    if 'L (|u| 7)' not in r.lines or r.files.get('/u') != b'(u "v")':
        return ['later port: /u holds %r' % r.files.get('/u')]
    return []


def simpler(c):
    if c['gc'] != 'gc none':
        yield dict(c, gc='gc none')


SHRINK = ['ops', 'dirs']
SHRINK_INTS = False
