"""P02 bounded live data needs bounded memory."""
from .. import util as U
from .. import chaos, calls
from ..util import G, ref

PROP = 'P02'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt']
COUNT = {'quick': 1600, 'thorough': 40000}
CAP = {'quick': 300, 'thorough': 3000}
TECH = 'repetitions, injected errors and GC schedules'
RULE = ('a case is a random program that keeps nothing (typed and ill typed '
        'calls, malformed input, files left open, failing loads, escapes and '
        'errors injected at chosen steps) repeated 3, 13, 23 and 63 times; '
        'the cells that survive a full GC, the live malloc blocks and the '
        'open streams must not grow steadily; it counts once per distinct '
        'event log')
ASSUME = ['growth below one cell, block or stream per repetition is '
          'conservative retention, not a leak']
PROBES = ['probe:gen', 'probe:calls', 'probe:chaos', 'probe:io']
BAN = ('provide', 'require', 'use ', 'set1', 'define', 'string->symbol')
SETUP = chaos.SETUP + r"""
(define (rd p) (let lp ((x (read p)) (n 0)) (if (or (eof-object? x) (> n 50))
  n (lp (read p) (+ n 1)))))
(define (rc p) (let lp ((x (read-char p)) (n 0)) (if (or (eof-object? x)
  (> n 500)) n (lp (read-char p) (+ n 1)))))
"""
TOK = ['(', ')', '( ', ' . ', "'", '`', ',', ',@', '#(', '"', '"abc', '\\', '#\\',
       '#\\a', '#\\space', '#\\foo', 'abc', 'a' * 70, '12', '-', '+5', '#x1g', '#t',
       '#q', ';c\n', '\n', '#|', '|#', '"x\\n"', '"\\q"', '"' + 'z' * 300 + '"',
       '\xe3\x81\x82', '\xff', '\xe3', '[', '{', '#;', '1.5', '...', '#!eof', '|a|',
       '9' * 30, 'q' * 1100]


def text(r):
    return ''.join(r.choice(TOK) for _ in range(r.randrange(1, 12)))


def io_form(r):
    f = r.choice(['t0.txt', 't1.txt', 'none.txt', 'out.txt'])
    q = lambda s: '"' + s + '"'
    return '(show (try (lambda () %s)))' % r.choice([
        lambda: '(rd (open-input-file "%s"))' % f,
        lambda: '(rc (open-input-file "%s"))' % f,
        lambda: '(read (open-input-file "%s"))' % f,
        lambda: '(peek-char (open-input-file "%s"))' % f,
        lambda: '(call-with-input-file "%s" rd)' % f,
        lambda: '(call-with-input-file "%s" (lambda (p) (sim-step 1) (read p)'
                ' (close-input-port p) (read p)))' % f,
        lambda: '(with-input-from-file "%s" (lambda () (sim-step 1) (read)'
                ' (raise 1)))' % f,
        lambda: '(call/cc (lambda (k) (with-input-from-file "%s" (lambda () '
                '(k (read))))))' % f,
        lambda: '(load "%s")' % f,
        lambda: '(%%%%load "%s")' % f,
        lambda: '(let ((o (open-output-file "out.txt"))) (write %s o) '
                '(sim-step 2) (close-output-port o))' % calls.Calls(r).e('a', 2),
        lambda: '(with-output-to-file "out.txt" (lambda () (display %s) '
                '(sim-step 3) 1))' % calls.Calls(r).e('a', 2),
        lambda: '(call/cc (lambda (k) (call-with-output-file "out.txt" '
                '(lambda (p) (write (list 1 2) p) (k 2)))))',
        lambda: '(call/cc (lambda (k) (for-each (lambda (x) (if (> x 1) (k x)))'
                ' (list 1 2 3))))',
        lambda: '(call/cc (lambda (k) (dynamic-wind (lambda () (sim-step 1)) '
                '(lambda () (map (lambda (x) (k x)) (list 1 2))) (lambda () '
                '(sim-step 2)))))',
        lambda: '(with-exception-handler (lambda (e) (sim-step 4) 1) (lambda '
                '() (+ 1 (raise (list 1)))))',
        lambda: '(guard (e ((begin (sim-step 1) #f) 1)) (raise (make-string '
                '100 #\\x)))',
        lambda: '(guard (e ((string? e) 1)) (guard (e ((number? e) e)) '
                '(vector-map (lambda (i x) (raise x)) (vector 1 "s"))))',
        lambda: '(with-char-codec %s (lambda () (sim-step 1) (rd '
                '(open-input-file "%s"))))' % (r.choice(
                    ['"UTF-8"', '"EUC-JP"', '"none"', '"SHIFT_JIS"']), f),
        lambda: '(make-vector 3 1 2)',
        lambda: '(vector-fill! (make-vector 100 1) 2 3 4)',
        lambda: '(sort (vector 3 1 2) (lambda (a b) (sim-step 1) (< a b)))',
        lambda: '(hash-table-update! (ht (list (cons 1 2))) %s (lambda (x) '
                '(sim-step x) x) (lambda () (raise 2)))' % r.choice('12'),
        lambda: '(eval (read (open-input-file "%s")) (interaction-environment'
                '))' % f,
        lambda: '(string->symbol (make-string %s #\\s))' % r.choice(
            ['3', '200']),
        lambda: '(force (delay (begin (sim-step 1) (raise 3))))',
        lambda: '(sim-call (lambda (x) (call/cc (lambda (k) (k (raise x))))) '
                '(list 1 2))',
        lambda: '(write-with-shared-structure %s (open-output-file "out.txt"))'
                % calls.Calls(r).e('a', 2),
        lambda: '(let ((o (open-output-file "out.txt"))) (%s %s o) '
                '(sim-step 2) (display "tail" o))' % (r.choice((
                    'write', 'display', 'write/ss')), r.choice((
                        'o', '(current-input-port)', '(list car rd o)',
                        '(open-input-file "t0.txt")', '(vector o (delay 1) '
                        "(interaction-environment) (list 'quote 1))",
                        '(call/cc (lambda (k) k))', '(make-string 300 #\\x)',
                        "(try (lambda () (raise (list 1 2))))",
                        '(let ((x (list 1 2 3))) (set-cdr! (cdr x) x) (vector '
                        'x x))', '(open-input-string "abc")', "'(a (b) #(c))",
                        '(try (lambda () (car o)))'))),
        lambda: '(read-line (open-input-file "%s"))' % f,
        lambda: '(close-output-port (let ((o (open-output-file "out.txt"))) '
                '(display "0123456789" o) o))',
        lambda: '(require "%s")' % f,
        lambda: '(get-output-string (op %s))' % calls.Calls(r).e('a', 2),
        lambda: '(read (open-input-string (get-output-string (op "(" "\\"x"'
                '))))',
        lambda: '(format %s %s)' % (r.choice(
            ['"~a~q"', '"~10F"', '"~s ~"', '#f', '"~y"', '(open-output-string)']),
            calls.Calls(r).e('a', 2)),
        lambda: '(let-optionals* %s ((a 1) (b (raise 2)) . c) c)' % r.choice(
            ["'()", "'(1)", "'(1 2 3)", "'(1 . 2)"]),
    ])()


def gen(rng, i):
    k = rng.random()
    c = {'variant': rng.choice(U.VAR), 'files': [], 'dirs': []}
    if k < .2:
        c['kind'] = 'gen'
        prog = G.Gen(rng, size=rng.choice((20, 40)),
                     focus=rng.sample(list(G.FEATURES), 4)).program(
            rng.choice([1, 2]), rng.choice([3, 4, 5]))
        c['forms'] = [' '.join(ref.src(x) for x in
                               G.PRELUDE + prog + G.EPILOGUE)]
    elif k < .4:
        c['kind'] = 'calls'
        c['forms'] = calls.Calls(rng).forms(rng.randrange(1, 5),
                                            rng.choice([2, 3, 4]))
    elif k < .65:
        c['kind'] = 'chaos'
        ch = chaos.Chaos(rng)
        c['forms'] = [f for f in (ch.form() for _ in range(rng.randrange(
            1, 6))) if not any(b in f for b in BAN)]
    else:
        c['kind'] = 'io'
        c['forms'] = [io_form(rng) for _ in range(rng.randrange(1, 4))]
        for j in range(2):
            b = text(rng).encode('latin-1')
            if rng.random() < .2:
                from .. import loadm
                b = rng.choice(loadm.BADPRE).encode() + b
            c['files'].append(b.hex())
        for j in range(rng.choice((0, 0, 1, 2))):
            c['dirs'].append(rng.choice((
                lambda: 'capacity out.txt %d\nbufsize out.txt %d' % (
                    rng.randrange(30), rng.choice((0, 0, 1, 16))),
                lambda: 'bufsize %s %d' % (rng.choice(PATHS), rng.choice((
                    0, 1, 8, 16))),
                lambda: 'fault %s %s %d %d 1' % (rng.choice(PATHS), rng.choice((
                    'open', 'read', 'read', 'write', 'write', 'close')),
                    rng.choice((1, 1, 2, 4)), rng.choice((5, 28, 4, 13))),
            ))())
    c['mod'] = rng.choice([0, 0, 2, 3, 5, 7])
    c['off'] = rng.randrange(c['mod']) if c['mod'] else 0
    c['gc'] = U.gc_schedule(rng, .8) + '\ngclimit 200'
    return c


PATHS = ['t0.txt', '/lib/t0.txt', '/lib/t1.txt', 't1.txt', 'out.txt',
         'out.txt']
N = [3, 10, 10, 40]


def run(c, ctx):
    ctx.count('probe:' + c['kind'])
    files = []
    for j, h in enumerate(c['files']):
        for d in ('', '/lib/'):
            files.append('file %st%d.txt %s' % (d, j, h))
    setup = SETUP if c['kind'] != 'gen' else G.SETUP
    src = ' '.join(c['forms'])
    ops = []
    for j, n in enumerate(N):
        ops += ['op rep %d' % n, U.ev(src, True), 'op mark1 %d' % j]
    r = ctx.sim(c['variant'], U.scen(
        U.HEAP, 'cpu 10', 'maxallocs 4000000', 'quietio', *chaos.FILES,
        'op init', U.ev(setup, True), 'op snapshot', *files, *c['dirs'], c['gc'],
        'stepmod %d %d' % (c['mod'], c['off']), 'op gcgo', *ops))
    if r.crashed or r.end != 'DONE 0':
        # crashes, hangs and uncaught errors are other properties' business
        ctx.nontrivial = False
        ctx.count('ended-early')
        return []
    ms = []
    for l in r.lines:
        if l.startswith('M '):
            ms.append({k: int(v) for k, v in
                       (x.split('=') for x in l.split()[2:])})
    ctx.key(tuple(sorted(ms[-1].items())))
    for what in ('blocks', 'cells', 'open', 'native'):
        d = [ms[j + 1][what] - ms[j][what] for j in range(3)]
        per = 16 if what == 'native' else 1
        if all(x >= per * n for x, n in zip(d, N[1:])) and (
                d[2] >= 3 * d[1]):
            return ['leak: %s grow with every repetition: %s' % (
                what, [m[what] for m in ms])]
    return []


def simpler(c):
    if not c['gc'].startswith('gc none'):
        yield dict(c, gc='gc none')
    if c['mod']:
        yield dict(c, mod=0, off=0)


SHRINK = ['forms', 'files', 'dirs']
SHRINK_STRS = False
