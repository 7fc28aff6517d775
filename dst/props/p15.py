"""P15 cycles of initialization and finalization."""
from .. import util as U
from .. import calls, chaos
from .. import loadm as M
from ..util import G, ref
from .p24 import EPI

PROP = 'P15'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt']
COUNT = {'quick': 2500, 'thorough': 60000}
CAP = {'quick': 300, 'thorough': 3000}
TECH = 'restarts with errors, open files and injected faults before them'
RULE = ('a case is one to three cycles of initialize, random work (ill typed '
        'calls, loads and I/O with faults, changed encodings and ports, '
        'modules, abandoned files, protected variables, script runs of the '
        'sscm main program) and finalize, with a heap layout and options of '
        'their own, followed by a cycle that runs a program of the model '
        'generator and probes; that cycle must log what it logs in a process '
        'of its own, every finalization must leave no block and no stream, '
        'and unflushed output must be in its file; it counts once per '
        'distinct event log')
ASSUME = ['files are durable: they are what the previous cycles left']
PROBES = ['probe:chaos', 'probe:calls', 'probe:load', 'probe:state',
          'probe:main', 'probe:pending', 'fault:read', 'fault:open']
PROBE = r"""
(sim-log (list (%%current-char-codec) (map (lambda (n) (provided?
 (string-append "srfi-" (number->string n)))) '(0 1 2 6 8 9 23 28 34 38 43 48
 55 60 69 95)) (load-path) (%%system-load-path)))
(sim-log (map symbol-bound? '(zz1 zz2 fold vector-index hash-table-ref sort
 receive and-let* format case-lambda make-record)))
(sim-log (list (string-length "\xe3\x81\x82\xe3\x81\x84") (string->list "\x41;\xe3\x81\x82")))
(sim-log (guard (e (#t (list 'err (%%error-object? e)))) (vector-ref (vector 1) 9)))
(sim-log (procedure? car))
(sim-log (list (input-port? (current-input-port)) (output-port?
 (current-output-port)) (read-char)))
"""
STATE = ['(%%set-current-char-codec! "EUC-JP")',
         '(%%set-current-char-codec! "ISO-8859-1")',
         '(require-extension (srfi 1))', '(require-extension (srfi 69 95))',
         '(require-extension (srfi 43))', '(use srfi-60)', '(use srfi-2)',
         '(use srfi-48)', '(require-extension (srfi 9))', '(use siod)',
         '(use srfi-38)',
         '(define zz1 (open-input-file "/in"))', '(define zz2 car)',
         '(set! car cdr)', '(define (list . x) 1)', '(define error #f)',
         '(%%set-current-output-port! (open-output-file "/x"))',
         '(%%set-current-input-port! (open-input-file "/in"))',
         '(%%set-current-error-port! (open-output-file "/x"))',
         '(close-output-port (current-output-port))',
         '(close-input-port (current-input-port))', '(read-char)', '(read)',
         '(peek-char)', '(define zz1 (delay (car 1)))', '(call/cc (lambda (k) '
         '(set! zz2 k)))', '(define zz2 #f)', '(provide "foo")',
         '(define zz1 (make-string 5000 #\\a))', '(define zz1 (make-vector '
         '3000 (list 1 2)))', '(define zz1 (open-input-string "a b"))',
         '(define zz1 (open-output-string))', '(verbose 0)', '(display "x")',
         '(define-macro (zz1 x) (list (quote quote) x))',
         '(string->symbol (make-string 300 #\\s))',
         '(guard (e (#t (%%inspect-error e))) (error "x" 1 2))',
         '(with-exception-handler (lambda (e) (car e)) (lambda () (raise 1)))',
         '(dynamic-wind (lambda () 1) (lambda () (raise 2)) (lambda () 3))']


# library paths; None: the cycle sets none
LIBS = ['/lib', '/lib', None, '/zz:/lib', '/a/very/long/path/' + 'x' * 90,
        '/lib:/y']


def cycle(rng):
    k = rng.choice(['chaos', 'calls', 'load', 'state', 'state', 'main',
                    'empty', 'gen'])
    c = {'kind': k, 'conf': rng.choice([[], [4096, 1024, 256, 1, 64],
                                        [512, 128, 1024, 2, 64],
                                        [256, 64, 2048, 1, 8],
                                        [1024, 256, 512, 1, 1]]),
         'argv': rng.choice([[], [], ['-C', 'EUC-JP'], ['-C', 'UTF-8'],
                             ['-C', 'Shift_JIS'],
                             ['--system-load-path', '/sys']])}
    if k == 'chaos':
        x = chaos.Chaos(rng)
        c['forms'] = [x.form() for _ in range(rng.choice((1, 3, 6)))]
    elif k == 'calls':
        c['forms'] = calls.Calls(rng).forms(rng.choice((3, 6)), 3)
    elif k == 'load':
        c['files'] = M.gen_files(rng, rng.random() < .4)[1]
        c['tops'] = [[rng.choice(['load', 'require', '%%load', '%%require']),
                      rng.choice(sorted(c['files']))] for _ in range(2)]
    elif k == 'state':
        c['forms'] = [rng.choice(STATE) for _ in range(rng.choice((1, 3, 6)))]
    elif k == 'main':
        c['script'] = rng.random() < .6
    elif k == 'gen':
        g = G.Gen(rng, size=rng.choice((20, 40)))
        c['prog'] = g.program(1, rng.choice((3, 4)))
    c['lib'] = '/lib' if k == 'load' else rng.choice(LIBS)
    if k != 'main':
        if rng.random() < .2:
            c['setlib'] = rng.choice([x for x in LIBS if x])
        c['pending'] = rng.random() < .4
        c['slots'] = [[j, rng.random() < .5] for j in range(4)
                      if rng.random() < .3]
    return c


def gen(rng, i):
    g = G.Gen(rng, size=rng.choice((20, 40, 80)))
    return {'cycles': [cycle(rng) for _ in range(rng.choice((1, 1, 2, 3)))],
            'last': {'prog': g.program(rng.choice((1, 2)),
                                       rng.choice((3, 4, 5))),
                     'conf': [4096, 1024, 256, 1, 64],
                     'argv': rng.choice([[], [], ['-C', 'EUC-JP']]),
                     'lib': rng.choice(LIBS)},
            'variant': rng.choice(VARIANTS),
            'gc': U.gc_schedule(rng, .6) + '\ngclimit 300'}


def init(c, libpath=True):
    return ['op conf ' + ' '.join(map(str, c['conf'])),
            'op argv ' + ' '.join(x.encode().hex()
                                  for x in ['sscm'] + c['argv']),
            'op libpath' + (' ' + c['lib'].encode().hex() if c['lib']
                            else ''), 'op init']


def src(prog):
    return ' '.join(ref.src(x) for x in G.PRELUDE + prog + G.EPILOGUE)


def ops_of(c, j, ctx):
    """(directives, ops, [(path, content)])"""
    k = c['kind']
    ctx.count('probe:' + k)
    dirs = []
    if k == 'main':
        p = '/main%d' % j
        dirs.append('file %s %s' % (p, b'(define (f x) (* x x))\n(display '
                                    b'(f 5))\n"end"\n'.hex()))
        return dirs, ['op argv', 'op main ' + ' '.join(
            x.encode().hex() for x in c['argv'] + ([p] if c['script'] else
                                                   []))], []
    ops = init(c)
    files = []
    for s, heap in c['slots']:
        if heap:
            ops.append('op hprotect %d' % s)
        else:
            ops.append('op protecti %d %s' % (s, b'(list 1 2)'.hex()))
    if k == 'chaos':
        ops += [U.ev(chaos.SETUP, True)] + [U.ev(f, True) for f in c['forms']]
    elif k == 'calls':
        ops += [U.ev(calls.SETUP, True)] + [U.ev(f, True) for f in c['forms']]
    elif k == 'load':
        d = M.directives(c['files'])
        dirs += d
        ops.append(U.ev(M.SETUP, True))
        for f, n in c['tops']:
            ops.append(U.ev('(top (lambda () (%s "%s")))' % (f, n), True))
    elif k == 'state':
        for f in c['forms']:
            ops.append(U.ev('(guard (e (#t #f)) (eval (quote %s) '
                            '(interaction-environment)))' % f, True))
    elif k == 'gen':
        ops += [U.ev(G.SETUP, True), U.ev(src(c['prog']), True)]
    if c.get('setlib'):
        ops.append('op setlibpath ' + c['setlib'].encode().hex())
    if c['pending'] and k != 'state':
        ctx.count('probe:pending')
        p = '/p%d' % j
        ops.append(U.ev('(define zz3 (open-output-file "%s"))' % p, True))
        ops.append(U.ev("(display '(pending %d) zz3) (write-char #\\x zz3)" %
                        j, True))
        files.append((p, b'(pending %dx' % j if 0 else b'(pending %d)x' % j))
    ops.append('op fini')
    # dirs whose paths the cycles share would mix: tell them apart
    return dirs, ops, files


def run(c, ctx):
    dirs, ops, files = list(chaos.FILES), [], []
    seen = set()
    for j, cy in enumerate(c['cycles']):
        d, o, f = ops_of(cy, j, ctx)
        for x in d:
            # the first cycle that has a file of this name defines it
            if (j, x.split(' ')[1]) in seen or not any(
                    s[1] == x.split(' ')[1] for s in seen):
                seen.add((j, x.split(' ')[1]))
                dirs.append(x)
        ops += o
        files += f
    last = c['last']
    tail = init(last) + ['op say 7', U.ev(PROBE, True), U.ev(G.SETUP, True),
                         U.ev(src(last['prog']), True), 'op say 8', 'op fini']
    head = [U.HEAP, 'cpu 10', 'maxallocs 3000000', 'quietio',
            'file /in ' + b'(1 2) x'.hex(), 'file <stdin> ']
    r = ctx.sim(c['variant'], U.scen(*head, *dirs, c['gc'], 'op gcgo', *ops,
                                     *tail))
    if r.crashed and r.status & 0x7f == 24 or (
            r.end or '').startswith('LIMIT') or r.crashed and \
            'stack-overflow' in (r.crash_kind() or ''):
        ctx.nontrivial = False
        return []
    if r.end == 'EXIT 1' and 'SAY 7' not in r.lines:
        # an error of a cycle that nobody caught, or memory exhaustion
        ctx.nontrivial = False
        ctx.count('cycle-fatal')
        return []
    b = ctx.sim(c['variant'], U.scen(*head, *tail))
    if r.end != b.end:
        return [U.abnormal(r) or U.abnormal(b) or 'end: %s, alone %s' % (
            r.end, b.end)]
    for l in r.lines:
        if l.startswith('FINI ') and l != 'FINI blocks=0 bytes=0 open=0':
            return ['rest: finalization leaves ' + l]

    def part(x):
        i = x.lines.index('SAY 7')
        return [l for l in x.lines[i:] if l.startswith(('L ', 'SAY', 'FATAL'))]
    d = U.first_diff(part(r), part(b))
    if d:
        return ['cycle: after other cycles event %d is %s, alone %s' % d]
    for p, w in files:
        if r.files.get(p) != w:
            return ['unflushed: %s holds %r, expected %r' % (
                p, r.files.get(p), w)]
    return []


def simpler(c):
    if c['gc'] != 'gc none':
        yield dict(c, gc='gc none')
    for j in range(len(c['cycles'])):
        yield dict(c, cycles=c['cycles'][:j] + c['cycles'][j + 1:])
        cy = c['cycles'][j]
        for k, v in (('conf', []), ('argv', []), ('slots', []),
                     ('pending', False), ('setlib', None)):
            if k in cy and cy[k] != v:
                cs = list(c['cycles'])
                cs[j] = dict(cy, **{k: v})
                yield dict(c, cycles=cs)
        if 'files' in cy:
            for f in M.simpler_files(cy['files']):
                if all(t[1] in f for t in cy['tops']):
                    cs = list(c['cycles'])
                    cs[j] = dict(cy, files=f)
                    yield dict(c, cycles=cs)
        for key in ('forms', 'tops'):
            for i in range(len(cy.get(key, ()))):
                cs = list(c['cycles'])
                cs[j] = dict(cy, **{key: cy[key][:i] + cy[key][i + 1:]})
                yield dict(c, cycles=cs)
    for p in U.shrink_ast(c['last']['prog']):
        yield dict(c, last=dict(c['last'], prog=p))


SHRINK = []
