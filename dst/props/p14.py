"""P14 memory exhaustion."""
from .. import util as U
from .. import calls, chaos, iotext
from .. import loadm as M
from ..util import G, ref

PROP = 'P14'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt', 'fatty']
COUNT = {'quick': 3000, 'thorough': 100000}
CAP = {'quick': 300, 'thorough': 3000}
TECH = 'failing allocations at any call, and exhausted heaps'
RULE = ('a case is a program (control flow, builtin calls, ill typed calls, '
        'reading, writing, loading, startup, the sscm main program) and the '
        'number of the native allocation that fails in it, once or for good, '
        'or a limit of the number of heaps; the run must do what the run '
        'without the fault does up to that point and then either go on '
        'likewise or report the exhaustion, call back and exit with failure; '
        'it counts once per distinct event log')
ASSUME = ['memory the C library allocates for itself does not fail']
PROBES = ['probe:exhausted', 'probe:init', 'probe:heap', 'probe:main',
          'probe:load', 'probe:gen', 'probe:chaos', 'probe:calls', 'probe:io',
          'fault:malloc']
MAINS = ["(display (map (lambda (x) (* x x)) '(1 2 3)))\n(car 1)\n\"s\" #\\a\n",
         "(define (f n) (if (= n 0) '() (cons n (f (- n 1)))))\n(f 40)\n"
         "(string-append \"abc\" (number->string 12))\n)\n",
         "'(1 #(2 \"x\") . y)\n(call/cc (lambda (k) (+ 1 (k 3))))\n"]


def gen(rng, i):
    k = rng.choice(['gen', 'gen', 'calls', 'calls', 'chaos', 'chaos', 'io',
                    'io', 'load', 'init', 'main'])
    c = {'kind': k, 'at': rng.random() ** rng.choice((1, 1, 2)),
         'variant': rng.choice(VARIANTS),
         'gc': U.gc_schedule(rng, .6) + '\ngclimit 300',
         'mode': rng.choice(['mfail', 'mfail', 'mfailfrom'])}
    if rng.random() < .15:
        c['mode'] = 'heap'
        c['heaps'] = rng.choice((256, 256, 512, 1024))
        c['max'] = rng.randrange(1, rng.choice((2, 8, 24, 80)))
    if k == 'gen':
        g = G.Gen(rng, size=rng.choice((20, 40, 80)))
        c['prog'] = g.program(rng.choice((1, 2)), rng.choice((3, 4, 5)))
        c['sf'] = sorted({rng.randrange(1, 9)
                          for _ in range(rng.choice((0, 1)))})
    elif k == 'calls':
        c['forms'] = calls.Calls(rng).forms(rng.choice((3, 6, 10)), 3)
    elif k == 'chaos':
        x = chaos.Chaos(rng)
        c['forms'] = [x.form() for _ in range(rng.choice((1, 3, 6)))]
    elif k == 'io':
        c['text'] = iotext.Gen(rng).text(rng.choice((1, 3, 6)))[0]
        if rng.random() < .3:
            c['text'] += iotext.junk(rng, 3).decode('latin-1')
        c['codec'] = rng.choice(['UTF-8', 'UTF-8', 'EUC-JP', 'Shift_JIS'])
    elif k == 'load':
        c['files'] = M.gen_files(rng, rng.random() < .4)[1]
        c['top'] = rng.choice(sorted(c['files']))
    elif k == 'main':
        c['text'] = rng.choice(MAINS)
        c['script'] = rng.random() < .4
        c['opt'] = rng.choice([[], [], ['-C', 'UTF-8'], ['-C', 'EUC-JP']])
    elif k == 'init':
        c['opt'] = rng.choice([[], [], ['-C', 'EUC-JP']])
    return c


IO = r"""
(define (cp i o) (let lp ((n 0)) (let ((x (guard (e (#t (list 'bad)))
  (read i)))) (if (or (eof-object? x) (> n 40)) n (begin (write x o) (newline o)
  (display x o) (write x) (lp (+ n 1)))))))
(define (cc i o) (let lp ((n 0)) (let ((x (guard (e (#t 'bad)) (read-char i))))
  (if (or (not (char? x)) (> n 4000)) n (begin (write-char x o)
   (lp (+ n 1)))))))
"""


def steps(c):
    """(directives before the snapshot, ops after it)"""
    k = c['kind']
    if k == 'gen':
        src = ' '.join(ref.src(x) for x in G.PRELUDE + c['prog'] + G.EPILOGUE)
        return [U.ev(G.SETUP, True)], [U.step_dir(c['sf'])], [U.ev(src, True)]
    if k == 'calls':
        return [U.ev(calls.SETUP, True)], [], [U.ev(f, True)
                                               for f in c['forms']]
    if k == 'chaos':
        return chaos.FILES, [], [
            U.ev(f, True) for f in c['forms']]
    if k == 'io':
        t = c['text'].encode('utf-8', 'replace')
        return [U.ev(calls.SETUP + IO, True)], ['file /t ' + t.hex()], [
            U.ev(x, True) for x in (
                '(define (go) (let* ((i (open-input-file "/t")) (o '
                '(open-output-file "/o")) (n (cp i o))) (close-output-port o)'
                ' (close-input-port i) (sim-log n)))',
                '(with-char-codec "%s" go)' % c['codec'],
                '(sim-log (cc (open-input-file "/t") (open-output-file '
                '"/o2")))',
                '(sim-log (cp (open-input-file "/o") (current-output-port)))',
                '(sim-log (let ((o (open-output-string))) (cp (open-input-file'
                ' "/t") o) (get-output-string o)))')]
    if k == 'load':
        return [U.ev(M.SETUP, True)], M.directives(c['files']), [
            U.ev('(top (lambda () (load "%s")))' % c['top'], True),
            U.ev('(top (lambda () (require "%s")))' % c['top'], True)]


def scenario(c, fault):
    k = c['kind']
    heap = 'heap %d %d %d 1 64' % (c['heaps'], c['heaps'] // 4, fault) \
        if c['mode'] == 'heap' and fault else \
        'heap %d %d 4096 1 64' % (c['heaps'], c['heaps'] // 4) \
        if c['mode'] == 'heap' else U.HEAP
    mf = '%s %d' % (c['mode'], fault) if fault and c['mode'] != 'heap' else ''
    base = [heap, 'cpu 6', 'maxallocs 1500000', 'quietio']
    if k == 'init':
        return U.scen(*base, mf, c['gc'] if c['mode'] != 'heap' else '',
                      'argv ' + ' '.join(x.encode().hex() for x in
                                         ['sscm'] + c['opt']),
                      'op marm 1', 'op init', U.ev('(sim-log 1)', True),
                      'op fini')
    if k == 'main':
        a = c['opt'] + (['/s.scm'] if c['script'] else [])
        return U.scen(*base, mf, 'file %s %s' % (
            '/s.scm' if c['script'] else '<stdin>', c['text'].encode().hex()),
            'op marm 1', 'op main ' + ' '.join(x.encode().hex() for x in a))
    pre, dirs, ops = steps(c)
    init = ['op init']
    if k == 'chaos':
        init = ['op init', U.ev(chaos.SETUP, True)]
    ev = [x for x in pre if x.startswith('op ')]
    d = [x for x in pre if not x.startswith('op ')]
    if c['mode'] == 'heap':
        # heaps are limited from the start
        return U.scen(*base, *d, *init, *ev, 'op say 0', *dirs,
                      c['gc'], 'op gcgo', *ops, 'op say 9', 'op fini')
    return U.scen(*base, *d, *init, *ev, 'op snapshot', *dirs, mf, c['gc'],
                  'op gcgo', 'op mreset', *ops, 'op say 9', 'op fini')


def odd(r):
    if r.crashed and r.status & 0x7f == 24 or (r.end or '').startswith('LIMIT'):
        return 'budget'
    if r.crashed and 'stack-overflow' in (r.crash_kind() or ''):
        return 'stack'
    return None


def run(c, ctx):
    ctx.count('probe:' + c['kind'])
    b = ctx.sim(c['variant'], scenario(c, 0))
    if odd(b) or b.end not in ('DONE 0', 'EXIT 1', 'EXIT 0'):
        ctx.count('baseline-' + (odd(b) or 'abnormal'))
        ctx.nontrivial = False
        a = U.abnormal(b)
        return [a] if a and not odd(b) else []
    if b.end == 'EXIT 1' and (b'exhausted' not in b.files['<stderr>']):
        ctx.nontrivial = False
        return []
    if c['mode'] == 'heap':
        n = c['max']
        ctx.count('probe:heap')
    else:
        n = 1 + int(c['at'] * b.stat.get('mcalls', 0))
    r = ctx.sim(c['variant'], scenario(c, n))
    ctx.key(c['kind'], [l for l in r.lines if l.startswith('! ')][:1],
            len(r.lines))
    if odd(r):
        return ['hang: with the fault at allocation %d the run exceeds the '
                'budgets (%s)' % (n, odd(r))]
    if r.crashed:
        return ['crash: failing allocation %d: %s' % (n, r.crash_kind())]
    bl, rl = U.logs(b), U.logs(r)
    bo, ro = b.files.get('<stdout>', b''), r.files.get('<stdout>', b'')
    se = r.files.get('<stderr>', b'')
    fired = any(l.startswith('! malloc') for l in r.lines)
    if r.end == b.end and bl == rl and bo == ro and (
            not fired or b'exhausted' not in se):
        if fired:
            ctx.count('probe:survived')
        return []
    if r.end == 'EXIT 1' and b'exhausted' in se:
        ctx.count('probe:exhausted')
        if rl != bl[:len(rl)]:
            d = U.first_diff(rl, bl)
            return ['log: before reporting exhaustion event %d is %s, '
                    'without the fault %s' % d]
        if not bo.startswith(ro):
            return ['output: %r is no beginning of %r' % (ro[:200], bo[:200])]
        early = c['kind'] in ('init', 'main') or 'SAY 0' not in r.lines and \
            c['mode'] == 'heap'
        if 'FATALCB' not in r.lines and not early:
            return ['callback: the fatal error callback was not called']
        return []
    if not fired and c['mode'] != 'heap':
        return ['nofault: the run differs though no allocation failed']
    # signalled as an error: the program may go its own way from there
    d = U.first_diff(rl, bl)
    if r.end == b.end and d and 'caught' in d[1]:
        ctx.count('probe:signalled')
        return []
    if r.end not in (b.end,):
        return ['end: failing allocation %d: %s %s' % (n, r.end, se[:200])]
    return ['wrong: allocation %d failed unnoticed: %s' % (
        n, d or (ro[-100:], bo[-100:]))]


def simpler(c):
    if c['gc'] != 'gc none':
        yield dict(c, gc='gc none')
    if c['mode'] == 'mfailfrom':
        yield dict(c, mode='mfail')
    if 'prog' in c:
        for p in U.shrink_ast(c['prog']):
            yield dict(c, prog=p)
    if 'files' in c:
        for f in M.simpler_files(c['files']):
            if c['top'] in f:
                yield dict(c, files=f)


SHRINK = ['forms', 'sf']
SHRINK_INTS = False
