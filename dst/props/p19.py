"""P19 the storage representations behave identically."""
import re

from .. import util as U
from .. import calls, chaos, iotext
from .. import loadm as M
from ..util import G
from . import p14, p16

PROP = 'P19'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty', 'fatty-opt']
COUNT = {'quick': 2500, 'thorough': 100000}
CAP = {'quick': 300, 'thorough': 3000}
TECH = 'the same program on both representations under two GC schedules'
RULE = ('a case is a program (control flow, builtin and library calls well '
        'and ill typed, reading, writing, loading, the sscm main program, '
        'data of unusual characters, strings and numbers) that is run with '
        'the compact and with the fatty representation, each with a GC '
        'schedule and heap layout of its own; logged values, outputs, error '
        'messages and the way it ends are compared; it counts once per '
        'distinct event log')
ASSUME = ['the range of fixnums, the printed addresses of objects and the '
          'number of heap cells differ',
          'a program that fills the budgets in one of the runs is not judged']
PROBES = ['probe:gen', 'probe:calls', 'probe:chaos', 'probe:io', 'probe:load',
          'probe:main', 'probe:data', 'probe:error']
NUMS = [0, 1, -1, 2, 3, 7, 255, 256, -256, 65535, 65536, 2 ** 27 - 1, 2 ** 27,
        -2 ** 27, 2 ** 28, 2 ** 29, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32,
        2 ** 40, 2 ** 50, 2 ** 58, -2 ** 58]
NOPS = ['(+ %s %s)', '(- %s %s)', '(quotient %s %s)', '(remainder %s %s)',
        '(modulo %s %s)', '(< %s %s)', '(= %s %s)', '(eqv? %s %s)',
        '(max %s %s)', '(min %s %s)', '(logand %s %s)', '(logior %s %s)',
        '(logxor %s %s)', '(equal? (list %s) (list %s))', '(gcd %s %s)',
        '(memv %s (list 1 %s 2))', '(list (number->string %s 16) %s)',
        '(list (abs %s) (- %s))', '(list (even? %s) (zero? %s))',
        '(assv %s (list (list %s 1)))', '(vector-fill! (make-vector 2 %s) %s)',
        '(equal? %s %s)', '(equal? (vector %s) (vector %s))',
        '(member %s (list 1 %s 2))', '(assoc %s (list (list %s 1)))',
        '(list (<= %s %s))', '(>= %s %s)', '(> %s %s)', '(eq? (= %s %s) #t)',
        '(case %s ((1 %s 2) 1) (else 2))', '(list (- %s) (abs %s))',
        '(list (number->string %s) (string->number "%s"))',
        '(list (odd? %s) (positive? %s))', '(lognot (logand %s %s))',
        '(let ((h (make-hash-table equal?))) (hash-table-set! h %s 1) '
        '(hash-table-ref/default h %s 0))', '(delete %s (list 1 %s 2))',
        '(list-index (lambda (x) (= x %s)) (list 1 %s))',
        '(list (negative? %s) (lcm 2 (remainder %s 1000)))']


def num(r):
    k = r.randrange(4)
    if k < 2:
        return r.choice(NUMS)
    return r.choice([1, -1]) * r.getrandbits(r.randrange(1, 59))


def nums(r):
    """two numbers, often related"""
    a = num(r)
    b = r.choice([lambda: num(r), lambda: a, lambda: -a, lambda: a + 1,
                  lambda: a ^ (1 << r.randrange(58)),
                  lambda: a + r.choice([1, -1]) * (1 << r.randrange(57)),
                  lambda: a + r.randrange(1, 8) * (
                      1 << r.choice([8, 16, 24, 28, 29, 30, 31, 32, 48]))])()
    return a, b if abs(b) < 2 ** 58 else a


def data_form(r):
    k = r.randrange(4)
    if k == 0:
        return '(sim-log (try (lambda () %s)))' % (r.choice(NOPS) % nums(r))
    if k == 1:
        t = p16.tree(r, 'UTF-8', 3)
        while 'fixnum' in repr(t):
            t = p16.tree(r, 'UTF-8', 3)
        b = p16.build(t)
        return '(let ((d %s)) (sim-log d) (write d) (newline) (display d))' % b
    if k == 2:
        c = p16.char(r, 'UTF-8')
        d = p16.char(r, 'UTF-8')
        return ('(let ((a (integer->char %d)) (b (integer->char %d))) (sim-log'
                ' (list a b (char->integer a) (char<? a b) (char-ci=? a b) '
                '(eqv? a b) (char-upcase a) (char-downcase b) (char-alphabetic'
                '? a) (char-numeric? b) (string a b) (eq? a a) (string<? '
                '(string a) (string b)) (memv b (list a b)))) (write a))' % (
                    c, d))
    # odd kinds of objects
    os = ["'()", '#t', '#f', '(if #f #f)', '(eof-object)', "''a", '#\\a', '""',
          '(string)', "'#()", '(vector)', 'car', 'if-', '(lambda (x) x)',
          '(delay 1)', '(values 1 2)', '(values)', '(current-output-port)',
          '(call/cc (lambda (k) k))', '(interaction-environment)', "'a", '0',
          '-1', '(list 1)', '(cons 1 2)', '(make-string 3 #\\b)', '(%%ht)']
    os = [o for o in os if o not in ('if-', '(eof-object)', '(%%ht)')]
    a, b = r.choice(os), r.choice(os)
    f = r.choice(['eq?', 'eqv?', 'equal?'])
    if a.startswith('(values') or b.startswith('(values'):
        return ('(sim-log (call-with-values (lambda () %s) list))' % (
            a if a.startswith('(values') else b))
    return ('(let ((a %s) (b %s)) (sim-log (list (%s a b) (%s a a) (boolean? '
            'a) (pair? a) (null? a) (symbol? a) (string? a) (procedure? a) '
            '(vector? a) (char? a) (number? a) (list? a) (port? a) (if a 1 2) '
            '(not b))) (for-each (lambda (p) (sim-log (try (lambda () (p a)))'
            ')) (list car cdr length vector-length string-length '
            'symbol->string char->integer abs)))' % (a, b, f, f))


def gen(rng, i):
    k = rng.choice(['gen', 'gen', 'calls', 'calls', 'chaos', 'chaos', 'chaos',
                    'io', 'load', 'main', 'data', 'data', 'data'])
    c = {'kind': k, 'a': rng.choice(VARIANTS[:2]),
         'b': rng.choice(VARIANTS[2:]), 'heap': rng.choice(U.HEAPS),
         'gc': U.gc_schedule(rng, .4) + '\ngclimit 300',
         'gc2': U.gc_schedule(rng, .4) + '\ngclimit 300',
         'heaps': 1024, 'mode': 'mfail'}
    if k == 'gen':
        g = G.Gen(rng, size=rng.choice((20, 40, 80)))
        c['prog'] = g.program(rng.choice((1, 2)), rng.choice((3, 4, 5)))
        c['sf'] = sorted({rng.randrange(1, 9)
                          for _ in range(rng.choice((0, 1)))})
    elif k == 'calls':
        c['forms'] = calls.Calls(rng).forms(rng.choice((3, 6, 10)), 3)
    elif k == 'chaos':
        x = chaos.Chaos(rng)
        c['forms'] = [x.form() for _ in range(rng.choice((1, 3, 6)))]
    elif k == 'data':
        c['forms'] = [data_form(rng) for _ in range(rng.choice((2, 5, 9)))]
    elif k == 'io':
        c['text'] = iotext.Gen(rng).text(rng.choice((1, 3, 6)))[0]
        if rng.random() < .3:
            c['text'] += iotext.junk(rng, 3).decode('latin-1')
        c['codec'] = rng.choice(['UTF-8', 'UTF-8', 'EUC-JP', 'Shift_JIS'])
    elif k == 'load':
        c['files'] = M.gen_files(rng, rng.random() < .4)[1]
        c['top'] = rng.choice(sorted(c['files']))
    elif k == 'main':
        c['text'] = rng.choice(p14.MAINS) if rng.random() < .3 else \
            iotext.Gen(rng).text(rng.choice((1, 3)))[0] + rng.choice(
                ['', ' (car 1)', ' (undefined 1)', ')'])
        c['script'] = rng.random() < .4
        c['opt'] = rng.choice([[], [], ['-C', 'UTF-8'], ['-C', 'EUC-JP']])
    if 'text' in c:
        c['text'] = LONG.sub(r'\1', c['text'])
    if 'forms' in c:
        c['forms'] = [f for f in c['forms'] if not BIG.search(f)] or ['1']
    return c


BIG = re.compile(r'fixnum|[0-9]{18}|[0-9a-f]{15}|\(expt |'
                 r'[^(]values[ )]')
# how much of an overlong number is read depends on the range of fixnums
LONG = re.compile(r'([^\s()";\']{6})[^\s()";\']{7,}')
SETUP = calls.SETUP + r"""
(require-extension (srfi 60))
"""


def scenario(c, gc):
    k = c['kind']
    base = [c['heap'], 'cpu 3', 'maxallocs 800000', 'quietio']
    if k == 'main':
        a = c['opt'] + (['/s.scm'] if c['script'] else [])
        return U.scen(*base, 'file %s %s' % (
            '/s.scm' if c['script'] else '<stdin>',
            c['text'].encode('utf-8', 'replace').hex()),
            'op main ' + ' '.join(x.encode().hex() for x in a))
    if k == 'data':
        return U.scen(*base, 'op init', U.ev(SETUP, True), 'op snapshot', gc,
                      'op gcgo', *[U.ev(f, True) for f in c['forms']],
                      'op fini')
    pre, dirs, ops = p14.steps(c)
    init = ['op init']
    if k == 'chaos':
        init = ['op init', U.ev(chaos.SETUP, True)]
    e = [x for x in pre if x.startswith('op ')]
    d = [x for x in pre if not x.startswith('op ')]
    return U.scen(*base, *d, *init, *e, 'op snapshot', *dirs, gc, 'op gcgo',
                  *ops, 'op fini')


ADDR = re.compile(r'0x[0-9a-f]{6,}')
ADDRB = re.compile(rb'0x[0-9a-f]{6,}')


def norm(r):
    return ([ADDR.sub('0x', l) for l in r.lines if l[:2] in ('L ', 'R ') or
             l.startswith(('FATALCB', 'MAIN', 'FINI'))],
            {n: ADDRB.sub(b'0x', b) for n, b in r.files.items()})


def run(c, ctx):
    ctx.count('probe:' + c['kind'])
    x = ctx.sim(c['a'], scenario(c, c['gc']))
    y = ctx.sim(c['b'], scenario(c, c['gc2']))
    if p14.odd(x) or p14.odd(y):
        ctx.nontrivial = False
        ctx.count('budget-exhausted')
        return []
    for r, v in ((x, c['a']), (y, c['b'])):
        if r.crashed:
            return ['crash: %s: %s' % (v, r.crash_kind())]
    (lx, fx), (ly, fy) = norm(x), norm(y)
    if any('caught' in l for l in lx):
        ctx.count('probe:error')
    d = U.first_diff(lx, ly)
    if d:
        return ['values: event %d is %s with %s, %s with %s' % (
            d[0], d[1][:300], c['a'], d[2][:300], c['b'])]
    for n in sorted(set(fx) | set(fy)):
        if fx.get(n) != fy.get(n):
            return ['bytes: %s has %s with %s, %s with %s' % (
                n, fx.get(n, b'')[-200:], c['a'], fy.get(n, b'')[-200:],
                c['b'])]
    if x.end != y.end:
        return ['end: %s with %s, %s with %s' % (x.end, c['a'], y.end,
                                                 c['b'])]
    return []


def simpler(c):
    if c['gc'] != 'gc none':
        yield dict(c, gc='gc none')
    if c['gc2'] != 'gc none':
        yield dict(c, gc2='gc none')
    if 'prog' in c:
        for p in U.shrink_ast(c['prog']):
            yield dict(c, prog=p)
    if 'files' in c:
        for f in M.simpler_files(c['files']):
            if c['top'] in f:
                yield dict(c, files=f)


SHRINK = ['forms', 'sf']
SHRINK_INTS = False
