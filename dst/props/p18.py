"""P18 promises."""
from .. import util as U

PROP = 'P18'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt']
COUNT = {'quick': 7000, 'thorough': 250000}
CAP = {'quick': 300, 'thorough': 3000}
RULE = ('a case is a random program (promises that count their evaluations, force each other and themselves, fail, escape and are forced again) with injected errors at chosen steps, a GC schedule and a build, compared event by event with the reference model; it counts once per distinct event log')
ASSUME = ['the reference model dst/ref.py states R5RS, SRFI-34 and '
          'doc/spec.txt correctly', 'arguments and bindings are evaluated '
          'left to right, as the shipped evaluator does']
PROBES = ['probe:values', 'probe:reentrant-force', 'probe:escape']


def gen(rng, i):
    r = rng
    if i % 12 == 7:
        return gen_values(r)
    c = U.model_gen(r, ['promise', 'step', 'raise', 'guard', 'set'],
                    sizes=(20, 40))
    g = U.G.Gen(r, size=r.choice([10, 20, 40]), focus=['promise', 'throw'])
    n = r.randrange(1, 5)
    ps = ['q%d' % j for j in range(n)]
    g.gp = ps
    pre = [['define', 'pc', 0], ['define', 'kq', False]] + \
        [['define', p, False] for p in ps]
    for j, p in enumerate(ps):
        body = [['set!', 'pc', ['+', 'pc', 1]], ['sim-log', ['list', j, 'pc']]]
        for _ in range(r.randrange(3)):
            k = r.randrange(7)
            if k == 0:
                body.append(['sim-step', 1])
            elif k == 1:
                body.append(['if', ['<', 'pc', r.randrange(2, 6)],
                             ['raise', r.randrange(9)], 0])
            elif k == 2:
                body.append(['if', ['<', 'pc', r.randrange(2, 8)],
                             ['force', r.choice(ps)], 0])
            elif k == 3:
                body.append(['if', ['<', 'pc', r.randrange(2, 6)],
                             ['set!', r.choice(ps),
                              ['delay', ['begin', ['sim-log', 'pc'], 'pc']]],
                             0])
            elif k == 4:
                body.append(['if', ['<', 'pc', r.randrange(2, 6)],
                             ['kg0', 'pc'], 0])
            elif k == 5:
                body.append(['guard', ['e', ['else', ['sim-log', 'e']]],
                             ['if', ['<', 'pc', 8],
                              ['force', r.choice(ps)], 0]])
            else:
                body.append(g.stmt([], 3))
        # the first value delivered is the one that stays
        body.append(r.choice([
            'pc', ['list', 'pc', j], g.i([], 2), g.l([], 2),
            ['if', ['<', 'pc', r.randrange(2, 6)],
             r.choice([False, True, ['quote', []], 0, {'s': ''},
                       ['quote', 'a']]), 'pc'],
            ['if', ['<', 'pc', r.randrange(2, 7)], ['force', p], 'pc'],
            ['begin', ['if', ['<', 'pc', r.randrange(2, 5)], ['force', p], 0],
             'pc']]))
        pre.append(['set!', p, ['delay', ['begin'] + body]])
    post = []
    for _ in range(r.randrange(2, 8)):
        p = r.choice(ps)
        e = r.choice([
            ['force', p],
            ['call/cc', ['lambda', ['k'], ['set!', 'kg0', 'k'], ['force', p]]],
            ['list', ['force', p], ['force', r.choice(ps)]],
            ['equal?', ['force', p], ['force', p]],
            ['dynamic-wind', ['lambda', [], ['sim-log', 1]],
             ['lambda', [], ['force', p]], ['lambda', [], ['sim-log', 2]]],
            ['map', 'force', ['list'] + ps],
        ])
        post.append(['sim-log', g.try_([e], r.randrange(2))])
    c['prog'] = pre + (c['prog'] if r.random() < .3 else []) + post
    return c


USES = [    # (expression over a promise p of the values (1 .. n), result)
    ('(call-with-values (lambda () (force @)) list)', lambda v: v),
    ('(call-with-values (lambda () (force @)) (lambda r (if (pair? r) '
     "(set-car! r 'z)) 0))", None),
    ('(call-with-values (lambda () (force @)) (lambda r (if (pair? r) '
     "(set-cdr! r 'z)) (set! r 0) 0))", None),
    ('(receive r (force @) r)', lambda v: v),
    ('(receive r (force @) (if (pair? r) (set-car! (last-pair r) 9)) 0)', None),
    ('(receive r (let ((x 1)) (force @)) (if (pair? r) (append! r (list 1))) '
     '0)', None),
    ('(receive r (call/cc (lambda (k) (force @))) r)', lambda v: v),
    ('(receive r (dynamic-wind (lambda () 1) (lambda () (force @)) '
     '(lambda () (force @))) r)', lambda v: v),
    ('(receive r (guard (e (#t 1)) (force @)) r)', lambda v: v),
    ('(receive r (force (delay (force @))) r)', lambda v: v),
    ('(call-with-values (lambda () (force @)) (lambda r 0))', None),
]


def gen_values(r):
    return {'values': [r.randrange(100) for _ in range(r.randrange(5))],
            'made': r.choice(('(values @)', '(apply values l)',
                              '(call-with-values (lambda () (apply values l)) '
                              'values)')),
            'uses': [[r.randrange(2), r.randrange(len(USES))]
                     for _ in range(r.choice((2, 4, 8)))],
            'variant': r.choice(VARIANTS), 'gc': U.gc_schedule(r, .6)}


def run_values(c, ctx):
    v = c['values']
    if len(v) == 1:
        v = v * 2
    s = ' '.join(map(str, v))
    made = c['made'].replace('@', s)
    pre = '(require-extension (srfi 1) (srfi 8) (srfi 34)) (define l (list %s))'\
        '(define n 0) (define (f) (set! n (+ n 1)) %s)' % (s, made)
    pre += '(define p0 (delay (f))) (define p1 (delay (f)))'
    out, exp = [], []
    for p, u in c['uses']:
        t, f = USES[u]
        out.append('(sim-log %s)' % t.replace('@', 'p%d' % p))
        exp.append('(%s)' % ' '.join(map(str, f(v))) if f else '0')
    out.append('(sim-log (list n l))')
    exp.append('(%d (%s))' % (len({p for p, u in c['uses']}), s))
    ctx.count('probe:values')
    r = ctx.sim(c['variant'], U.scen(
        U.HEAP, 'op init', U.ev(pre, True), c['gc'], 'op gcgo',
        *[U.ev(x, True) for x in out], 'op fini'))
    a = U.abnormal(r)
    if a:
        return [a]
    got = [l[2:] for l in r.lines if l.startswith('L ')]
    ctx.key(c['variant'], c['made'], str(c['uses']), str(v), c['gc'])
    d = U.first_diff(got, exp)
    if d:
        return ['values: item %d of a promise of several values is %s, '
                'expected %s' % (d[0], d[1][:200], d[2][:200])]
    return []


def run(case, ctx):
    if 'values' in case:
        return run_values(case, ctx)
    return U.model_case(case, ctx)


def simpler(case):
    if 'values' not in case:
        yield from U.model_simpler(case)
        return
    if case['gc'] != 'gc none':
        yield dict(case, gc='gc none')
    if case['variant'] != 'compact':
        yield dict(case, variant='compact')
    n = len(case['uses'])
    for j in range(n):
        yield dict(case, uses=case['uses'][:j] + case['uses'][j + 1:])
    if len(case['values']) > 2:
        yield dict(case, values=case['values'][:-1])
