"""P23 evaluation never alters the evaluated code."""
from .. import calls, ref
from .. import util as U

PROP = 'P23'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt']
COUNT = {'quick': 6000, 'thorough': 200000}
CAP = {'quick': 300, 'thorough': 3000}
RULE = ('a case is a set of procedure bodies and quoted forms (quasiquote '
        'templates, literals, every derived syntax, legacy macros), each '
        'evaluated several times with errors injected at chosen steps, and '
        'compared event by event with the reference model; the quoted forms '
        'are printed again afterwards; or it is a set of constants in '
        'procedure bodies, mutators applied to them and to the copies that '
        'builtins make of them, after each of which the constants are printed '
        'again; or it is a set of expressions that alter only what they have made '
        'themselves, evaluated repeatedly in turn, each next to a fresh copy '
        'of its text; it counts once per distinct event log')
ASSUME = ['the reference model dst/ref.py states R5RS and SRFI-34 correctly',
          'arguments and bindings are evaluated left to right, as the '
          'shipped evaluator does']
PROBES = ['probe:escape', 'injected-step-errors', 'probe:constants',
          'probe:mutation-refused', 'probe:mutated-copy', 'probe:twice']

# what alters its argument
MUT = {
    's': ['(string-set! x 0 #\\z)', '(string-fill! x #\\y)',
          '(string-set! x (- (string-length x) 1) #\\q)'],
    'v': ['(vector-set! x 0 99)', "(vector-fill! x 'f)", '(vector-fill! x 7 1)',
          '(vector-swap! x 0 (- (vector-length x) 1))', '(vector-reverse! x)',
          "(vector-copy! x 0 '#(77))", '(vector-map! (lambda (i y) 5) x)',
          '(sort! x (lambda (a b) #t))', '(vector-reverse! x 0 1)',
          "(vector-reverse-copy! x 0 '#(66))",
          '(vector-set! x (- (vector-length x) 1) (list x))'],
    'l': ['(set-car! x 99)', "(set-cdr! x '(tail))", '(reverse! x)',
          "(append! x (list 1))", '(map! (lambda (y) 5) x)',
          '(for-each (lambda (p) (set-car! x p)) (list 1 2))',
          '(let lp ((p x)) (if (pair? p) (begin (set-car! p 8) (lp (cdr p)))))',
          "(filter! (lambda (y) #f) x)", "(set-car! (last-pair x) 'z)"]}
# what makes a copy; a constant must not show in it
COPY = {
    's': ['(string-copy x)', '(string-append x)', '(string-append x "")',
          '(string-append "" x)', '(substring x 0 (string-length x))',
          '(list->string (string->list x))', '(apply string (string->list x))',
          '(let ((o (open-output-string))) (display x o) (get-output-string '
          'o))', '(format "~a" x)', '(apply string-append (list x))'],
    'v': ['(vector-copy x)', '(list->vector (vector->list x))',
          '(vector-append x)', "(vector-append x '#())", '(vector-copy x 0)',
          "(vector-append '#() x)", '(vector-map (lambda (i y) y) x)',
          '(apply vector (vector->list x))', '(vector-concatenate (list x))',
          '(vector-reverse-copy x)', '`#(,@(vector->list x))',
          '(sort x (lambda (a b) #f))', '`#(1 ,@(vector->list x) 2)',
          '(vector-copy x 0 (vector-length x))',
          '(reverse-list->vector (vector->list x))'],
    'l': ['(list-copy x)', "(append x '())", '(map (lambda (y) y) x)',
          '(reverse x)', '(apply list x)', '(vector->list (list->vector x))',
          '(apply (lambda r r) x)', '(apply (lambda (a . r) (cons a r)) x)',
          '(call-with-values (lambda () (apply values x)) list)',
          '(receive r (apply values x) r)', '(append x (list 1))',
          '(sort x (lambda (a b) #f))', '(append-map (lambda (y) (list y)) x)',
          "(append '(0) x '())", '(map-in-order (lambda (y) y) x)',
          '(append-reverse x (list 1))', '(fold-right cons (list) x)',
          '(apply (lambda r (set-car! r 3) r) x)',
          '(apply (lambda (a . r) (set! a 3) (if (pair? r) (set-car! r 3)) '
          '(list a)) x)', '`(0 ,@x)', '(map + (map (lambda (y) 1) x))',
          '(apply map list (list x))', '(concatenate (list x (list 1)))']}


def const(r, d):
    """(text, kind, [(path, kind of the part)])"""
    k = r.randrange(3) if d > 0 else 0
    if k == 0:
        return ('"%s"' % ''.join(r.choice('abc \u3042') for _ in range(
            r.choice([1, 2, 3, 9]))), 's', [('x', 's')])
    n = r.choice([1, 2, 2, 3, 5])
    out, parts = [], [('x', 'v' if k == 1 else 'l')]
    for j in range(n):
        if r.random() < .5:
            out.append(r.choice(['1', '-7', 'sym', '#t', '#\\a', '()']))
            continue
        t, q, ps = const(r, d - 1)
        out.append(t)
        at = '(vector-ref x %d)' % j if k == 1 else '(list-ref x %d)' % j
        parts += [('(let ((x %s)) %s)' % (at, p), kk) for p, kk in ps]
    return ('#(%s)' if k == 1 else '(%s)') % ' '.join(out), 'vl'[k - 1], parts


def gen_const(r):
    defs, acts = [], []
    for j in range(r.choice([1, 2, 3])):
        t, k, parts = const(r, 3)
        q = r.randrange(7)
        e = "'" + t if q or k != 's' else t
        e = {1: '`' + t, 2: '(car (list %s))' % e,
             3: "(case 1 ((1) %s) (else 2))" % e,
             4: '(let loop ((i 0)) (if (< i 2) (loop (+ i 1)) %s))' % e,
             5: '(mk%d)' % j}.get(q, e)
        if q == 5:
            defs.append('(define-macro (mk%d) (list (quote quote) %s))'
                        % (j, "'" + t))
        defs.append('(define (c%d) %s)' % (j, e))
        for _ in range(r.choice([2, 5, 9])):
            p, kk = r.choice(parts)
            m = r.choice(MUT[kk])
            w = r.random()
            if kk == 'l' or w < .5:
                cp = r.choice(COPY[kk])
                for _ in range(r.choice([0, 0, 1])):
                    cp = '(let ((x %s)) %s)' % (cp, r.choice(COPY[kk]))
                b = '(let* ((x (c%d)) (x %s) (x %s)) %s 0)' % (j, p, cp, m)
                acts.append([j, 'copy', b])
            else:
                acts.append([j, 'direct', '(let* ((x (c%d)) (x %s)) %s 0)' % (
                    j, p, m)])
    r.shuffle(acts)
    return {'defs': defs, 'acts': acts, 'variant': r.choice(U.VAR),
            'gc': U.gc_schedule(r, .6), 'heap': U.HEAP}


def run_const(c, ctx):
    ctx.count('probe:constants')
    n = sum(d.startswith('(define (c') for d in c['defs'])
    show = '(sim-log (list \'consts %s))' % ' '.join(
        '(c%d)' % j for j in range(n))
    ops = [U.ev(' '.join(c['defs']), True), U.ev(show, True)]
    for j, k, e in c['acts']:
        ops += [U.ev('(sim-log (list %d (try (lambda () %s))))' % (j, e),
                     True), U.ev(show, True)]
    res = ctx.sim(c['variant'], U.scen(
        c['heap'], 'cpu 5', 'op init', U.ev(calls.SETUP, True), 'op snapshot',
        c['gc'], 'op gcgo', *ops))
    a = U.abnormal(res)
    if a:
        return [a]
    logs = [ref.norm(l) for l in U.logs(res) if l.startswith('L ')]
    want = None
    acts = iter(c['acts'])
    act = None
    for l in logs:
        if not l.startswith('L (|consts|'):
            act = next(acts)
            refused = 'caught' in l
            ctx.count('probe:mutation-refused' if refused else
                      'probe:mutated-copy')
        elif want is None:
            want = l
        elif l != want:
            return ['constant: after %s the constants are %s instead of %s' % (
                act[2], l[:300], want[:300])]
    if len(logs) != 1 + 2 * len(c['acts']):
        return ['events: %d instead of %d' % (len(logs),
                                              1 + 2 * len(c['acts']))]
    return []


# what alters the list r, its own
OWN = ['(set-car! r 99)', "(set-cdr! r '())", '(set! r (reverse! r))',
       '(append! r (list 1))', '(set-car! (last-pair r) (length r))',
       '(set-car! r (+ (car r) 1))', '(set-cdr! r r)(set! r (car r))',
       '(let lp ((p r)) (if (pair? p) (begin (set-car! p 8) (lp (cdr p)))))',
       '(set-cdr! (last-pair r) (list 7))', '(map! (lambda (y) 5) r)',
       '(set! r (cons 1 r))', '(set! r (filter! odd? r))']
TWICE_SETUP = """
(define-record-type prec (mk-prec p q) prec? (p p-of set-p!) (q q-of))
(define (vr . r) (set-car! r (+ (car r) 1)) r)
(define (vr1 a . r) (set! a (+ a 1)) (if (pair? r) (set-car! r a)) (cons a r))
(define (vset a b) (set! a (+ a b)) (set! b 0) (list a b))
"""


def own(r):
    return ' '.join(r.choice(OWN) for _ in range(r.choice([1, 1, 2])))


def num(r, d):
    if d <= 0 or r.random() < .8:
        return str(r.choice([0, 1, 2, 5, -3, 40]))
    return '(+ 1 %s)' % num(r, d - 1)


def twice(r, d):
    """an expression that alters only what it has made itself"""
    a, b, e = num(r, d), num(r, d), num(r, d)
    many = ' '.join(num(r, d) for _ in range(r.choice([1, 1, 2, 3, 5])))
    f = r.choice(['(lambda r %s r)' % own(r),
                  '(lambda (a . r) (set! a (+ a 1)) (if (pair? r) (begin %s))'
                  ' (list a r))' % own(r), 'vr', 'vr1'])
    return r.choice([
        '(%s %s)' % (f, many), '(%s %s)' % (f, many),
        "(apply %s '(%s))" % (f, many), "(apply %s %s '(%s))" % (f, a, many),
        '(apply %s (list %s))' % (f, many),
        '(call-with-values (lambda () (values %s)) %s)' % (many, f),
        '(receive r (values %s) %s r)' % (many, own(r)),
        '(receive (a . r) (values %s %s) (set! a 5) %s (list a r))' % (
            a, many, own(r)),
        '(call-with-values (lambda () (call/cc (lambda (k) (k %s)))) %s)' % (
            many, f),
        '(call/cc (lambda (k) (dynamic-wind (lambda () 0) (lambda () (k (%s '
        '%s))) (lambda () 0))))' % (f, many),
        '(let ((x %s) (y %s)) (set! x (+ x y)) (set! y %s) (list x y))' % (
            a, b, e),
        '(let* ((x %s) (x (+ x 1)) (y %s)) (set! x 0) (set! y x) (list x y))'
        % (a, b),
        '(letrec ((x %s) (f (lambda () (set! x (+ x 1)) x))) (f) (f))' % a,
        '(let () (define x %s) (define (f . r) (set! x (+ x 1)) %s r) (list '
        '(f %s) x))' % (a, own(r), many),
        "(let lp ((i 0) (r (list %s))) (if (< i 2) (begin (set-car! r i) (lp "
        '(+ i 1) (cons i r))) r))' % many,
        "(do ((i 0 (+ i 1)) (r '() (cons i r))) ((= i 3) %s r) (set! i i))"
        % own(r),
        '(vset %s %s)' % (a, b), "(map vset '(%s) '(%s))" % (many, many),
        '(let ((r (list %s))) %s r)' % (many, own(r)),
        '(let ((v (vector %s))) (vector-set! v 0 (list v)) (vector-length v))'
        % many,
        "(let ((r `(%s ,@(list %s)))) (set-car! (last-pair r) 'z) r)" % (
            a, many),
        "(let ((v `#(%s ,@(list %s)))) (vector-set! v 0 'z) (vector->list v))"
        % (a, many),
        '(let ((s (string-append "a" "bc"))) (string-set! s 0 #\\z) s)',
        '(let ((s (string #\\a #\\b))) (string-fill! s #\\q) s)',
        '(cond ((list %s) => (lambda (r) %s r)))' % (many, own(r)),
        "(guard (r (#t %s r)) (raise (list %s)))" % (own(r), many),
        '(let ((r (force (delay (list %s))))) %s r)' % (many, own(r)),
        '(let ((r (mk-prec %s %s))) (set-p! r (+ (p-of r) 1)) (p-of r))' % (
            a, b),
        '((lambda (x . r) (set! x r) x) %s)' % many,
        '(let ((f (lambda r r))) (let ((r (f %s))) %s r))' % (many, own(r))])


def gen_twice(r):
    e = []
    for j in range(r.choice([1, 3, 6])):
        x = twice(r, 2)
        q = r.random()
        e.append([x, '(lambda () %s)' % x if q < .6 else
                  "(lambda () (eval '%s (interaction-environment)))" % x
                  if q < .8 else '(let ((x 1)) (lambda () (let ((y x)) %s)))' %
                  x])
    calls = [r.randrange(len(e)) for _ in range(3 * len(e))]
    return {'twice': e, 'calls': calls, 'variant': r.choice(U.VAR),
            'gc': U.gc_schedule(r, .6), 'heap': U.HEAP}


def run_twice(c, ctx):
    ctx.count('probe:twice')
    e = c['twice']
    ops = [U.ev('(define q%d %s)' % (j, x[1]), True) for j, x in enumerate(e)]
    for j in c['calls']:
        ops += [U.ev('(sim-log (try (lambda () %s)))' % e[j][0], True),
                U.ev('(sim-log (try q%d))' % j, True)]
    res = ctx.sim(c['variant'], U.scen(
        c['heap'], 'cpu 5', 'op init', U.ev(calls.SETUP + TWICE_SETUP, True),
        'op snapshot', c['gc'], 'op gcgo', *ops))
    a = U.abnormal(res)
    if a:
        return [a]
    logs = [ref.norm(l) for l in U.logs(res) if l.startswith('L ')]
    for k, j in enumerate(c['calls']):
        if logs[2 * k:2 * k + 1] != logs[2 * k + 1:2 * k + 2]:
            return ['again: evaluation %d of %s gives %s, a fresh copy of it '
                    'gives %s' % (1 + c['calls'][:k].count(j), e[j][1],
                                  logs[2 * k + 1:2 * k + 2],
                                  logs[2 * k:2 * k + 1])]
    if len(logs) != 2 * len(c['calls']):
        return ['events: %d instead of %d' % (len(logs), 2 * len(c['calls']))]
    return []


def gen(rng, i):
    r = rng
    k = r.random()
    if k < .25:
        return gen_const(r)
    if k < .45:
        return gen_twice(r)
    g = U.G.Gen(r, size=10, focus=['qq', 'list', 'macro', 'case', 'loop',
                                      'apply', 'set'])
    prog = []
    calls = []
    for j in range(r.choice([1, 2, 2, 3])):
        g.left = r.choice([10, 20, 40])
        d = r.choice([2, 3, 4, 5])
        name = 'h%d' % j
        kind = r.randrange(4)
        if kind == 0:           # data evaluated with eval
            body = r.choice([lambda: ['begin'] + g.seq([], d),
                             lambda: g.l([], d), lambda: g.any([], d)])()
            prog.append(['define', name, ['quote', body]])
            calls.append((name, ['eval', name, ['interaction-environment']]))
        elif kind == 1:
            prog.append(['define', [name, 'a']] + g.seq([('a', 'i')], d))
            calls.append((None, [name, r.randrange(9)]))
        elif kind == 2:
            prog.append(['define', [name, 'a'],
                         ['quasiquote', g.qt([('a', 'i')], d)]])
            calls.append((None, [name, r.randrange(9)]))
        else:
            prog.append(['define', [name, 'a'], g.l([('a', 'i')], d)])
            calls.append((None, [name, r.randrange(9)]))
    for _ in range(r.choice([2, 3, 4])):
        for n, c in calls:
            if r.random() < .85:
                prog.append(['sim-log', g.try_([c], r.randrange(2))])
    for n, c in calls:
        if n:
            prog.append(['sim-log', n])
    sf = sorted({r.randrange(1, 14) for _ in range(r.choice((0, 1, 2, 3)))})
    return {'prog': prog, 'sf': sf, 'variant': r.choice(U.VAR),
            'gc': U.gc_schedule(r, .6), 'heap': U.HEAP}


def run(case, ctx):
    if 'twice' in case:
        return run_twice(case, ctx)
    if 'acts' in case:
        return run_const(case, ctx)
    return U.model_case(case, ctx)


def simpler(case):
    if 'twice' in case:
        if case['gc'] != 'gc none':
            yield dict(case, gc='gc none')
        for i in range(len(case['calls'])):
            yield dict(case, calls=case['calls'][:i] + case['calls'][i + 1:])
        return
    if 'acts' not in case:
        yield from U.model_simpler(case)
        return
    if case['gc'] != 'gc none':
        yield dict(case, gc='gc none')
    for i in range(len(case['acts'])):
        yield dict(case, acts=case['acts'][:i] + case['acts'][i + 1:])
