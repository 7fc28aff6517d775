"""P21 tail calls and loops."""
from .. import util as U

PROP = 'P21'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt']
COUNT = {'quick': 5000, 'thorough': 160000}
CAP = {'quick': 300, 'thorough': 3000}
TECH = ('random cycles of tail calls run for many iterations under simulated '
        'GC and errors, comparing C stack depth, live cells and malloc blocks '
        'between marks')
RULE = ('a case is a cycle of 1 to 4 procedures whose bodies call the next one '
        'from 1 to 4 nested tail positions, with complete work (escapes, '
        'caught errors, promises, ports, evaluations) before the call, inside '
        'an outer context, for three lengths; the depth of the C stack must '
        'be the same at each mark and the live cells and malloc blocks within '
        'a slack far below one per iteration; it counts once per distinct '
        'event log')
ASSUME = ['eval and call/cc do not call in tail position (doc/spec.txt)',
          'up to 150 cells and 8 blocks of difference are left to the '
          'conservative scan of the C stack and growth of the heap']
PROBES = ['probe:loop', 'probe:work-escape', 'probe:work-error',
          'probe:stepfail']
SETUP = '''
(use srfi-1) (use srfi-2) (use srfi-8) (use srfi-34) (use srfi-43)
(define-macro tm-begin (lambda (x) (list 'begin 1 x)))
(define-macro tm-let (lambda (v . b) (cons 'let (cons (list (list v 1)) b))))
(define (thunk1) 1)
(define (call-it f) (f))
(define (call-it2 a f . r) (apply f r))
(define gv (vector 1 2 3))
(define kk #f)
'''
# @ is the tail call (an expression)
TAIL = ['(if #t @ 0)', '(if #f 0 @)', '(if (pair? \'()) 0 @)',
        '(cond (#f 1) (1 @))', '(cond (#f 1) (else 1 @))',
        '(cond ((assv 1 \'((1 . 2))) => (lambda (p) @)) (else 3))',
        '(cond (#f => car) (2 => (lambda (p) @)))',
        '(cond ((= n -1) 1) ((= n -2)) (#t 1 2 @))',
        '(case (quote x) ((a b) 1) ((c x) @) (else 2))',
        '(case n ((-1) 3) (else 4 @))', '(case "s" ((1) 2) (else @))',
        '(and @)', '(and 1 (number? n) @)', '(or @)',
        '(or #f (string? n) @)', '(let ((a 1)) @)', '(let () @)',
        '(let ((n n) (b (list n))) b @)', '(let ((a (vector n))) (define b a)'
        ' @)', '(let* ((a 1) (b (list a))) @)', '(let* () @)',
        '(letrec ((h (lambda (x) x))) (h 1) @)', '(letrec () @)',
        '(letrec ((h (lambda (x) (if x (h #f) @)))) (h #t))',
        '(let lp ((i 0)) (if (< i 2) (lp (+ i 1)) @))',
        '(let lp () @)', '(begin @)', '(begin 1 2 @)',
        '(do ((i 0 (+ i 1))) ((= i 2) @))', '(do () (#t 1 @))',
        '(do ((i 0 (+ i 1)) (a (quote ()) (cons i a))) ((= i 3) a @) i)',
        '((lambda (x) @) n)', '((lambda x x @) n n)', '((lambda () @))',
        '((lambda (x . y) (set! y n) @) 1 2 3)', '(call-it (lambda () @))',
        '(call-it2 1 (lambda (a b) @) 1 2)', '(call-it2 1 (lambda () @))',
        '(receive (a . b) (values 1 2) @)', '(receive (a) n @)',
        '(receive a (values) @)', '(receive (a b) (values n 2) a @)',
        '(and-let* ((a 1) ((pair? (list n)))) @)', '(and-let* () @)',
        '(and-let* (n (b n)) b @)', '(and-let* (((number? n))) @)',
        '(apply (lambda (x) @) (list n))', '(apply (lambda x @) 1 2 \'(3))',
        '(apply (lambda () @) \'())', '(apply apply (lambda (x) @) \'((1)))',
        '(apply call-it (list (lambda () @)))',
        '(apply call-with-values (list thunk1 (lambda (x) @)))',
        '(call-with-values (lambda () (values 1 n)) (lambda (a b) @))',
        '(call-with-values thunk1 (lambda a @))',
        '(call-with-values (lambda () (values)) (lambda () @))',
        '(call-with-values (lambda () (values (lambda () @))) call-it)',
        '(call-with-values (lambda () (values (lambda (x) @) \'(1))) apply)',
        '(let-optionals* (list n) ((a 2) (b 3)) @)',
        '(let-optionals* \'() ((a 2) . b) @)', '(let-optionals* (list 1) a @)',
        '(let-vector-start+end call-it gv (list 1) (s e) @)',
        '(any (lambda (x) @) \'(1))', '(every (lambda (x) @) \'(1))',
        '(any (lambda (x) (and (= x 2) @)) \'(1 2))',
        '(every (lambda (x) (or (= x 1) @)) \'(1 2))',
        '(any (lambda (x y) @) \'(1) \'(2))',
        '(every (lambda (x y) @) \'(1) \'(2))',
        '(tm-begin @)', '(tm-let a @)', '(tm-begin (tm-let b 1 @))',
        '((call/cc (lambda (k) (lambda () @))))',
        '((call/cc (lambda (k) (k (lambda () @)))))',
        '((guard (e (#t (lambda () @))) (raise n)))',
        '((guard (e ((string? e) 1)) (lambda () @)))',
        '((force (delay (lambda () @))))', '(call-it (car (list (lambda () @))'
        '))', '((dynamic-wind thunk1 (lambda () (lambda () @)) thunk1))',
        "((eval '(lambda (f) (f)) (interaction-environment)) (lambda () @))",
        '((with-exception-handler (lambda (e) 1) (lambda () (lambda () @))))']
# complete work before the call
WORK = [('(call/cc (lambda (k) (k n)))', 'escape'),
        ('(call/cc (lambda (k) (map (lambda (x) (k x)) (list n 2))))',
         'escape'),
        ('(call/cc (lambda (k) (dynamic-wind thunk1 (lambda () (k 1)) thunk1))'
         ')', 'escape'),
        ('(call/cc (lambda (k) (set! kk k) n))', 'escape'),
        ('(call/cc (lambda (k) (with-exception-handler (lambda (e) (k e)) '
         '(lambda () (raise n)))))', 'error'),
        ('(call/cc (lambda (k) (with-exception-handler (lambda (e) (k 1)) '
         '(lambda () (car n)))))', 'error'),
        ('(guard (e (#t e)) (raise n))', 'error'),
        ('(guard (e (#t e)) (car n))', 'error'),
        ('(guard (e (#t e)) (error "x" n))', 'error'),
        ('(guard (e (#t 1)) (guard (e ((string? e) 2)) (raise n)))', 'error'),
        ('(guard (e (#t e)) (dynamic-wind thunk1 (lambda () (undef-var)) '
         'thunk1))', 'error'),
        ('(guard (e (#t e)) (kk n))', 'error'),
        ('(guard (e (#f e)) n)', 'guard'),
        ('(guard (e (#t e)) (vector-map (lambda (i x) (raise x)) gv))',
         'error'),
        ('(call-with-input-file "/q" read)', 'io'),
        ('(with-input-from-file "/q" (lambda () (read-char)))', 'io'),
        ('(let ((p (open-input-file "/q"))) (read p) (close-input-port p))',
         'io'),
        ('(with-output-to-file "/f" (lambda () (display n)))', 'io'),
        ('(read (open-input-string "(1 2)"))', 'io'),
        ('(guard (e (#t e)) (read (open-input-string "(1 . ")))', 'io'),
        ('(let ((o (open-output-string))) (write (list n "x") o) '
         '(get-output-string o))', 'io'),
        ('(force (delay n))', 'promise'),
        ('(guard (e (#t e)) (force (delay (raise 1))))', 'promise'),
        ("(eval '(list 1 2) (interaction-environment))", 'eval'),
        ("(guard (e (#t e)) (eval '(if) (interaction-environment)))", 'eval'),
        ('(apply max (list n 1 2))', 'plain'),
        ('(map (lambda (x) (list x)) (iota 4))', 'plain'),
        ('(for-each (lambda (x) x) (list 1 2))', 'plain'),
        ('(string-append "ab" (number->string n))', 'plain'),
        ('(set! kk (cons n "x"))', 'plain'), ('(set! gv (vector n 2 3))',
                                              'plain'),
        ('(vector-fill! (make-vector 20 n) 1)', 'plain'),
        ('(string-set! (make-string 9 #\\a) 1 #\\\u3042)', 'plain'),
        ('(list->string (string->list "a\u3042b"))', 'plain'),
        ('(receive a (values n 1 2) a)', 'plain'),
        ('(reverse! (list n 1 2))', 'plain'),
        ('`(1 ,n ,@(list 1 n))', 'plain'),
        ('(do ((i 0 (+ i 1))) ((= i 3)) (list i))', 'plain'),
        ('(load "/l")', 'io'),
        ('(let ((x n)) (define (y) x) (set! kk y) (y))', 'plain'),
        ('(fold + 0 (list n 1))', 'plain'),
        ('(dynamic-wind thunk1 (lambda () n) thunk1)', 'plain'),
        ('(symbol->string (string->symbol "same"))', 'plain'),
        ('(sim-call (lambda (x) (list x)) n)', 'plain'),
        ('(guard (e (#t e)) (sim-call (lambda (x) (raise x)) n))', 'error')]
OUTER = ['@', '@', '@', '(call/cc (lambda (k0) @))', '(guard (e (#f 1)) @)',
         '(with-exception-handler (lambda (e) 1) (lambda () @))',
         '(dynamic-wind thunk1 (lambda () @) thunk1)',
         '(car (map (lambda (x) @) (list 1)))', '(force (delay @))',
         '(sim-call (lambda () @))',
         '(apply (lambda (z) @) '
         '(list 1))', "(eval '@ (interaction-environment))",
         '(let ((big (make-vector 50 1))) (let ((r @)) (vector-ref big 0) r))']


def gen(rng, i):
    r = rng
    k = r.choice((1, 1, 2, 3, 4))
    procs = []
    for j in range(k):
        rest = r.random() < .2
        if rest and r.random() < .5:
            call = '(apply g%d %s (list 1 2))' % ((j + 1) % k, '%s')
        else:
            call = '(g%d %%s)' % ((j + 1) % k)
        work = [r.choice(WORK) for _ in range(r.choice((0, 0, 1, 1, 2)))]
        procs.append([rest, call % ('(+ n 1)' if j == 0 else 'n'),
                      [w[0] for w in work], [w[1] for w in work],
                      [r.choice(TAIL) for _ in range(r.choice((1, 1, 2, 3,
                                                               4)))]])
    # called with further arguments: formals must take them
    for j in range(k):
        if procs[j][1].startswith('(apply'):
            procs[(j + 1) % k][0] = True
    c = {'procs': procs, 'outer': r.choice(OUTER),
         'variant': r.choice(VARIANTS), 'n': r.choice((300,) * 12 + (500,) * 12 + (4000,))}
    c['heap'] = r.choice(['heap 1024 256 4096 1 16', U.HEAP,
                          'heap 4096 1024 4096 1 64',
                          'heap 512 128 4096 2 16'])
    c['gc'] = 'gc none' if r.random() < .5 else U.gc_schedule(r, .3) + \
        '\ngclimit 200'
    c['stepmod'] = [r.choice((3, 5, 7)), 1] if r.random() < .2 else None
    return c


def text(c):
    out = []
    n = len(c['procs'])
    for j, (rest, call, work, _, tail) in enumerate(c['procs']):
        e = call
        for t in reversed(tail):
            e = t.replace('@', e)
        b = ['(define (g%d n%s)' % (j, ' . rest' if rest else '')]
        if j == 0:
            b.append('(if (memv n marks) (sim-log (list (sim-sp) (sim-heap) '
                     '(sim-nblocks) (sim-nheaps) (sim-openfiles))))')
        if c['stepmod']:
            b.append("(guard (e (#t (set! ne (+ ne 1)))) (dynamic-wind thunk1 "
                     "(lambda () (sim-step (list n))) thunk1))")
        b += work
        b.append(('(if (< n last) %s n)' if j == 0 else '%s') % e + ')')
        out.append(' '.join(b))
    out.append('(define ne 0)')
    return out


def run(c, ctx):
    n = c['n']
    marks = [40, n, 2 * n]
    prog = text(c)
    ds = [c['heap'], 'cpu 20', 'maxallocs 60000000', 'quietio',
          'file /q ' + b'(item two)'.hex(), 'file /l ' + b'(list 1 2)'.hex()]
    if c['stepmod']:
        ds.append('stepmod %d %d' % tuple(c['stepmod']))
    res = ctx.sim(c['variant'], U.scen(
        *ds, c['gc'], 'op init', U.ev(SETUP, True),
        *[U.ev(p, True) for p in prog],
        U.ev("(define marks '(%d %d %d)) (define last %d)" % (
            *marks, 2 * n + 2), True),
        U.ev('(sim-log (begin %s))' % c['outer'].replace('@', '(g0 0)'))))
    ctx.count('probe:loop')
    for p in c['procs']:
        for w in p[3]:
            ctx.count('probe:work-' + w)
    if c['stepmod']:
        ctx.count('probe:stepfail')
    a = U.abnormal(res)
    if a:
        return [a]
    got = [tuple(map(int, l[3:-1].split())) for l in res.lines
           if l.startswith('L (')]
    if len(got) != 3:
        return ['loop: %d marks, %s' % (len(got), res.lines[-4:])]
    if 'L %d' % (2 * n + 2) not in res.lines:
        return ['loop: ended with %s' % res.lines[-4:]]
    out = []
    for j in (1, 2):
        if got[j][0] != got[j - 1][0]:
            out.append('stack: %d bytes at iteration %d, %d at %d' % (
                got[j - 1][0], marks[j - 1], got[j][0], marks[j]))
        if got[j][1] > got[j - 1][1] + 150:
            out.append('heap: %d live cells at iteration %d, %d at %d' % (
                got[j - 1][1], marks[j - 1], got[j][1], marks[j]))
        if got[j][2] - got[j][3] > got[j - 1][2] - got[j - 1][3] + 8:
            out.append('malloc: %d blocks at iteration %d, %d at %d' % (
                got[j - 1][2] - got[j - 1][3], marks[j - 1],
                got[j][2] - got[j][3], marks[j]))
        if got[j][4] != got[j - 1][4]:
            out.append('files: %d open at iteration %d, %d at %d' % (
                got[j - 1][4], marks[j - 1], got[j][4], marks[j]))
    return out


def simpler(c):
    for j, p in enumerate(c['procs']):
        for w in range(len(p[2])):
            q = [p[0], p[1], p[2][:w] + p[2][w + 1:], p[3][:w] + p[3][w + 1:],
                 p[4]]
            yield dict(c, procs=c['procs'][:j] + [q] + c['procs'][j + 1:])
        for w in range(len(p[4])):
            q = [p[0], p[1], p[2], p[3], p[4][:w] + p[4][w + 1:]]
            yield dict(c, procs=c['procs'][:j] + [q] + c['procs'][j + 1:])
        if len(p[4]) and p[4] != ['(begin @)']:
            q = [p[0], p[1], p[2], p[3], ['(begin @)']]
            yield dict(c, procs=c['procs'][:j] + [q] + c['procs'][j + 1:])
    for k, v in (('outer', '@'), ('stepmod', None), ('gc', 'gc none'),
                 ('variant', 'compact'), ('n', 300), ('heap', U.HEAP)):
        if c[k] != v:
            yield dict(c, **{k: v})
