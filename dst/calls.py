"""Random typed calls of the whole builtin and library surface (used for the
differential properties, where no model is needed)."""

# result: procedure, argument types ('*' suffix: 0..3 of them, '?': 0..1)
T = """
i: + i* | * i i | - i i | length l | string-length s | vector-length v
i: char->integer c | abs i | max i i | min i i | quotient i j | remainder i j
i: modulo i j | gcd i i | lcm k k | logand i i | logior i i | logxor i i
i: lognot i | length* l | length+ l | count f1p l | vector-count f2p v
i: fold f2i i li | fold-right f2i i li | reduce + 0 li | vector-fold f3i i vi
i: string-hash s k1 | hash a k1 | hash-table-ref/default h a i | apply + li
i: list-index f1p l | vector-index f1p v | expt k k | string->number sn
i: hash-table-size h | sim-call f1i i | force pi | vector-fold-right f3i i vi
c: string-ref s1 0 | integer->char ic | char-upcase c | char-downcase c
c: list-ref lc1 0 | vector-ref vc1 0 | peek-char ip | read-char ip
s: string-append s* | substring s5 n2 n3 | list->string lc | string c*
s: number->string i | number->string i r | symbol->string y | string-copy s
s: make-string k c | get-output-string o | format "~a-~s" a a | write->s a
s: format "~~~%~d" i | format #f "~a" a | display->s a | ss->s a
s: apply string-append ls | format "~5F" i | format48 "~h" | list->string lc
y: string->symbol s | car ly | string->symbol s
l: list a* | cons a l | append l l | append l* | reverse l | list-tail l3 n2
l: vector->list v | string->list s | map f1 l | map f2 l l | assq y al
l: cdr l1 | list-copy l | iota k | iota k i | make-list k a | take l3 n2
l: drop l3 n2 | take-right l3 n2 | drop-right l3 n2 | filter f1p l
l: remove f1p l | partition1 f1p l | delete a l | delete-duplicates l
l: append-map f1l l | filter-map f1 l | unfold7 k | append-reverse l l
l: concatenate ll | zip l l | list-tabulate k f1 | cons* a a l | xcons l a
l: hash-table-keys h | hash-table-values h | hash-table->alist h | reverse! lf
l: sort lf2 f2c | sort li f2c | merge li li f2c | take-while f1p l
l: drop-while f1p l | span1 f1p l | break1 f1p l | lset-union eq? ly ly
l: lset-adjoin eqv? li i | lset-intersection equal? l l | lset-xor eqv? li li
l: lset-difference eqv? li li | assv i al | assoc a al | memq y ly
l: memv i li | member a l | alist-cons a a al | alist-copy al
l: alist-delete a al | pair-fold3 l | reduce-right append3 l | unzip-2 al
l: reverse-vector->list v | vector->list v n0 n1 | find-tail f1p l
l: last-pair l1 | let-values1 a a | receive1 l | qq1 a l | qq2 l l | fold cons l l
l: call-with-values tv list | append! lf lf | map! f1 lf | filter! f1p lf
l: delete! a lf | append-reverse! lf l | guard1 f1 a | dw1 f1 a | cc1 f1 a
l: list-parse s | read-all s | string->list s | split-at1 l3 n2 | any f1l l
l: srfi2a l | letopt1 l | case1 i | do1 k a | named1 k a | let*1 a a | map-in-order f1 l
v: vector a* | make-vector k a | list->vector l | vector-map f2 v
v: vector-copy v | vector-copy v3 n0 n1 | vector-append v v | subv v3 n0
v: vector-reverse-copy v | vector-unfold f1 k | vector-concatenate lv
v: vector-unfold-right f1 k | reverse-list->vector l | qqv a l | sort vi f2c
v: vfill! v a | vset! v1 0 a | vswap! v3 0 1 | vrev! v | vector-map2 f3 v v
b: eq? a a | eqv? a a | equal? a a | not a | null? l | pair? a | list? a
b: string=? s s | string<? s s | string-ci=? s s | char=? c c | char<? c c
b: char-alphabetic? c | even? i | odd? i | zero? i | < i i | = i i i | >= i i
b: every f1p l | any f1p l | hash-table-exists? h a | string? a | symbol? a
b: vector-any f1p v | vector-every f1p v | list= eq? ly ly | sorted? li f2c
b: eof-object? a | procedure? a | vector? a | circular-list? l | dotted-list? l
b: symbol-bound? y | char-ready? ip | input-port? a | provided? s | char-ci=? c c
b: lset<= eqv? li li | lset= eqv? li li | proper-list? l | boolean? a | v= v v
h: ht al | hash-table-copy h | alist->hash-table al equal? | ht-with h a a
h: ht-del h a | ht-merge h h | ht-upd h a f1
o: op a* | op s* | opw a
ip: open-input-string s
a: car l1 | cadr l2 | cdr l1 | vector-ref v1 0 | list-ref l1 0 | last l1
a: first l1 | second l2 | find f1p l | apply f1 la1 | apply f2 la2 | f1 a
a: hash-table-ref/default h a a | force pa | read ip | call-with-values tv2 f2
a: eval1 a | reduce f2 a l | fold f2 a l | assq-ref y al | caar al1 | cdar al1
a: if b a a | and a a | or b a | begin! a a | let1 a a | rec1 a a | string->number s
a: call/cc k1 | dw2 a a | guard2 a a | raise1 a | weh1 a | set1 a | vector-binary-search vi i sub
a: delay1 a | sim-call f1 a | sim-call f2 a a | string-set1 s c | read-str a | sc! l1 a
"""
TABLE = {}
for line in T.strip().split('\n'):
    res, rest = line.split(':', 1)
    for ent in rest.split('|'):
        w = ent.split()
        q = []
        buf = None
        for x in w:             # string literals may contain blanks
            if buf is not None:
                buf += ' ' + x
                if x.endswith('"'):
                    q.append(buf)
                    buf = None
            elif x.startswith('"') and not (x.endswith('"') and len(x) > 1):
                buf = x
            else:
                q.append(x)
        TABLE.setdefault(res, []).append((q[0], q[1:]))

TYPES = {'i', 'j', 'k', 'k1', 'c', 's', 's1', 's5', 'sn', 'y', 'l', 'l1', 'l2',
         'l3', 'lf', 'lf2', 'li', 'lc', 'lc1', 'ls', 'll', 'ly', 'la1', 'la2',
         'lv', 'al', 'al1', 'v', 'v1', 'v3', 'vi', 'vc1', 'b', 'h', 'o', 'ip',
         'a', 'f1', 'f2', 'f3', 'f1p', 'f2p', 'f1i', 'f2i', 'f3i', 'f2c',
         'f1l', 'pi', 'pa', 'tv', 'tv2', 'n0', 'n1', 'n2', 'n3', 'ic', 'r'}

SETUP = r"""
(use srfi-1) (use srfi-2) (use srfi-6) (use srfi-8) (use srfi-9) (use srfi-23)
(use srfi-28) (use srfi-34) (use srfi-38) (use srfi-43) (use srfi-48)
(use srfi-60) (require-extension (srfi 69 95))
(define (write->s x) (let ((o (open-output-string))) (write x o)
  (get-output-string o)))
(define (display->s x) (let ((o (open-output-string))) (display x o)
  (newline o) (write-char #\x o) (get-output-string o)))
(define (ss->s x) (let ((o (open-output-string)))
  (write-with-shared-structure x o) (get-output-string o)))
(define (format48 s) (format s))
(define (partition1 p l) (receive (a b) (partition p l) (list a b)))
(define (span1 p l) (receive (a b) (span p l) (list a b)))
(define (break1 p l) (receive (a b) (break p l) (list a b)))
(define (split-at1 l n) (receive (a b) (split-at l n) (list a b)))
(define (unzip-2 al) (receive (a b) (unzip2 (map (lambda (x)
  (list (car x) (cdr x))) al)) (list a b)))
(define (unfold7 k) (unfold (lambda (x) (> x k)) (lambda (x) (list x x))
  (lambda (x) (+ x 1)) 0))
(define (pair-fold3 l) (pair-fold (lambda (p a) (cons (length p) a)) '() l))
(define (append3 a b) (list a b))
(define (let-values1 a b) (call-with-values (lambda () (values a b)) list))
(define (receive1 l) (receive (a . r) (apply values (cons 1 l)) (list a r)))
(define (qq1 a l) `(1 ,a (x ,@l . ,a) ,@l #(a ,a)))
(define (qq2 a b) `(,@a ,@b ,a . ,b))
(define (qqv a l) `#(1 ,a ,@l ,@l #(,a)))
(define (subv v n) (vector-copy v n))
(define (vfill! v a) (let ((w (vector-copy v))) (vector-fill! w a) w))
(define (vset! v i a) (let ((w (vector-copy v))) (vector-set! w i a) w))
(define (vswap! v i j) (let ((w (vector-copy v))) (vector-swap! w i j) w))
(define (vrev! v) (let ((w (vector-copy v))) (vector-reverse! w) w))
(define (vector-map2 f a b) (vector-map f a b))
(define (v= a b) (vector= equal? a b))
(define (guard1 f a) (guard (e (#f 0) ((string? e) (list e)) (else (list 'e e)))
  (f a) (raise (list a))))
(define (dw1 f a) (let ((r '())) (dynamic-wind (lambda () (set! r (cons 1 r)))
  (lambda () (set! r (cons (f a) r))) (lambda () (set! r (cons 3 r)))) r))
(define (cc1 f a) (list (call/cc (lambda (k) (dynamic-wind (lambda () #f)
  (lambda () (k (f a))) (lambda () (list a a)))))))
(define (list-parse s) (let ((p (open-input-string
  (string-append "(" s " \"q\" #\\a #(1 2) . tail)")))) (read p)))
(define (read-all s) (let ((p (open-input-string s))) (let lp ((x (read p))
  (r '())) (if (eof-object? x) r (lp (read p) (cons x r))))))
(define (srfi2a l) (list (and-let* ((x l) ((pair? x)) (y (car x))) (list y))))
(define (letopt1 l) (let-optionals* l ((a 1) (b (list a)) . r) (list a b r)))
(define (case1 i) (case i ((0 1 2) (list i)) ((3) '(3)) (else (list 'e i))))
(define (do1 k a) (do ((i 0 (+ i 1)) (l '() (cons (list i a) l))) ((>= i k) l)))
(define (named1 k a) (let lp ((i 0) (l '())) (if (>= i k) l
  (lp (+ i 1) (cons (vector i a) l)))))
(define (let*1 a b) (let* ((x (list a b)) (y (list x x))) (list y)))
(define (ht al) (let ((h (make-hash-table equal?)))
  (for-each (lambda (x) (hash-table-set! h (car x) (cdr x))) al) h))
(define (ht-with h a b) (let ((h (hash-table-copy h))) (hash-table-set! h a b)
  h))
(define (ht-del h a) (let ((h (hash-table-copy h))) (hash-table-delete! h a) h))
(define (ht-merge a b) (let ((h (hash-table-copy a))) (hash-table-merge! h b)
  h))
(define (ht-upd h a f) (let ((h (hash-table-copy h)))
  (hash-table-update!/default h a f 5) h))
(define (op . l) (let ((o (open-output-string)))
  (for-each (lambda (x) (display x o)) l) o))
(define (opw x) (let ((o (open-output-string))) (write x o) (newline o) o))
(define-record-type point (make-point x y) point? (x point-x set-point-x!)
  (y point-y))
(define (rec1 a b) (let ((p (make-point a b))) (set-point-x! p (list b))
  (list (point-x p) (point-y p) (point? p) (point? a))))
(define (eval1 a) (eval (list 'quote (list a (list 'if a a))) 
  (interaction-environment)))
(define (assq-ref y al) (let ((x (assq y al))) (and x (cdr x))))
(define (let1 a b) (let ((x a) (y b)) (define z (list x y)) (set! x z) x))
(define (begin! a b) (begin a (list b)))
(define (k1 k) (k (list 1 (string-append "a" "b"))))
(define (dw2 a b) (dynamic-wind (lambda () (list a)) (lambda () (list a b))
  (lambda () (list b))))
(define (guard2 a b) (guard (e ((pair? e) (car e)) (else (list e b)))
  (raise (if (null? a) 1 a))))
(define (raise1 a) (raise (list a (vector a))))
(define (weh1 a) (call/cc (lambda (k) (with-exception-handler
  (lambda (e) (k (list 'h e))) (lambda () (raise (string-append "x" "y")))))))
(define %g '())
(define (set1 a) (set! %g (list a a)) %g)
(define (delay1 a) (let ((p (delay (list a a)))) (list (force p) (force p))))
(define (string-set1 s c) (let ((t (string-append s "zz")))
  (string-set! t 1 c) (string-set! t 0 c) (string-fill! t c) t))
(define (read-str a) (let ((s (write->s a))) (read (open-input-string s))))
(define (sc! l a) (let ((x (list-copy l))) (set-car! x a) (set-cdr! x (list a))
  x))
(define (sub a b) (- a b))
(define (show x) (sim-log (cond ((hash-table? x) (hash-table->alist x))
  (else x))))

(define (try thunk) (guard (e (else (list 'caught e))) (thunk)))
"""


class Calls:
    def __init__(self, rng, focus=None, steps=True):
        self.r = rng
        self.n = 0
        self.steps = steps
        # swarm: only a random part of the table is used in one program
        keep = rng.choice([.15, .4, .8, 1])
        self.t = {}
        for k, es in TABLE.items():
            e = [x for x in es if rng.random() < keep] or [rng.choice(es)]
            self.t[k] = e

    def ch(self, *xs):
        return self.r.choice(xs)

    def call(self, t, d):
        f, args = self.r.choice(self.t[t])
        out = [f if f != 'f1' else self.e('f1', d - 1)]
        for a in args:
            n = 1
            if a.endswith('*') and len(a) > 1:
                n, a = self.r.randrange(4), a[:-1]
            for _ in range(n):
                out.append(self.e(a, d - 1) if a in TYPES else a)
        return '(' + ' '.join(out) + ')'

    def strlit(self):
        return self.ch('""', '"a"', '"abc"', '"x y (z)"', '"\\"q\\\\"',
                       '"\u3042\u3044"', '"12"', '"#t foo"', '"~a"',
                       '"(1 . 2)"', '"long-string-with-many-characters"')

    def atom(self, t):
        r = self.r
        if t in ('i', 'a'):
            return str(r.choice([0, 1, 2, 3, -1, 7, 100, -65536]))
        if t == 'c':
            return self.ch('#\\a', '#\\space', '#\\Z', '#\\newline',
                           '#\\\u3042', '#\\0')
        if t == 's':
            return self.strlit()
        if t == 'y':
            return self.ch("'a", "'b", "'car", "'foo-bar")
        if t == 'l':
            return self.ch("'()", "'(1 2 3)", "'(a \"s\" #\\c)", '(list 1 2)',
                           "'((1 2) (3))")
        if t == 'v':
            return self.ch("'#()", "'#(1 2 3)", "(vector 1 'a \"s\")",
                           '(make-vector 2 0)')
        if t == 'b':
            return self.ch('#t', '#f')
        if t == 'h':
            return '(ht (list (cons 1 2) (cons "k" 3)))'
        if t == 'o':
            return '(open-output-string)'
        if t == 'ip':
            return '(open-input-string "(a b) 1 \\"s\\" #(1) x")'
        raise AssertionError(t)

    def many(self, t, d, lo=0, hi=4):
        return ' '.join(self.e(t, d - 1)
                        for _ in range(self.r.randrange(lo, hi)))

    def fn(self, n, body):
        """a procedure of n arguments, sometimes with effects"""
        vs = []
        for _ in range(n):
            self.n += 1
            vs.append('x%d' % self.n)
        pre = ''
        if self.steps and self.r.random() < .25:
            pre = self.ch('(sim-step 1) ', '(sim-log %s) ' % vs[0],
                          '(set1 %s) ' % vs[0], '(sim-gc) ')
        return '(lambda (%s) %s%s)' % (' '.join(vs), pre, body(vs))

    def e(self, t, d):
        r = self.r
        if t in ('i', 'c', 's', 'y', 'l', 'v', 'b', 'h', 'o', 'ip'):
            if d <= 0 or r.random() < .15:
                return self.atom(t)
            return self.call(t, d)
        if t == 'a':
            if d <= 0:
                return self.atom(self.ch('i', 's', 'y', 'l', 'c', 'v', 'b'))
            if r.random() < .4:
                return self.call('a', d)
            return self.e(self.ch('i', 's', 'y', 'l', 'v', 'c', 'b', 'l'), d)
        if t == 'j':
            return self.ch('1', '2', '-3', '7')
        if t in ('k', 'n2'):
            return self.ch('0', '1', '2', '3', '3') if t == 'n2' \
                else self.ch('0', '1', '2', '3', '5', '9')
        if t == 'k1':
            return self.ch('7', '100')
        if t == 'n0':
            return self.ch('0', '1')
        if t == 'n1':
            return self.ch('1', '2')
        if t == 'n3':
            return self.ch('3', '4', '5')
        if t == 'ic':
            return self.ch('65', '955', '12354', '10')
        if t == 'r':
            return self.ch('2', '8', '10', '16')
        if t == 's1':
            return '(string-append "p" %s)' % self.e('s', d - 1)
        if t == 's5':
            return '(string-append "abcde" %s)' % self.e('s', d - 1)
        if t == 'sn':
            return self.ch('"12"', '"-7"', '(number->string 5)')
        if t == 'l1':
            return '(cons %s %s)' % (self.e('a', d - 1), self.e('l', d - 1))
        if t == 'l2':
            return '(cons* %s %s %s)' % (self.e('a', d - 1), self.e('a', 0),
                                         self.e('l', d - 1))
        if t == 'l3':
            return "(append (list 1 2 %s) %s)" % (self.e('a', d - 1),
                                                  self.e('l', d - 1))
        if t == 'lf':
            return '(list %s)' % self.many('a', d)
        if t == 'lf2':
            return '(list %s)' % self.many('i', d)
        if t == 'li':
            return self.ch("'(3 1 2)", '(iota 5)',
                           '(list %s)' % self.many('i', d))
        if t == 'lc':
            return '(list %s)' % self.many('c', d)
        if t == 'lc1':
            return '(list #\\q %s)' % self.many('c', d)
        if t == 'ls':
            return '(list %s)' % self.many('s', d)
        if t == 'll':
            return '(list %s)' % self.many('l', d, 1, 3)
        if t == 'ly':
            return '(list %s)' % self.many('y', d)
        if t == 'la1':
            return '(list %s)' % self.e('a', d - 1)
        if t == 'la2':
            return '(list %s %s)' % (self.e('a', d - 1), self.e('a', d - 1))
        if t == 'lv':
            return '(list %s)' % self.many('v', d, 1, 3)
        if t == 'al':
            return '(list %s)' % ' '.join(
                '(cons %s %s)' % (self.e(self.ch('y', 'i', 's'), d - 2),
                                  self.e('a', d - 2))
                for _ in range(r.randrange(4)))
        if t == 'al1':
            return '(cons (cons %s %s) %s)' % (
                self.e('y', d - 1), self.e('a', d - 1), self.e('al', d - 1))
        if t == 'v1':
            return '(vector %s %s)' % (self.e('a', d - 1), self.e('a', d - 1))
        if t == 'v3':
            return '(vector %s 2 %s)' % (self.e('a', d - 1),
                                         self.e('a', d - 1))
        if t == 'vi':
            return self.ch("'#(1 2 3)", '(list->vector (iota 4))',
                           '(vector %s)' % self.many('i', d))
        if t == 'vc1':
            return '(vector #\\v)'
        if t == 'pi':
            return '(delay %s)' % self.e('i', d - 1)
        if t == 'pa':
            return '(delay %s)' % self.e('a', d - 1)
        if t == 'tv':
            return '(lambda () (values %s))' % self.many('a', d)
        if t == 'tv2':
            return '(lambda () (values %s %s))' % (self.e('a', d - 1),
                                                   self.e('a', d - 1))
        if t == 'f1':
            return self.fn(1, lambda v: self.ch(
                v[0], '(list %s)' % v[0], '(cons %s %s)' % (
                    v[0], self.e('a', d - 2)), self.e('a', d - 1)))
        if t == 'f1l':
            return self.fn(1, lambda v: '(list %s %s)' % (
                v[0], self.e('a', d - 2)))
        if t == 'f2':
            return self.fn(2, lambda v: self.ch(
                '(list %s %s)' % tuple(v), '(cons %s %s)' % tuple(v),
                '(begin %s %s)' % (v[0], self.e('a', d - 2))))
        if t == 'f3':
            return self.fn(3, lambda v: '(list %s %s %s)' % tuple(v))
        if t == 'f1p':
            return self.fn(1, lambda v: self.ch(
                '(pair? %s)' % v[0], '(eqv? %s 1)' % v[0], '#t', '#f',
                '(equal? %s %s)' % (v[0], self.e('a', d - 2))))
        if t == 'f2p':
            return self.fn(2, lambda v: '(equal? %s %s)' % tuple(v))
        if t == 'f1i':
            return self.fn(1, lambda v: '(+ %s 1)' % v[0])
        if t == 'f2i':
            return self.fn(2, lambda v: '(+ %s %s)' % tuple(v))
        if t == 'f3i':
            return self.fn(3, lambda v: '(+ %s %s %s)' % tuple(v))
        if t == 'f2c':
            return self.ch('<', '>', self.fn(2, lambda v: '(< %s %s)' %
                                             tuple(v)))
        raise AssertionError(t)

    def forms(self, n, depth):
        out = []
        for _ in range(n):
            t = self.ch('a', 'l', 'v', 's', 'i', 'h', 'b', 'c')
            e = self.e(t, self.r.randrange(1, depth + 1))
            out.append('(show (try (lambda () %s)))' % e)
        return out
