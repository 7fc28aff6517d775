"""Random calls of everything with well and ill typed arguments."""
from . import calls

PROCS = """
%%backtrace:0:0 %%current-char-codec:0:0 %%current-environment:0:0
%%error-object?:1:1 %%inspect-error:1:1 %%pair-mutable?:1:1
%%string-mutable?:1:1 %%vector-mutable?:1:1 *:0:3 +:0:3 -:0:3 /:0:3 <:0:3
<=:0:3 =:0:3 >:0:3 >=:0:3 abs:1:1 alist->hash-table:2:2 alist-cons:3:3
alist-copy:1:1 alist-delete:2:2 alist-delete!:2:4 any:2:2 append:0:3
append!:2:2 append-map:2:2 append-map!:2:4 append-reverse:2:2
append-reverse!:2:2 apply:2:5 appropriate-hash-function-for:1:1 assoc:2:2
assq:2:2 assq-ref:2:2 assv:2:2 between?:3:3 binary-vector=:3:3 bitwise-if:3:3
boolean?:1:1 break:2:2 break!:2:2 break1:2:2 caaaar:1:1 caaadr:1:1 caaar:1:1
caadar:1:1 caaddr:1:1 caadr:1:1 caar:1:1 cadaar:1:1 cadadr:1:1 cadar:1:1
caddar:1:1 cadddr:1:1 caddr:1:1 cadr:1:1 call-with-current-continuation:1:1
call-with-input-file:2:2 call-with-output-file:2:2 call-with-values:2:2
call/cc:1:1 car:1:1 car+cdr:1:1 case1:1:1 cc1:2:2 cdaaar:1:1 cdaadr:1:1
cdaar:1:1 cdadar:1:1 cdaddr:1:1 cdadr:1:1 cdar:1:1 cddaar:1:1 cddadr:1:1
cddar:1:1 cdddar:1:1 cddddr:1:1 cdddr:1:1 cddr:1:1 cdr:1:1 char->integer:1:1
char-alphabetic?:1:1 char-ci<=?:2:2 char-ci<?:2:2 char-ci=?:2:2 char-ci>=?:2:2
char-ci>?:2:2 char-downcase:1:1 char-lower-case?:1:1 char-numeric?:1:1
char-ready?:0:3 char-upcase:1:1 char-upper-case?:1:1 char-whitespace?:1:1
char<=?:2:2 char<?:2:2 char=?:2:2 char>=?:2:2 char>?:2:2 char?:1:1
check-arg:3:3 check-index:3:3 check-type:3:3 circular-list:1:3
circular-list?:1:1 close-input-port:1:1 close-output-port:1:1 concatenate:1:1
concatenate!:1:1 cons:2:2 cons*:3:3 count:2:2 current-input-port:0:0
delay1:1:1 delete:2:2 delete!:2:2 delete-duplicates:1:1
delete-duplicates!:1:3 display:1:4 display->s:1:1 do1:2:2 dotted-list?:1:1
drop:2:2 drop-right:2:2 drop-right!:2:2 drop-while:2:2 dw1:2:2 dw2:2:2
dynamic-wind:3:3 eighth:1:1 eof-object?:1:1 eq?:2:2 equal?:2:2 eqv?:2:2
error:1:4 eval:2:2 eval1:1:1 even?:1:1 every:2:2 expt:2:2 field-index:2:2
fifth:1:1 filter:2:2 filter!:2:2 filter-map:2:2 find:2:2 find-tail:2:2
first:1:1 fixnum-width:0:0 fold:3:3 fold-right:3:3 for-each:1:4 force:1:1
format:1:4 format+:1:4 format48:1:1 gcd:0:3 get-output-string:1:1
greatest-fixnum:0:0 guard1:2:2 guard2:2:2 hash:2:2 hash-table->alist:1:1
hash-table-copy:1:1 hash-table-delete!:2:2 hash-table-exists?:2:2
hash-table-fold:3:3 hash-table-keys:1:1 hash-table-merge!:2:2
hash-table-ref:2:4 hash-table-ref/default:3:3 hash-table-set!:3:3
hash-table-size:1:1 hash-table-update!:3:5 hash-table-update!/default:4:4
hash-table-values:1:1 hash-table-walk:2:2 ht:1:1 ht-del:2:2 ht-merge:2:2
ht-upd:3:3 ht-with:3:3 input-port?:1:1 integer->char:1:1 integer?:1:1
interaction-environment:0:0 iota:1:1 last:1:1 last-pair:1:1 lcm:0:3
least-fixnum:0:0 length:1:1 length*:1:1 length+:1:1 let*1:2:2 let-values1:2:2
let1:2:2 letopt1:1:1 list:0:3 list->string:1:1 list->vector:1:1 list-copy:1:1
list-index:2:2 list-parse:1:1 list-ref:2:2 list-tabulate:2:2 list-tail:2:2
list=:3:3 list?:1:1 load:1:1 load-path:0:0 logand:0:3 logior:0:3 lognot:1:1
logtest:2:2 logxor:0:3 lset-adjoin:3:3 lset-diff+intersection:2:4
lset-diff+intersection!:2:4 lset-difference:3:3 lset-difference!:2:4
lset-intersection:3:3 lset-intersection!:2:4 lset-union:3:3 lset-union!:1:3
lset-xor:3:3 lset-xor!:1:3 lset<=:3:3 lset=:3:3 make-hash-table:0:2
make-hash-table-maker:2:2 make-list:2:2 make-record:1:1 make-record-type:2:2
make-string:1:4 make-vector:1:4 map:1:4 map!:2:2 map-in-order:1:4 max:0:3
member:2:2 memq:2:2 memv:2:2 merge:3:3 merge!:3:5 min:0:3 modulo:2:2 named1:2:2
negative?:1:1 newline:0:3 ninth:1:1 nonneg-int?:1:1 not:1:1 not-pair?:1:1
null-environment:1:1 null-list?:1:1 null?:1:1 number->string:1:4 number?:1:1
odd?:1:1 op:1:2 open-input-file:1:1 open-input-string:1:1 open-output-file:1:1
open-output-string:0:0 opw:1:1 output-port?:1:1 pair-fold:3:5
pair-fold-right:3:5 pair-fold3:1:1 pair-for-each:2:4 pair?:1:1 partition:2:2
partition!:2:2 partition1:2:2 peek-char:0:3 positive?:1:1 procedure?:1:1
proper-list?:1:1 provide:1:1 provided?:1:1 qq1:2:2 qq2:2:2 qqv:2:2 quotient:2:2
raise:1:1 raise1:1:1 rank-1-array->list:1:1 read:0:3 read-all:1:1 read-char:0:3
read-str:1:1 rec1:2:2 receive1:1:1 record-accessor:2:2 record-constructor:2:2
record-modifier:2:2 record-predicate:1:1 record-ref:2:2 record-set!:3:3
record-type:1:1 record-type-field-tags:1:1 record-type-name:1:1 record?:1:1
reduce:3:3 reduce-right:2:2 remainder:2:2 remove:2:2 remove!:2:2 require:1:1
reverse:1:1 reverse!:1:1 reverse-list->vector:1:1 reverse-vector->list:1:1
sc!:2:2 scheme-report-environment:1:1 second:1:1 set-car!:2:2 set-cdr!:2:2
set1:1:1 seventh:1:1 sim-call:2:2 sixth:1:1 sort:2:2 sort!:2:4 sort:merge!:4:4
sort:sort-list!:3:3 sorted?:2:2 span:2:2 span!:2:2 span1:2:2 split-at:2:2
split-at!:2:2 split-at1:2:2 srfi2a:1:1 ss->s:1:1 sscm-version:0:0 string:0:3
string->list:1:1 string->number:1:4 string->symbol:1:1 string-append:0:3
string-ci-hash:1:3 string-ci<=?:2:2 string-ci<?:2:2 string-ci=?:2:2
string-ci>=?:2:2 string-ci>?:2:2 string-copy:1:1 string-fill!:2:2
string-hash:2:2 string-length:1:1 string-ref:2:2 string-set!:3:3
string-set1:2:2 string<=?:2:2 string<?:2:2 string=?:2:2 string>=?:2:2
string>?:2:2 string?:1:1 substring:3:3 subv:2:2 symbol->string:1:1
symbol-bound?:1:4 symbol-hash:1:3 symbol?:1:1 take:2:2 take!:2:2 take-right:2:2
take-while:2:2 take-while!:2:2 tenth:1:1 unfold:4:6 unfold-right:4:6
unfold7:1:1 unspecified-value:0:0 unzip-2:1:1 unzip1:1:1 unzip2:1:1 unzip3:1:1
unzip4:1:1 unzip5:1:1 v=:2:2 values:0:3 vector:0:3 vector->list:1:1
vector-any:2:2 vector-append:2:2 vector-binary-search:3:3
vector-concatenate:1:1 vector-copy:1:1 vector-copy!:3:5
vector-copy:parse-args:2:2 vector-count:2:2 vector-empty?:1:1 vector-every:2:2
vector-fill!:2:2 vector-fold:3:3 vector-fold-right:3:3 vector-hash:2:2
vector-index:2:2 vector-index-right:2:4 vector-length:1:1 vector-map:2:2
vector-map!:2:4 vector-map2:3:3 vector-parse-start+end:5:5 vector-ref:2:2
vector-reverse!:1:3 vector-reverse-copy:1:1 vector-reverse-copy!:3:5
vector-set!:3:3 vector-skip:2:4 vector-skip-right:2:4 vector-swap!:3:3
vector-unfold:2:2 vector-unfold-right:2:2 vector=:1:3 vector?:1:1
vectors-ref:2:2 vfill!:2:2 vrev!:1:1 vset!:3:3 vswap!:3:3 weh1:1:1
with-char-codec:2:2 with-exception-handler:2:2 with-input-from-file:2:2
with-output-to-file:2:2 write:1:4 write->s:1:1 write-char:1:4
write-with-shared-structure:1:4 xcons:2:2 zero?:1:1 zip:2:2
"""
PROCS = [(n, int(a), int(b)) for n, a, b in
         (x.rsplit(':', 2) for x in PROCS.split())]
SYNTAX = """and and-let* begin case cond define define-macro delay do guard if
lambda let let* let-optionals* letrec letrec quasiquote quote receive set! unquote
unquote-splicing define-record-type expand-macro or let-syntax
define-syntax match require-extension use""".split()

# evaluated afresh at each use, so no value is shared between two calls
POOL = """0 1 2 3 -1 7 255 65536 (greatest-fixnum) (least-fixnum)
#\\a #\\space #\\x3042 #\\xe9 (integer->char 0) (integer->char 160)
(integer->char 1114111) (integer->char 55296) "" "abc" "a\\"b" (string-copy "mut") (make-string 3 #\\q) "\u3042\u3044x" "~a~s~%"
"12" "#x1f" "(a . b)"
'a 'b 'car
#t #f '() '(1) '(1 2 3) (list 1 2 3) '(1 . 2) (cons 1 (cons 2 3)) '((a . 1) (b . 2))
(list (list 1 2) (list 3 4)) (list #\\a #\\b) (list "x" "y") '(a b c)
'#() '#(1 2 3) (vector 1 "s" 'c) (make-vector 5 0) (vector #\\a)
car cons list + < equal? vector values not apply map raise call/cc
(lambda () 1) (lambda (x) x) (lambda (x) (list x)) (lambda (x y) (list x y))
(lambda x x) (lambda (x) #f) (lambda (x . y) (raise y)) (lambda (x) (car x))
(lambda (a b) (sim-step a)) (lambda (k) (k 1)) (lambda () (raise 'z))
kk0 (delay 5) (delay (car 1)) (read-char (open-input-string "")) (if #f #f)
(interaction-environment) (open-input-string "(a b) 1 x") (open-output-string)
(open-input-file "in.txt") (open-output-file "out.txt")
(let ((p (open-input-file "in.txt"))) (close-input-port p) p)
(let ((p (open-output-file "out.txt"))) (close-output-port p) p)
(make-point 1 2) (ht '((a . 1))) (guard (e (#t e)) (car 1))
(guard (e (#t e)) (error "msg" 1 "s")) (eof)
(list (car (guard (e (#t e)) (car 1)))) (cons (car (guard (e (#t e)) (car 1))) 5)
(list (car (guard (e (#t e)) (car 1))) 1 2 3)
(%%current-char-codec) "UTF-8" "EUC-JP" "ISO-8859-1" "in.txt" "none.txt" "code.scm" 'srfi-1 point
(string->symbol "we ird") (values 1) (values 1 2)"""


def _split(s):
    out, d, cur, i = [], 0, '', 0
    instr = False
    while i < len(s):
        c = s[i]
        if instr:
            cur += c
            if c == '\\':
                i += 1
                cur += s[i]
            elif c == '"':
                instr = False
        elif c == '"':
            instr = True
            cur += c
        elif c == '#' and s[i + 1] == '\\':
            cur += s[i:i + 3]
            i += 2
        elif c in ' \n' and d == 0:
            if cur:
                out.append(cur)
            cur = ''
        else:
            d += (c == '(') - (c == ')')
            cur += c
        i += 1
    return out + ([cur] if cur else [])


POOL = _split(POOL)
FILES = ['file /lib/in.txt ' + b'(a b) 1 "s"\nline two\n#\\x '.hex(),
         'file in.txt ' + b'(a b) 1 "s"\nline two\n#\\x '.hex(),
         'file /lib/code.scm ' + b'(sim-log 1)(car 1)(sim-log 2)'.hex()]
SETUP = calls.SETUP + """
(define kk0 #f)
(call/cc (lambda (k) (set! kk0 k)))
(define (eof) (read-char (open-input-string "")))
"""


class Chaos:
    def __init__(self, rng, hyg=False):
        self.r = rng
        self.calls = calls.Calls(rng)
        self.procs = rng.sample(PROCS, rng.choice([10, 60, len(PROCS)]))
        self.hyg = hyg
        self.codecs = rng.choice([0, 0, .3])
        self.pool = rng.sample(POOL, rng.choice([8, 25, len(POOL)]))

    def arg(self, d=0):
        r = self.r
        k = r.random()
        if d > 0 and k < .12:
            return self.call(d - 1)
        if d > 0 and k < .2:
            return self.calls.e(r.choice(['a', 'l', 's', 'v', 'i']), 1)
        return r.choice(self.pool)

    def call(self, d=2):
        r = self.r
        n, a, b = r.choice(self.procs)
        m = r.randint(a, b)
        if r.random() < .06:
            m = max(0, m + r.choice([-1, 1, 2]))
        return '(' + ' '.join([n] + [self.arg(d) for _ in range(m)]) + ')'

    def junk(self, d=3):
        """a random form headed by a syntactic keyword"""
        r = self.r
        k = r.random()
        if d <= 0 or k < .25:
            return r.choice(['x', 'y', '=>', 'else', '1', '()', '"s"', '...',
                             '#t', "'a", '#(x ,y)', '_', 'car', '(x 1)',
                             '((x 1) (y 2))', '(1 . 2)', ',@x', ',x', '`(1 ,x)',
                             '(lambda (x) x)', '#f', '(x y . z)'])
        if k < .7:
            k = r.choice(SYNTAX)
            if k == 'set!':     # the procedures themselves stay
                return '(set! %s %s)' % (r.choice(['x', 'y', '1', '(x)']),
                                         self.junk(d - 1))
            return '(' + ' '.join(
                [k] + [self.junk(d - 1) for _ in range(
                    r.randrange(5))]) + ')'
        if k < .8:
            return '(' + ' '.join(self.junk(d - 1) for _ in range(
                r.randrange(1, 4))) + (
                    ' . ' + self.junk(0) if r.random() < .2 else '') + ')'
        return self.arg(1)

    def mutate(self, f):
        """a well typed form with one atom or subform replaced"""
        r = self.r
        toks = _split(f.replace('(', ' ( ').replace(')', ' ) ')) \
            if '"' not in f and '#\\' not in f else None
        if not toks:
            return f
        js = [j for j, t in enumerate(toks) if t not in '()']
        if not js:
            return f
        toks[r.choice(js)] = self.arg(0)
        return ' '.join(toks)

    def pat(self, d, vs):
        """a random pattern or template, often wrong"""
        r = self.r
        k = r.random()
        if d <= 0 or k < .3:
            return r.choice(vs + ['1', '"s"', 'car', 'x', '()', '#f', '#()',
                                  '...', '_', 'else', ',x'])
        xs = [self.pat(d - 1, vs) for _ in range(r.choice((0, 1, 2, 3, 4)))]
        if xs and r.random() < .5:
            xs.insert(r.choice((len(xs), r.randrange(len(xs)) + 1)), '...')
            if r.random() < .1:
                xs.append('...')
        if k < .5:
            return '#(' + ' '.join(xs) + ')'
        if k < .6 and xs:
            return '(' + ' '.join(xs) + ' . ' + self.pat(0, vs) + ')'
        if k < .68:
            return r.choice("'`") + self.pat(d - 1, vs)
        return '(' + ' '.join(xs) + ')'

    def rules(self):
        r = self.r
        out = []
        for _ in range(r.choice((1, 1, 2, 3))):
            vs = r.sample(['a', 'b', 'c', 'd', 'y'], r.randrange(1, 5))
            p = self.pat(3, vs)
            if p[0] == '(' and r.random() < .95:
                p = '(_ ' + p[1:]
            t = r.choice(('%s', '%s', "'%s", '`%s', '(list . %s)')
                         ) % self.pat(3, vs)
            out.append(('(%s %s)' if r.random() < .97 else '(%s . %s)') % (p, t))
        return '(syntax-rules %s %s)' % (
            r.choice(('()', '()', '()', '(else)', '(a)', '(x . y)', 'x')),
            ' '.join(out))

    def args(self):
        r = self.r
        n = r.choice((0, 1, 2, 3, 3, 5))
        vs = ['1', '2', '"s"', 'x', 'y', 'else', 'car', '(1 2)']
        return ' '.join(self.pat(2, vs) for _ in range(n)) + (
            ' . ' + r.choice(('x', '1')) if n and r.random() < .08 else '')

    def macro(self):
        r = self.r
        k = r.random()
        if k < .6:
            n = r.choice(('m', 'm', 'm', 'car', 'x'))
            return '(%s ((%s %s)) %s)' % (
                r.choice(('let-syntax', 'letrec-syntax', 'let', 'let*')), n,
                self.rules(), ' '.join(
                    r.choice(('(m %s)', '(m %s)', '(m %s)', '(list (m %s))',
                              '(let ((a 1) (x m)) (m %s))', "(begin '(%s) m)",
                              '(write->s m)', '(apply m %s)',
                              '(expand-macro m %s)', '(set! m 1)',
                              '(let loop ((i 0)) (if (< i 3) (begin (m %s) '
                              '(loop (+ i 1)))))')).replace('%s', self.args())
                    for _ in range(r.choice((1, 2, 4)))).replace(
                        '(m', '(' + n))
        if k < .8:
            vs = ['a', 'b', 'c']
            return '(match %s %s)' % (
                r.choice(("'(%s)" % self.args(), self.arg(1))), ' '.join(
                    '(%s %s)' % (self.pat(3, vs), r.choice(('a', '(list a)',
                                                            '1', '')))
                    for _ in range(r.choice((0, 1, 2, 4)))))
        return '(begin (define-syntax %s %s) (m2 %s))' % (
            r.choice(('m2', 'm2', '(m2)', '1')), self.rules(), self.args())

    def env(self):
        """an environment, often malformed"""
        r = self.r

        def fr():
            k = r.random()
            n = r.randrange(4)
            if k < .2:
                return r.choice(('1', '()', '(x)', '"s"', '#t', '(1 . 2)',
                                 '((x))', '((x y) . 1)'))
            vs = [r.choice(('x', 'y', 'zz', 'car', 'if'))
                  if r.random() < .9 else r.choice(('1', '(x)', '()', '"s"'))
                  for _ in range(n)]
            f = '(' + ' '.join(vs) + (' . ' + r.choice(('x', '1')) if n and
                                      r.random() < .2 else '') + ')'
            if r.random() < .1:
                f = 'x'
            if r.random() < .2:
                n = max(0, n + r.choice((-1, 1)))
            a = ' '.join(str(r.randrange(9)) for _ in range(n))
            return '(%s%s)' % (f, (' ' + a if a else '') + (
                ' . 3' if r.random() < .15 else ''))
        x = '(' + ' '.join(fr() for _ in range(r.randrange(4)))
        x += ' . ' + r.choice(('1', 'x', '"s"')) if x != '(' and \
            r.random() < .15 else ''
        x = "'" + x + ')'
        return x if r.random() < .85 else '(let ((e (list-copy %s))) (%s '\
            'e e) e)' % (x, r.choice(('set-car!', 'set-cdr!', 'append!')))

    def envform(self):
        r = self.r
        if r.random() < .5:
            return "(symbol-bound? '%s %s)" % (
                r.choice(('x', 'y', 'nosuch', 'car', 'if')), self.env())
        return "(eval '%s %s)" % (r.choice((
            'x', '(set! x 3)', '(list x y)', 'zz', '(define zz 1)', 'if',
            '(let ((x 2)) (define y x) (+ x y))', '(lambda (x) zz)',
            '((lambda (y . x) (set! x y) x) 1 2)', '(if 1 2)', '(car zz)',
            '(let loop ((x 2)) (if (= x 0) y (loop (- x 1))))',
            '(begin (set! y 4) (%%current-environment))',
            '(do ((x 1 (+ x 1))) ((= x 3) y) 1)', 'nosuch')), self.env())

    def form(self):
        r = self.r
        k = r.random()
        if r.random() < .03:
            e = self.envform()
        elif self.hyg and r.random() < .5:
            e = '(let ((x 1) (y (list 2))) %s)' % self.macro()
        elif k < .6:
            e = self.call(2)
        elif k < .75:
            e = self.calls.e(r.choice(['a', 'l', 's', 'v', 'i', 'b']), 3)
        else:
            e = '(let ((x 1) (y (list 2))) %s)' % self.junk()
        if r.random() < self.codecs:
            e = '(with-char-codec "%s" (lambda () %s))' % (
                r.choice(['EUC-JP', 'EUC-KR', 'EUC-CN', 'Shift_JIS',
                          'ISO-8859-1', 'UTF-8']), e)
        return '(show (try (lambda () (call-with-values (lambda () %s) list))))' % e
