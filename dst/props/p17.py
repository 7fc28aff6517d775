"""P17 collections whose callbacks fail or escape."""
import inspect

from .. import util as U

PROP = 'P17'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt']
COUNT = {'quick': 8000, 'thorough': 300000}
CAP = {'quick': 300, 'thorough': 3000}
TECH = ('operation histories with an error, an escape or a collection at any '
        'callback')
RULE = ('a case is a history of operations on lists, vectors, association '
        'lists and hash tables (SRFI-1, 43, 69, 95 and R5RS) with procedures '
        'that raise, signal an error, escape, collect or run another '
        'operation at their n-th call, and a GC schedule; the values and the '
        'contents of all collections after each operation are compared with '
        'a model; it counts once per distinct event log')
ASSUME = ['the order of association lists made from hash tables, of lset-xor '
          'and of the calls of order-free operations is free',
          'an abandoned update of a hash table has happened or not, an '
          'abandoned vector-map! has replaced some of the elements',
          'the argument of an abandoned linear-update operation is lost']
PROBES = ['probe:list', 'probe:vector', 'probe:hash', 'probe:sort',
          'probe:raise', 'probe:error', 'probe:esc', 'probe:nest',
          'probe:resize']
SETUP = r"""
(require-extension (srfi 1 8 23 34 43 69 95))
(define tn 0) (define tm #f) (define tk #f) (define tt #f)
(define (t) (set! tn (- tn 1)) (if (= tn 0) (case tm
  ((raise) (raise 'boom)) ((error) (error "boom" tn)) ((esc) (tk '(esc)))
  ((gc) (sim-gc)) ((nest) (set! tt (nested))))))
(define (nested) (list (fold-right cons '() (list 1 2 3))
  (sort (list 3 1 2) <) (let ((h (make-hash-table equal? hash 1)))
   (hash-table-set! h "a" 1) (hash-table-set! h "b" 2)
   (hash-table-ref/default h "a" 0)) (map + '(1 2) '(3 4))))
(define (run n m th) (set! tn n) (set! tm m) (set! tt #f)
  (sim-log (let ((r (call/cc (lambda (k) (set! tk k)
    (guard (e ((eq? e 'boom) (list 'boom)) ((and (%%error-object? e) (<= tn 0)
       (eq? tm 'error)) (list 'boom)) (#t (list 'other e)))
      (let ((v (th))) (list 'ok v)))))))
   (cons (and (> n 0) (<= tn 0)) r)))
  (if (and tt (not (equal? tt '((1 2 3) (1 2 3) 1 (4 6))))) (sim-log 'nested)))
(define (dumph h) (set! tm #f) (for-each (lambda (p) (sim-log (list 'h (car p)
  (cdr p)))) (hash-table->alist h)) (sim-log (list 'n (hash-table-size h))))
"""
SETUP_CORE = SETUP.replace('(srfi 1 8 23 34 43 69 95)', '(srfi 8 23 34 69 95)') \
    .replace("(fold-right cons '() (list 1 2 3))",
             '(map (lambda (x) x) (list 1 2 3))') + r"""
(define (list-copy l) (append l '()))
"""
# without SRFI-1 and 43 these are primitives
CORE = {
    'map': ('(map {f} {l})', lambda f, l: [f(x) for x in l]),
    'map2': ('(map {f2} {l} (reverse {l}))',
             lambda f2, l: [f2(x, y) for x, y in zip(l, l[::-1])]),
    'map3': ('(map (lambda (x y z) (t) (list x y z)) {l} (reverse {l}) {l})',
             lambda l: [[x, y, x] for x, y in zip(l, l[::-1])]),
    'for-each': ("(let ((a '())) (for-each (lambda (x) (t) (set! a (cons x a)"
                 ")) {l}) a)", lambda l: l[::-1]),
    'for-each2': ("(let ((a '())) (for-each (lambda (x y) (t) (set! a (cons "
                  "(+ x y) a))) {l} (reverse {l})) a)",
                  lambda l: [x + y for x, y in zip(l, l[::-1])][::-1]),
    'mapmap': ('(map (lambda (x) (map (lambda (y) (t) (+ x y)) {m})) {l})',
               lambda l, m: [[x + y for y in m] for x in l]),
    'apply': ('(apply (lambda x (t) (reverse x)) {n} {l})',
              lambda n, l: ([n] + l)[::-1]),
    'apply2': ('(apply map list (map (lambda (x) (t) (list x (* x x))) (cons '
               '{n} {l})))', lambda n, l: [[n] + l, [x * x for x in [n] + l]]),
    'call-with-values': ('(call-with-values (lambda () (t) (apply values {l}))'
                         ' (lambda x (t) x))', lambda l: l),
    'receive': ('(receive (a . b) (begin (t) (apply values {n} {l})) (cons b '
                'a))', lambda n, l: P((l, n)) if l else P((l, n))),
    'vector': ('(begin (t) (list->vector (reverse (vector->list {v}))))',
               lambda v: ('v', v[::-1])),
}


class P(tuple):
    """a pair"""


def S(x):
    if x is True or x is False:
        return '#t' if x else '#f'
    if isinstance(x, int):
        return str(x)
    if isinstance(x, P):
        return '(%s . %s)' % (S(x[0]), S(x[1])) if not isinstance(x[1], list) \
            else S([x[0]] + x[1])
    if isinstance(x, list):
        return '(%s)' % ' '.join(map(S, x))
    if isinstance(x, tuple) and x[0] == 'v':
        return '#(%s)' % ' '.join(map(S, x[1]))
    if isinstance(x, tuple) and x[0] == 's':
        return '"%s"/%d' % (x[1], len(x[1]))
    raise TypeError(x)


def lit(x):
    """an expression for data"""
    if isinstance(x, P):
        return '(cons %s %s)' % (lit(x[0]), lit(x[1]))
    if isinstance(x, list):
        return '(list %s)' % ' '.join(map(lit, x))
    if isinstance(x, tuple) and x[0] == 'v':
        return '(vector %s)' % ' '.join(map(lit, x[1]))
    if isinstance(x, tuple) and x[0] == 's':
        return '(string-copy "%s")' % x[1]
    return S(x)


F = {'inc': ('(lambda (x) (t) (+ x 1))', lambda x: x + 1),
     'dbl': ('(lambda (x) (t) (* x 2))', lambda x: x * 2),
     'neg': ('(lambda (x) (t) (- x))', lambda x: -x)}
FL = {'two': ('(lambda (x) (t) (list x x))', lambda x: [x, x]),
      'evs': ("(lambda (x) (t) (if (even? x) (list x) '()))",
              lambda x: [x] if x % 2 == 0 else [])}
PR = {'even': ('(lambda (x) (t) (even? x))', lambda x: x % 2 == 0),
      'lt5': ('(lambda (x) (t) (< x 5))', lambda x: x < 5),
      'gt0': ('(lambda (x) (t) (> x 0))', lambda x: x > 0),
      'yes': ('(lambda (x) (t) #t)', lambda x: True),
      'no': ('(lambda (x) (t) #f)', lambda x: False),
      # true, but not #t
      'in': ("(lambda (x) (t) (memv x '(1 2 4 6 -3)))",
             lambda x: x in (1, 2, 4, 6, -3)),
      'zero': ('(lambda (x) (t) (and (> x 1) 0))', lambda x: x > 1)}
P2 = {'lt': ('(lambda (x y) (t) (< x y))', lambda x, y: x < y),
      'sum': ('(lambda (x y) (t) (even? (+ x y)))',
              lambda x, y: (x + y) % 2 == 0),
      'yes2': ('(lambda (x y) (t) #t)', lambda x, y: True)}
F2 = {'add': ('(lambda (x y) (t) (+ x y))', lambda x, y: x + y),
      'lin': ('(lambda (x y) (t) (- (* 2 x) y))', lambda x, y: 2 * x - y)}
KN = {'cons': ('(lambda (x a) (t) (cons x a))', lambda x, a: [x] + a),
      'skip': ('(lambda (x a) (t) (if (even? x) (cons x a) a))',
               lambda x, a: [x] + a if x % 2 == 0 else a)}
KN2 = {'cons2': ('(lambda (x y a) (t) (cons (- x y) a))',
                 lambda x, y, a: [x - y] + a)}
RED = {'add': F2['add'], 'mix': ('(lambda (x a) (t) (- (* 3 x) a))',
                                 lambda x, a: 3 * x - a)}
EQ = {'eq': ('(lambda (x y) (t) (= x y))', lambda x, y: x == y),
      'm5': ('(lambda (x y) (t) (= (modulo x 5) (modulo y 5)))',
             lambda x, y: x % 5 == y % 5),
      'seq': ('(lambda (x y) (t) (and (= x y) (list x)))',
              lambda x, y: x == y)}
LT = {'<': ('(lambda (x y) (t) (< x y))', lambda x: x),
      '>': ('(lambda (x y) (t) (> x y))', lambda x: -x),
      'm5<': ('(lambda (x y) (t) (< (modulo x 5) (modulo y 5)))',
              lambda x: x % 5),
      '<list': ('(lambda (x y) (t) (and (< x y) (list x y)))', lambda x: x)}
LTP = {'car<': ('(lambda (x y) (t) (< (car x) (car y)))', lambda x: x[0]),
       'car>': ('(lambda (x y) (t) (> (car x) (car y)))', lambda x: -x[0])}
IX = {'ix': ('(lambda (i x) (t) (+ (* 10 i) x))', lambda i, x: 10 * i + x),
      'sx': ('(lambda (i x) (t) (- x i))', lambda i, x: x - i)}
IX2 = {'ixy': ('(lambda (i x y) (t) (+ i (* 2 x) y))',
               lambda i, x, y: i + 2 * x + y)}
IK = {'ik': ('(lambda (i a x) (t) (cons (+ i x) a))',
             lambda i, a, x: [i + x] + a),
      'is': ('(lambda (i a x) (t) (if (even? i) (cons x a) a))',
             lambda i, a, x: [x] + a if i % 2 == 0 else a)}
IP = {'ip': ('(lambda (i x) (t) (even? (+ i x)))',
             lambda i, x: (i + x) % 2 == 0),
      'ips': ("(lambda (i x) (t) (and (even? (+ i x)) '()))",
              lambda i, x: (i + x) % 2 == 0)}
CB = {'f': F, 'fl': FL, 'p': PR, 'p2': P2, 'f2': F2, 'kn': KN, 'kn2': KN2,
      'red': RED, 'eq': EQ, 'lt': LT, 'ltp': LTP, 'ix': IX, 'ix2': IX2,
      'ik': IK, 'ip': IP}


def first(it, d=False):
    for x in it:
        return x
    return d


def span(p, l):
    n = first((i for i, x in enumerate(l) if not p(x)), len(l))
    return n


def dedup(eq, l):
    o = []
    for x in l:
        if not any(eq(y, x) for y in o):
            o.append(x)
    return o


def fold(k, a, l):
    for x in l:
        a = k(x, a)
    return a


def union(eq, l, m):
    # SRFI-1: the empty list yields the other
    if not l:
        return m
    for x in m:
        if not any(eq(y, x) for y in l):
            l = [x] + l
    return l


def ins(eq, l, xs):
    for x in xs:
        if not any(eq(y, x) for y in l):
            l = [x] + l
    return l


def has(eq, l, x):
    return any(eq(x, y) for y in l)


def bsearch(v, n):
    return n in v


# name: (expression, model[, flags]); placeholders: callbacks by table, l m o
# lists of integers, al an association list of integers, v w vectors, n k
# small integers; flag u: order is free, ! : works on a fresh copy anyway
LISTOPS = {
    'map': ('(map {f} {l})', lambda f, l: [f(x) for x in l]),
    'map2': ('(map {f2} {l} {m})',
             lambda f2, l, m: [f2(x, y) for x, y in zip(l, m)]),
    'map-in-order': ('(map-in-order {f} {l})',
                     lambda f, l: [f(x) for x in l]),
    'map!': ('(map! {f} (list-copy {l}))', lambda f, l: [f(x) for x in l]),
    'for-each': ("(let ((a '())) (for-each (lambda (x) (t) (set! a (cons x a)"
                 ")) {l}) a)", lambda l: l[::-1]),
    'for-each2': ("(let ((a '())) (for-each (lambda (x y) (t) (set! a (cons "
                  "(+ x y) a))) {l} {m}) a)",
                  lambda l, m: [x + y for x, y in zip(l, m)][::-1]),
    'fold': ("(fold {kn} '() {l})", lambda kn, l: fold(kn, [], l)),
    'fold2': ("(fold {kn2} '() {l} {m})",
              lambda kn2, l, m: fold(lambda p, a: kn2(p[0], p[1], a), [],
                                     list(zip(l, m)))),
    'fold-right': ("(fold-right {kn} '() {l})",
                   lambda kn, l: fold(kn, [], l[::-1])),
    'fold-right2': ("(fold-right {kn2} '() {l} {m})",
                    lambda kn2, l, m: fold(lambda p, a: kn2(p[0], p[1], a), [],
                                           list(zip(l, m))[::-1])),
    'pair-fold': ("(pair-fold (lambda (p a) (t) (cons (length p) a)) '() {l})",
                  lambda l: list(range(1, len(l) + 1))),
    'pair-fold-right': ("(pair-fold-right (lambda (p a) (t) (cons (length p) "
                        "a)) '() {l})", lambda l: list(range(len(l), 0, -1))),
    'reduce': ('(reduce {red} 77 {l})', lambda red, l: fold(
        red, l[0], l[1:]) if l else 77),
    'reduce-right': ('(reduce-right {red} 77 {l})', lambda red, l: fold(
        red, l[-1], l[:-1][::-1]) if l else 77),
    'unfold': ('(unfold (lambda (x) (t) (> x {n})) {f} (lambda (x) (+ x 1)) '
               '0)', lambda f, n: [f(x) for x in range(0, n + 1)]),
    'unfold-right': ('(unfold-right zero? {f} (lambda (x) (- x 1)) {n})',
                     lambda f, n: [f(x) for x in range(1, n + 1)]),
    'append-map': ('(append-map {fl} {l})',
                   lambda fl, l: [y for x in l for y in fl(x)]),
    'append-map2': ('(append-map (lambda (x y) (t) (list y x)) {l} {m})',
                    lambda l, m: [z for x, y in zip(l, m) for z in (y, x)]),
    'filter-map': ('(filter-map (lambda (x) (t) (and (even? x) (* x x))) {l})',
                   lambda l: [x * x for x in l if x % 2 == 0]),
    'filter': ('(filter {p} {l})', lambda p, l: [x for x in l if p(x)]),
    'filter!': ('(filter! {p} (list-copy {l}))',
                lambda p, l: [x for x in l if p(x)]),
    'remove': ('(remove {p} {l})', lambda p, l: [x for x in l if not p(x)]),
    'remove!': ('(remove! {p} (list-copy {l}))',
                lambda p, l: [x for x in l if not p(x)]),
    'partition': ('(call-with-values (lambda () (partition {p} {l})) list)',
                  lambda p, l: [[x for x in l if p(x)],
                                [x for x in l if not p(x)]]),
    'partition!': ('(call-with-values (lambda () (partition! {p} (list-copy '
                   '{l}))) list)', lambda p, l: [[x for x in l if p(x)],
                                                 [x for x in l if not p(x)]]),
    'delete': ('(delete {n} {l} {eq})',
               lambda n, l, eq: [x for x in l if not eq(n, x)]),
    'delete!': ('(delete! {n} (list-copy {l}) {eq})',
                lambda n, l, eq: [x for x in l if not eq(n, x)]),
    'delete-duplicates': ('(delete-duplicates {l} {eq})',
                          lambda l, eq: dedup(eq, l)),
    'delete-duplicates!': ('(delete-duplicates! (list-copy {l}) {eq})',
                           lambda l, eq: dedup(eq, l)),
    'find': ('(find {p} {l})', lambda p, l: first(x for x in l if p(x))),
    'find-tail': ('(find-tail {p} {l})', lambda p, l: first(
        l[i:] for i, x in enumerate(l) if p(x))),
    'take-while': ('(take-while {p} {l})', lambda p, l: l[:span(p, l)]),
    'take-while!': ('(take-while! {p} (list-copy {l}))',
                    lambda p, l: l[:span(p, l)]),
    'drop-while': ('(drop-while {p} {l})', lambda p, l: l[span(p, l):]),
    'span': ('(call-with-values (lambda () (span {p} {l})) list)',
             lambda p, l: [l[:span(p, l)], l[span(p, l):]]),
    'span!': ('(call-with-values (lambda () (span! {p} (list-copy {l}))) '
              'list)', lambda p, l: [l[:span(p, l)], l[span(p, l):]]),
    'break': ('(call-with-values (lambda () (break {p} {l})) list)',
              lambda p, l: [l[:span(lambda x: not p(x), l)],
                            l[span(lambda x: not p(x), l):]]),
    'break!': ('(call-with-values (lambda () (break! {p} (list-copy {l}))) '
               'list)', lambda p, l: [l[:span(lambda x: not p(x), l)],
                                      l[span(lambda x: not p(x), l):]]),
    'any': ('(any (lambda (x) (t) (and (> x {n}) (list x))) {l})',
            lambda n, l: first([x] for x in l if x > n)),
    'any2': ('(any {p2} {l} {m})',
             lambda p2, l, m: any(p2(x, y) for x, y in zip(l, m))),
    'every': ('(every (lambda (x) (t) (and (> x {n}) (list x))) {l})',
              lambda n, l: (all(x > n for x in l) and
                            ([l[-1]] if l else True))),
    'every2': ('(every {p2} {l} {m})',
               lambda p2, l, m: all(p2(x, y) for x, y in zip(l, m))),
    'list-index': ('(list-index {p} {l})', lambda p, l: first(
        i for i, x in enumerate(l) if p(x))),
    'list-index2': ('(list-index {p2} {l} {m})', lambda p2, l, m: first(
        i for i, (x, y) in enumerate(zip(l, m)) if p2(x, y))),
    'count': ('(count {p} {l})', lambda p, l: sum(map(p, l))),
    'count2': ('(count {p2} {l} {m})', lambda p2, l, m: sum(
        p2(x, y) for x, y in zip(l, m))),
    'list-tabulate': ('(list-tabulate {n} {f})',
                      lambda n, f: [f(x) for x in range(n)]),
    'member': ('(member {n} {l} {eq})', lambda n, l, eq: first(
        l[i:] for i, x in enumerate(l) if eq(n, x))),
    'assoc': ('(assoc {n} {al} {eq})',
              lambda n, al, eq: first(p for p in al if eq(n, p[0]))),
    'alist-delete': ('(alist-delete {n} {al} {eq})', lambda n, al, eq: [
        p for p in al if not eq(n, p[0])]),
    'alist-delete!': ('(alist-delete! {n} (alist-copy {al}) {eq})',
                      lambda n, al, eq: [p for p in al if not eq(n, p[0])]),
    'lset<=': ('(lset<= {eq} {l} {m})',
               lambda eq, l, m: all(has(eq, m, x) for x in l)),
    'lset=': ('(lset= {eq} {l} {m})',
              lambda eq, l, m: all(has(eq, m, x) for x in l) and
              all(has(eq, l, x) for x in m)),
    'lset-adjoin': ('(lset-adjoin {eq} {l} {n} {k})',
                    lambda eq, l, n, k: ins(eq, l, [n, k])),
    'lset-union': ('(lset-union {eq} {l} {m})', union),
    'lset-union!': ('(lset-union! {eq} (list-copy {l}) (list-copy {m}))',
                    union, 'u'),
    'lset-intersection': ('(lset-intersection {eq} {l} {m})',
                          lambda eq, l, m: [x for x in l if has(eq, m, x)]),
    'lset-intersection!': ('(lset-intersection! {eq} (list-copy {l}) {m})',
                           lambda eq, l, m: [x for x in l if has(eq, m, x)]),
    'lset-difference': ('(lset-difference {eq} {l} {m})',
                        lambda eq, l, m: [x for x in l if not has(eq, m, x)]),
    'lset-difference!': ('(lset-difference! {eq} (list-copy {l}) {m})',
                         lambda eq, l, m: [x for x in l
                                           if not has(eq, m, x)]),
    'lset-xor': ('(lset-xor {eq} (delete-duplicates {l} =) (delete-duplicates '
                 '{m} =))', lambda l, m, eq: [
                     x for x in dedup(lambda a, b: a == b, l)
                     if not has(eq, m, x)] + [
                     x for x in dedup(lambda a, b: a == b, m)
                     if not has(eq, l, x)], 'u'),
    'list=': ('(list= {eq} {l} {m})', lambda eq, l, m: len(l) == len(m) and
              all(eq(x, y) for x, y in zip(l, m))),
    'apply': ('(apply (lambda x (t) (reverse x)) {n} {l})',
              lambda n, l: ([n] + l)[::-1]),
    'call-with-values': ('(call-with-values (lambda () (t) (apply values {l}))'
                         ' (lambda x (t) x))', lambda l: l),
    'sort': ('(sort {l} {lt})', lambda l, lt: sorted(l, key=lt)),
    'sortp': ('(sort {al} {ltp})', lambda al, ltp: sorted(al, key=ltp)),
    'sortk': ('(sort {l} < {f})', lambda l, f: sorted(l, key=f)),
    'sort!': ('(sort! (list-copy {l}) {lt})',
              lambda l, lt: sorted(l, key=lt)),
    'sort!p': ('(sort! (list-copy {al}) {ltp})',
               lambda al, ltp: sorted(al, key=ltp)),
    'sort!same': ('(let* ((x (list-copy {l})) (y (sort! x {lt}))) (list '
                  '(eq? x y) x))', lambda l, lt: [True, sorted(l, key=lt)]),
    'sorted?': ('(sorted? {l} {lt})', lambda l, lt: all(
        not lt(y) < lt(x) for x, y in zip(l, l[1:]))),
    'merge': ('(merge (sort {l} {lt}) (sort {m} {lt}) {lt})',
              lambda l, m, lt: sorted(sorted(l, key=lt) + sorted(m, key=lt),
                                      key=lt)),
    'merge!': ('(merge! (sort {l} {lt}) (sort {m} {lt}) {lt})',
               lambda l, m, lt: sorted(sorted(l, key=lt) + sorted(m, key=lt),
                                       key=lt)),
}
VECOPS = {
    'vector-map': ('(vector-map {ix} {v})', lambda ix, v: (
        'v', [ix(i, x) for i, x in enumerate(v)])),
    'vector-map2': ('(vector-map {ix2} {v} {w})', lambda ix2, v, w: (
        'v', [ix2(i, x, y) for i, (x, y) in enumerate(zip(v, w))])),
    'vector-for-each': ("(let ((a '())) (vector-for-each (lambda (i x) (t) "
                        "(set! a (cons (+ i x) a))) {v}) a)",
                        lambda v: [i + x for i, x in enumerate(v)][::-1]),
    'vector-fold': ("(vector-fold {ik} '() {v})", lambda ik, v: fold(
        lambda p, a: ik(p[0], a, p[1]), [], list(enumerate(v)))),
    'vector-fold-right': ("(vector-fold-right {ik} '() {v})",
                          lambda ik, v: fold(
                              lambda p, a: ik(p[0], a, p[1]), [],
                              list(enumerate(v))[::-1])),
    'vector-count': ('(vector-count {ip} {v})', lambda ip, v: sum(
        ip(i, x) for i, x in enumerate(v))),
    'vector-index': ('(vector-index {p} {v})', lambda p, v: first(
        i for i, x in enumerate(v) if p(x))),
    'vector-skip': ('(vector-skip {p} {v})', lambda p, v: first(
        i for i, x in enumerate(v) if not p(x))),
    'vector-index2': ('(vector-index {p2} {v} {w})', lambda p2, v, w: first(
        i for i, (x, y) in enumerate(zip(v, w)) if p2(x, y))),
    'vector-index-right': ('(vector-index-right {p} {v})',
                           lambda p, v: first(
                               i for i in range(len(v) - 1, -1, -1)
                               if p(v[i]))),
    'vector-skip-right': ('(vector-skip-right {p} {v})',
                          lambda p, v: first(
                              i for i in range(len(v) - 1, -1, -1)
                              if not p(v[i]))),
    'vector-any': ('(vector-any (lambda (x) (t) (and (> x {n}) (list x))) '
                   '{v})', lambda n, v: first([x] for x in v if x > n)),
    'vector-every': ('(if (vector-every {p} {v}) #t #f)',
                     lambda p, v: all(p(x) for x in v)),
    'vector-every2': ('(vector-every {p2} {v} {w})', lambda p2, v, w: all(
        p2(x, y) for x, y in zip(v, w))),
    'vector=': ('(vector= {eq} {v} {w})', lambda eq, v, w: len(v) == len(w)
                and all(eq(x, y) for x, y in zip(v, w))),
    'vector-unfold': ('(vector-unfold {f} {n})', lambda f, n: (
        'v', [f(i) for i in range(n)])),
    'vector-unfold-seed': ('(vector-unfold (lambda (i s) (t) (values (+ i s) '
                           '(* 2 s))) {n} 1)', lambda n: (
                               'v', [i + 2 ** i for i in range(n)])),
    'vector-unfold-right': ('(vector-unfold-right (lambda (i s) (t) (values '
                            '(cons i s) (+ s 1))) {n} 0)', lambda n: (
                                'v', [P((i, n - 1 - i)) for i in range(n)])),
    'vector-binary-search': (
        '(let ((s (list->vector (delete-duplicates (sort (vector->list {v}) <)'
        ' =)))) (let ((i (vector-binary-search s {n} (lambda (x y) (t) (- x y)'
        ')))) (if i (= {n} (vector-ref s i)) (list #f))))',
        lambda v, n: True if n in v else [False]),
    'vector-copy': ('(if (< 0 (vector-length {v})) (begin (t) (vector-copy {v} '
                    '(quotient (vector-length {v}) 2))) (vector))', lambda v: ('v', v[len(v) // 2:])),
    'vector-append': ('(vector-append {v} (begin (t) {w}) {v})',
                      lambda v, w: ('v', v + w + v)),
    'reverse-vector->list': ('(begin (t) (reverse-vector->list {v}))',
                             lambda v: v[::-1]),
}
# these change the vectors
VECMUT = {
    'vector-map!': ('(vector-map! {ix} {v})', lambda ix, v: [
        ix(i, x) for i, x in enumerate(v)]),
    'vector-map!2': ('(vector-map! {ix2} {v} {w})', lambda ix2, v, w: [
        ix2(i, x, w[i]) if i < len(w) else x for i, x in enumerate(v)]),
    'vector-fill!': ('(vector-fill! {v} (begin (t) {n}))',
                     lambda v, n: [n] * len(v)),
    'vector-reverse!': ('(begin (t) (vector-reverse! {v}))',
                        lambda v: v[::-1]),
    'vector-copy!': ('(if (<= 1 (vector-length {w}) (vector-length {v})) (begin '
                     '(t) (vector-copy! {v} 0 {w})))',
                     lambda v, w: w + v[len(w):] if len(w) <= len(v) else v),
}
for _k in list(LISTOPS):
    if 'sort' in _k or 'merge' in _k:
        CORE[_k] = LISTOPS[_k]
OPS = {'core': CORE, 'list': LISTOPS, 'vector': VECOPS, 'vecmut': VECMUT}

TABLES = {
    # name: (expression with the size, key normalisation, kinds of keys)
    'equal': ('(make-hash-table equal? hash %d)', lambda k: k, 'isl'),
    'plain': ('(make-hash-table)', lambda k: k, 'isl'),
    'string': ('(make-hash-table string=? string-hash %d)', lambda k: k, 's'),
    'stringci': ('(make-hash-table string-ci=? string-ci-hash %d)',
                 lambda k: ('s', k[1].lower()), 's'),
    'int': ('(make-integer-hash-table %d)', lambda k: k, 'i'),
    'eqv': ('(make-hash-table eqv? hash %d)', lambda k: k, 'i'),
    'own': ('(make-hash-table (lambda (a b) (t) (= a b)) (lambda (k n) (t) '
            '(modulo k n)) %d)', lambda k: k, 'i'),
    'own10': ('(make-hash-table (lambda (a b) (t) (= (modulo a 10) (modulo b '
              '10))) (lambda (k n) (t) (modulo (modulo k 10) n)) %d)',
              lambda k: k % 10, 'i'),
    'ownstr': ('(make-hash-table string=? (lambda (k n) (t) (modulo '
               '(string-length k) n)) %d)', lambda k: k, 's'),
}


def rkey(r, kinds):
    k = r.choice(kinds)
    if k == 'i':
        return r.choice((r.randrange(-3, 12), r.randrange(-50, 200)))
    if k == 's':
        return ['s', r.choice(['', 'a', 'b', 'A', 'ab', 'Ab', 'ba', 'abc',
                               'xyz', 'q1', 'q2'])]
    return [r.randrange(3), r.randrange(3)]


def key(k):
    """the key of the case file as model data"""
    if isinstance(k, list) and k and k[0] == 's':
        return ('s', k[1])
    return k


def hk(norm, k):
    k = norm(k)
    return tuple(k) if isinstance(k, list) else k


HOPS = ['set', 'set', 'set', 'set', 'ref', 'refd', 'upd', 'upd', 'updd',
        'updd', 'del', 'del', 'exists', 'walk', 'fold', 'copy', 'merge',
        'keys', 'values', 'fromalist', 'alist', 'fill']


def ints(r, n=None):
    n = r.choice((0, 1, 2, 3, 5, 8, 13)) if n is None else n
    if r.random() < .05:
        n = r.choice((40, 64, 100))
    return [r.randrange(-4, 12) for _ in range(n)]


def gen(rng, i):
    r = rng
    c = {'L': [ints(r) for _ in range(3)],
         'A': [[[x, j] for j, x in enumerate(ints(r))] for _ in range(2)],
         'V': [ints(r) for _ in range(3)], 'H': [],
         'variant': r.choice(VARIANTS),
         'gc': U.gc_schedule(r, .5) + '\ngclimit 300', 'ops': []}
    for _ in range(r.choice((1, 2))):
        t = r.choice(sorted(TABLES))
        c['H'].append([t, r.choice((1, 1, 2, 3, 8))])
    c['core'] = r.random() < .2
    kinds = ['core', 'core', 'hash'] if c['core'] else r.choice([['list'], ['vector', 'vecmut'], ['hash'],
                      ['list', 'vector', 'vecmut', 'hash']])
    for _ in range(r.choice((3, 8, 15))):
        k = r.choice(kinds)
        at = r.choice((0, 0, 1, 2, 3, 5, 8, 13))
        mode = r.choice(['raise', 'error', 'esc', 'esc', 'gc', 'nest'])
        if k == 'hash':
            h = r.randrange(len(c['H']))
            ks = TABLES[c['H'][h][0]][2]
            op = r.choice(HOPS)
            a = [h, rkey(r, ks), r.randrange(100), r.randrange(len(c['H']))]
            if op == 'fill' or op == 'fromalist':
                a[1] = [rkey(r, ks) for _ in range(r.choice((2, 5, 12)))]
            c['ops'].append([k, op, at, mode, a])
            continue
        op = r.choice(sorted(OPS[k]))
        a = {}
        for q in inspect.signature(OPS[k][op][1]).parameters:
            if q in CB:
                a[q] = r.choice(sorted(CB[q]))
            elif q in 'lm':
                a[q] = 'l%d' % r.randrange(3)
            elif q == 'al':
                a[q] = 'a%d' % r.randrange(2)
            elif q in 'vw':
                a[q] = 'v%d' % r.randrange(3)
            else:
                a[q] = r.choice((0, 1, 2, 4, 6, 9))
        c['ops'].append([k, op, at, mode, a])
    return c


def hash_src(c, op, a):
    h, k, v, h2 = a
    ks = lit(key(k)) if op not in ('fill', 'fromalist') else ''
    H = 'h%d' % h
    return {
        'set': '(begin (hash-table-set! %s %s %d) 0)' % (H, ks, v),
        'ref': "(hash-table-ref %s %s (lambda () (t) 'none))" % (H, ks),
        'refd': "(hash-table-ref/default %s %s 'none)" % (H, ks),
        'upd': '(begin (hash-table-update! %s %s (lambda (x) (t) (+ x %d)) '
               '(lambda () (t) 7)) 0)' % (H, ks, v),
        'updd': '(begin (hash-table-update!/default %s %s (lambda (x) (t) (+ '
                'x 1)) %d) 0)' % (H, ks, v),
        'del': '(begin (hash-table-delete! %s %s) 0)' % (H, ks),
        'exists': '(hash-table-exists? %s %s)' % (H, ks),
        'walk': '(let ((s 0)) (hash-table-walk %s (lambda (k v) (t) (set! s '
                '(+ s v)))) s)' % H,
        'fold': '(hash-table-fold %s (lambda (k v a) (t) (+ (* 2 v) a)) 0)'
                % H,
        'copy': '(begin (set! %s (hash-table-copy %s)) 0)' % (H, H),
        'merge': '(begin (hash-table-merge! %s %s) 0)' % (H, 'h%d' % h2),
        'keys': '(length (hash-table-keys %s))' % H,
        'values': '(apply + (hash-table-values %s))' % H,
        'alist': '(length (hash-table->alist %s))' % H,
        'fill': '(begin %s 0)' % ' '.join(
            '(hash-table-set! %s %s %d)' % (H, lit(key(x)), v + j)
            for j, x in enumerate(k)) if op == 'fill' else '',
        'fromalist': '(begin (set! %s (alist->hash-table (list %s) '
                     '(hash-table-equivalence-function %s) '
                     '(hash-table-hash-function %s) 2)) 0)' % (
                         H, ' '.join('(cons %s %d)' % (lit(key(x)), v + j)
                                     for j, x in enumerate(k))
                         if op == 'fromalist' else '', H, H),
    }[op]


def shown_kv(k, v):
    return '(|h| %s %s)' % (S(k), S(v))


class Tab:
    """model of a hash table: normalised key -> (key, value)"""

    def __init__(self, kind):
        self.norm = TABLES[kind][1]
        self.d = {}

    def lines(self):
        return sorted(shown_kv(k, v) for k, v in self.d.values())


def hash_model(T, op, a):
    """(value or None if free, list of possible contents if abandoned)"""
    h, k, v, h2 = a
    t = T[h]
    N = t.norm
    old = dict(t.d)

    def put(d, k, v):
        n = hk(N, key(k))
        d[n] = (d[n][0] if n in d else key(k), v)
    if op == 'set':
        put(t.d, k, v)
        return 0, [old, dict(t.d)]
    if op in ('fill', 'fromalist'):
        if op == 'fromalist':
            t.d = {}
        alts = [old]
        # alist->hash-table updates, so that later entries win
        for j, x in enumerate(k):
            if op == 'fromalist' and hk(N, key(x)) in t.d:
                # the value of the first entry stays: update with identity
                continue
            put(t.d, x, v + j)
            if op == 'fill':
                alts.append(dict(t.d))
        return 0, alts
    if op in ('ref', 'refd'):
        n = hk(N, key(k))
        return (S(t.d[n][1]) if n in t.d else '|none|'), [old]
    if op in ('upd', 'updd'):
        n = hk(N, key(k))
        x = t.d[n][1] if n in t.d else 7 if op == 'upd' else v
        put(t.d, k, x + (v if op == 'upd' else 1))
        return 0, [old, dict(t.d)]
    if op == 'del':
        t.d.pop(hk(N, key(k)), None)
        return 0, [old, dict(t.d)]
    if op == 'exists':
        return hk(N, key(k)) in t.d, [old]
    if op == 'walk' or op == 'values':
        return sum(x for _, x in t.d.values()), [old]
    if op == 'fold':
        return sum(2 * x for _, x in t.d.values()), [old]
    if op in ('keys', 'alist'):
        return len(t.d), [old]
    if op == 'copy':
        return 0, [old]
    raise AssertionError(op)


def run(c, ctx):
    src = []
    L = {'l%d' % i: list(x) for i, x in enumerate(c['L'])}
    for i, x in enumerate(c['A']):
        L['a%d' % i] = [P((a, b)) for a, b in x]
    V = {'v%d' % i: list(x) for i, x in enumerate(c['V'])}
    for n, x in L.items():
        src.append('(define %s %s)' % (n, lit(x)))
    for n, x in V.items():
        src.append('(define %s %s)' % (n, lit(('v', x))))
    T = []
    for i, (k, size) in enumerate(c['H']):
        e = TABLES[k][0]
        src.append('(define h%d %s)' % (i, e % size if '%d' in e else e))
        T.append(Tab(k))
    src.append('(define (dump) (set! tm #f) (sim-log (list %s)) %s)' % (
        ' '.join(list(L) + list(V)),
        ' '.join('(dumph h%d)' % i for i in range(len(T)))))
    ops = []
    for op in c['ops']:
        k, name, at, mode, a = op
        if k == 'hash':
            if name == 'merge' and (a[3] == a[0] or
                                    c['H'][a[3]][0] != c['H'][a[0]][0]):
                continue
            e = hash_src(c, name, a)
        else:
            x = OPS[k][name]
            e = x[0].format(**{q: CB[q][w][0] if q in CB else w
                               for q, w in a.items()})
            if k == 'vecmut':
                e = '(begin %s 0)' % e
        ops.append(op)
        src.append("(run %d '%s (lambda () %s)) (dump)" % (at, mode, e))
    res = ctx.sim(c['variant'], U.scen(
        U.HEAP, 'cpu 8', 'maxallocs 4000000', 'op init', U.ev(
            SETUP_CORE if c['core'] else SETUP, True),
        'op snapshot', c['gc'], 'op gcgo', *[U.ev(x, True) for x in src],
        U.ev("(sim-log 'done)", True)))
    a = U.abnormal(res)
    if a:
        return [a]
    W = [x[2:] for x in U.logs(res)]
    if W[-1:] != ['|done|']:
        return ['unfinished: the history ends with %s' % W[-1:]]
    pos = 0
    for n, (k, name, at, mode, a) in enumerate(ops):
        where = 'op %d (%s)' % (n, name)
        ctx.count('probe:' + ('vector' if k == 'vecmut' else
                              'sort' if 'sort' in name or 'merge' in name and
                              k == 'list' else k))
        got = W[pos]
        pos += 1
        fired = got.startswith('(#t ')
        body = got[4:-1]
        if W[pos] == '|nested|':
            return ['nested: %s: an operation inside of it fails' % where]
        if fired:
            ctx.count('probe:' + mode)
        abort = fired and mode in ('raise', 'error', 'esc')
        if abort:
            want = '|esc|' if mode == 'esc' else '|boom|'
            if body != want:
                return ['swallowed: %s: %s gives %s' % (where, mode,
                                                        body[:100])]
        elif not body.startswith('|ok| '):
            return ['fails: %s gives %s' % (where, body[:200])]
        val = body[5:]
        # the values
        alts = None
        exp = None
        if k == 'hash':
            if name == 'merge':
                t, u = T[a[0]], T[a[3]]
                old, uo = dict(t.d), dict(u.d)
                for nk, (kk, vv) in uo.items():
                    t.d[nk] = (t.d[nk][0] if nk in t.d else kk, vv)
                exp = 0
                if abort:
                    alts = 'merge'
            else:
                exp, alts = hash_model(T, name, a)
        else:
            x = OPS[k][name]
            kw = {q: CB[q][w][1] if q in CB else L[w] if w in L else
                  V[w] if w in V else w for q, w in a.items()}
            exp = x[1](**kw)
            if k == 'vecmut':
                vold, vnew = V[a['v']], exp
                V[a['v']] = exp
                exp = 0
            elif len(x) > 2 and not abort:
                exp, val = sorted(map(S, exp)), sorted(
                    val[1:-1].split(' ') if val != '()' else [])
        if not abort:
            es = exp if isinstance(exp, str) else (
                exp if isinstance(val, list) else S(exp))
            if es != val:
                return ['value: %s gives %s, the model says %s' % (
                    where, str(val)[:200], str(es)[:200])]
        # the contents
        got = W[pos]
        pos += 1
        if abort and k == 'vecmut':
            ok = False
            # some elements have been replaced
            items = got[1:-1].split('#(')[1:]
            j = sorted(V).index(a['v'])
            w = [int(y) for y in items[j].strip(' )').split(' ')] \
                if items[j].strip(' )') else []
            ok = len(w) == len(vold) and (
                all(y in (p, q) for y, p, q in zip(w, vold, vnew)))
            if not ok:
                return ['contents: %s abandoned leaves %s' % (where, w)]
            V[a['v']] = w
        want = '(%s)' % ' '.join([S(x) for x in L.values()] +
                                 [S(('v', x)) for x in V.values()])
        if got != want:
            return ['contents: after %s the collections are %s, not %s' % (
                where, got[:300], want[:300])]
        for i, t in enumerate(T):
            lines = []
            while W[pos].startswith('(|h| '):
                lines.append(W[pos])
                pos += 1
            size = W[pos]
            pos += 1
            if size != '(|n| %d)' % len(lines):
                return ['size: after %s table %d has %d entries and says %s'
                        % (where, i, len(lines), size)]
            if len(lines) > c['H'][i][1]:
                ctx.count('probe:resize')
            lines.sort()
            cand = [t.d]
            if abort and k == 'hash' and i == a[0]:
                if alts == 'merge':
                    # each entry merged or not
                    cand = [{}]
                    g = set(lines)
                    d = {}
                    for nk in set(old) | set(uo):
                        o = [e for e in (
                            old.get(nk), t.d.get(nk)) if e and
                            shown_kv(*e) in g]
                        if o:
                            d[nk] = o[0]
                        elif nk in old:
                            d[nk] = old[nk]
                    cand = [d]
                else:
                    cand = alts
            for d in cand:
                if sorted(shown_kv(*e) for e in d.values()) == lines:
                    t.d = d
                    break
            else:
                return ['table: after %s table %d has %s, not %s' % (
                    where, i, ' '.join(lines)[:250],
                    ' '.join(sorted(shown_kv(*e) for e in
                                    cand[-1].values()))[:250])]
    return []


def simpler(c):
    if c['variant'] != 'compact':
        yield dict(c, variant='compact')
    if c['gc'] != 'gc none':
        yield dict(c, gc='gc none')
    O = c['ops']
    for j in range(len(O)):
        yield dict(c, ops=O[:j] + O[j + 1:])
    for j in range(len(O)):
        if O[j][2]:
            yield dict(c, ops=O[:j] + [O[j][:2] + [0] + O[j][3:]] + O[j + 1:])
        if O[j][3] != 'raise':
            yield dict(c, ops=O[:j] + [O[j][:3] + ['raise'] + O[j][4:]] +
                       O[j + 1:])
    for k in 'LVA':
        for j in range(len(c[k])):
            for i in range(len(c[k][j])):
                yield dict(c, **{k: c[k][:j] + [c[k][j][:i] +
                                                c[k][j][i + 1:]] +
                                 c[k][j + 1:]})
