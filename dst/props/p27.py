"""P27 a mutation is seen through every reference to the object, and only so."""
from .. import util as U
from ..iotext import prb

PROP = 'P27'
LEVEL = 'exploration'
TECH = ('histories of mutations of shared data with refused operations, '
        'escapes and GC schedules')
VARIANTS = ['compact', 'compact-opt', 'fatty-opt', 'hygienic']
COUNT = {'quick': 6000, 'thorough': 200000}
CAP = {'quick': 300, 'thorough': 3000}
RULE = ('a case is a history of up to 70 operations on eight variables whose '
        'strings, pairs, vectors, records, closures, hash tables and string '
        'ports are shared with each other: allocating, copying, taking apart, '
        'sharing, mutating through any path, refused mutations (constants, '
        'bad indices, ill typed), escapes from map and for-each; the contents '
        'of all variables and the identity of subobjects are compared with a '
        'model of the heap; it counts once per distinct event log')
ASSUME = ['append shares its last argument and list-tail, memq and assv their '
          'argument; everything else that R5RS calls newly allocated is',
          'the identity of empty strings and vectors and of quasiquoted '
          'constant tails is left open']
PROBES = ['probe:mutation', 'probe:refused', 'probe:shared', 'probe:eq',
          'probe:escape', 'probe:multibyte', 'probe:port', 'probe:table',
          'probe:closure', 'probe:record']
SETUP = r"""
(require-extension (srfi 1) (srfi 6) (srfi 8) (srfi 9) (srfi 34) (srfi 69))
(define-record-type rec (mkrec a b) rec? (a rec-a set-rec-a!) (b rec-b set-rec-b!))
(define (mkbox x) (lambda a (if (null? a) x (set! x (car a)))))
(define (show x)
  (cond ((hash-table? x) (cons 'table (map (lambda (k) (show
          (hash-table-ref/default x k 'none))) '(0 1 2 3))))
        ((rec? x) (list 'rec (show (rec-a x)) (show (rec-b x))))
        ((pair? x) (cons (show (car x)) (show (cdr x))))
        ((vector? x) (list->vector (map show (vector->list x))))
        ((procedure? x) (list 'box (show (x))))
        ((or (symbol? x) (number? x) (boolean? x) (null? x) (char? x)
             (string? x)) x)
        (else (list 'port (get-output-string x)))))
(define-syntax try (syntax-rules () ((_ x) x)))
(define (op i t)
  (let ((x (guard (e ((%%error-object? e) 'caught)) (t) 'ok)))
    (sim-log (list 'o i x))))
(define v0 0) (define v1 1) (define v2 2) (define v3 3)
(define v4 4) (define v5 5) (define v6 6) (define v7 7)
(define (all i) (sim-log (list 'a i (map show (list v0 v1 v2 v3 v4 v5 v6 v7)))))
(define (box-do n)
  (do ((i 0 (+ i 1)) (l '() (cons (lambda a (if (null? a) i (set! i (car a)))) l)))
      ((= i n) l)))
(define (box-let n)
  (let lp ((i 0) (l '()))
    (if (= i n) l
        (lp (+ i 1) (cons (lambda a (if (null? a) i (set! i (car a)))) l)))))
(define (box-def n)
  (if (= n 0) '()
      (let ()
        (define x (- n 1))
        (define (f . a) (if (null? a) x (set! x (car a))))
        (cons f (box-def x)))))
(define (box-map n)
  (map (lambda (i) (lambda a (if (null? a) i (set! i (car a))))) (iota n)))
(define (rest . r) r)
(define (rest1 a . r) r)
(define (opt a b) (list b a))
"""
SETUP = SETUP.replace('(define-syntax try (syntax-rules () ((_ x) x)))\n', '')
NV = 8
KINDS = ['newstr', 'newlist', 'newvec', 'newrec', 'newbox', 'boxes', 'newtab', 'newport',
         'lit', 'alias', 'alias', 'fetch', 'fetch', 'strcopy', 'substr',
         'strapp', 'list2str', 'str2list', 'vec2list', 'list2vec', 'listcopy',
         'reverse', 'append', 'tail', 'cons', 'cons', 'map', 'applylist',
         'rest', 'receive', 'qq', 'qqv', 'getout', 'symstr', 'memq', 'assv',
         'strset', 'strset', 'strset', 'strfill', 'setcar', 'setcar', 'setcdr',
         'vecset', 'vecset', 'vecfill', 'recset', 'boxset', 'tabset',
         'tabdel', 'portout', 'eq', 'eq', 'eq', 'bad', 'badtype', 'escape',
         'foreach', 'inport', 'all', 'churn', 'appendx', 'reversex', 'swap']
CH = ['a', 'z', '0', '\u00e9', '\u3042', '\U0001f600', ' ', '(']


class O:
    """an object of the model"""
    def __init__(self, t, v, imm=0):
        self.t, self.v, self.imm = t, v, imm    # imm: 0 no, 1 yes, 2 unknown


class Refused(Exception):
    pass


def isatom(x):
    return not isinstance(x, O)


def kids(o):
    return [] if isatom(o) or o.t in ('s', 'out') else \
        [x for x in o.v.values()] if o.t == 't' else o.v


def size(x, n=0):
    """of the printed tree"""
    n += 1
    if n > 400:
        return n
    if not isatom(x):
        if x.t in ('s', 'out'):
            return n + len(x.v) // 4
        for k in kids(x):
            n = size(k, n)
            if n > 400:
                return n
    return n


def reach(x, y):
    """is y reachable from x?"""
    seen, st = set(), [x]
    while st:
        z = st.pop()
        if z is y:
            return True
        if isatom(z) or id(z) in seen:
            continue
        seen.add(id(z))
        st += kids(z)
    return False


def atom(x):
    return x if isinstance(x, str) else str(x)


def prs(s):
    return '"%s"/%d' % (prb(''.join(s).encode()), len(s))


def pr(x):
    if isatom(x):
        return PRA.get(x, x)
    if x.t == 's':
        return prs(x.v)
    if x.t == 'out':
        return '(|port| %s)' % prs(x.v)
    if x.t == 'v':
        return '#(%s)' % ' '.join(map(pr, x.v))
    if x.t == 'r':
        return '(|rec| %s %s)' % (pr(x.v[0]), pr(x.v[1]))
    if x.t == 'b':
        return '(|box| %s)' % pr(x.v[0])
    if x.t == 't':
        return '(|table| %s)' % ' '.join(
            pr(x.v[k]) if k in x.v else '|none|' for k in range(4))
    out = []
    while not isatom(x) and x.t == 'p':
        out.append(pr(x.v[0]))
        x = x.v[1]
    if x == '()':
        return '(%s)' % ' '.join(out)
    # (the tail prints as part of the list if show makes a list of it)
    t = pr(x)
    if t[0] == '(':
        return '(%s %s)' % (' '.join(out), t[1:-1])
    return '(%s . %s)' % (' '.join(out), t)


PRA = {'sym': '|sym|', "#\\a": '#\\x61'}
ATOMS = ['1', '-7', '#t', '#f', 'sym', '()', '#\\a', '12345']


def src(a):
    return "'" + a if a in ('sym', '()') else a


def mklist(xs, tail='()', imm=0):
    for x in reversed(xs):
        tail = O('p', [x, tail], imm)
    return tail


def items(x):
    """the elements of a proper list, or None"""
    out = []
    while not isatom(x) and x.t == 'p':
        out.append(x.v[0])
        x = x.v[1]
        if len(out) > 300:
            return None
    return out if x == '()' else None


class Walk:
    def __init__(self, c, ctx=None):
        self.var = [str(i) for i in range(NV)]
        self.out, self.want = [], []
        self.ctx = ctx
        for j, o in enumerate(c['ops']):
            self.j = j
            self.a = list(o[1:])
            try:
                f = getattr(self, o[0])()
                r = 'ok'
            except Refused as e:
                f, r = e.args[0], 'caught'
                self.P('refused')
            if f is None:
                continue
            self.out.append('(op %d (lambda () %s))' % (j, f))
            self.want.append('(|o| %d |%s|)' % (j, r))
            self.extra()
            if j % 6 == 5:
                self.all()
        self.j = 999
        self.all()

    def P(self, x):
        if self.ctx:
            self.ctx.count('probe:' + x)

    def extra(self):
        pass

    # -- choices
    def n(self, m):
        """the next random number of the operation, below m"""
        x = self.a.pop(0)
        return x % m if m else 0

    def paths(self, t=None):
        """(expression, object) of everything reachable by short paths"""
        out, q = [], [('v%d' % i, self.var[i], 0) for i in range(NV)]
        while q and len(out) < 120:
            e, o, d = q.pop(0)
            if t is None or (not isatom(o) and o.t in t):
                out.append((e, o))
            if isatom(o) or d > 3:
                continue
            if o.t == 'p':
                q += [('(car %s)' % e, o.v[0], d + 1),
                      ('(cdr %s)' % e, o.v[1], d + 1)]
            elif o.t == 'v':
                q += [('(vector-ref %s %d)' % (e, i), x, d + 1)
                      for i, x in enumerate(o.v[:4])]
            elif o.t == 'r':
                q += [('(rec-a %s)' % e, o.v[0], d + 1),
                      ('(rec-b %s)' % e, o.v[1], d + 1)]
            elif o.t == 'b':
                q += [('(%s)' % e, o.v[0], d + 1)]
            elif o.t == 't':
                q += [('(hash-table-ref/default %s %d #f)' % (e, k), x, d + 1)
                      for k, x in sorted(o.v.items())]
        return out

    def pick(self, t=None):
        ps = self.paths(t)
        x = self.n(len(ps))
        return ps[x] if ps else (None, None)

    def val(self):
        """an expression for any value: a reference or an atom"""
        if self.n(3) == 0:
            a = ATOMS[self.n(len(ATOMS))]
            return src(a), a
        return self.pick()

    def bind(self, e, o):
        if size(o) > 300:
            return None
        i = self.n(NV)
        self.var[i] = o
        return '(set! v%d %s)' % (i, e)

    def ch(self):
        c = CH[self.n(len(CH))]
        if c > '\x7f':
            self.P('multibyte')
        return '#\\' + {' ': 'space'}.get(c, c), c

    def mutate(self, e, o, x, f, g):
        """f: the form, g: changes the model. x: what is stored in o"""
        if o.imm == 2:
            return None
        if o.imm == 1:
            raise Refused(f)
        if x is not None and reach(x, o):
            return None         # (no cycles)
        old = dict(o.v) if o.t == 't' else list(o.v)
        g()
        if any(size(v) > 300 for v in self.var):
            o.v = old
            return None
        self.P('mutation')
        if sum(y is o for _, y in self.paths()) > 1:
            self.P('shared')
        return f

    # -- operations
    def all(self):
        self.out.append('(all %d)' % self.j)
        self.want.append('(|a| %d (%s))' % (self.j, ' '.join(
            pr(v) for v in self.var)))

    def churn(self):
        return '(vector-fill! (make-vector %d (list 1)) (make-string 3 #\\q))' \
            % self.n(60)

    def newstr(self):
        e, c = self.ch()
        n = self.n(6)
        return self.bind('(make-string %d %s)' % (n, e), O('s', [c] * n))

    def newlist(self):
        vs = [self.val() for _ in range(self.n(4))]
        return self.bind('(list %s)' % ' '.join(e for e, _ in vs),
                         mklist([o for _, o in vs]))

    def newvec(self):
        vs = [self.val() for _ in range(self.n(4))]
        if self.n(3) == 0 and vs:
            return self.bind('(make-vector %d %s)' % (len(vs), vs[0][0]),
                             O('v', [vs[0][1]] * len(vs)))
        return self.bind('(vector %s)' % ' '.join(e for e, _ in vs),
                         O('v', [o for _, o in vs]))

    def newrec(self):
        (e, o), (f, p) = self.val(), self.val()
        self.P('record')
        return self.bind('(mkrec %s %s)' % (e, f), O('r', [o, p]))

    def newbox(self):
        e, o = self.val()
        self.P('closure')
        return self.bind('(mkbox %s)' % e, O('b', [o]))

    def boxes(self):
        """closures over the bindings of a loop"""
        n, k = self.n(4), self.n(4)
        bs = [O('b', [str(i)]) for i in range(n)]
        return self.bind('(box-%s %d)' % (('do', 'let', 'def', 'map')[k], n),
                         mklist(bs if k == 3 else bs[::-1]))

    def newtab(self):
        self.P('table')
        return self.bind('(make-hash-table =)', O('t', {}))

    def newport(self):
        self.P('port')
        return self.bind('(open-output-string)', O('out', []))

    def lit(self):
        k = self.n(4)
        if k == 0:
            return self.bind('"a\u3042c"', O('s', list('a\u3042c'), 1))
        if k == 1:
            return self.bind("'(1 \"x\" (sym))", mklist(
                ['1', O('s', ['x'], 1), mklist(['sym'], imm=2)], imm=2))
        if k == 2:
            return self.bind("'#(1 \"x\")", O('v', ['1', O('s', ['x'], 1)], 2))
        return self.bind("'((sym . \"q\") (1 . #(-7)))", mklist([
            O('p', ['sym', O('s', ['q'], 1)], 2),
            O('p', ['1', O('v', ['-7'], 2)], 2)], imm=2))

    def alias(self):
        i = self.n(NV)
        return self.bind('v%d' % i, self.var[i])

    def swap(self):
        i, j = self.n(NV), self.n(NV)
        self.var[i], self.var[j] = self.var[j], self.var[i]
        return '(let ((x v%d)) (set! v%d v%d) (set! v%d x))' % (i, i, j, j)

    def fetch(self):
        e, o = self.pick()
        return self.bind(e, o)

    def strcopy(self):
        e, o = self.pick('s')
        return e and self.bind('(string-copy %s)' % e, O('s', list(o.v)))

    def substr(self):
        e, o = self.pick('s')
        if not e:
            return None
        i = self.n(len(o.v) + 1)
        j = i + self.n(len(o.v) - i + 1)
        return self.bind('(substring %s %d %d)' % (e, i, j), O('s', o.v[i:j]))

    def strapp(self):
        vs = [self.pick('s') for _ in range(self.n(3))]
        if any(e is None for e, _ in vs):
            return None
        return self.bind('(string-append %s)' % ' '.join(e for e, _ in vs),
                         O('s', sum((o.v for _, o in vs), [])))

    def str2list(self):
        e, o = self.pick('s')
        if not e or any(c != 'a' for c in o.v):
            return None
        return self.bind('(string->list %s)' % e, mklist(['#\\a'] * len(o.v)))

    def list2str(self):
        e, c = self.ch()
        return self.bind('(list->string (list %s #\\a))' % e, O('s', [c, 'a']))

    def vec2list(self):
        e, o = self.pick('v')
        return e and self.bind('(vector->list %s)' % e, mklist(o.v))

    def plist(self):
        """a path to a proper list"""
        ps = [(e, items(o)) for e, o in self.paths() if o == '()' or (
            not isatom(o) and o.t == 'p')]
        ps = [(e, o) for e, o in ps if o is not None]
        x = self.n(len(ps))
        return ps[x] if ps else (None, None)

    def list2vec(self):
        e, o = self.plist()
        return e and self.bind('(list->vector %s)' % e, O('v', o))

    def listcopy(self):
        e, o = self.plist()
        return e and self.bind('(list-copy %s)' % e, mklist(o))

    def reverse(self):
        e, o = self.plist()
        return e and self.bind('(reverse %s)' % e, mklist(o[::-1]))

    def append(self):
        vs = [self.plist() for _ in range(self.n(2) + 1)]
        if any(e is None for e, _ in vs):
            return None
        e, o = self.val()
        return self.bind('(append %s %s)' % (' '.join(x for x, _ in vs), e),
                         mklist(sum((y for _, y in vs), []), o))

    def appendx(self):
        """append! in a way that leaves nothing open"""
        e, o = self.pick('p')
        if not e:
            return None
        z, ps = o, []
        while not isatom(z) and z.t == 'p':
            ps.append(z)
            z = z.v[1]
        f, p = self.val()
        if z != '()' or any(x.imm == 2 for x in ps):
            return None
        last = ps[-1]
        s = '(append! %s %s)' % (e, f)
        if p == '()' and last.imm:
            return None
        return self.mutate(e, last, p, s, lambda: last.v.__setitem__(1, p))

    def reversex(self):
        e, c = self.ch()
        return self.bind('(reverse! (list %s 1 2))' % 'v0',
                         mklist(['2', '1', self.var[0]]))

    def tail(self):
        e, o = self.plist()
        if not e:
            return None
        k = self.n(len(o) + 1)
        x = next(y for f, y in self.paths() if f == e)
        for _ in range(k):
            x = x.v[1]
        return self.bind('(list-tail %s %d)' % (e, k), x)

    def cons(self):
        (e, o), (f, p) = self.val(), self.val()
        return self.bind('(cons %s %s)' % (e, f), O('p', [o, p]))

    def map(self):
        e, o = self.plist()
        if not e:
            return None
        k = self.n(3)
        if k == 0:
            return self.bind('(map (lambda (x) x) %s)' % e, mklist(o))
        if k == 1:
            return self.bind('(map cons %s %s)' % (e, e), mklist(
                [O('p', [x, x]) for x in o]))
        return self.bind('(map list %s)' % e, mklist([mklist([x]) for x in o]))

    def applylist(self):
        e, o = self.plist()
        k = self.n(3)
        if not e or len(o) > 100:
            return None
        if k == 0:
            return self.bind('(apply list %s)' % e, mklist(o))
        if k == 1:
            return self.bind('(apply vector 1 %s)' % e, O('v', ['1'] + o))
        return self.bind('(apply rest 1 %s)' % e, mklist(['1'] + o))

    def rest(self):
        e, o = self.plist()
        if not e or len(o) > 100:
            return None
        if self.n(2) and o:
            return self.bind('(apply rest1 %s)' % e, mklist(o[1:]))
        return self.bind('(apply rest %s)' % e, mklist(o))

    def receive(self):
        e, o = self.plist()
        if not e or len(o) > 100:
            return None
        return self.bind('(receive r (apply values %s) r)' % e, mklist(o))

    def qq(self):
        e, o = self.val()
        f, p = self.plist()
        if not f:
            return None
        k = self.n(3)
        if k == 0:
            return self.bind('`(1 ,%s ,@%s sym)' % (e, f),
                             mklist(['1', o] + p + ['sym'], imm=2))
        if k == 1:
            return self.bind('`((,%s) . sym)' % e, O('p', [mklist(
                [o], imm=2), 'sym'], 2))
        return self.bind('`(,@%s (1 ,@%s))' % (f, f), mklist(
            p + [mklist(['1'] + p, imm=2)], imm=2))

    def qqv(self):
        e, o = self.val()
        f, p = self.plist()
        return f and self.bind('`#(1 ,%s ,@%s sym)' % (e, f),
                               O('v', ['1', o] + p + ['sym'], 2))

    def symstr(self):
        if self.n(2):
            return self.bind("(symbol->string 'sym)", O('s', list('sym'), 1))
        return self.bind('(number->string -7)', O('s', list('-7')))

    def memq(self):
        e, o = self.plist()
        if not o:
            return None
        k = self.n(len(o))
        x = next(y for f, y in self.paths() if f == e)
        t = o[k]
        if isatom(t):
            if not t.lstrip('-').isdigit() and t not in ('sym', '#t', '#f'):
                return None
        elif not t.v:
            return None
        while not (x.v[0] is t or isatom(t) and x.v[0] == t):
            x = x.v[1]
        k = 0
        return self.bind('(memq (list-ref %s %d) %s)' % (
            e, next(i for i, y in enumerate(o) if y is t or isatom(t) and
                    y == t), e), x)

    def assv(self):
        ps = [(e, o, items(o)) for e, o in self.paths('p')]
        ps = [(e, o, i) for e, o, i in ps if i and all(
            not isatom(x) and x.t == 'p' for x in i)]
        n = self.n(len(ps))
        if not ps:
            return None
        e, o, i = ps[n]
        for x in i:
            if x.v[0] == 'sym':
                return self.bind("(assv 'sym %s)" % e, x)
        return self.bind("(assv 'sym %s)" % e, '#f')

    def strset(self):
        e, o = self.pick('s')
        if not e or not o.v:
            return None
        s, c = self.ch()
        k = self.n(len(o.v))
        return self.mutate(e, o, None, '(string-set! %s %d %s)' % (e, k, s),
                           lambda: o.v.__setitem__(k, c))

    def strfill(self):
        e, o = self.pick('s')
        if not e or not o.v:
            return None
        s, c = self.ch()
        return self.mutate(e, o, None, '(string-fill! %s %s)' % (e, s),
                           lambda: o.v.__setitem__(slice(None), [c] * len(o.v)))

    def setcar(self):
        (e, o), (f, p) = self.pick('p'), self.val()
        return e and self.mutate(e, o, p, '(set-car! %s %s)' % (e, f),
                                 lambda: o.v.__setitem__(0, p))

    def setcdr(self):
        (e, o), (f, p) = self.pick('p'), self.val()
        return e and self.mutate(e, o, p, '(set-cdr! %s %s)' % (e, f),
                                 lambda: o.v.__setitem__(1, p))

    def vecset(self):
        (e, o), (f, p) = self.pick('v'), self.val()
        if not e or not o.v:
            return None
        k = self.n(len(o.v))
        return self.mutate(e, o, p, '(vector-set! %s %d %s)' % (e, k, f),
                           lambda: o.v.__setitem__(k, p))

    def vecfill(self):
        (e, o), (f, p) = self.pick('v'), self.val()
        if not e or not o.v:
            return None
        return self.mutate(e, o, p, '(vector-fill! %s %s)' % (e, f),
                           lambda: o.v.__setitem__(slice(None), [p] * len(o.v)))

    def recset(self):
        (e, o), (f, p) = self.pick('r'), self.val()
        k = self.n(2)
        return e and self.mutate(e, o, p, '(set-rec-%s! %s %s)' % (
            'ab'[k], e, f), lambda: o.v.__setitem__(k, p))

    def boxset(self):
        (e, o), (f, p) = self.pick('b'), self.val()
        return e and self.mutate(e, o, p, '(%s %s)' % (e, f),
                                 lambda: o.v.__setitem__(0, p))

    def tabset(self):
        (e, o), (f, p) = self.pick('t'), self.val()
        k = self.n(4)
        return e and self.mutate(e, o, p, '(hash-table-set! %s %d %s)' % (
            e, k, f), lambda: o.v.__setitem__(k, p))

    def tabdel(self):
        e, o = self.pick('t')
        k = self.n(4)
        return e and self.mutate(e, o, None, '(hash-table-delete! %s %d)' % (
            e, k), lambda: o.v.pop(k, None))

    def portout(self):
        (e, o), (f, p) = self.pick(('out',)), self.pick('s')
        if not e or not f or len(o.v) > 30:
            return None
        return self.mutate(e, o, None, '(display %s %s)' % (f, e),
                           lambda: o.v.extend(p.v))

    def getout(self):
        e, o = self.pick(('out',))
        return e and self.bind('(get-output-string %s)' % e,
                               O('s', list(o.v)))

    def inport(self):
        """what a port was opened on is read, whatever happens to the string"""
        e, o = self.pick('s')
        if not e or not o.v:
            return None
        self.P('port')
        s, c = self.ch()
        m = '(string-set! %s 0 %s)' % (e, s) if not o.imm else ''
        i = self.n(NV)
        old = list(o.v)
        was = self.var[i]
        f = '(let* ((s %s) (p (open-input-string s)) (c (read-char p))) %s ' \
            '(make-vector 9 1) (set! v%d (list->string (cons c (let lp () (let '\
            '((c (read-char p))) (if (eof-object? c) (list) (cons c (lp)))))))'\
            '))' % (e, m.replace(e, 's', 1), i)
        if not o.imm:
            o.v[0] = c
        self.var[i] = O('s', old)
        return f

    def eq(self):
        (e, o), (f, p) = self.pick(), self.pick()
        if isatom(o) or isatom(p) or o.imm == 2 or p.imm == 2 or \
                not o.v and o.t in 'sv':
            return None
        self.P('eq')
        g = ('eq?', 'eqv?')[self.n(2)]
        self.out.append('(sim-log (list %d (%s %s %s)))' % (self.j, g, e, f))
        self.want.append('(%d %s)' % (self.j, '#t' if o is p else '#f'))
        return '#f'

    def bad(self):
        """a refused operation changes nothing"""
        e, o = self.pick('svp')
        if not e:
            return None
        k = self.n(4)
        if o.t == 's':
            raise Refused(['(string-set! %s %d #\\b)' % (e, len(o.v)),
                           '(string-set! %s -1 #\\b)' % e,
                           '(string-set! %s 0 98)' % e,
                           '(string-fill! %s "b")' % e][k])
        if o.t == 'v':
            raise Refused(['(vector-set! %s %d 9)' % (e, len(o.v)),
                           '(vector-set! %s -1 9)' % e,
                           "(vector-set! %s 'a 9)" % e,
                           '(vector-set! %s 0)' % e][k])
        raise Refused(['(set-car! %s)' % e, '(set-cdr! %s 1 2)' % e,
                       '(set-car! %s (car 5))' % e,
                       '(list-tail %s 9999)' % e][k])

    def badtype(self):
        e, o = self.pick()
        k = self.n(4)
        t = None if isatom(o) else o.t
        f, bad = [('(string-set! %s 0 #\\b)' % e, t != 's'),
                  ('(set-car! %s 9)' % e, t != 'p'),
                  ('(set-cdr! %s 9)' % e, t != 'p'),
                  ('(string-append %s "a")' % e, t != 's')][k]
        if not bad:
            return None
        raise Refused(f)

    def escape(self):
        """an escape from within a mutating loop"""
        e, o = self.plist()
        if not o:
            return None
        k = self.n(len(o))
        i = self.n(NV)
        got = mklist(o[:k][::-1])
        m = self.n(2)
        if size(got) > 300:
            return None
        self.P('escape')
        f = '(let ((i 0) (a (list))) (call/cc (lambda (k) (%s (lambda (x) (if '\
            '(= i %d) (k 1)) (set! i (+ i 1)) (set! a (cons x a)) x) %s))) ' \
            '(set! v%d a))' % (('for-each', 'for-each')[m], k, e, i)
        self.var[i] = got
        return f

    def foreach(self):
        """mutate the elements of a list one by one"""
        ps = [(e, o, items(o)) for e, o in self.paths('p')]
        ps = [x for x in ps if x[2] and all(
            not isatom(y) and y.t == 'p' and not y.imm for y in x[2])]
        n = self.n(len(ps))
        (f, p) = self.val()
        if not ps:
            return None
        e, o, i = ps[n]
        if any(reach(p, y) for y in i):
            return None
        z = o
        while not isatom(z):
            if any(y is z for y in i):
                return None     # (the loop would change what it goes along)
            z = z.v[1]
        old = [(y, list(y.v)) for y in i]
        for y in i:
            y.v[0] = p
        if any(size(v) > 300 for v in self.var) or items(o) is None:
            for y, v in old:
                y.v = v
            return None
        self.P('mutation')
        return '(let ((z %s)) (for-each (lambda (x) (set-car! x z)) %s))' % (
            f, e)


def gen(rng, i):
    r = rng
    ks = list(KINDS)
    for _ in range(4):
        ks += [r.choice(KINDS)] * 3
    if r.random() < .5:
        mut = [k for k in KINDS if k in (
            'strset', 'strfill', 'setcar', 'setcdr', 'vecset', 'recset',
            'boxset', 'tabset', 'foreach', 'appendx')]
        ks += mut * 2
    ops = [[r.choice(ks[:15]) if j < 6 else r.choice(ks)] +
           [r.randrange(9999) for _ in range(16)]
           for j in range(r.choice((12, 30, 50, 70)))]
    return {'ops': ops, 'variant': r.choice(VARIANTS),
            'heap': r.choice([U.HEAP, 'heap 1024 256 512 1 16']),
            'gc': U.gc_schedule(r, .7) + '\ngclimit 400'}


def run(c, ctx):
    w = Walk(c, ctx)
    ev = [U.ev('\n'.join(w.out[i:i + 40]), True)
          for i in range(0, len(w.out), 40)]
    r = ctx.sim(c['variant'], U.scen(
        c['heap'], 'cpu 6', 'maxallocs 2000000', 'quietio', 'op init',
        U.ev(SETUP, True), c['gc'], 'op gcgo', *ev, 'op fini'))
    e = U.abnormal(r)
    if e:
        return [e]
    got = [l[2:] for l in r.lines if l.startswith('L ')]
    ctx.key(c['variant'], len(got), [x[0] for x in c['ops'][:8]])
    for x, y in zip(got, w.want):
        if x != y:
            k = ['contents', 'identity'][not y.startswith('(|')] \
                if not y.startswith('(|o|') else 'result'
            i = 0
            while i < min(len(x), len(y)) and x[i] == y[i]:
                i += 1
            i = max(0, i - 40)
            return ['%s: %s is ...%s, expected ...%s' % (
                k, y[:12], x[i:i + 150], y[i:i + 150])]
    if len(got) != len(w.want):
        return ['lost: %d of %d log lines' % (len(got), len(w.want))]
    return []


def simpler(c):
    n = len(c['ops'])
    s = n // 2
    while s:
        for j in range(0, n, s):
            yield dict(c, ops=c['ops'][:j] + c['ops'][j + s:])
        s //= 2
    for k, v in (('variant', 'compact'), ('gc', 'gc none')):
        if c[k] != v:
            yield dict(c, **{k: v})
