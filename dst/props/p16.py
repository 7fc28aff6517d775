"""P16 what is written reads back."""
import copy

from .. import util as U
from ..iotext import prb

PROP = 'P16'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt', 'fatty']
COUNT = {'quick': 8000, 'thorough': 300000}
CAP = {'quick': 300, 'thorough': 3000}
TECH = ('data and object graphs written through ports with write errors, '
        'GC schedules and abandoned writes before')
RULE = ('a case is a set of data built by constructors (any characters and '
        'strings of the encoding, symbols, numbers, nested lists and '
        'vectors) or an object graph with sharing and cycles, a preceding '
        'history of writes and reads that fail or are abandoned midway '
        '(write errors, full ports, closed ports, unencodable characters), a '
        'port kind, its encoding and the division of its transfers, a layout '
        'of the heap and a GC schedule; what reads back is compared with '
        'what was built, and the graph the written text denotes with the '
        'graph built; it counts once per distinct event log')
ASSUME = ['the port has the encoding that is current when it is written to '
          '(elsewise strings are written as they are)',
          'symbols have names that read as symbols',
          'labels are as SRFI-38 says; empty strings and vectors may or may '
          'not be labelled']
PROBES = ['probe:tree', 'probe:graph', 'probe:cycle', 'probe:abandoned',
          'probe:file', 'probe:codec', 'probe:big']
CODECS = {'UTF-8': ('utf-8', [0x80, 0xe9, 0xff, 0x100, 0x3b1, 0x7ff, 0x800,
                              0x3042, 0x6f22, 0xfffd, 0xffff, 0x10000,
                              0x1f600, 0x10ffff]),
          'EUC-JP': ('euc_jp', '\u3042\u6f22\u5b57\u30a2\uff71'),
          'EUC-KR': ('euc_kr', '\uac00\ub098\u3042'),
          'EUC-CN': ('gb2312', '\u6f22\u5b57\u3042'.replace('\u6f22', '\u6c49')),
          'Shift_JIS': ('shift_jis', '\u3042\u6f22\u5b57\u30bd\u8868\uff71'),
          'ISO-8859-1': ('latin-1', '\u00e9\u00ff\u00a0\u0080')}
ASCII = ([32, 34, 92, 40, 41, 59, 39, 44, 96, 35, 46, 64, 124, 120] +
         list(range(1, 32)) + [127] + [97, 98, 90, 48, 95] * 4)
SYMS = ['abc', 'x', 'set!', 'a->b', '...', '+', '-', 'q' * 30, '<=?', 'A.b',
        'Abc', 'lambda', 'quote', 'v' * 130, '*', '/', '!', '$%&', 'a1', '~',
        'quasiquote', 'unquote', 'unquote-splicing']
INTS = [0, 1, -1, 7, 42, -42, 255, 256, 65535, -65536, 2 ** 27, -2 ** 27,
        2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 53, 2 ** 59 - 1, -2 ** 59,
        123456789012345678, -123456789012345678]
BADS = {'UTF-8': [0], 'EUC-JP': [0, 0x1f600, 0x3042], 'EUC-KR': [0, 0x1f600,
        0x3042], 'EUC-CN': [0, 0x1f600, 0x3042], 'Shift_JIS': [0, 0x1f600],
        'ISO-8859-1': [0, 256, 0x3042]}
SETUP = r"""
(require-extension (srfi 34) (srfi 38))
(define (try t) (guard (e (#t 'caught)) (t)))
(define (refused s c)
 (let ((n (string-length s)) (c (with-char-codec "UTF-8" (lambda ()
  (integer->char c)))))
  (if (not (equal? (list (try (lambda () (list->string (list #\a c))))
     (try (lambda () (string c #\a))) (try (lambda () (make-string 2 c)))
     (if (= n 0) 'caught (try (lambda () (string-set! s (quotient n 2) c))))
     (if (= n 0) 'caught (try (lambda () (string-fill! s c)))))
    '(caught caught caught caught caught)))
   (sim-log 'accepted))
  s))
(define (by-set l) (let ((s (make-string (length l) #\?))) (let lp ((l l)
  (i 0)) (if (null? l) s (begin (string-set! s i (car l)) (lp (cdr l)
  (+ i 1)))))))
(define (by-append a . l) (apply string-append a (map string l)))
(define (by-port l) (let ((p (open-output-string))) (for-each (lambda (c)
  (write-char c p)) l) (get-output-string p)))
(define stack-obj (let lp ((n 40) (l '())) (if (= n 0) l
  (lp (- n 1) (cons (vector n "s" (list n)) l)))))
(define shared-obj (let* ((a (list 1 "two")) (b (vector a a))) (set-cdr! (cdr
  a) b) (list a b a)))
"""


def atom(r, codec):
    k = r.randrange(6)
    if k == 0:
        return ['i', r.choice(INTS) if r.random() < .7 else
                r.randrange(-10 ** 6, 10 ** 6)]
    if k == 1:
        s = r.choice(SYMS)
        if codec == 'UTF-8' and r.random() < .2:
            s = r.choice(['\u3042\u3044', 'k\u00e9y'])
        return ['y', s]
    if k == 2:
        return ['c', char(r, codec)]
    if k == 3:
        return ['b', r.random() < .5]
    if k == 4 and r.random() < .2:
        return ['x', r.choice(['(greatest-fixnum)', '(least-fixnum)',
                               '(+ 1 (least-fixnum))'])]
    n = r.choice((0, 1, 2, 5, 12)) if r.random() < .95 else \
        r.choice((63, 64, 255, 256, 257, 1023, 1024, 1100))
    how = r.choice(['', '', 'copy', 'list', 'set', 'append', 'refused', 'port'])
    return ['s', [char(r, codec) for _ in range(n)],
            '' if n > 12 and how == 'set' else how, r.choice(BADS[codec])]


def char(r, codec):
    if r.random() < .65:
        return r.choice(ASCII)
    e, cs = CODECS[codec]
    if e == 'utf-8':
        x = r.choice(cs) if r.random() < .7 else r.randrange(0x80, 0x110000)
        return 0xe000 if 0xd800 <= x < 0xe000 else x
    if r.random() < .7:
        return int.from_bytes(r.choice(U.codec_chars(codec)), 'big')
    return int.from_bytes(r.choice(cs).encode(e), 'big')


def tree(r, codec, d):
    k = r.random()
    if d == 0 or k < .4:
        return atom(r, codec)
    n = r.choice((0, 1, 2, 3, 5)) if r.random() < .95 else r.choice((20, 70))
    xs = [tree(r, codec, d - 1) for _ in range(n)]
    if k < .7:
        return ['l', xs]
    if k < .8:
        return ['d', xs or [['i', 1]], atom(r, codec)]
    if k < .88:
        return ['l', [['y', r.choice(['quote', 'quasiquote', 'unquote',
                                      'unquote-splicing'])],
                      tree(r, codec, d - 1)] + xs[:r.choice((0, 0, 0, 1))]]
    return ['v', xs]


def enc(cp, codec):
    if codec == 'UTF-8':
        return chr(cp).encode()
    if cp < 256:
        return bytes([cp])
    return cp.to_bytes((cp.bit_length() + 7) // 8, 'big')


def build(t):
    """an expression that builds the datum"""
    k = t[0]
    if k == 'i':
        return str(t[1])
    if k == 'y':
        return "(string->symbol \"%s\")" % t[1]
    if k == 'c':
        return '(integer->char %d)' % t[1]
    if k == 'b':
        return '#t' if t[1] else '#f'
    if k == 'x':
        return t[1]
    if k == 's':
        a = ' '.join('(integer->char %d)' % c for c in t[1])
        if t[2] == 'list':
            return '(list->string (list %s))' % a
        if t[2] == 'set':
            return '(by-set (list %s))' % a
        if t[2] == 'port':
            return '(by-port (list %s))' % a
        if t[2] == 'append':
            n = len(t[1]) // 2
            return '(by-append (string %s) %s)' % (
                ' '.join('(integer->char %d)' % c for c in t[1][:n]),
                ' '.join('(integer->char %d)' % c for c in t[1][n:]))
        a = '(string %s)' % a
        if t[2] == 'refused':
            return '(refused %s %d)' % (a, t[3])
        return '(string-copy %s)' % a if t[2] else a
    a = [build(x) for x in t[1]]
    if k == 'l':
        return '(list %s)' % ' '.join(a)
    if k == 'd':
        a.append(build(t[2]))
        return 'ZZ'.join('(cons %s ' % x for x in a[:-1]).replace('ZZ', '') + \
            a[-1] + ')' * (len(a) - 1)
    return '(vector %s)' % ' '.join(a)


def shown(t, codec):
    """what sim-log prints, None where it depends on the build"""
    k = t[0]
    if k == 'i':
        return str(t[1])
    if k == 'y':
        return '|%s|' % prb(t[1].encode())
    if k == 'c':
        return '#\\x%x' % t[1]
    if k == 'b':
        return '#t' if t[1] else '#f'
    if k == 'x':
        return None
    if k == 's':
        return '"%s"/%d' % (prb(b''.join(enc(c, codec) for c in t[1])),
                            len(t[1]))
    a = [shown(x, codec) for x in t[1]]
    if None in a:
        return None
    if k == 'l':
        return '(%s)' % ' '.join(a) if a else '()'
    if k == 'd':
        b = t[2]
        s = shown(b, codec)
        return None if s is None else '(%s . %s)' % (' '.join(a), s)
    return '#(%s)' % ' '.join(a)


# ------------------------------------------------------------ graphs
# node: ['p', ref, ref] | ['v', refs] | ['s', text]; a ref is a node number
# or an atom ['i', n] / ['y', name] / ['b', bool] / ['n'] (the empty list)
def graph(r):
    big = r.random() < .12
    n = r.choice((150, 180, 300, 400, 700)) if big else \
        r.choice((1, 2, 3, 4, 6, 9, 14))
    # how much sharing there is and whether it may be circular
    back = r.choice((0, 0, .1, .3, .6))
    share = r.choice((.1, .3, .6, .9))
    N = []
    for j in range(n):
        k = r.random()

        def ref(tail=False):
            q = r.random()
            if q < back:
                return r.randrange(n)
            if q < back + share and j + 1 < n:
                return r.randrange(j + 1, min(n, j + 4))
            if tail and r.random() < .5:
                return ['n']
            return r.choice([['i', r.randrange(100)], ['y', 'ab'],
                             ['b', True], ['n']])
        if k < .6 or j == 0 and k < .8:
            N.append(['p', ref(), ref(True)])
        elif k < .85:
            N.append(['v', [ref() for _ in range(r.choice((0, 1, 2, 3, 6)))]])
        else:
            N.append(['s', r.choice(['', 'a', 'b"\\', 'long string'])])
    if big:
        # a spine, such that everything is reached
        for j in range(n - 1):
            if N[j][0] == 's':
                N[j] = ['p', ['i', j], j + 1]
            elif N[j][0] == 'p':
                N[j][2] = j + 1
            else:
                N[j][1] = N[j][1] + [j + 1]
    return N


def gatom(a):
    return {'i': lambda: str(a[1]), 'y': lambda: "'" + a[1],
            'b': lambda: '#t' if a[1] else '#f', 'n': lambda: "'()"}[a[0]]()


def gbuild(N):
    """expressions that leave node 0 in g0"""
    o = ['(define gv (make-vector %d #f))' % len(N)]
    for j, x in enumerate(N):
        o.append('(vector-set! gv %d %s)' % (j, {
            'p': lambda: '(cons #f #f)',
            'v': lambda: '(make-vector %d #f)' % len(x[1]),
            's': lambda: '(string-append "%s")' % x[1].replace(
                '\\', '\\\\').replace('"', '\\"')}[x[0]]()))

    def val(a):
        return gatom(a) if isinstance(a, list) else '(vector-ref gv %d)' % a
    for j, x in enumerate(N):
        if x[0] == 'p':
            o.append('(set-car! (vector-ref gv %d) %s)' % (j, val(x[1])))
            o.append('(set-cdr! (vector-ref gv %d) %s)' % (j, val(x[2])))
        elif x[0] == 'v':
            for i, a in enumerate(x[1]):
                o.append('(vector-set! (vector-ref gv %d) %d %s)' % (
                    j, i, val(a)))
    o.append('(define g0 (vector-ref gv 0))')
    return o


class Bad(Exception):
    pass


def parse(s):
    """the graph a text with labels denotes; (root, number of labels that
    nothing refers to)"""
    pos = [0]
    labels, used = {}, set()
    N = []

    def ws():
        while pos[0] < len(s) and s[pos[0]] in ' \n':
            pos[0] += 1

    def new(x):
        N.append(x)
        return len(N) - 1

    def item(label=None):
        ws()
        if pos[0] >= len(s):
            raise Bad('it ends early')
        c = s[pos[0]]
        if c == '#' and pos[0] + 1 < len(s) and s[pos[0] + 1].isdigit():
            e = pos[0] + 1
            while e < len(s) and s[e].isdigit():
                e += 1
            n = int(s[pos[0] + 1:e])
            if e >= len(s):
                raise Bad('it ends in a label')
            pos[0] = e + 1
            if s[e] == '#':
                if n not in labels:
                    raise Bad('label %d is not defined' % n)
                used.add(n)
                return labels[n]
            if s[e] != '=' or n in labels or label is not None:
                raise Bad('label %d is misused' % n)
            x = item(n)
            if isinstance(x, list):
                raise Bad('label %d is on an atom' % n)
            return x
        if c == '(':
            pos[0] += 1
            ws()
            if pos[0] < len(s) and s[pos[0]] == ')':
                pos[0] += 1
                return ['n']
            first = new(['p', None, ['n']])
            if label is not None:
                labels[label] = first
            cur = first
            N[cur][1] = item()
            while True:
                ws()
                if pos[0] >= len(s):
                    raise Bad('it ends in a list')
                if s[pos[0]] == ')':
                    pos[0] += 1
                    return first
                if s[pos[0]] == '.' and s[pos[0] + 1] == ' ':
                    pos[0] += 1
                    N[cur][2] = item()
                    ws()
                    if s[pos[0]:pos[0] + 1] != ')':
                        raise Bad('two tails')
                    pos[0] += 1
                    return first
                nx = new(['p', None, ['n']])
                N[cur][2] = nx
                cur = nx
                N[cur][1] = item()
        if s.startswith('#(', pos[0]):
            pos[0] += 2
            me = new(['v', []])
            if label is not None:
                labels[label] = me
            while True:
                ws()
                if pos[0] >= len(s):
                    raise Bad('it ends in a vector')
                if s[pos[0]] == ')':
                    pos[0] += 1
                    return me
                N[me][1].append(item())
        if c == '"':
            e = pos[0] + 1
            v = []
            while s[e:e + 1] != '"':
                if e >= len(s):
                    raise Bad('it ends in a string')
                if s[e] == '\\':
                    e += 1
                v.append(s[e])
                e += 1
            pos[0] = e + 1
            me = new(['s', ''.join(v)])
            if label is not None:
                labels[label] = me
            return me
        e = pos[0]
        while e < len(s) and s[e] not in ' \n()"':
            e += 1
        t = s[pos[0]:e]
        pos[0] = e
        if t in ('#t', '#f'):
            return ['b', t == '#t']
        if t.lstrip('-').isdigit():
            return ['i', int(t)]
        if t == 'ab':
            return ['y', t]
        raise Bad('%r' % t[:20])
    x = item()
    ws()
    if pos[0] != len(s):
        raise Bad('it goes on with %r' % s[pos[0]:pos[0] + 20])
    return x, N, len(set(labels) - used)


def atomic(N, x):
    """empty strings and vectors have no identity of interest"""
    if isinstance(x, list):
        return x
    n = N[x]
    if n[0] in 'sv' and not n[1]:
        return [n[0]]
    return None


def iso(A, B, b0):
    """None, or how the graphs differ; nodes map one to one"""
    m, back = {}, {}
    work = [(0, b0, '')]
    while work:
        a, b, path = work.pop()
        p, q = atomic(A, a), atomic(B, b)
        if p is not None or q is not None:
            if p != q:
                return 'at %s: %s instead of %s' % (
                    path[:40], q or B[b][0], p or A[a][0])
            continue
        if a in m or b in back:
            if m.get(a) != b or back.get(b) != a:
                return 'at %s: sharing is %s' % (
                    path[:40], 'lost' if a in m else 'made up')
            continue
        m[a], back[b] = b, a
        x, y = A[a], B[b]
        if x[0] != y[0] or (x[0] == 's' and x[1] != y[1]) or \
                (x[0] == 'v' and len(x[1]) != len(y[1])):
            return 'at %s: %s instead of %s' % (path[:40], str(y)[:40],
                                                str(x)[:40])
        if x[0] == 'p':
            work.append((x[1], y[1], path + 'a'))
            work.append((x[2], y[2], path + 'd'))
        elif x[0] == 'v':
            for i in range(len(x[1])):
                work.append((x[1][i], y[1][i], path + str(i)))
    return None


def unlabelled(N):
    """sizes of the tree the graph unfolds to; None if circular or large"""
    state, size = {}, {}

    def walk(x):
        if isinstance(x, list):
            return 1
        if x in size:
            return size[x]
        if state.get(x):
            raise Bad('circular')
        state[x] = 1
        n = N[x]
        s = 1 + (walk(n[1]) + walk(n[2]) if n[0] == 'p' else
                 sum(map(walk, n[1])) if n[0] == 'v' else 0)
        size[x] = s
        return s
    try:
        s = walk(0)
    except Bad:
        return None
    return s if s < 3000 else None


def plain(N, x):
    if isinstance(x, list):
        return '()' if x[0] == 'n' else gatom(x).lstrip("'")
    n = N[x]
    if n[0] == 's':
        return '"%s"' % n[1].replace('\\', '\\\\').replace('"', '\\"')
    if n[0] == 'v':
        return '#(%s)' % ' '.join(plain(N, y) for y in n[1])
    o = []
    while not isinstance(x, list) and N[x][0] == 'p':
        o.append(plain(N, N[x][1]))
        x = N[x][2]
    if x != ['n']:
        o += ['.', plain(N, x)]
    return '(%s)' % ' '.join(o)


# --------------------------------------------------- preceding failures
def disturb(r, cod):
    w = r.choice(['write/ss', 'write/ss', 'write', 'display'])
    k = r.randrange(9)
    obj = r.choice(['shared-obj', 'stack-obj', '(list shared-obj stack-obj)'])
    if w != 'write/ss':
        obj = 'stack-obj'
    if k == 0:
        return '(try (lambda () (%s %s (open-input-string "x"))))' % (w, obj)
    if k == 1:
        return ('(let ((p (open-output-string))) (close-output-port p) (try '
                '(lambda () (%s %s p))))' % (w, obj))
    if k in (2, 3):
        return ('(try (lambda () (let ((p (open-output-file "/bad"))) '
                '(try (lambda () (%s %s p))) (try (lambda () '
                '(close-output-port p))))))' % (w, obj))
    if k in (4, 5, 6):
        # a character the encoding of the port lacks, in the midst
        return ('(let ((p (with-char-codec "%s" (lambda () '
                '(open-output-string))))) (try (lambda () (%s (list %s %s '
                '(integer->char %d) shared-obj) p))))' % (
                    r.choice(['ISO-8859-1', 'EUC-JP', 'EUC-KR']),
                    'write/ss', obj, obj, r.choice((0x10ffff, 0x1f600,
                                                     0x123456))))
    if k == 7:
        return '(try (lambda () (read (open-input-string "%s"))))' % r.choice(
            ['(1 \\"abc', '#(1 2', "(a . b c)", '\\"\\\\q\\"', '#\\\\zzz'])
    return '(try (lambda () (%s %s 5)))' % (w, obj)


def gen(rng, i):
    r = rng
    c = {'kind': r.choice(['tree', 'tree', 'graph']),
         'variant': r.choice(VARIANTS),
         'gc': U.gc_schedule(r, .5) + '\ngclimit 400',
         'heap': r.choice(U.HEAPS), 'pad': r.choice((0, 0, 1, 3, 7, 40)),
         'pre': [disturb(r, 0) for _ in range(r.choice((0, 0, 1, 2, 3)))],
         'badw': r.randrange(1, 6), 'badcap': r.choice((-1, -1, 0, 1, 50, 300)),
         'port': r.choice(['string', 'file', 'file', 'with', 'call']),
         'wchunks': [r.choice((1, 2, 3, 7, 100)) for _ in range(r.choice(
             (0, 1, 2)))],
         'chunks': [r.choice((1, 2, 3, 7, 100)) for _ in range(r.choice(
             (0, 1, 2)))],
         'bufsize': r.choice((0, 0, 1, 16, 100))}
    if c['kind'] == 'tree':
        c['codec'] = r.choice(['UTF-8'] * 4 + sorted(CODECS))
        c['data'] = [tree(r, c['codec'], r.choice((0, 1, 2, 3)))
                     for _ in range(r.choice((1, 1, 2, 4)))]
        c['ss'] = r.random() < .25
    else:
        c['codec'] = 'UTF-8'
        c['nodes'] = graph(r)
        c['again'] = r.choice((0, 0, 1))
    return c


def out_to(c, body):
    """write with body (an expression in p) to the port of the case"""
    k = c['port']
    if k == 'string':
        return ('(define text (let ((p (open-output-string))) %s '
                '(get-output-string p)))' % body)
    if k == 'file':
        return ('(let ((p (open-output-file "/o"))) %s (close-output-port p))'
                % body)
    if k == 'with':
        return ('(with-output-to-file "/o" (lambda () (let ((p '
                '(current-output-port))) %s)))' % body)
    return '(call-with-output-file "/o" (lambda (p) %s))' % body


def in_from(c, body):
    k = c['port']
    if k == 'string':
        return '(let ((p (open-input-string text))) %s)' % body
    if k == 'file':
        return ('(let* ((p (open-input-file "/o")) (x %s)) (close-input-port '
                'p) x)' % body)
    if k == 'with':
        return ('(with-input-from-file "/o" (lambda () (let ((p '
                '(current-input-port))) %s)))' % body)
    return '(call-with-input-file "/o" (lambda (p) %s))' % body


def run(c, ctx):
    ctx.count('probe:' + c['kind'])
    if c['pre']:
        ctx.count('probe:abandoned', len(c['pre']))
    if c['port'] != 'string':
        ctx.count('probe:file')
    o = []
    if c['kind'] == 'tree':
        cod = c['codec']
        if cod != 'UTF-8':
            ctx.count('probe:codec')
        o.append('(define data (list %s))' % ' '.join(
            build(t) for t in c['data']))
        o.append(out_to(c, "(for-each (lambda (x) (%s x p) (newline p)) data)"
                        % ('write/ss' if c['ss'] else 'write')))
        o.append('(define back %s)' % in_from(c, (
            '(let lp ((l (quote ())) (n 0)) (let ((x (read p))) (if (or '
            '(eof-object? x) (> n 50)) (reverse l) (lp (cons x l) (+ n 1))))'
            ')')))
        o.append("(for-each (lambda (x) (sim-log (list 'd x))) data)")
        o.append("(for-each (lambda (x) (sim-log (list 'r x))) back)")
        o.append("(sim-log (list 'eq (equal? data back)))")
    else:
        cod = 'UTF-8'
        N = c['nodes']
        flat = unlabelled(N)
        if len(N) > 100:
            ctx.count('probe:big')
        if flat is None:
            ctx.count('probe:cycle')
        o += gbuild(N)
        o.append(out_to(c, '(write/ss g0 p)'))
        if c['port'] == 'string':
            o.append("(sim-log (list 'text text))")
        if c['again']:
            o.append("(sim-log (list 'again (let ((p (open-output-string))) "
                     "(write-with-shared-structure g0 p) "
                     "(get-output-string p))))")
        if flat is not None:
            o.append("(sim-log (list 'plain (let ((p (open-output-string))) "
                     "(write g0 p) (get-output-string p))))")
    body = ' '.join(o)
    if cod != 'UTF-8':
        # definitions belong to the top level: the codec is set, not bound
        body = '(%%%%set-current-char-codec! "%s") %s ' \
            '(%%%%set-current-char-codec! "UTF-8")' % (cod, body)
    pre = [U.ev(x, True) for x in c['pre']]
    d = [c['heap'], 'cpu 6', 'maxallocs 3000000', 'quietio']
    if c['pad']:
        d.append('pad %d' % c['pad'])
    if c['wchunks']:
        d.append('wchunks /o ' + ' '.join(map(str, c['wchunks'])))
    if c['chunks']:
        d.append('chunks /o ' + ' '.join(map(str, c['chunks'])))
    if c['bufsize']:
        d.append('bufsize /o %d' % c['bufsize'])
    d.append('bufsize /bad 16')
    d.append('fault /bad write %d 28 1' % c['badw'])
    if c['badcap'] >= 0:
        d.append('capacity /bad %d' % c['badcap'])
    res = ctx.sim(c['variant'], U.scen(
        *d, 'op init', U.ev(SETUP, True), 'op snapshot', c['gc'], 'op gcgo',
        *pre, U.ev(body, True), U.ev("(sim-log 'done)", True)))
    a = U.abnormal(res)
    if a:
        return [a]
    L = [x[2:] for x in U.logs(res)]
    if L[-1:] != ['|done|']:
        return ['unfinished: %s' % L[-2:]]
    if '|accepted|' in L:
        return ['accepted: a string took a character it cannot hold']
    if c['kind'] == 'tree':
        exp = [shown(t, cod) for t in c['data']]
        n = len(exp)
        for j in range(n):
            for tag in 'dr':
                got = [x[5:-1] for x in L if x.startswith('(|%s| ' % tag)]
                if len(got) != n:
                    return ['count: %d data %s, %d expected' % (
                        len(got), 'read back' if tag == 'r' else 'built', n)]
                if exp[j] is not None and got[j] != exp[j]:
                    return ['%s: datum %d is %s, expected %s' % (
                        'read' if tag == 'r' else 'built', j, got[j][:200],
                        exp[j][:200])]
        if '(|eq| #t)' not in L:
            return ['equal: what was read back is not equal to the data']
        return []
    texts = []
    f = None
    for x in L:
        for tag in ('text', 'again', 'plain'):
            if x.startswith('(|%s| ' % tag):
                texts.append((tag, unshow(x[len(tag) + 4:-1])))
    if c['port'] != 'string':
        texts.append(('file', res.files.get('/o', b'').decode('latin-1')))
    want = 1 + c['again'] + (flat is not None)
    if len(texts) != want:
        return ['texts: %d of %d written' % (len(texts), want)]
    for tag, t in texts:
        if tag == 'plain':
            p = plain(N, 0)
            if t != p:
                return ['plain: write gave %s, not %s' % (t[:150], p[:150])]
            continue
        try:
            x, B, unused = parse(t)
        except Bad as e:
            return ['labels: %s: %s' % (e, t[:200])]
        f = iso(N, B, x)
        if f:
            return ['graph: %s: %s' % (f, t[:200])]
        if unused:
            return ['labels: %d labels have no reference: %s' % (
                unused, t[:200])]
    return []


def unshow(s):
    """the string that sim-log printed"""
    s = s[:s.rindex('/')][1:-1]
    o = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == 'x':
                e = s.index(';', i)
                o.append(chr(int(s[i + 2:e], 16)))
                i = e + 1
                continue
            i += 1
        o.append(s[i])
        i += 1
    return ''.join(o)


def simpler(c):
    for j in range(len(c['pre'])):
        yield dict(c, pre=c['pre'][:j] + c['pre'][j + 1:])
    if c['variant'] != 'compact':
        yield dict(c, variant='compact')
    if c['gc'] != 'gc none':
        yield dict(c, gc='gc none')
    for k, v in (('wchunks', []), ('chunks', []), ('bufsize', 0), ('pad', 0),
                 ('port', 'string'), ('heap', U.HEAP)):
        if c[k] != v:
            yield dict(c, **{k: v})
    if c['kind'] == 'tree':
        D = c['data']
        for j in range(len(D)):
            if len(D) > 1:
                yield dict(c, data=D[:j] + D[j + 1:])
        for j in range(len(D)):
            for t in simpler_tree(D[j]):
                yield dict(c, data=D[:j] + [t] + D[j + 1:])
        return
    N = c['nodes']
    if c['again']:
        yield dict(c, again=0)
    for j in range(len(N) - 1, 0, -1):
        yield dict(c, nodes=drop(N, j))
    for j in range(len(N)):
        n = N[j]
        if n[0] == 'v':
            for i in range(len(n[1])):
                M = copy.deepcopy(N)
                del M[j][1][i]
                yield dict(c, nodes=M)
        elif n[0] == 'p':
            for i in (1, 2):
                if n[i] != ['n']:
                    M = copy.deepcopy(N)
                    M[j][i] = ['n']
                    yield dict(c, nodes=M)


def drop(N, j):
    def f(a):
        if isinstance(a, list):
            return a
        return ['n'] if a == j else a - (a > j)
    return [[n[0], f(n[1]), f(n[2])] if n[0] == 'p' else
            [n[0], [f(x) for x in n[1]]] if n[0] == 'v' else n
            for i, n in enumerate(N) if i != j]


def simpler_tree(t):
    if t[0] in 'lvd':
        for x in t[1]:
            yield x
        for j in range(len(t[1])):
            if t[0] != 'd' or len(t[1]) > 1:
                yield [t[0], t[1][:j] + t[1][j + 1:]] + t[2:]
        for j in range(len(t[1])):
            for y in simpler_tree(t[1][j]):
                yield [t[0], t[1][:j] + [y] + t[1][j + 1:]] + t[2:]
    elif t[0] == 's':
        n = len(t[1])
        if n > 3:
            yield ['s', t[1][:n // 2]] + t[2:]
            yield ['s', t[1][n // 2:]] + t[2:]
        for j in range(min(n, 8)):
            yield ['s', t[1][:j] + t[1][j + 1:]] + t[2:]
