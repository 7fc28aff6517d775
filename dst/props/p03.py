"""P03 objects of the embedding program."""
from .. import util as U
from ..util import hx

PROP = 'P03'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt']
COUNT = {'quick': 8000, 'thorough': 260000}
CAP = {'quick': 300, 'thorough': 3000}
TECH = ('random histories of an embedding C program (protected variables, '
        'C locals in nested GC-ready stacks, callbacks, errors through C '
        'frames) under simulated GC, against a model of what each variable '
        'must hold')
RULE = ('a case is a history of up to 80 operations of an embedder: protecting '
        'and unprotecting static and malloced variables (repeatedly and in any '
        'order), assigning, holding objects in C locals of nested GC-ready '
        'stacks and of C procedures called from Scheme, building with the C '
        'API (lists from arrays and back, C pointers, evaluating C strings), calling back, leaving by return or error; the contents of each '
        'protected variable and local are compared with the model, and what '
        'is no longer held must be reclaimed; it counts once per distinct '
        'event log')
ASSUME = ['locals are kept in memory or registers as gcc -O0 and -O2 place '
          'them', 'of four unreferenced structures at most two may stay by an '
          'expired reference on the C stack']
PROBES = ['probe:static', 'probe:malloced', 'probe:local', 'probe:callback',
          'probe:raise', 'probe:reclaim', 'probe:double', 'probe:registers',
          'probe:protectedp', 'probe:rounds', 'probe:array', 'probe:object']
SETUP = '''
(use srfi-1) (use srfi-34)
(define (idf . x) x)
(define (pack s k) (list s k (make-string 3 #\\z)))
(define (churn n) (let lp ((i 0) (a '())) (if (< i n) (lp (+ i 1) (list i "c"))
 a)))
'''
KINDS = ('protect', 'protect', 'protecti', 'unprotect', 'set', 'set', 'clear',
         'check', 'check', 'check', 'hprotect', 'hset', 'hcheck', 'hunprotect',
         'enter', 'leave', 'ops', 'lset', 'lset', 'lcheck', 'lcheck', 'lmk',
         'lcons', 'lvec', 'lput', 'lget', 'lcall', 'lreg', 'raise', 'gc',
         'churn', 'churn', 'reclaim', 'gcp', 'ctxp', 'define', 'big',
         'lclear', 'rounds', 'larr', 'larr2', 'lobj', 'lptr', 'lstr', 'bound')


def gen(rng, i):
    r = rng
    ks = list(KINDS)
    for _ in range(4):
        ks += [r.choice(KINDS)] * 2
    return {'ops': [[r.choice(ks), r.randrange(999), r.randrange(999),
                     r.randrange(999)]
                    for _ in range(r.choice((12, 30, 60, 80)))],
            'nslot': r.choice((2, 4, 16, 40)),
            'variant': r.choice(VARIANTS),
            'heap': r.choice(['heap 1024 256 512 1 16', U.HEAP,
                              'heap 512 128 1024 2 16']),
            'gc': U.gc_schedule(r, .15) + '\ngclimit 300'}


LOBJ = ('(#("im"/2 #<cptr %d> #<fptr 1>) "own"/3 |new-sym| #\\x3042)')


def val(k, w):
    """an object of its own: (expression, how it prints)"""
    w %= 6
    if w == 0:
        return '(list "u%d" %d)' % (k, k), '("u%d"/%d %d)' % (
            k, len(str(k)) + 1, k)
    if w == 1:
        return ("(vector 'y%d \"v%d\" (cons %d (make-string 2 #\\m)))" % (
            k, k, k), '#(|y%d| "v%d"/%d (%d . "mm"/2))' % (
                k, k, len(str(k)) + 1, k))
    if w == 2:
        return '(string-append "str" "%d")' % k, '"str%d"/%d' % (
            k, 3 + len(str(k)))
    if w == 3:
        return ('(list (list %d (vector)) (list (list "d%d")) #\\\u3042)' % (
            k, k), None)
    if w == 4:
        return ('(map (lambda (i) (cons i (number->string i))) (iota 9 %d))' % k,
                '(%s)' % ' '.join('(%d . "%d"/%d)' % (j, j, len(str(j)))
                                  for j in range(k, k + 9)))
    return "(list->vector (list \"w\" 'n%d (string #\\a #\\b)))" % k, \
        '#("w"/1 |n%d| "ab"/2)' % k


def walk(c, ctx=None):
    """(ops, expected log lines). An expectation is text, or a function."""
    n = c['nslot']
    slot = [None] * n          # printed content, when protected
    prot = [0] * n
    heap = [None] * 8
    frames = [None]            # None: not GC-ready
    kinds = ['top']
    out, want = [], []
    count = 0

    def P(x):
        if ctx:
            ctx.count('probe:' + x)

    def gc_may_run():
        # contents of unprotected variables are gone
        for j in range(n):
            if not prot[j]:
                slot[j] = None
    for k, a, b, d in c['ops']:
        s, h, l, m = a % n, a % 8, a % 16, b % 16
        top = frames[-1]
        count += 1
        e, p = val(count, d)
        if p is None:
            p = '((%d #()) (("d%d"/%d)) #\\x3042)' % (
                count, count, len(str(count)) + 1)
        if k == 'protect':
            if prot[s] > 2:
                continue
            if slot[s] is None:
                out.append('op clear %d' % s)
                slot[s] = '#f'
            if prot[s]:
                P('double')
            out.append('op protect %d' % s)
            prot[s] += 1
        elif k == 'protecti':
            if prot[s]:
                continue
            out.append('op protecti %d %s' % (s, hx(e)))
            gc_may_run()
            prot[s] = 1
            slot[s] = p
        elif k == 'unprotect':
            out.append('op unprotect %d' % s)
            prot[s] = max(0, prot[s] - 1)
        elif k == 'set':
            out.append('op set %d %s' % (s, hx(e)))
            gc_may_run()
            slot[s] = p
        elif k == 'clear':
            out.append('op clear %d' % s)
            slot[s] = '#f'
        elif k == 'check':
            if prot[s]:
                out.append('op check %d' % s)
                want.append('S%d %s' % (s, slot[s]))
                P('static')
        elif k == 'hprotect':
            if heap[h] is None:
                out.append('op hprotect %d' % h)
                heap[h] = '#f'
        elif k == 'hset':
            if heap[h] is not None:
                out.append('op hset %d %s' % (h, hx(e)))
                heap[h] = p
                gc_may_run()
        elif k == 'hcheck':
            if heap[h] is not None:
                out.append('op hcheck %d' % h)
                want.append('H%d %s' % (h, heap[h]))
                P('malloced')
        elif k == 'hunprotect':
            if heap[h] is not None:
                out.append('op hunprotect %d' % h)
                heap[h] = None
        elif k == 'enter':
            if len(frames) < 7:
                out.append('op enter')
                frames.append({})
                kinds.append('enter')
        elif k == 'ops':
            if len(frames) < 7:
                out.append('op eval %s x' % hx(
                    '(sim-log (guard (e (#t (churn 9) (list "caught" e))) '
                    '(list "back" (sim-ops))))'))
                frames.append({})
                kinds.append('ops')
                gc_may_run()
                P('callback')
        elif k == 'leave':
            if len(frames) > 1:
                out.append('op leave')
                frames.pop()
                if kinds.pop() == 'ops':
                    want.append('L ("back"/4 #t)')
                    gc_may_run()
        elif k == 'raise':
            if 'ops' in kinds and top is not None:
                out.append('op raise %d' % l)
                v = top.get(l, '#f')
                while kinds.pop() != 'ops':
                    frames.pop()
                frames.pop()
                want.append('L ("caught"/6 #<error "in sim-ops: raised:"/19 (%s'
                            ')>)' % v)
                gc_may_run()
                P('raise')
        elif k == 'gc':
            # outside a GC-ready stack the collector needs one of its own
            out.append('op gc1' if top is None else 'op gc')
            gc_may_run()
        elif k == 'churn':
            out.append('op eval %s x' % hx('(churn %d)' % (b % 400)))
            gc_may_run()
        elif k == 'define':
            out.append('op eval %s x' % hx('(define g%d %s)' % (a % 5, e)))
            gc_may_run()
        elif k == 'gcp':
            if prot[s]:
                out.append('op gcp %d' % s)
                want.append('P%d 1' % s)
                gc_may_run()
                P('protectedp')
        elif k == 'rounds':
            # many times protected and unprotected: the book-keeping must not
            # grow beyond what the most protected at a time need
            out.append('op rounds %d %d %d' % (b % 40 + 1, 200 + d, a))
            want.append('ROUNDS')
            P('rounds')
        elif k == 'bound':
            out.append('op bound %s' % hx(('idf', 'pack', 'churn')[b % 3]))
            want.append('B |%s| 1' % ('idf', 'pack', 'churn')[b % 3])
        elif k == 'ctxp':
            out.append('op ctxp')
            want.append('CTX %d' % (top is not None))
        elif k == 'reclaim':
            # four structures held by four variables, then by none
            js = [x for x in range(n) if not prot[x]][:4]
            if len(js) < 4:
                continue
            out.append('op mark1 0')
            for x in js:
                out += ['op clear %d' % x, 'op protect %d' % x,
                        'op set %d %s' % (x, hx('(iota 300 %d)' % x))]
            out.append('op mark1 1')
            for x in js:
                out.append('op unprotect %d' % x if b % 2 else 'op clear %d'
                           % x)
            out.append('op eval %s x' % hx('(churn 50)'))
            out.append('op mark1 2')
            for x in js:
                if b % 2 == 0:
                    out.append('op unprotect %d' % x)
                slot[x] = None
            gc_may_run()
            want.append('RECLAIM')
            P('reclaim')
        elif top is None:
            continue
        elif k == 'lset':
            out.append('op lset %d %s' % (l, hx(e)))
            top[l] = p
            gc_may_run()
        elif k == 'larr':
            t = b % 60
            out.append('op larr %d %d' % (l, t))
            top[l] = '(%s)' % ' '.join('("r%d-%d"/%d)' % (
                l, j, len('r%d-%d' % (l, j))) for j in range(t))
            want.append('A%d %d 1' % (l, t))
            gc_may_run()
            P('array')
        elif k == 'larr2':
            t = b % 17
            xs = [top.get(x, '#f') for x in range(t)]
            if sum(map(len, xs)) > 2000:
                continue
            out.append('op larr2 %d %d' % (l, t))
            top[l] = '(%s)' % ' '.join(xs)
            gc_may_run()
        elif k == 'lobj':
            t = b % 64
            out.append('op lobj %d %d' % (l, t))
            top[l] = LOBJ % t
            gc_may_run()
            P('object')
        elif k == 'lptr':
            if not top.get(l, '').startswith(LOBJ[:18]):
                continue
            out.append('op lptr %d %d' % (l, b % 64))
            old = top[l]
            top[l] = LOBJ % (b % 64)
            # (the object may be shared)
            if any(old in v for f in frames if f for x, v in f.items()
                   if f is not top or x != l) or any(
                    v and old in v for v in slot + heap):
                out.pop()
                top[l] = old
        elif k == 'lstr':
            out.append('op lstr %d %s' % (l, hx(e)))
            top[l] = p
            gc_may_run()
        elif k == 'lclear':
            out.append('op lclear %d' % l)
            top[l] = '#f'
        elif k == 'lcheck':
            out.append('op lcheck %d' % l)
            want.append('V%d %s' % (l, top.get(l, '#f')))
            P('local')
        elif k == 'lmk':
            out.append('op lmk %d %d' % (l, b % 30))
            top[l] = '(%s)' % ' '.join('("s%d-%d"/%d . %d)' % (
                l, j, len('s%d-%d' % (l, j)), j)
                for j in range(b % 30 - 1, -1, -1))
            gc_may_run()
        elif k == 'lcons':
            x, y = top.get(m, '#f'), top.get(d % 16, '#f')
            if y[0] == '(' or len(x + y) > 2000:
                continue
            out.append('op lcons %d %d %d' % (l, m, d % 16))
            top[l] = '(%s . %s)' % (x, y)
            gc_may_run()
        elif k == 'lvec':
            ls = [(b + j * d) % 16 for j in range(b % 5)]
            if sum(len(top.get(x, '#f')) for x in ls) > 2000:
                continue
            out.append('op lvec %d %s' % (l, ' '.join(map(str, ls))))
            top[l] = '#(%s)' % ' '.join(
                [top.get(x, '#f') for x in ls] + ['#f'] * (16 - len(ls)))
            gc_may_run()
        elif k == 'lput':
            out.append('op lput %d %d' % (s, m))
            slot[s] = top.get(m, '#f')
        elif k == 'lget':
            if slot[s] is None:
                continue
            out.append('op lget %d %d' % (l, s))
            top[l] = slot[s]
        elif k == 'lcall':
            ls = [(b + j * d) % 16 for j in range(b % 4)]
            q = l
            ls = [x for x in ls if x != q]
            if sum(len(top.get(x, '#f')) for x in ls) > 2000:
                continue
            out.append('op lset %d %s' % (q, hx('idf')))
            out.append('op lcall %d %d %s' % (m, q, ' '.join(map(str, ls))))
            v = '(%s)' % ' '.join(top.get(x, '#f') for x in ls)
            top[q] = None
            top[m] = v
            if top[q] is None:
                out.append('op lclear %d' % q)
                top[q] = '#f'
            gc_may_run()
        elif k == 'lreg':
            out.append('op lset %d %s' % (l, hx('pack')))
            out.append('op lreg %d %d %d' % (l, l, b % 25))
            t = b % 25
            xs = ['("%s"/%d %d "zzz"/3)' % (
                'b%d' % (j - 1) if j else 'a', len('b%d' % (j - 1)) if j else 1,
                j) for j in range(t)]
            top[l] = '(%s)' % ' '.join(
                ['"b%d"/%d' % (t - 1, len('b%d' % (t - 1))) if t else '"a"/1'] +
                xs[::-1] + ['"a"/1'])
            gc_may_run()
            P('registers')
        elif k == 'big':
            out.append('op lset %d %s' % (l, hx('(list (iota 200) (make-vector '
                                                '50 "q"))')))
            top[l] = '((%s) #(%s))' % (' '.join(map(str, range(200))), ' '.join(
                ['"q"/1'] * 50))
            gc_may_run()
    while len(frames) > 1:
        for l, v in sorted(frames[-1].items()):
            out.append('op lcheck %d' % l)
            want.append('V%d %s' % (l, v))
        out.append('op leave')
        frames.pop()
        if kinds.pop() == 'ops':
            want.append('L ("back"/4 #t)')
    for j in range(n):
        if prot[j]:
            out.append('op check %d' % j)
            want.append('S%d %s' % (j, slot[j]))
    for j in range(8):
        if heap[j] is not None:
            out.append('op hcheck %d' % j)
            want.append('H%d %s' % (j, heap[j]))
    return out, want


def run(c, ctx):
    ops, want = walk(c, ctx)
    res = ctx.sim(c['variant'], U.scen(
        c['heap'], 'cpu 6', 'maxallocs 3000000', 'quietio', c['gc'],
        'op init', U.ev(SETUP, True), *ops))
    a = U.abnormal(res)
    if a:
        return [a]
    got = []
    m = {}
    for l in res.lines:
        if l.startswith('M '):
            x = l.split()
            m[int(x[1])] = int(x[2].split('=')[1])
            if x[1] == '2':
                if m[1] < m[0] + 600:
                    return ['protect: %d live cells with 1200 more held than '
                            'at %d' % (m[1], m[0])]
                if m[2] > m[0] + 700:
                    return ['reclaim: %d live cells, %d with 1200 held, %d '
                            'after letting them go' % (m[0], m[1], m[2])]
                got.append('RECLAIM')
        elif l.startswith('ROUNDS '):
            x = l.replace('=', ' ').split()
            if int(x[5]) > int(x[3]) + 2048:
                return ['book-keeping: %s bytes of native memory before, %s '
                        'after %s times protecting or unprotecting' % (
                            x[3], x[5], x[1])]
            got.append('ROUNDS')
        elif l[0] in 'SHVPLCAB' and (l[1:2].isdigit() or l[:2] in ('L ', 'CT', 'B ')):
            got.append(l)
    for j, (x, y) in enumerate(zip(got, want)):
        if x != y:
            return ['value: item %d is %s, expected %s' % (j, x[:150], y[:150])]
    if len(got) != len(want):
        return ['value: %d of %d items' % (len(got), len(want))]
    return []


def simpler(c):
    n = len(c['ops'])
    s = n // 2
    while s:
        for j in range(0, n, s):
            yield dict(c, ops=c['ops'][:j] + c['ops'][j + s:])
        s //= 2
    for k, v in (('variant', 'compact'), ('gc', 'gc none')):
        if c[k] != v:
            yield dict(c, **{k: v})
