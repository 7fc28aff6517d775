"""P22 symbols and global bindings."""
import re
from .. import util as U

PROP = 'P22'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt']
COUNT = {'quick': 8000, 'thorough': 260000}
CAP = {'quick': 300, 'thorough': 3000}
TECH = ('random histories of interning, binding and comparing symbols by all '
        'routes, under simulated GC and symbol table sizes, against a '
        'dictionary model')
RULE = ('a case is a history of up to 60 operations on a pool of similar names '
        '(prefixes, one character apart, empty, non-identifiers, non-ASCII, '
        'long, builtin names): making the symbol by literal, string->symbol, '
        'read, string operations or from a stored symbol, comparing, defining, '
        'assigning, referring, shadowing, with floods of other names between, '
        'in a symbol table of 1 to 1024 chains; each result is compared with a '
        'dictionary from names to values; it counts once per distinct event '
        'log')
ASSUME = ['names without NUL characters (strings with NUL are documented as '
          'partially supported)', 'UTF-8 throughout a case']
PROBES = ['probe:eq', 'probe:neq', 'probe:bound', 'probe:unbound',
          'probe:shadow', 'probe:flood', 'probe:late', 'probe:rehome']
PLAIN = re.compile(r'^[a-z!$%&*/:<=>?^_~A-Z\u0080-\uffff]'
                   r'[-a-z0-9!$%&*/:<=>?^_~A-Z+.@\u0080-\uffff]*$')
# used by the forms themselves, or builtin
AVOID = {'+', '-', '*', '/', '<', '=', '>', 'lp', 'i', 's', 'y', 'rd', 'sv', 'pv',
         'ie', 'tst', 'list', 'car', 'cdr', 'let', 'if', '...', '<=', '>='}
BUILTIN = ['cadr', 'iota', 'assv', 'list-tail', 'gcd', 'char-upcase', 'delay',
           'do', 'letrec', 'vector-fill!', 'x', 'reverse!']
SETUP = '''
(use srfi-1) (use srfi-34)
(define (ie) (interaction-environment))
(define sv (make-vector 8 #f))
(define pv (make-vector 8 #f))
(define (rd s) (read (open-input-string s)))
(define (tst thunk) (guard (e (#t 'error)) (thunk)))
'''


def lit(s):
    """a string literal"""
    out = ''
    for ch in s:
        if ch in '"\\' or ch < ' ':
            out += '\\x%x;' % ord(ch) if ch < ' ' else '\\' + ch
        else:
            out += ch
    return '"%s"' % out


def pool(r):
    base = r.choice(['a', 'ab', 'x', 'name', 'A', '\u6f22', 'ch\u00e9', '!',
                     'averyverylongnamewithmanycharacters', 'do', 'q1'])
    out = []
    for _ in range(r.choice((2, 3, 5, 8))):
        k = r.randrange(12)
        if k < 2:
            n = base + r.choice(['', 'a', 'b', '0', '-', '\u3042', '\u3044'])
        elif k == 2:
            n = base[:-1]
        elif k == 3:
            n = base.swapcase()
        elif k == 4:
            n = base[::-1]
        elif k == 5:
            n = base * r.choice((2, 3, 40, 300))
        elif k == 6:
            n = r.choice(['', ' ', 'a b', '1', '|', '(', 'A\nB', '#t', '.',
                          '-1', '"', '\\', '()', '+', 'a|b', ';', "'a"])
        elif k == 7:
            n = r.choice(BUILTIN)
        elif k == 8:
            n = ''.join(chr(r.choice([97, 98, 99])) for _ in range(
                r.choice((1, 2, 3))))
        elif k == 9:
            n = 'fl%d' % r.randrange(40)
        elif k == 10:
            n = chr(r.choice((0x80, 0xff, 0x3042, 0x6f22, 0x1f600, 0x7f)))
        else:
            n = base
        out.append(n)
        if r.random() < .3 and n:
            j = r.randrange(len(n))
            out.append(n[:j] + chr(ord(n[j]) ^ 1 or 1) + n[j + 1:])
    return [n for n in out if n not in AVOID] or ['a']


def gen(rng, i):
    r = rng
    names = pool(r)
    ops = []
    for _ in range(r.choice((8, 20, 40, 60))):
        k = r.choice(('eq', 'eq', 'define', 'define', 'set', 'ref', 'ref',
                      'ref', 'bound', 'name', 'store', 'stored', 'flood',
                      'shadow', 'shadow', 'late', 'callate', 'case', 'gc',
                      'alist', 'readb'))
        ops.append([k, r.randrange(99), r.randrange(99), r.randrange(9),
                    r.randrange(9), r.randrange(1000)])
    return {'names': names, 'ops': ops, 'variant': r.choice(VARIANTS),
            'heap': 'heap %s %d' % (r.choice(['1024 256 512 1', '512 128 1024 2'
                                              , '4096 1024 256 1']),
                                    r.choice((1, 2, 3, 7, 64, 256, 1024))),
            'gc': U.gc_schedule(r, .15) + '\ngclimit 400'}


def sym(n, how, o):
    """an expression giving the symbol of that name"""
    if how in (0, 1) and PLAIN.match(n):
        return '(quote %s)' % n if how else "'" + n
    if how == 2 and PLAIN.match(n):
        return '(rd %s)' % lit(n)
    if how == 3:
        j = o % (len(n) + 1)
        return '(string->symbol (string-append %s %s))' % (lit(n[:j]),
                                                           lit(n[j:]))
    if how == 4:
        return '(string->symbol (symbol->string (string->symbol %s)))' % lit(n)
    if how == 5 and n and len(n) < 60:
        return '(string->symbol (list->string (list %s)))' % ' '.join(
            '(integer->char %d)' % ord(x) for x in n)
    if how == 6 and n:
        # the string changes after the symbol is made
        return ('(let* ((s (string-copy %s)) (y (string->symbol s))) '
                '(string-set! s %d #\\q) y)' % (lit(n), o % len(n)))
    if how == 7 and PLAIN.match(n):
        return "(cadr '(1 %s 2))" % n if n != 'cadr' else "'cadr"
    return '(string->symbol %s)' % lit(n)


def walk(c, ctx):
    """the forms and the values they must give"""
    names = c['names']
    val = {}
    stored = [None] * 8
    late = [None] * 8
    out = []

    def P(x):
        if ctx:
            ctx.count('probe:' + x)
    for k, a, b, h, g, o in c['ops']:
        n, m = names[a % len(names)], names[b % len(names)]
        s = sym(n, h, o)
        if 'cadr' in val and 'cadr' in s:
            s = '(string->symbol %s)' % lit(n)
        builtin = n in BUILTIN and n not in val and n != 'x'
        if k == 'eq':
            t = sym(m, g, o + 1)
            if 'cadr' in val and 'cadr' in t:
                t = '(string->symbol %s)' % lit(m)
            out.append(('(eq? %s %s)' % (s, t), '#t' if n == m else '#f'))
            P('eq' if n == m else 'neq')
        elif k == 'define':
            if PLAIN.match(n) and g < 5:
                f = '(define %s %d)' % (n, o)
                out.append((f, None))
            else:
                out.append(("(eval (list 'define %s %d) (ie))" % (s, o), None))
            val[n] = o
            P('bound')
        elif k == 'set':
            if builtin:
                continue
            if PLAIN.match(n) and g < 5:
                f = '(tst (lambda () (set! %s %d) 1))' % (n, o)
            else:
                f = "(tst (lambda () (eval (list 'set! %s %d) (ie)) 1))" % (s,
                                                                            o)
            out.append((f, '1' if n in val else 'error'))
            if n in val:
                val[n] = o
        elif k == 'ref':
            if builtin:
                continue
            if PLAIN.match(n) and g < 5:
                f = '(tst (lambda () %s))' % n
            else:
                f = '(tst (lambda () (eval %s (ie))))' % s
            out.append((f, str(val.get(n, 'error'))))
            P('bound' if n in val else 'unbound')
        elif k == 'bound':
            out.append(('(symbol-bound? %s)' % s,
                        '#t' if n in val or builtin else '#f'))
        elif k == 'name':
            out.append(('(list (string=? (symbol->string %s) %s) (string-length'
                        ' (symbol->string %s)))' % (s, lit(n), s),
                        '(#t %d)' % len(n)))
        elif k == 'store':
            stored[g % 8] = n
            out.append(('(vector-set! sv %d %s)' % (g % 8, s), None))
        elif k == 'stored':
            w = stored[g % 8]
            out.append(('(eq? (vector-ref sv %d) %s)' % (g % 8, s),
                        '#t' if w == n else '#f'))
            if w is not None:
                P('eq' if w == n else 'neq')
                if not (w in BUILTIN and w not in val and w != 'x'):
                    out.append(('(tst (lambda () (eval (vector-ref sv %d) (ie))'
                                '))' % (g % 8), str(val.get(w, 'error'))))
        elif k == 'flood':
            j = o % 5 * 40 + 5
            out.append(('(let lp ((i 0)) (if (< i %d) (begin (string->symbol '
                        '(string-append %s (number->string i))) (lp (+ i 1))) '
                        'i))' % (j, lit(['fl', '', n[:40], 'z'][g % 4])),
                        str(j)))
            P('flood')
        elif k == 'shadow':
            if not PLAIN.match(n) or not PLAIN.match(m):
                continue
            if {n, m} & {'do', 'delay', 'letrec'}:
                continue
            q = g % 7
            if q == 0:
                f, v = '((lambda (%s) (set! %s %d) %s) 5)' % (n, n, o, n), o
            elif q == 1:
                f, v = '(let ((%s 1)) (let ((%s 2)) %s))' % (n, n, n), 2
            elif q == 2 and n != m:
                f, v = '(let ((%s 1) (%s 2)) (list %s %s))' % (n, m, m, n), \
                    '(2 1)'
            elif q == 3:
                f, v = '(let () (define %s %d) (set! %s 4) %s)' % (n, o, n,
                                                                  n), 4
            elif q == 4 and n != m:
                f, v = '((lambda (%s . %s) (list %s %s)) 1 2 3)' % (
                    n, m, n, m), '(1 (2 3))'
            elif q == 5 and n != m:
                f, v = '(let ((f (let ((%s 7)) (lambda (%s) (list %s %s))))) ' \
                    '(let ((%s 8)) (f 9)))' % (n, m, n, m, n), '(7 9)'
                if 'f' in (n, m):
                    continue
            else:
                f, v = "(let ((%s 1)) (list (eq? '%s (string->symbol %s)) %s))"\
                    % (n, n, lit(n), n), '(#t 1)'
                if n in ('list', 'eq?'):
                    continue
            out.append((f, str(v)))
            P('shadow')
        elif k == 'late':
            if not PLAIN.match(n) or builtin:
                continue
            late[g % 8] = n
            out.append(('(vector-set! pv %d (lambda () %s))' % (g % 8, n),
                        None))
        elif k == 'callate':
            w = late[g % 8]
            if w is None:
                continue
            out.append(('(tst (vector-ref pv %d))' % (g % 8),
                        str(val.get(w, 'error'))))
            P('late')
        elif k == 'case':
            if PLAIN.match(m):
                out.append(('(case %s ((%s) 1) (else 0))' % (s, m),
                            '1' if n == m else '0'))
                P('rehome')
        elif k == 'alist':
            t = '(list %s)' % ' '.join('(cons (string->symbol %s) %d)' % (
                lit(x), j) for j, x in enumerate(names))
            out.append(('(cdr (assq %s %s))' % (s, t), str(names.index(n))))
        elif k == 'readb':
            xs = [x for x in names if PLAIN.match(x)]
            if PLAIN.match(n):
                out.append(('(length (memq %s (rd %s)))' % (
                    s, lit('(' + ' '.join(xs) + ')')),
                    str(len(xs) - xs.index(n))))
        else:
            out.append(('(begin (sim-gc) 1)', '1'))
    return out


def run(c, ctx):
    w = walk(c, ctx)
    res = ctx.sim(c['variant'], U.scen(
        c['heap'], 'cpu 6', 'maxallocs 3000000', 'quietio', c['gc'],
        'op init', U.ev(SETUP, True),
        *[U.ev(f if v is None else '(sim-log %s)' % f, True) for f, v in w]))
    a = U.abnormal(res)
    if a:
        return [a]
    got = U.logs(res)
    want = ['L ' + v if v != 'error' else 'L |error|' for _, v in w
            if v is not None]
    fs = [f for f, v in w if v is not None]
    for j, (x, y) in enumerate(zip(got, want)):
        if x != y:
            return ['value: %s gave %s, expected %s' % (fs[j][:300], x[:80], y)]
    if len(got) != len(want):
        return ['value: %d of %d logged' % (len(got), len(want))]
    return []


def simpler(c):
    n = len(c['ops'])
    s = n // 2
    while s:
        for j in range(0, n, s):
            yield dict(c, ops=c['ops'][:j] + c['ops'][j + s:])
        s //= 2
    for k, v in (('variant', 'compact'), ('gc', 'gc none')):
        if c[k] != v:
            yield dict(c, **{k: v})
