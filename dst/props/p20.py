"""P20 the read-eval-print loop."""
from .. import util as U

PROP = 'P20'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt']
COUNT = {'quick': 6000, 'thorough': 200000}
CAP = {'quick': 300, 'thorough': 3000}
TECH = ('sessions of the sscm main program with erroneous forms, malformed '
        'input, and read errors at any read of the standard input')
RULE = ('a case is a session: lines of forms with known printed values and '
        'outputs, failing and escaping forms, malformed and wrongly encoded '
        'lines, an incomplete end, the delivery of the bytes, possibly a '
        'passing or lasting read error, and a GC schedule; standard output, '
        'the number of reported errors and the exit status of the real main '
        'program are compared with what the session says; it counts once per '
        'distinct event log')
ASSUME = ['after a parse error the rest of its line is skipped',
          'a read error may spoil the line it occurs in; a lasting one ends '
          'the loop with an error, and a second one in a row '
          'or one in a wrongly encoded line may',
          'the character after an unknown # belongs to the error',
          'output ports stay usable']
PROBES = ['probe:value', 'probe:error', 'probe:parse', 'probe:passing',
          'probe:lasting', 'probe:eof-inside', 'probe:exit', 'probe:escape',
          'probe:redef']
# forms: (text, printed or None if it fails, output before, state change)
OK = ['(values 1 2)', '(if #f #f)', "'a", '"s\\n\\"q"', '#\\a', "'(1 (2 . 3) #(x \"y\"))", '#t', '#f', "'()", '()',
      '(list 1 2)', '(string-append "a" "b")', "(quote #(1 2))", '42', '-7',
      "`(1 ,(+ 1 1))", '(let lp ((i 0)) (if (< i 50) (lp (+ i 1)) i))',
      "(map (lambda (x) (* x x)) '(1 2 3))", "(if #f 1 'no)",
      '(call/cc (lambda (k) (+ 1 (k 9))))', "(guard (e (#t (list 'c e))) "
      "(raise 7))", "(let ((p (list 1 2))) (cons p p))",
      '(dynamic-wind (lambda () 1) (lambda () 2) (lambda () 3))',
      "(call-with-values (lambda () (values 1 2)) cons)",
      '(force (delay (+ 1 2)))', '(string->symbol "sy")', '"\u3042\u3044"',
      "'\u6f22", '(begin (display "out") 5)', '(begin (write "w") (newline) 6)',
      "(begin (display '(1 \"x\" #\\y)) 'z)",
      '(guard (e (#t (display "h") 8)) (dynamic-wind (lambda () (display "i")) '
      '(lambda () (raise 1)) (lambda () (display "o"))))',
      '(call/cc (lambda (k) (dynamic-wind (lambda () (display "i")) (lambda ()'
      ' (k 10)) (lambda () (display "o")))))',
      '(call/cc (lambda (k) (with-exception-handler (lambda (e) (k e)) (lambda '
      '() (raise 11)))))', "(let ((o (open-output-string))) (write 'q o) "
      "(get-output-string o))", "(eval '(+ 1 2) (interaction-environment))",
      "(with-input-from-file \"/q\" read)",
      "(call/cc (lambda (k) (with-input-from-file \"/q\" (lambda () (k 3)))))"]
OKV = ['#<values (1 2)>', '#<undef>', 'a', '"s\\n\\"q"', '#\\a', '(1 (2 . 3) #(x "y"))', '#t', '#f', '()',
       '()', '(1 2)', '"ab"', '#(1 2)', '42', '-7', '(1 2)', '50', '(1 4 9)', 'no',
       '9', '(c 7)', '((1 2) 1 2)', '2', '(1 . 2)', '3', 'sy',
       '"\u3042\u3044"', '\u6f22', 'out5', '"w"\n6', '(1 x y)z', 'iho8', 'io10',
       '11', '"q"', '3', 'item', '3']
BAD = ['(car 1)', 'undefined-variable', '(undefined-proc 1)', '(raise 3)',
       "(raise 'sym)", '(raise (list 1 "x"))', '(error "msg" 1 (list 2))',
       '(vector-ref (vector 1) 5)', '(if)', '(let ((x)) 1)', '(1 2)',
       '(with-exception-handler (lambda (e) 1) (lambda () (raise 2)))',
       '(with-exception-handler (lambda (e) (car e)) (lambda () (raise 2)))',
       '(load "/none")', '(string->symbol 1)', '(apply car 1)',
       '(lambda)', '(guard (e ((string? e) 1)) (raise 5))',
       '(with-input-from-file "/q" (lambda () (read) (car 1)))',
       '(with-output-to-file "/f" (lambda () (display "lost") (raise 1)))',
       '(call-with-output-file "/g" (lambda (p) (car p)))',
       '(map (lambda (x) (car x)) (list (list 1) 2))',
       '(force (delay (raise 4)))', '(kk 5)', '(eval (quote (car 1)) '
       '(interaction-environment))', '(assert #f)', '(read-char 1)',
       '(dynamic-wind (lambda () (car 1)) (lambda () 2) (lambda () 3))']
BADOUT = ['(dynamic-wind (lambda () (display "i")) (lambda () (car 1)) (lambda'
          ' () (display "o")))', '(begin (display "io") (raise 1))']
# values that cannot be printed
ODD = '(with-char-codec "EUC-JP" (lambda () (integer->char 9413025)))'
BADVAL = [(ODD, '#\\'), ("(list 1 'a %s 2)" % ODD, '(1 a #\\'),
          ('(vector %s)' % ODD, '#(#\\'),
          ('(begin (display "x") (cons 1 %s))' % ODD, 'x(1 . #\\'),
          ('(call-with-values (lambda () (values 1 %s)) list)' % ODD,
           '(1 #\\')]
# lines that fail to parse at some place; what stands before has values
PARSE = [b') (+ 1 2)', b'(1 . ) 3', b'#zz 4', b'"\\q" 5', b'(1 . 2 3) 6',
         b'#\\foo 7', b'(1 2 #zz (+ 1 2)) 8', b'#(1 . 2) 9', b'(list 1 "\\z" 2)'
         b' 10', b'. 11', b'(. 2) 12', b'#;x 13', b'"\\x41" 14', b'\\ 1',
         b'(quote #\\xyzzy) 2', b']', b'))))))', b'"\\xzz;" 3']
BROKEN = [b'\xff (+ 1 2)', b'(+ 1 \xfe) 3', b'"ab\xffcd" 5', b'; \xff c',
          b"'a\xff\xff\xff 7", b'\xff\xff\xff\xff', b'#\\\xff 1']
TAILS = [b'(1 2', b'"abc', b'(a . ', b'#(1 "x', b"(+ 1 2) (3", b'((((',
         b'"abc\n def\n', b'(1\n2\n']


def item(r, c):
    """a line: [bytes hex, stdout, errors, single line]"""
    k = r.random()
    if k < .45:
        t, o, n = [], '', 0
        for _ in range(r.choice((1, 1, 1, 2, 3))):
            j = r.randrange(len(OK) + 3)
            if c['plain'] and len(OK) <= j < len(OK) + 2:
                j -= len(OK)
            if j < len(OK):
                t.append(OK[j])
                o += OKV[j] + '\nsscm> '
            elif j == len(OK):
                c['x'] = r.randrange(99)
                t.append('(define x %d)' % c['x'])
                o += 'x\nsscm> '
            elif j == len(OK) + 1 and c['x'] is not None:
                c['x'] += 2
                t.append('(begin (set! x (+ x 2)) x)')
                o += '%d\nsscm> ' % c['x']
            else:
                t.append("(list (read) 'r) token%d" % _)
                o += '(token%d r)\nsscm> ' % _
        return [(' '.join(t) + r.choice(['', '', ' ', ' ; c (" x'])).encode()
                .hex(), o, 0, 'value']
    if k < .7:
        t, o, n = [], '', 0
        for _ in range(r.choice((1, 1, 2))):
            if r.random() < .8:
                t.append(r.choice(BAD))
                o += 'sscm> '
            elif r.random() < .5:
                t.append(r.choice(BADOUT))
                o += 'iosscm> '
            else:
                f, w = r.choice(BADVAL)
                t.append(f)
                o += w + 'sscm> '
            n += 1
            if r.random() < .3:
                j = r.randrange(len(OK))
                t.append(OK[j])
                o += OKV[j] + '\nsscm> '
        return [' '.join(t).encode().hex(), o, n, 'error']
    if k < .88:
        b = r.choice(PARSE + BROKEN)
        o = 'sscm> '
        if r.random() < .3:
            j = r.randrange(len(OK))
            b = OK[j].encode() + b' ' + b
            o = OKV[j] + '\nsscm> ' + o
        return [b.hex(), o, 1, 'parse']
    if k < .93 and not c['plain']:
        return [b'(call/cc (lambda (k) (set! kk k) (+ 1 (k 6))))'.hex(),
                '6\nsscm> ', 0, 'escape']
    if k < .945 and not c['plain']:
        # the loop goes on with the procedures it began with
        n, f, v = r.choice([
            ('eval', "(define eval (lambda x 'mine))", 'eval'),
            ('read', "(define read (lambda x 'mine))", 'read'),
            ('read-char', '(define read-char (lambda x #\\newline))', 'read-char'),
            ('read-char', '(define read-char car)', 'read-char'),
            ('eval', "(define eval '())", 'eval'),
            ('write', '(define write (lambda x (car 1)))', 'write'),
            ('newline', '(define newline #f)', 'newline')])
        t = '(define old %s)\n%s\n(list 1 2)\n(car 1) 4\n) zz 5\n(begin ' \
            "(set! %s old) 'ok)" % (n, f, n)
        return [t.encode().hex(), 'old\nsscm> %s\nsscm> (1 2)\nsscm> sscm> '
                '4\nsscm> sscm> ok\nsscm> ' % v, 2, 'redef']
    if k < .97:
        return [r.choice(['', '; nothing', '   ', '\t;x']).encode().hex(), '',
                0, 'blank']
    return ["(list 1\n  '(a\nb) ; c\n \"two\nlines\")".encode().hex(),
            '(1 (a b) "two\\nlines")\nsscm> ', 0, 'multi']


def gen(rng, i):
    r = rng
    # a line lost to a read error must not matter to later ones
    c = {'x': None, 'plain': r.random() < .3}
    items = [item(r, c) for _ in range(r.choice((1, 2, 4, 8, 14)))]
    del c['x']
    c['items'] = [[b'(define kk #f)'.hex(), 'kk\nsscm> ', 0, 'value']] + items
    c['end'] = 'eof'
    k = r.random()
    if k < .15:
        c['end'] = 'inside'
        t = r.choice(TAILS)
        o = '3\nsscm> ' if t.startswith(b'(+') else ''
        c['items'].append([t.hex(), o + 'sscm> ', 1, 'tail'])
    elif k < .25:
        c['end'] = 'exit'
    c['fault'] = None
    if c['plain']:
        c['items'] = [x for x in c['items'] if x[3] not in ('multi', 'tail')]
        c['end'] = 'eof'
        c['fault'] = [r.random(), r.choice((5, 5, 4, 11, 21)),
                      r.choice((0, 1, 1, 2))]
    c['chunks'] = [r.choice((1, 1, 2, 3, 5, 17, 60, 400))
                   for _ in range(r.choice((1, 1, 2, 5)))]
    c['buf'] = r.choice((0, 0, 1, 16, 4096))
    c['wchunks'] = [r.choice((1, 3, 20, 100))] if r.random() < .3 else []
    c['variant'] = r.choice(VARIANTS)
    c['gc'] = U.gc_schedule(r, .6) + '\ngclimit 150'
    c['opt'] = r.choice([[], [], ['-C', 'UTF-8']])
    return c


def run(c, ctx):
    raw = b''
    starts = []
    out = 'sscm> '
    outs = []
    nerr = 0
    errs = []
    for j, (h, o, n, k) in enumerate(c['items']):
        starts.append(len(raw))
        outs.append(out)
        errs.append(nerr)
        b = bytes.fromhex(h)
        raw += b + b'\n' if k != 'tail' else b
        out += o
        nerr += n
        ctx.count('probe:' + k)
    end = 'DONE 0'
    if c['end'] == 'exit':
        starts.append(len(raw))
        outs.append(out)
        errs.append(nerr)
        raw += b'(exit 7) (display "never")\n'
        end = 'EXIT 7'
        ctx.count('probe:exit')
    elif c['end'] == 'inside':
        ctx.count('probe:eof-inside')
    base = [U.HEAP, 'cpu 6', 'maxallocs 2000000', 'quietio',
            'file <stdin> ' + raw.hex(), 'file /q ' + b'item two'.hex(),
            'chunks <stdin> ' + ' '.join(map(str, c['chunks']))]
    if c['buf']:
        base.append('bufsize <stdin> %d' % c['buf'])
    if c['wchunks']:
        base.append('wchunks <stdout> ' + ' '.join(map(str, c['wchunks'])))
    at = None
    if c['fault']:
        base.append('bufsize <stdin> 4096')
        # the division into reads, as the simulated device makes it
        n = pos = 0
        offs = []
        while pos < len(raw):
            offs.append(pos)
            pos += c['chunks'][n % len(c['chunks'])]
            n += 1
        offs.append(len(raw))
        w, err, times = c['fault']
        j = int(w * len(offs))
        at = offs[j]
        ctx.count('probe:passing' if times else 'probe:lasting')
        if times:
            for q in range(times):
                base.append('fault <stdin> read %d %d' % (j + 1 + q, err))
        else:
            base.append('fault <stdin> read %d %d 1' % (j + 1, err))
    res = ctx.sim(c['variant'], U.scen(
        *base, c['gc'], 'op main ' + ' '.join(
            x.encode().hex() for x in c['opt'])))
    got = res.files.get('<stdout>', b'')
    se = res.files.get('<stderr>', b'')
    ne = sum(l.startswith(b'Error: ') for l in se.split(b'\n'))
    want = out.encode()
    if res.crashed:
        return ['crash: ' + ('hang' if res.status & 0x7f == 24 else
                             res.crash_kind())]
    fired = any(l.startswith('! <stdin> read') for l in res.lines)
    if not c['fault'] or not fired:
        if got != want:
            return ['output: %s' % show(got, want)]
        if res.end != end:
            return ['end: %s, not %s: %s' % (res.end, end, se[-200:])]
        if ne != nerr:
            return ['errors: %d reported, %d expected: %s' % (
                ne, nerr, se[-300:])]
        return []
    # a read error spoils at most the line it strikes
    i = max(j for j, s in enumerate(starts) if s <= at)
    pre = outs[i].encode()
    # the newline before the line may have been pending
    if i and at == starts[i]:
        alt = outs[i - 1].encode()
    else:
        alt = pre
    if not got.startswith(pre) and not got.startswith(alt):
        return ['output: before the read error %s' % show(got, pre)]
    # a read error while a broken line is skipped is not survived
    try:
        bytes.fromhex(c['items'][i][0]).decode()
        hard = c['fault'][2] > 1
    except UnicodeDecodeError:
        hard = True
    if not c['fault'][2] or hard and res.end == 'EXIT 1':
        if res.end != 'EXIT 1':
            return ['end: %s after a lasting read error' % res.end]
        if ne < errs[i if got.startswith(pre) else i - 1] + 1:
            return ['errors: %d reported' % ne]
        return []
    if res.end != end:
        return ['end: %s after a passing read error: %s' % (
            res.end, se[-200:])]
    post = out[len(outs[i + 1]):].encode() if i + 1 < len(outs) else b''
    if not got.endswith(post) or not got.endswith(b'sscm> '):
        return ['output: after the read error %r, expected an end with %r' % (
            got[-150:], post[-150:])]
    return []


def show(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return 'after %r: %r, expected %r' % (a[max(0, n - 40):n], a[n:n + 80],
                                          b[n:n + 80])


def simpler(c):
    for j in range(1, len(c['items'])):
        yield dict(c, items=c['items'][:j] + c['items'][j + 1:])
    for k, v in (('chunks', [4096]), ('buf', 0), ('wchunks', []), ('opt', []),
                 ('variant', 'compact'), ('gc', 'gc none')):
        if c[k] != v:
            yield dict(c, **{k: v})
    if c['fault']:
        yield dict(c, fault=None)
