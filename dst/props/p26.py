"""P26 format writes what its directives say, up to the fault."""
import json
import re
from .. import util as U
from ..iotext import prb

PROP = 'P26'
LEVEL = 'exploration'
TECH = 'callbacks, device faults, short writes and GC schedules'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt']
COUNT = {'quick': 6000, 'thorough': 200000}
CAP = {'quick': 300, 'thorough': 3000}
RULE = ('a case is a sequence of calls of format (SRFI-28, SRFI-48, format+, '
        'the C function scm_format) with random format strings, arguments and '
        'destinations, a pretty-print procedure that writes, raises, escapes, '
        'mutates the format string, closes the port or formats itself, device '
        'faults and a GC schedule; it counts once per distinct event log')
ASSUME = ['~& goes by the last character that the call itself wrote as text '
          'or newline, as the reference implementation of SRFI-48 does',
          'the bytes behind the first failure of a device are not checked']
PROBES = ['probe:faultless', 'probe:failed-op', 'probe:fmt-error', 'probe:pp',
          'probe:cformat', 'probe:string', 'fault:write', 'probe:escape']
SETUP = r"""
(require-extension (srfi 34) (srfi 6) (srfi 28))
(define format28 format)
(require-extension (srfi 48))
(define op-k #f) (define fs "") (define fs2 (make-string 1))
(define (mk s) (set! fs2 (string-copy s)) fs2)
(define (op i t)
  (let ((x (guard (e ((%%error-object? e) 'caught) (#t (list 'other e)))
            (call/cc (lambda (k) (set! op-k k) (let ((v (t)))
               (if (string? v) v 'ok)))))))
    (sim-log (list 'o i x (sim-fsize "/a") (sim-fsize "<stdout>")))))
(define pa (open-output-file "/a"))
(define ps (open-output-string))
(define px (open-output-string)) (close-output-port px)
(define pi (open-input-string "x"))
(define pps (vector write
 (lambda (o p) (display "<" p) (write o p) (write-char #\> p))
 (lambda (o p) (display "(" p) (raise 'boom))
 (lambda (o p) (display "{" p) (op-k 'esc))
 (lambda (o p) (string-set! fs 0 #\x3042) (string-fill! fs #\z)
  (if (> (string-length fs2) 0) (string-set! fs2 0 #\x3042))
  (string-fill! fs2 #\z) (write o p))
 (lambda (o p) (close-output-port p))
 (lambda (o p) (format p "[~a~%~5F~&]" o 7))
 (lambda (o p) (display (format #f "~s~y" o 1) p))
 (lambda (o p) (car p))
 5))
"""
PPN = ['write', 'brackets', 'raise', 'escape', 'mutate', 'close', 'nested',
       'self', 'error', 'bad']
DEST = ['#f', 'ps', 'pa', '#t', 'px', 'pi', '5', '(current-output-port)']


class Fail(Exception):
    pass


class Jump(Exception):
    pass


class Endless(Exception):
    pass


LOOP = '\x01'   # stands for output without an end


CAPS = {'format28': 1, 'format': 3, 'format+': 15, 'c': 31}


def fint(n, radix, width, pad, signed=True, bits=64):
    if not signed:
        n &= (1 << bits) - 1
    neg = n < 0
    u = abs(n)
    s = ''
    while True:
        s = '0123456789abcdef'[u % radix] + s
        u //= radix
        if not u:
            break
    if neg and pad != '0':
        s = '-' + s
    sg = 1 if neg and pad == '0' else 0
    s = pad * max(0, width - sg - len(s)) + s
    return '-' * sg + s


class Model:
    """one call of format: self.out is what it writes"""

    def __init__(self, proc, pp, helps):
        self.cap = CAPS[proc]
        self.out = []
        self.pp = pp
        self.helps = helps
        self.closed = False
        self.unsure = False
        self.npp = 0

    def emit(self, s):
        if LOOP in s:
            raise Endless()
        if s and self.closed:
            raise Fail()
        if s:
            self.out.append(s)

    def width(self, f, p):
        q = p
        while q < len(f) and q - p < 4 and f[q] in '0123456789':
            q += 1
        w = int(f[p:q]) if q > p else -1
        if w > 127:
            raise Fail()
        return w, q

    def prefix(self, f, p):
        pad = ' '
        if f[p:p + 1] == '0' and self.cap & 4:
            pad = '0'
            p += 1
        w, p = self.width(f, p)
        if f[p:p + 1] == ',':
            if w < 0:
                raise Fail()
            fw, p = self.width(f, p + 1)
            if fw < 0:
                raise Fail()
        return w, pad, p

    def pop(self, args):
        if not args or args[0]['t'] == 'tail':
            raise Fail()
        a = args.pop(0)
        if 'mk' in a and self.npp and PPN[self.pp] == 'mutate':
            return vstr('z' * len(a['val']))
        return a

    def run(self, f, args, c=False):
        last = '\0'
        p = 0
        while p < len(f):
            if f[p] != '~':
                self.emit(f[p])
                last = f[p]
                p += 1
                continue
            p += 1
            if c:
                h = self.raw(f, p, args)
                if h:
                    last, p = h
                    continue
            last, p = self.directive(f, p, args, last)
        if args and not c:
            raise Fail()

    def raw(self, f, p, args):
        if f[p:p + 1] == 'C':
            ch = args.pop(0)['val']
            self.emit(chr(ch))
            return chr(ch), p + 1
        if f[p:p + 1] == 'P':
            self.emit('0x' + fint(args.pop(0)['val'] & (1 << 64) - 1, 16, 16,
                                  '0'))
            return 'P', p + 1
        w, pad, q = self.prefix(f, p)
        d = f[q:q + 1]
        if d == 'S':
            s = args.pop(0)['val']
            self.emit(' ' * max(0, w - len(s)) + s)
            return (s[-1] if s else 'S'), q + 1
        bits = 32
        if d and d in 'WMLQJTZ':
            bits = 32 if d == 'W' else 64
            q += 1
            d = f[q:q + 1]
        if d and d in 'UDXOB':
            n = args.pop(0)['val'] & (1 << bits) - 1
            if d == 'D' and n >> (bits - 1):
                n -= 1 << bits
            self.emit(fint(n, {'X': 16, 'O': 8, 'B': 2}.get(d, 10), w, pad))
            return d, q + 1
        return None

    def directive(self, f, p, args, last):
        w, pad, q = self.prefix(f, p)
        pre = q > p
        ch = f[q:q + 1]
        d = ch.lower() if ch and ch < '\x80' else ch
        cap = self.cap
        if cap & 2:
            if d == 'f':
                a = self.pop(args)
                if a['t'] == 's':
                    self.emit(' ' * max(0, w - len(a['val'])))
                    self.emit(a['disp'])
                elif a['t'] == 'i':
                    self.emit(fint(a['val'], 10, w, pad))
                else:
                    raise Fail()
                return d, q + 1
            if d and d in 'dxob' and (not pre or cap & 8):
                a = self.pop(args)
                if a['t'] != 'i':
                    raise Fail()
                self.emit(fint(a['val'], {'d': 10, 'x': 16, 'o': 8, 'b': 2}[d],
                               w, pad))
                return d, q + 1
        if pre or not d:
            raise Fail()
        if d == 'a':
            self.emit(self.pop(args)['disp'])
        elif d == 's':
            self.emit(self.pop(args)['wr'])
        elif d == '%':
            self.emit('\n')
            return '\n', q + 1
        elif d == '~':
            self.emit('~')
        elif not cap & 2:
            raise Fail()
        elif d == 'w':
            self.emit(self.pop(args)['ss'])
        elif d == 'y':
            if self.pp == 9:
                raise Fail()
            self.pretty(self.pop(args))
        elif d in '?k':
            g = self.pop(args)
            if g['t'] != 's':
                raise Fail()
            l = self.pop(args)
            if l['val'] is None or l['t'] not in 'lo':
                raise Fail()
            self.run(g['val'], list(l['val']))
        elif d == 'c':
            a = self.pop(args)
            if a['t'] != 'c':
                raise Fail()
            self.emit(chr(a['val']))
        elif d == 't':
            self.emit('\t')
        elif d == '_':
            self.emit(' ')
        elif d == '&':
            if last != '\n':
                self.emit('\n')
            return '\n', q + 1
        elif d == 'h':
            self.emit(self.helps[1 if cap & 4 else 0])
        else:
            raise Fail()
        return d, q + 1

    def pretty(self, a):
        self.npp += 1
        k = PPN[self.pp]
        if k == 'mutate' and 'mk' in a:
            a = vstr('z' * len(a['val']))
        if k in ('write', 'mutate'):
            self.emit(a['wr'])
        elif k == 'brackets':
            self.emit('<' + a['wr'] + '>')
        elif k == 'raise':
            self.emit('(')
            raise Jump("(|other| |boom|)")
        elif k == 'escape':
            self.emit('{')
            raise Jump('|esc|')
        elif k == 'close':
            self.closed = True
        elif k == 'nested':
            self.emit('[' + a['disp'] + '\n    7\n]')
        elif k == 'self':       # (pretty-print is plain for the inner call)
            self.emit(a['wr'] + '1')
        elif k == 'error':
            raise Fail()


# ------------------------------------------------------------------ values
ESCW = {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t'}


def wstr(s):
    return '"' + ''.join(ESCW.get(c, c) for c in s) + '"'


def vstr(s):
    return {'t': 's', 'src': wstr(s), 'disp': s, 'wr': wstr(s), 'ss': wstr(s),
            'val': s}


def vint(n):
    return {'t': 'i', 'src': str(n), 'disp': str(n), 'wr': str(n),
            'ss': str(n), 'val': n}


def vchr(c):
    w = {' ': '#\\space', '\n': '#\\newline'}.get(c, '#\\' + c)
    return {'t': 'c', 'src': w, 'disp': c, 'wr': w, 'ss': w, 'val': ord(c)}


def vobj(src, disp=None, wr=None, ss=None, val=None):
    """val: the elements if it is taken as a list of arguments"""
    wr = wr or src
    return {'t': 'o', 'src': "'" + src, 'disp': disp or wr, 'wr': wr,
            'ss': ss or wr, 'val': val}


TAIL = {'t': 'tail', 'val': None}


def vlist(vs):
    return {'t': 'l', 'src': '(list %s)' % ' '.join(v['src'] for v in vs),
            'disp': '(%s)' % ' '.join(v['disp'] for v in vs),
            'wr': '(%s)' % ' '.join(v['wr'] for v in vs),
            'ss': LOOP if any(LOOP in v['wr'] for v in vs) else
            '(%s)' % ' '.join(v['ss'] for v in vs), 'val': vs}


def rint(r):
    return r.choice([r.randrange(-20, 20), r.randrange(-10 ** 6, 10 ** 6),
                     r.randrange(-2 ** 59, 2 ** 59), 0, 127, -128])


def rtext(r, n=6):
    return ''.join(r.choice('ab z9"\\\n\u3042\u00e9\U0001f600')
                   for _ in range(r.randrange(n)))


def value(r, t=None):
    t = t or r.choice('iiisscool')
    if t == 'i':
        return vint(rint(r))
    if t == 's':
        return vstr(rtext(r, r.choice([1, 4, 12])))
    if t == 'c':
        return vchr(r.choice('aZ \n~\u3042\u00e9(0'))
    if t == 'l':
        return vlist([value(r) for _ in range(r.randrange(3))])
    return r.choice([
        vobj('sym'), vobj('#t'), vobj('#f'), vobj('()', val=[]),
        vobj('(a . 1)', val=[vobj('a'), TAIL]),
        vobj('#(1 "x" #\\y)', '#(1 x y)'),
        vobj('(a ("b" #\\c) . d)', '(a (b c) . d)', val=[
            vobj('a'), vobj('("b" #\\c)', '(b c)',
                            val=[vstr('b'), vchr('c')]), TAIL])])


def circ():
    v = vobj('x')
    v.update(disp=LOOP, wr=LOOP, val=[vint(1), vint(2)] * 30, src="(let ((c (list 1 2))) (set-cdr! (cdr c) c) c)",
             ss='#1=(1 2 . #1#)')
    return v


# ------------------------------------------------------------- generation
def mkfmt(r, proc, depth=0):
    """a format string and the arguments it asks for"""
    f, a = [], []
    cap = CAPS[proc]
    for _ in range(r.choice((0, 1, 2, 3, 4, 6, 10))):
        k = r.random()
        if k < .35:
            f.append(r.choice(['x', 'text ', '\n', '\u3042', ',', '12', 'a',
                               ' ', '\u00e9\u3042']))
            continue
        pre = ''
        if cap & 2:
            d = r.choice('aasswy?kcct_&%~fffddxob' + 'h' * (r.random() < .1))
            if d in 'dxob' and cap & 8 or d == 'f':
                pre = r.choice(['', '', '0', '3', '05', '5', '12', '1,2',
                                '04,1', '127', '0127', '07'])
        else:
            d = r.choice('aass%~')
        if r.random() < .04:
            pre = r.choice(['3', '0', '128', '1,', ',', '999', '1,128',
                            '00005', '-1'])
        if r.random() < .03:
            d = r.choice(['q', '', ',', '\u3042', '\u0161', '"', 'z', '\u0461'])
        if r.random() < .3:
            d = d.upper()
        f.append('~' + pre + d)
        t = d.lower()
        bad = r.random() < .03
        if t in ('a', 's', 'y'):
            a.append(value(r))
        elif t == 'w':
            a.append(circ() if r.random() < .3 else value(r))
        elif t == 'c':
            a.append(value(r, None if bad else 'c'))
        elif t == 'f':
            a.append(value(r, None if bad else r.choice('iis')))
        elif t and t in 'dxob':
            a.append(value(r, None if bad else 'i'))
        elif t and t in '?k':
            if depth > 2 or bad:
                a += [value(r), value(r)]
            else:
                g, b = mkfmt(r, proc, depth + 1)
                a += [vstr(g), vlist(b)]
    if r.random() < .04 and a:
        a.pop(r.randrange(len(a)))
    if r.random() < .04:
        a.append(value(r))
    return ''.join(f), a


def mkc(r):
    """a format string for scm_format() and matching arguments"""
    f, a = [], []
    for _ in range(r.choice((1, 2, 3, 5))):
        k = r.random()
        if k < .25:
            f.append(r.choice(['x', '\n', '\u3042', '5', 'D']))
            continue
        if len(a) >= 7:
            break
        pre = r.choice(['', '', '', '5', '05', '12', '012', '3,1', '127'])
        if k < .7:
            m = r.choice(['', '', 'W', 'M', 'L', 'Q', 'J', 'T', 'Z'])
            d = r.choice('UDXOB')
            f.append('~' + pre + m + d)
            a.append(vint(rint(r)))
        elif k < .8:
            f.append('~' + pre + 'S')
            a.append(vstr(rtext(r, 9)))
        elif k < .87:
            f.append('~C')
            a.append(vchr(r.choice('aZ\n\u3042\u00e9~')))
        elif k < .9:
            f.append('~P')
            a.append(vint(r.randrange(2 ** 59)))
        else:
            d = r.choice('aswdxbofyct%&~_')
            f.append('~' + (pre if d in 'dxbof' else '') + d)
            if d in 'dxbof':
                a.append(dict(value(r, 'i'), obj=1))
            elif d == 'c':
                a.append(dict(value(r, 'c'), obj=1))
            elif d in 'aswy':
                a.append(dict(value(r), obj=1))
    return ''.join(f), a


def endless(proc, f, a, pp):
    try:
        Model(proc, pp, ['', '']).run(f, list(a))
    except Endless:
        return True
    except (Fail, Jump):
        pass
    return False


def gen(rng, i):
    r = rng
    c = {'ops': [], 'dirs': []}
    faulty = r.random() < .45
    for j in range(r.choice((1, 2, 4, 8, 12))):
        proc = r.choice(['format28', 'format', 'format', 'format+', 'format+',
                         'c'])
        d = 0
        pp = r.choice([0, 0, 1, 2, 3, 4, 4, 5, 6, 7, 8, 9])
        if proc == 'c':
            f, a = mkc(r)
        else:
            while True:
                f, a = mkfmt(r, proc)
                if not any(endless(proc, f, a, x) for x in range(3)):
                    break
            ms = [x for x, y in zip(a, a[1:]) if x['t'] == 's' and
                  y['t'] == 'l']
            if ms and r.random() < .5:
                x = r.choice(ms)
                x.update(src='(mk %s)' % x['src'], mk=1)
                pp = r.choice((4, 4, pp))
            if proc != 'format28':
                d = r.choice([0, 0, 1, 2, 2, 3, 7] if r.random() < .95
                             else [4, 5, 6])
        if d in (1, 2, 3, 7) and pp == 5:
            pp = 1      # (the shared ports stay open)
        c['ops'].append({'proc': proc, 'dest': d, 'fmt': f, 'args': a,
                         'pp': pp, 'lit': r.random() < .4 and pp != 4,
                         'bare': r.random() < .5})
    for path in ('/a', '<stdout>'):
        if r.random() < .5:
            c['dirs'].append('wchunks %s %s' % (path, ' '.join(
                str(r.choice((1, 2, 3, 7, 50))) for _ in range(3))))
        if r.random() < .5:
            c['dirs'].append('bufsize %s %d' % (path, r.choice(
                (0, 1, 2, 8, 64, 300))))
    if faulty:
        t = r.choice(['/a', '/a', '<stdout>'])
        if r.random() < .6:
            c['dirs'].append('fault %s write %d %d%s' % (
                t, r.randrange(1, r.choice((3, 10, 40))), r.choice(
                    (5, 28, 4, 122, 27)), r.choice(('', '', ' 1'))))
        else:
            c['dirs'].append('capacity %s %d' % (t, r.choice(
                (0, 1, 5, 20, 50, 150))))
    c['ops'] = [json.dumps(o) for o in c['ops']]  # (not cut apart)
    c['variant'] = r.choice(VARIANTS)
    c['gc'] = U.gc_schedule(r, .5) + '\ngclimit 300'
    return c


def form(j, o):
    pre = ''
    fs = wstr(o['fmt'])
    if not o['lit']:
        pre = '(set! fs (string-copy %s))' % fs
        fs = 'fs'
    args = ' '.join(('(vector %s)' % a['src']) if a.get('obj') else a['src']
                    for a in o['args'])
    if o['proc'] == 'c':
        call = '(sim-cformat %s (list %s))' % (fs, args)
    elif o['proc'] == 'format28' or (o['dest'] == 0 and o['bare']):
        call = '(%s %s %s)' % (o['proc'], fs, args)
    else:
        call = '(%s %s %s %s)' % (o['proc'], DEST[o['dest']], fs, args)
    # for the inner call of pps[7] the procedure is plain
    return '(set! pretty-print (vector-ref pps %d))%s(op %d (lambda () %s))' % (
        o['pp'], pre, j, call)


def run(c, ctx):
    ops = [json.loads(o) for o in c['ops']]
    f = ['(vector-set! pps 7 (lambda (o p) (let ((pp pretty-print)) (set! '
         'pretty-print write) (let ((s (format #f "~s~y" o 1))) (set! '
         'pretty-print pp) (display s p)))))']
    f += [form(j, o) for j, o in enumerate(ops)]
    f.append("(sim-log (list 's (get-output-string ps)))")
    f.append("(op 999 (lambda () (close-output-port pa)))")
    f.append('(set! pretty-print write)')
    f.append('(sim-log (list \'u (format "~a|~s|~5F|~y" "x" "y" 3 \'z)))')
    # the texts of ~h are what the implementation says they are
    f.insert(0, '(sim-log (list \'h (format "~h") (format+ "~h")))')
    r = ctx.sim(c['variant'], U.scen(
        U.HEAP, 'cpu 6', 'maxallocs 2000000', 'quietio', 'op init',
        *c['dirs'], U.ev(SETUP, True), c['gc'], 'op gcgo',
        U.ev('\n'.join(f), True), 'op fini', 'op stdflush'))
    e = U.abnormal(r)
    if e:
        return [e]
    if not any('fault' in d or 'capacity' in d for d in c['dirs']):
        ctx.count('probe:faultless')
    h = [l for l in r.lines if l.startswith('L (|h| ')]
    if len(h) != 1:
        return ['help: %r' % h]
    m = re.match(r'L \(\|h\| ("(?:[^"\\]|\\.)*")/\d+ ("(?:[^"\\]|\\.)*")/\d+\)$',
                 h[0])
    if not m or 'Any' not in m.group(1) and '~a' not in m.group(1).lower():
        return ['help: %s' % h[0][:300]]
    hs = [unprb(m.group(1)), unprb(m.group(2))]
    faults = set()
    seen = 0
    exp = {'/a': '', '<stdout>': ''}
    failed = {'/a': None, '<stdout>': None}
    sout = ''
    for l in r.lines:
        if l.startswith('! '):
            w = l.split(' ')
            if w[1] in exp:
                faults.add(w[1])
            continue
        m = re.match(r'L \(\|o\| (\d+) (.*) (-?\d+) (-?\d+)\)$', l)
        if not m:
            continue
        i, res = int(m.group(1)), m.group(2)
        size = {'/a': int(m.group(3)), '<stdout>': int(m.group(4))}
        if i == 999:
            if res != ('|caught|' if '/a' in faults else '|ok|') and \
                    not (failed['/a'] is not None and res == '|ok|'):
                return ['close: gave %s, faults %s' % (res, faults)]
            break
        if i != seen:
            return ['order: call %d logged as %d' % (seen, i)]
        seen += 1
        o = ops[i]
        md = Model(o['proc'], o['pp'], hs)
        dest = DEST[o['dest']] if o['proc'] not in ('c', 'format28') else '#f'
        path = {'pa': '/a', '#t': '<stdout>',
                '(current-output-port)': '<stdout>'}.get(dest)
        try:
            if dest in ('px', 'pi', '5'):
                want = '|caught|' if o['fmt'] or dest == '5' else None
                if dest != '5' and not o['fmt']:
                    md.run('', list(o['args']))
                    want = '|ok|'
            else:
                md.run(o['fmt'], list(o['args']), o['proc'] == 'c')
                t = ''.join(md.out)
                want = '"%s"/%d' % (prb(t.encode()), len(t)) if dest == '#f' \
                    else '|ok|'
                if md.closed and dest == '#f':
                    want = '|caught|'
        except Fail:
            want = '|caught|'
            ctx.count('probe:fmt-error')
        except Jump as j:
            want = str(j)
            ctx.count('probe:escape')
        if dest in ('px', 'pi') and want == '|caught|' and res != want:
            # (a format that writes nothing needs no port)
            try:
                m2 = Model(o['proc'], o['pp'], hs)
                m2.run(o['fmt'], list(o['args']))
                if not ''.join(m2.out):
                    want = '|ok|'
            except (Fail, Jump):
                pass
        t = ''.join(md.out)
        if md.npp:
            ctx.count('probe:pp')
        if o['proc'] == 'c':
            ctx.count('probe:cformat')
        ctx.key(o['proc'], dest, o['pp'], want[:8], bool(faults),
                sorted(set(re.findall(r'~[0-9,]*.?', o['fmt'])))[:4])
        if faults and path not in faults:
            return ['fault: call %d on %s ran into a fault of %s' % (
                i, dest, sorted(faults))]
        if faults:
            ctx.count('probe:failed-op')
            if res != '|caught|':
                return ['swallowed: call %d on %s ran into a fault and gave %s'
                        % (i, dest, res)]
            if failed[path] is None:
                exp[path] += t
                failed[path] = size[path]
            faults.clear()
            continue
        if res != want:
            return ['result: call %d %s gave %s, expected %s' % (
                i, form(i, o)[:400], res[:300], want[:300])]
        if dest == '#f':
            ctx.count('probe:string')
        elif dest == 'ps':
            sout += t
        elif path and failed[path] is None:
            exp[path] += t
    else:
        return ['lost: call %d never completed' % seen]
    if seen < len(ops):
        return ['lost: call %d never completed' % seen]
    s = 'L (|s| "%s"/%d)' % (prb(sout.encode()), len(sout))
    if s not in r.lines:
        return ['string port: expected %s got %s' % (
            s[:300], [l for l in r.lines if l.startswith('L (|s|')])]
    s = 'x|"y"|    3|z'
    if 'L (|u| "%s"/%d)' % (prb(s.encode()), len(s)) not in r.lines:
        return ['later call: format does not work any more']
    for p in exp:
        got = r.files.get(p, b'')
        want = exp[p].encode()
        late = any(l.startswith('! %s ' % p) for l in r.lines)
        if failed[p] is None:
            if got != want and not late:
                return ['content: %s holds %r, expected %r' % (
                    p, got[-200:], want[-200:])]
            if late and not want.startswith(got[:len(want)]):
                return ['prefix: %s holds %r, not a prefix of %r' % (
                    p, got[-200:], want[-200:])]
        elif not want.startswith(got[:failed[p]]):
            return ['prefix: %s holds %r, not a prefix of %r' % (
                p, got[:200], want[:200])]
    return []


def unprb(s):
    b = bytearray()
    s = s[1:-1]
    i = 0
    while i < len(s):
        if s[i] == '\\' and s[i + 1] == 'x':
            j = s.index(';', i)
            b.append(int(s[i + 2:j], 16))
            i = j + 1
        elif s[i] == '\\':
            b.append(ord(s[i + 1]))
            i += 2
        else:
            b.append(ord(s[i]))
            i += 1
    return b.decode('utf-8')


def simpler(c):
    if c['gc'] != 'gc none':
        yield dict(c, gc='gc none')
    for j, o in enumerate(json.loads(o) for o in c['ops']):
        for o2 in ([dict(o, pp=0)] if o['pp'] else []) + \
                ([dict(o, dest=0)] if o['dest'] else []) + \
                ([dict(o, fmt=o['fmt'][1:])] if o['fmt'][:1] not in '~' and
                 len(o['fmt']) > 1 else []):
            yield dict(c, ops=c['ops'][:j] + [json.dumps(o2)] + c['ops'][j + 1:])


SHRINK = ['ops', 'dirs']
SHRINK_INTS = False
