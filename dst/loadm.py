"""Files of forms, faults on them, and what load and require make of them."""
from . import util as U

CODECS = {'UTF-8': 'utf-8', 'EUC-JP': 'euc_jp', 'Shift_JIS': 'shift_jis',
          'EUC-KR': 'euc_kr', 'ISO-8859-1': 'latin-1'}
TEXTS = {'UTF-8': ['\u3042\u3044', 'k\u00e9y', '\U0001f600'],
         'EUC-JP': ['\u3042\u3044', '\u6f22\u5b57x'],
         'Shift_JIS': ['\u3042\u3044', '\u30bd\u8868'],
         'EUC-KR': ['\uac00\ub098', '\u3042'],
         'ISO-8859-1': ['\u00e9\u00e8', 'abc']}
SETUP = r"""
(require-extension (srfi 34))
(define (try t) (guard (e (#t (list 'caught (if (%%error-object? e) 'error
   e)))) (t)))
(define n 0)
(define esc #f)
(define (str s) (sim-log (list s (string-length s))))
(define (top t) (sim-log (list 'res (try (lambda () (call/cc (lambda (k)
   (set! esc k) (t) 'done)))))) (sim-log (list 'cc (%%current-char-codec))))
"""
PRELUDES = ['#! /bin/sscm -C %s\n', '#! /usr/bin/env sscm -C %s\n',
            '#! sscm -C %s x.scm\n', '#! sscm  -C\t%s \n']
BADPRE = ['#!/bin/sscm\n', '#! \n', '#t\n', '#! sscm -C nosuch\n',
          '#! sscm -z\n', '#! sscm -C\n', '#! ' + 'x' * 70 + '\n', '#\n',
          '#! sscm \u3042\n', '#! sscm --system-load-path rel\n', '#(1 2)\n']
SEPS = ['\n', ' ', '\n\n', ' ; c (" \n', '\t', '\r\n', '\n;;x)\n', '']


class SErr(Exception):
    def __init__(self, v):
        self.v = v


class Esc(Exception):
    def __init__(self, v):
        self.v = v


class Outside(Exception):
    pass


def form_src(f):
    k = f[0]
    if k == 'log':
        return '(sim-log %d)' % f[1]
    if k == 'str':
        return '(str "%s")' % f[1]
    if k == 'inc':
        return '(begin (set! n (+ n 1)) (sim-log (list \'n n)))'
    if k == 'err':
        return '(begin (sim-log %d) (error "E" %d))' % (f[1], f[1])
    if k == 'prim':
        return '(begin (sim-log %d) (car %d))' % (f[1], f[1])
    if k == 'raise':
        return "(raise 'r%d)" % f[1]
    if k == 'esc':
        return "(begin (esc 'e%d) (sim-log 'never))" % f[1]
    if k == 'codec':
        return "(sim-log (list 'codec (%%current-char-codec)))"
    if k == 'setcodec':
        return '(%%%%set-current-char-codec! "%s")' % f[1]
    if k == 'load':
        return '(load "%s")' % f[1]
    if k == 'gload':
        return "(sim-log (list 'g (try (lambda () (load \"%s\") 1))))" % f[1]
    if k == 'req':
        return '(require "%s")' % f[1]
    if k == 'greq':
        return "(sim-log (list 'q (try (lambda () (require \"%s\")))))" % f[1]
    if k == 'prov?':
        return "(sim-log (list 'p %s (provided? \"*%s-loaded*\")))" % (
            "'f" , f[1])
    if k == 'self':
        return '(if (< n %d) (begin (set! n (+ n 1)) (load "%s")))' % (
            f[2], f[1])
    if k == 'wind':
        return ("(dynamic-wind (lambda () (sim-log '(in %d))) (lambda () %s) "
                "(lambda () (sim-log '(out %d))))" % (
                    f[1], ' '.join(form_src(x) for x in f[2]), f[1]))
    if k == 'let':
        return "(let ((x %d)) %s (sim-log x))" % (
            f[1], ' '.join(form_src(x) for x in f[2]))
    if k == 'def':
        return '(define v%d %d)' % (f[1], f[1])
    if k == 'ref':
        return '(sim-log v%d)' % f[1]
    return f[1]         # atom, junk


def render(fl):
    """(bytes, prelude end, [end offset of each form])"""
    enc = CODECS[fl['codec'] or 'UTF-8']
    b = (fl['pre'] or '').encode(enc if not fl.get('badpre') else 'utf-8')
    pre = len(b)
    ends = []
    seps = fl['seps'] or ['\n']
    for i, f in enumerate(fl['forms']):
        s = form_src(f)
        sep = seps[i % len(seps)]
        if i and not sep and not (s[0] in '("' and
                                  form_src(fl['forms'][i - 1])[-1] in ')"'):
            sep = ' '
        b += sep.encode()
        b += s.encode(enc)
        ends.append(len(b))
    b += fl['tail'].encode()
    return b, pre, ends


def prs(s, codec):
    """a string as sim-log shows it"""
    o = ''
    for c in s.encode(CODECS[codec]):
        o += '\\' + chr(c) if c in (34, 92) else chr(c) if 0x20 <= c < 0x7f \
            else '\\x%02x;' % c
    return '"%s"/%d' % (o, len(s))


class Model:
    def __init__(self, files, lib=('/lib',)):
        self.files = files
        self.lib = lib
        self.log = []
        self.n = 0
        self.vars = set()
        self.codec = 'UTF-8'
        self.provided = set()
        self.opens = {}
        self.reads = {}
        self.loads = {}
        self.fired = []
        self.steps = 0
        self.failed = False
        self.done = {}
        self.guards = 0

    def L(self, s):
        self.log.append('L ' + s)

    # ---- files
    def fopen(self, p):
        fl = self.files.get(p)
        if fl is None:
            return False
        k = self.opens[p] = self.opens.get(p, 0) + 1
        fa = fl.get('fault')
        if fa and fa[0] == 'open' and (fa[1] == k or fa[3] and k >= fa[1]):
            self.fired.append('open')
            return False
        return True

    def load(self, name):
        """the Scheme-level load: the encoding comes back in every case"""
        saved = self.codec
        try:
            self.load_raw(name)
        finally:
            self.codec = saved

    def load_raw(self, name):
        self.steps += 1
        if self.steps > 60:
            raise Outside()
        path = None
        if name[0] == '/' and self.fopen(name):
            path = name
        else:
            for d in self.lib:
                if self.fopen(d + '/' + name):
                    path = d + '/' + name
                    break
        if path is None or not self.fopen(path):
            self.failed = True
            raise SErr('error')
        self.body(path)
        self.done[path] = self.done.get(path, 0) + 1

    def body(self, path):
        fl = self.files[path]
        raw, pre, ends = render(fl)
        cut = fl.get('cut')
        size = len(raw) if cut is None else min(cut, len(raw))
        # where a read error strikes in this load
        off = None
        fa = fl.get('fault')
        first = path not in self.loads
        self.loads[path] = self.loads.get(path, 0) + 1
        if fa and fa[0] == 'read':
            if first:
                ch = fl['chunks']
                if fa[1] <= _reads_to(ch, size) + 1:
                    off = min(size, sum(ch[i % len(ch)]
                                        for i in range(fa[1] - 1)))
            elif 'read:' + path in self.fired:
                off = 0 if fa[3] else None
            else:
                raise Outside()

        def ioerr():
            self.fired.append('read:' + path)
            self.failed = True
            raise SErr('error')

        def need(end):
            """bytes up to end are wanted"""
            if off is not None and end > off:
                ioerr()
            return end <= size

        need(1)
        if size == 0 and off is not None:
            ioerr()
        if size and raw[:1] == b'#':
            if fl.get('badpre'):
                # some position inside of the prelude
                if off is not None and off < pre:
                    ioerr()
                self.failed = True
                raise SErr('error')
            if not need(pre):
                if off is not None and off >= size:
                    ioerr()
                self.failed = True
                raise SErr('error')
            self.codec = fl['codec']
        start = pre
        for f, end in zip(fl['forms'], ends):
            if not need(end):
                # cut inside or before this form
                if off is not None and off <= size:
                    ioerr()
                s = form_src(f)
                b0 = end - len(s.encode(CODECS[fl['codec'] or 'UTF-8']))
                if size <= b0 or f[0] == 'atom' and s[0] not in '\'"':
                    return self.close(fa)
                self.failed = True
                raise SErr('error')
            if f[0] == 'atom' and off is not None and end >= off:
                ioerr()
            if f[0] == 'junk':
                if f[1][0] == ')':
                    self.failed = True
                    raise SErr('error')
                # an open list or string swallows the rest
                if f is not fl['forms'][-1] and (f[1][0] == '"' or any(
                        x[0] == 'junk' for x in fl['forms'][
                            ends.index(end) + 1:])):
                    raise Outside()
                if off is not None and off <= size:
                    ioerr()
                self.failed = True
                raise SErr('error')
            self.ev(f)
            start = end
        if off is not None and off <= size:
            ioerr()
        self.close(fa)

    def close(self, fa):
        if fa and fa[0] == 'close':
            self.fired.append('close')
            self.failed = True
            raise SErr('error')

    # ---- forms
    def ev(self, f):
        k = f[0]
        if k == 'log':
            self.L(str(f[1]))
        elif k == 'str':
            p = prs(f[1], self.codec)
            self.L('(%s %d)' % (p, len(f[1])))
        elif k == 'inc':
            self.n += 1
            self.L('(|n| %d)' % self.n)
        elif k in ('err', 'prim'):
            self.L(str(f[1]))
            self.failed = True
            raise SErr('error')
        elif k == 'raise':
            self.failed = True
            raise SErr('r%d' % f[1])
        elif k == 'esc':
            self.failed = True
            raise Esc('e%d' % f[1])
        elif k == 'codec':
            self.L('(|codec| "%s"/%d)' % (self.codec, len(self.codec)))
        elif k == 'setcodec':
            self.codec = f[1]
        elif k == 'load':
            self.load(f[1])
        elif k == 'gload':
            self.L('(|g| %s)' % self.guarded(lambda: self.load(f[1]) or '1'))
        elif k == 'req':
            self.require(f[1])
        elif k == 'greq':
            self.L('(|q| %s)' % self.guarded(lambda: self.require(f[1])))
        elif k == 'prov?':
            self.L('(|p| |f| %s)' % ('#t' if f[1] in self.provided else '#f'))
        elif k == 'self':
            if self.n < f[2]:
                self.n += 1
                self.load(f[1])
        elif k == 'wind':
            self.L('(|in| %d)' % f[1])
            try:
                for x in f[2]:
                    self.ev(x)
            except SErr:
                if self.guards:
                    self.L('(|out| %d)' % f[1])
                raise
            except Esc:
                self.L('(|out| %d)' % f[1])
                raise
            self.L('(|out| %d)' % f[1])
        elif k == 'let':
            for x in f[2]:
                self.ev(x)
            self.L(str(f[1]))
        elif k == 'def':
            self.vars.add(f[1])
        elif k == 'ref':
            if f[1] not in self.vars:
                self.failed = True
                raise SErr('error')
            self.L(str(f[1]))

    def guarded(self, t):
        saved = self.codec
        self.guards += 1
        try:
            return t()
        except SErr as e:
            self.codec = saved
            return '(|caught| |%s|)' % e.v
        finally:
            self.guards -= 1

    def require(self, name):
        if name not in self.provided:
            self.load(name)
            self.provided.add(name)
        return '#t'

    def top(self, t):
        saved = self.codec
        self.guards += 1
        try:
            t()
            r = '|done|'
        except SErr as e:
            r = '(|caught| |%s|)' % e.v
        except Esc as e:
            r = '|%s|' % e.v
        self.guards -= 1
        self.codec = saved
        self.L('(|res| %s)' % r)
        self.L('(|cc| "%s"/%d)' % (self.codec, len(self.codec)))


def _reads_to(ch, size):
    n = pos = 0
    while pos < size:
        pos += ch[n % len(ch)]
        n += 1
    return n


class Gen:
    def __init__(self, r, req=False):
        self.r = r
        self.req = req
        self.k = 0

    def num(self):
        self.k += 1
        return self.k

    def form(self, d, codec, children):
        r = self.r
        k = r.random()
        if k < .25:
            return ['log', self.num()]
        if k < .33:
            return ['inc']
        if k < .4 and codec:
            return ['str', r.choice(TEXTS[codec])]
        if k < .45:
            return ['codec']
        if k < .50:
            return [r.choice(['err', 'prim']), self.num()]
        if k < .53:
            return ['raise', self.num()]
        if k < .56:
            return ['esc', self.num()]
        if k < .6:
            return ['def' if r.random() < .6 else 'ref', r.randrange(4)]
        if k < .63:
            return ['atom', r.choice(['42', '"s (1"', "'()", '-7', '0'])]
        if k < .65:
            return ['junk', r.choice([')', '(sim-log 1', '"abc', ') 3'])]
        if k < .68 and not codec:
            return ['setcodec', r.choice(list(CODECS))]
        if k < .75 and d > 0:
            return [r.choice(['wind', 'let']), self.num(),
                    [x for x in (self.form(d - 1, codec, children)
                                 for _ in range(r.choice((1, 2))))
                     if x[0] not in ('junk', 'def')]
                    or [['log', self.num()]]]
        if children:
            c = r.choice(children)
            if self.req:
                return [r.choice(['req', 'greq', 'greq', 'prov?', 'load',
                                  'prov?']), c]
            return [r.choice(['load', 'gload']), c]
        return ['log', self.num()]

    def file(self, path, children):
        r = self.r
        fl = {'codec': None, 'pre': None}
        k = r.random()
        if k < .4:
            fl['codec'] = r.choice(list(CODECS))
            fl['pre'] = r.choice(PRELUDES) % fl['codec']
        elif k < .45:
            fl['pre'] = r.choice(BADPRE)
            fl['badpre'] = 1
        n = r.choice((0, 1, 2, 3, 3, 5, 8))
        fl['forms'] = [self.form(2, fl['codec'], children) for _ in range(n)]
        if r.random() < .1 and not self.req:
            fl['forms'].insert(r.randrange(n + 1),
                               ['self', path, r.choice((2, 3, 5))])
        fl['seps'] = [r.choice(SEPS) for _ in range(r.choice((1, 2, 3)))]
        fl['tail'] = r.choice(['', '\n', ' ; end', '\n\n'])
        fl['chunks'] = [r.choice((1, 2, 5, 17, 40, 200))
                        for _ in range(r.choice((1, 1, 3)))]
        fl['cut'] = None
        fl['fault'] = None
        k = r.random()
        size = len(render(fl)[0])
        err = r.choice((5, 5, 4, 21, 12))
        if k < .15:
            fl['cut'] = r.randrange(size + 1)
        elif k < .4:
            fl['fault'] = ['read', r.randrange(1, _reads_to(
                fl['chunks'], size) + 2), err, int(r.random() < .5)]
        elif k < .5:
            fl['fault'] = ['open', r.randrange(1, 5),
                           r.choice((2, 13, 24, 12)), int(r.random() < .3)]
        elif k < .55:
            fl['fault'] = ['close', 1, 5, 1]
        return fl


NAMES = ['/a', '/b', 'c', '/d/e', 'f']


def path_of(n):
    return n if n[0] == '/' else '/lib/' + n


def gen_files(r, req=False):
    g = Gen(r, req)
    names = NAMES[:r.choice((1, 2, 3, 4, 5))]
    files = {}
    for i, n in enumerate(names):
        files[path_of(n)] = g.file(n if n[0] == '/' else n,
                                   names[i + 1:] + ['/none'] * (
                                       r.random() < .2))
    return names, files


def directives(files):
    out = []
    for p, fl in sorted(files.items()):
        b = render(fl)[0]
        if fl.get('cut') is not None:
            b = b[:fl['cut']]
        out.append('file %s %s' % (p, b.hex()))
        out.append('bufsize %s 4096' % p)
        out.append('chunks %s %s' % (p, ' '.join(map(str, fl['chunks']))))
        fa = fl.get('fault')
        if fa:
            out.append('fault %s %s %d %d%s' % (
                p, fa[0], fa[1], fa[2], ' 1' if fa[3] else ''))
    return out


def simpler_files(files):
    import copy
    for p, fl in files.items():
        for key, v in (('fault', None), ('cut', None), ('seps', ['\n']),
                       ('tail', ''), ('chunks', [200])):
            if fl[key] != v:
                f = copy.deepcopy(files)
                f[p][key] = v
                yield f
        if fl['pre'] and not any(x[0] == 'str' for x in fl['forms']):
            f = copy.deepcopy(files)
            f[p].update(pre=None, codec=None)
            f[p].pop('badpre', None)
            yield f
        for i in range(len(fl['forms'])):
            f = copy.deepcopy(files)
            del f[p]['forms'][i]
            yield f
            x = fl['forms'][i]
            if x[0] in ('wind', 'let'):
                f = copy.deepcopy(files)
                f[p]['forms'][i:i + 1] = x[2]
                yield f
    for p in list(files):
        if len(files) > 1:
            f = copy.deepcopy(files)
            del f[p]
            yield f
