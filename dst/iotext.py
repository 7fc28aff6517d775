"""Texts of data with known values and boundaries, and random junk."""

U8 = ['a', 'b', 'z', 'Q', '7', '\u00e9', '\u3042', '\u6f22', '\U0001f600',
      '\u03b1', '\u30ce']
SYMS = ['abc', 'x', 'set!', 'a->b', '...', '+', '-', 'q' * 30, 'w' * 63,
        'v' * 64, 'u' * 65, 's' * 130, '\u3042\u3044', 'k\u00e9y', '<=?', 'A.b',
        'Abc']
CHARS = [('#\\a', 97), ('#\\Z', 90), ('#\\space', 32), ('#\\newline', 10),
         ('#\\(', 40), ('#\\)', 41), ('#\\"', 34), ('#\\;', 59), ('#\\\\', 92),
         ('#\\x41', 0x41), ('#\\x3042', 0x3042), ('#\\\u3042', 0x3042),
         ('#\\tab', 9), ('#\\0', 48), ('#\\\u00e9', 0xe9), ('#\\x', 120)]
INTS = [('0', 0), ('42', 42), ('-7', -7), ('#xff', 255), ('#b-101', -5),
        ('#o17', 15), ('123456789', 123456789), ('+5', 5), ('-0', 0)]
ESC = [('\\n', '\n'), ('\\t', '\t'), ('\\"', '"'), ('\\\\', '\\'),
       ('\\x41;', 'A'), ('\\x3042;', '\u3042'), ('\\a', '\a'), ('(', '('),
       (')', ')'), (';', ';'), (' ', ' '), ('\n', '\n')]


def prb(b):
    o = []
    for c in b:
        if c in (34, 92):
            o.append('\\' + chr(c))
        elif c < 0x20 or c >= 0x7f:
            o.append('\\x%02x;' % c)
        else:
            o.append(chr(c))
    return ''.join(o)


class Text:
    """a datum: text (str), shown (as sim-log prints it), self-delimiting"""

    def __init__(self, text, shown, closed):
        self.text, self.shown, self.closed = text, shown, closed


class Gen:
    def __init__(self, rng, ascii_only=False):
        self.r = rng
        self.ascii = ascii_only

    def ok(self, s):
        return not self.ascii or all(ord(c) < 128 for c in s)

    def pick(self, xs, key=lambda x: x):
        while True:
            x = self.r.choice(xs)
            if self.ok(key(x)):
                return x

    def ws(self, need):
        r = self.r
        o = []
        for _ in range(max(need, r.choice((0, 0, 1, 1, 2)))):
            o.append(r.choice([' ', ' ', '\n', '\t', ' ;c (" x\n', '  ',
                               '\r\n', '\n\n']))
        return ''.join(o)

    def string(self):
        r = self.r
        n = r.choice((0, 1, 3, 8, 20)) if r.random() < .95 else \
            r.choice((240, 252, 255, 256, 257, 1023, 1024, 1030))
        t, v = [], []
        for _ in range(n):
            if r.random() < .2:
                a, b = self.pick(ESC, lambda e: e[1])
            else:
                a = b = self.pick(U8)
            t.append(a)
            v.append(b)
        v = ''.join(v)
        return Text('"%s"' % ''.join(t),
                    '"%s"/%d' % (prb(v.encode()), len(v)), True)

    def long_sym(self):
        """a name that crosses the token buffers, which grow by steps"""
        r = self.r
        n = r.choice((60, 61, 62, 63, 64, 65, 66, 67, 70, 127, 128, 255, 256,
                      500, 1022, 1023, 1024))
        t = 'a' * r.randrange(max(1, n - 12), n + 1)
        while len(t.encode()) < n + r.choice((1, 20)):
            t += r.choice('bcd' if self.ascii else
                          'bc\u00e9\u3042\u6f22\U0001f600')
        return t

    def atom(self):
        r = self.r
        k = r.randrange(5)
        if k == 0:
            t, v = r.choice(INTS)
            return Text(t, str(v), False)
        if k == 1:
            s = self.pick(SYMS) if r.random() < .8 else self.long_sym()
            return Text(s, '|%s|' % prb(s.encode()), False)
        if k == 2:
            t, v = self.pick(CHARS, lambda c: c[0] if not self.ascii else
                             c[0] + chr(c[1]))
            return Text(t, '#\\x%x' % v, False)
        if k == 3:
            return self.string()
        b = r.choice('tf')
        return Text('#' + b, '#' + b, True)

    def datum(self, depth=2):
        r = self.r
        k = r.random()
        if depth == 0 or k < .45:
            return self.atom()
        if k < .55:
            d = self.datum(depth - 1)
            t, n = r.choice([("'", 'quote'), ('`', 'quasiquote'),
                             (',', 'unquote'), (',@', 'unquote-splicing')])
            return Text(t + self.ws(0) + d.text, '(|%s| %s)' % (n, d.shown),
                        d.closed)
        ds = [self.datum(depth - 1) for _ in range(r.choice((0, 1, 2, 3, 5)))]
        vec = k < .65
        t, s = ['#(' if vec else '('], []
        for i, d in enumerate(ds):
            t.append(self.ws(int(i > 0 and not (
                ds[i - 1].closed and d.text[0] in '("\''))))
            t.append(d.text)
            s.append(d.shown)
        sh = ('#(' if vec else '(') + ' '.join(s) + ')'
        if not vec and ds and r.random() < .2:
            d = self.datum(depth - 1)
            t += [self.ws(1), '.', self.ws(1), d.text]
            # a list or quotation after the dot continues the list
            if d.shown == '()':
                pass
            elif d.shown[0] == '(':
                sh = sh[:-1] + ' ' + d.shown[1:]
            else:
                sh = sh[:-1] + ' . ' + d.shown + ')'
        t += [self.ws(0), ')']
        return Text(''.join(t), sh, True)

    def text(self, n):
        """(text, [(shown, end offset incl. a needed delimiter)])"""
        t, out = '', []
        prev = None
        for _ in range(n):
            d = self.datum(self.r.choice((0, 0, 1, 2)))
            t += self.ws(int(prev is not None and not (
                prev.closed and d.text[0] in '("\'')))
            t += d.text
            end = len(t.encode())
            out.append([d.shown, end, bool(d.closed)])
            prev = d
        t += self.ws(0)
        return t, out


JUNK = [b'(', b')', b' ', b'\n', b"'", b'`', b',@', b',', b'#(', b'"', b'"ab"',
        b'\\', b'#\\', b'#\\a', b'#\\space', b'#\\foo', b'abc', b'a' * 70,
        b'12', b'-', b'+5', b'1+', b'#x1g', b'#t', b'#q', b';c\n', b';', b'#|',
        b'|#', b'"x\\n"', b'"\\q"', b'"' + b'z' * 300 + b'"', b'\xe3\x81\x82',
        b'\xff', b'\xe3', b'\xe3\x81', b'[', b'{', b'}', b'#;', b'1.5', b'...',
        b'. ', b'.', b'#!eof', b'|a|', b'9' * 30, b'\r\n', b'\t', b'\x00',
        b'\x01', b'\x7f', b'\xc0\x80', b'\xf0\x9f\x98\x80', b'\xed\xa0\x80',
        b'#\\x41', b'#\\xfffffff', b'"\\x41;"', b'"\\x41"', b'q' * 1100,
        b'\xa4\xa2', b'\x82\xa0', b'\x8f\xa2\xa2', b'\x8e\xb1', b'\x81',
        b'\x1b$B', b'\xef\xbb\xbf', b'"a\nb"', b'#u8(1)', b'#d10', b'#e1']


def junk(rng, n, nul=True):
    return b''.join(rng.choice(JUNK if nul or True else JUNK)
                    for _ in range(n))
