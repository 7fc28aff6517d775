"""P25 the expansion of a macro use."""
from .. import hyg
from .. import util as U

PROP = 'P25'
LEVEL = 'exploration'
VARIANTS = ['hygienic', 'hygienic-opt']
COUNT = {'quick': 6000, 'thorough': 200000}
CAP = {'quick': 300, 'thorough': 3000}
TECH = 'macros, uses and failing uses under simulated GC and heap geometries'
RULE = ('a case is a set of random syntax-rules macros (literals, nested '
        'ellipses, vectors, dotted tails, several rules; some malformed) and '
        'of match clauses, and a history of uses that match, match a later '
        'rule, match none or are evaluated again, with other allocations '
        'between, under a GC schedule and heap geometry; the expansion of each '
        'use (names compared without their renaming), the value of quoted '
        'expansions and each error are compared with a model of '
        'syntax-rules; it counts once per distinct event log')
ASSUME = ['repetitions of one subtemplate have matched equally often '
          '(elsewise only that nothing breaks is judged)',
          'programs that would use an identifier of a form or macro as a '
          'value, or that depend on the order in which arguments are '
          'evaluated, are not judged; nor is the renaming of identifiers '
          'quoted or defined at the toplevel by a template']
PROBES = ['probe:match', 'probe:nomatch', 'probe:badrule', 'probe:quoted',
          'probe:later-rule', 'probe:vector', 'probe:nested', 'probe:again',
          'probe:matchform', 'probe:hygiene', 'probe:hygiene-error',
          'probe:deep']
SETUP = r"""
(require-extension (srfi 34))
(define g1 100)
(define g2 7)
(define (try i t) (sim-log (list i (guard (e (#t (if (%%error-object? e) 'err
  (list 'thrown e)))) (t)))))
"""
NAMES = ['a', 'b', 'c', 'd', 'e', 'x', 'y', 'zz', '_']
LITS = ['=>', 'else', 'lit', 'of']
FREE = ['list', 'foo', 'if', 'lambda', 'quote', 't', 'lit']
ELL = '...'
CONST = [0, 1, -5, 42, True, False, {'s': 'str'}, {'s': ''}, {'c': 97},
         {'s': '\u3042'}]


# ---- data: int bool str(symbol) {'s'} {'c'} list {'d': [.., tail]} {'v': [..]}
def src(x):
    if x is True or x is False:
        return '#t' if x else '#f'
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return x
    if isinstance(x, list):
        return '(' + ' '.join(map(src, x)) + ')'
    if 's' in x:
        return '"%s"' % x['s']
    if 'c' in x:
        return '#\\' + chr(x['c'])
    if 'v' in x:
        return '#(' + ' '.join(map(src, x['v'])) + ')'
    return '(' + ' '.join(map(src, x['d'][:-1])) + ' . ' + src(x['d'][-1]) + ')'


NIL = ('nil',)


def obj(x):
    """pairs as ('p', a, d)"""
    if isinstance(x, list):
        t = NIL
        for e in reversed(x):
            t = ('p', obj(e), t)
        return t
    if isinstance(x, dict):
        if 'd' in x:
            t = obj(x['d'][-1])
            for e in reversed(x['d'][:-1]):
                t = ('p', obj(e), t)
            return t
        if 'v' in x:
            return ('v',) + tuple(obj(e) for e in x['v'])
        if 's' in x:
            return ('s', x['s'])
        return ('c', x['c'])
    if isinstance(x, bool):
        return ('b', x)
    if isinstance(x, int):
        return ('i', x)
    return ('y', x)


def show(o):
    k = o[0]
    if k == 'nil':
        return '()'
    if k == 'b':
        return '#t' if o[1] else '#f'
    if k == 'i':
        return str(o[1])
    if k == 'y':
        return '|%s|' % o[1]
    if k == 'c':
        return '#\\x%x' % o[1]
    if k == 's':
        b = o[1].encode()
        return '"%s"/%d' % (''.join(chr(c) if 32 <= c < 127 else '\\x%02x;' % c
                                    for c in b), len(o[1]))
    if k == 'v':
        return '#(' + ' '.join(map(show, o[1:])) + ')'
    out = []
    while o[0] == 'p':
        out.append(show(o[1]))
        o = o[2]
    return '(' + ' '.join(out) + (
        ')' if o == NIL else ' . ' + show(o) + ')')


# ---- syntax-rules
class Bad(Exception):
    """the rule is malformed"""


class Uneven(Exception):
    pass


def seq(o):
    """(elements, tail)"""
    out = []
    while o[0] == 'p':
        out.append(o[1])
        o = o[2]
    return out, o


E = ('y', ELL)


def check_pat(p, lits, pv, level):
    if p == E:
        raise Bad
    if p[0] == 'y':
        if p[1] in lits:
            return
        if p[1] in pv:
            raise Bad
        pv[p[1]] = level
    elif p[0] in ('p', 'v'):
        el, tail = seq(p) if p[0] == 'p' else (list(p[1:]), NIL)
        n = len(el)
        for i, e in enumerate(el):
            if e == E:
                # only the last one, behind an element, of a proper list
                if i == 0 or i != n - 1 or tail != NIL:
                    raise Bad
                continue
            check_pat(e, lits, pv, level + (i + 1 < n and el[i + 1] == E))
        if tail != NIL:
            check_pat(tail, lits, pv, level)


def check_tmpl(t, pv, level):
    """number of the references to pattern variables"""
    if t == E:
        raise Bad
    if t[0] == 'y':
        if t[1] in pv:
            if pv[t[1]] != level:
                raise Bad
            return 1
        return 0
    if t[0] not in ('p', 'v'):
        return 0
    el, tail = seq(t) if t[0] == 'p' else (list(t[1:]), NIL)
    c = 0
    for i, e in enumerate(el):
        if e == E:
            if i == 0 or el[i - 1] == E:
                raise Bad
            continue
        rep = i + 1 < len(el) and el[i + 1] == E
        k = check_tmpl(e, pv, level + rep)
        if rep and not k:
            raise Bad
        c += k
    if tail != NIL:
        c += check_tmpl(tail, pv, level)
    return c


def match(p, f, lits, m):
    if p[0] == 'y':
        if p[1] in lits:
            return f == p
        m[p[1]] = f
        return True
    if p[0] == 'p':
        el, tail = seq(p)
        if len(el) > 1 and el[-1] == E:
            rep = el[-2]
            for e in el[:-2]:
                if f[0] != 'p' or not match(e, f[1], lits, m):
                    return False
                f = f[2]
            fs, ft = seq(f)
            return ft == NIL and reps(rep, fs, lits, m)
        for e in el:
            if f[0] != 'p' or not match(e, f[1], lits, m):
                return False
            f = f[2]
        return match(tail, f, lits, m)
    if p[0] == 'v':
        if f[0] != 'v':
            return False
        el, fs = list(p[1:]), list(f[1:])
        if len(el) > 1 and el[-1] == E:
            n = len(el) - 2
            return len(fs) >= n and all(
                match(a, b, lits, m) for a, b in zip(el[:n], fs)) and \
                reps(el[-2], fs[n:], lits, m)
        return len(el) == len(fs) and all(
            match(a, b, lits, m) for a, b in zip(el, fs))
    return p == f


def pvars(p, lits):
    if p[0] == 'y':
        return set() if p[1] in lits or p == E else {p[1]}
    if p[0] == 'p':
        return pvars(p[1], lits) | pvars(p[2], lits)
    if p[0] == 'v':
        return set().union(*[pvars(e, lits) for e in p[1:]])
    return set()


def reps(p, fs, lits, m):
    ms = []
    for f in fs:
        n = {}
        if not match(p, f, lits, n):
            return False
        ms.append(n)
    for v in pvars(p, lits):
        m[v] = [n[v] for n in ms]
    return True


def trans(t, m, idx, pv):
    """the list of the objects a template stands for at its place"""
    if t[0] == 'y':
        if t[1] in pv:
            v = m[t[1]]
            for i in idx:
                v = v[i]
            return v
        return t
    if t[0] not in ('p', 'v'):
        return t
    el, tail = seq(t) if t[0] == 'p' else (list(t[1:]), NIL)
    out = []
    for i, e in enumerate(el):
        if e == E:
            continue
        if i + 1 < len(el) and el[i + 1] == E:
            n = set()
            for v in pvars(e, ()):
                if v in pv:
                    x = m[v]
                    for j in idx:
                        x = x[j]
                    n.add(len(x))
            if len(n) > 1:
                raise Uneven
            for j in range(n.pop()):
                out.append(trans(e, m, idx + [j], pv))
        else:
            out.append(trans(e, m, idx, pv))
    if t[0] == 'v':
        return ('v',) + tuple(out)
    r = trans(tail, m, idx, pv) if tail != NIL else NIL
    for e in reversed(out):
        r = ('p', e, r)
    return r


def rest(p):
    """the pattern without its keyword"""
    return p[2]


class Macro:
    """raises Bad for malformed rules"""

    def __init__(self, lits, rules):
        self.lits = lits
        self.rules = []
        if not rules:
            raise Bad
        for rule in rules:
            if len(rule) != 2 or obj(rule[0])[0] != 'p' or \
                    obj(rule[0])[1][0] != 'y':
                raise Bad
            p, t = rest(obj(rule[0])), obj(rule[1])
            pv = {}
            check_pat(p, lits, pv, 0)
            check_tmpl(t, pv, 0)
            self.rules.append((p, t, pv))

    def expand(self, form):
        """(rule number, expansion) or None"""
        for i, (p, t, pv) in enumerate(self.rules):
            m = {}
            if match(p, form, self.lits, m):
                return i, trans(t, m, [], pv)
        return None


# ---- generator
class Gen:
    def __init__(self, r):
        self.r = r

    def pat(self, lits, d, pv, level=0, bad=False):
        r = self.r
        k = r.random()
        if d <= 0 or k < .45:
            k = r.random()
            if k < .15 and lits:
                return r.choice(lits)
            if k < .25:
                return r.choice(CONST)
            free = [n for n in NAMES if n not in pv]
            if bad and r.random() < .1:
                return r.choice(NAMES + [ELL])
            if not free:
                return r.choice(CONST)
            n = r.choice(free)
            pv[n] = level
            return n
        return self.patseq(lits, d, pv, level, bad)

    def patseq(self, lits, d, pv, level, bad, vec=None):
        r = self.r
        k = r.random()
        vec = k < .15 if vec is None else vec
        el = [self.pat(lits, d - 1, pv, level, bad)
              for _ in range(r.choice((0, 1, 1, 2, 3)))]
        if k < .55 or bad and k < .7:
            el += [self.pat(lits, d - 1, pv, level + 1, bad), ELL]
            if bad and r.random() < .3:
                r.shuffle(el)
        elif k < .7 and not vec and el:
            return {'d': el + [self.tail(lits, d - 1, pv, level, bad)]}
        return {'v': el} if vec else el

    def tail(self, lits, d, pv, level, bad):
        while True:
            t = self.pat(lits, 0, pv, level, bad)
            if t != ELL:
                return t

    def tmpl(self, d, pv, level=0, bad=False):
        r = self.r
        here = [n for n in pv if pv[n] == level]
        if d <= 0 or r.random() < .35:
            k = r.random()
            if here and k < .65:
                return r.choice(here)
            if bad and k < .75:
                return r.choice(list(pv) + [ELL])
            if k < .85:
                return r.choice([f for f in FREE if f not in pv])
            return r.choice(CONST)
        el = []
        for _ in range(r.choice((0, 1, 2, 3))):
            el.append(self.tmpl(d - 1, pv, level, bad))
            if any(v > level for v in pv.values()) and r.random() < .5:
                s = self.sub(d - 1, pv, level + 1, bad)
                if s is not None:
                    el += [s, ELL]
        if bad and r.random() < .2:
            el.insert(r.randrange(len(el) + 1), ELL)
        k = r.random()
        if k < .15:
            return {'v': el}
        if k < .25 and el:
            t = self.tmpl(0, pv, level, bad)
            if t != ELL:
                return {'d': el + [t]}
        return el

    def sub(self, d, pv, level, bad):
        """a template with a reference at this level or above"""
        for _ in range(20):
            t = self.tmpl(max(d, 1), pv, level, bad)
            try:
                if bad or check_tmpl(obj(t), pv, level) > 0:
                    return t
            except Bad:
                pass
        c = [n for n in pv if pv[n] == level]
        return self.r.choice(c) if c else None

    def datum(self, d=2):
        r = self.r
        k = r.random()
        if d <= 0 or k < .6:
            return r.choice(CONST + NAMES + LITS + FREE)
        el = [self.datum(d - 1) for _ in range(r.choice((0, 1, 2, 3)))]
        if k < .7:
            return {'v': el}
        if k < .78 and el:
            return {'d': el + [r.choice(CONST + NAMES)]}
        return el

    def inst(self, p, lits, wrong=0.0, deep=0):
        """a form that matches the pattern, mostly"""
        r = self.r
        if deep:
            wrong = 0
        if r.random() < wrong:
            return self.datum()
        if isinstance(p, str):
            return p if p in lits else self.datum(r.choice((0, 1, 2)))
        if isinstance(p, dict) and ('s' in p or 'c' in p) or \
                isinstance(p, (int, bool)):
            return p
        el = p if isinstance(p, list) else p.get('v', p.get('d'))
        tail = None
        if isinstance(p, dict) and 'd' in p:
            tail, el = el[-1], el[:-1]
        out = []
        for i, e in enumerate(el):
            if e == ELL:
                continue
            n = 1
            if i + 1 < len(el) and el[i + 1] == ELL:
                n = r.choice((0, 1, 2, 3)) if r.random() < .9 else 20
                if deep:
                    n = r.choice((0, 2, 3)) if r.random() < 2 / deep else 1
            out += [self.inst(e, lits, wrong, deep) for _ in range(n)]
        if isinstance(p, dict) and 'v' in p:
            return {'v': out}
        if tail is not None:
            t = self.inst(tail, lits, wrong)
            if isinstance(t, list):
                return out + t
            if isinstance(t, dict) and 'd' in t:
                return {'d': out + t['d']}
            return {'d': out + [t]} if out else t
        return out


def tower(r, lits):
    """a rule of deeply nested ellipses, and its depth"""
    n = r.choice((4, 8, 15, 16, 17, 18, 20, 31, 32, 33, 34))
    p, t = 'a', r.choice(('a', ['a', 'foo'], {'d': ['foo', 'a']}))
    extra = r.choice((None, None, r.randrange(n)))
    for k in range(n):
        p, t = [p, ELL], [t, ELL]
        if k == extra:
            p.insert(0, 'b')
            if r.random() < .7:
                t.insert(r.choice((0, 2)), 'b')
            else:
                t.insert(r.choice((0, 2)), 'foo')
    return [['_', p], ['quote', t]], n


def gen(rng, i):
    g = Gen(rng)
    c = {'ops': []}
    mac = {}
    names = ['m%d' % k for k in range(rng.choice((1, 2, 3)))]
    for _ in range(rng.choice((3, 6, 12, 25))):
        k = rng.random()
        n = rng.choice(names)
        if n not in mac or k < .12:
            lits = rng.sample(LITS, rng.choice((0, 0, 1, 2)))
            if rng.random() < .1:
                lits.append(rng.choice(NAMES[:4]))
            bad = rng.random() < .15
            rules = []
            quoted = rng.random() < .3
            if rng.random() < .05:
                rule, deep = tower(rng, lits)
                c['ops'].append(['def', n, lits, [rule]])
                mac[n] = (lits, [rule], True, deep)
                continue
            for _ in range(rng.choice((1, 1, 2, 3))):
                pv = {x: 99 for x in lits}
                p = g.patseq(lits, rng.choice((1, 2, 3)), pv, 0, bad, False)
                for x in lits:
                    del pv[x]
                kw = '_' if '_' not in pv and '_' not in lits else 'kw'
                if not isinstance(p, dict):
                    p = [kw] + p
                else:
                    p = {'d': [kw] + p['d']}
                if kw == 'kw' and 'kw' in pv:
                    continue
                t = g.tmpl(rng.choice((1, 2, 3)), pv, 0, bad)
                if quoted:
                    t = ['quote', t]
                rules.append([p, t])
            if not rules:
                continue
            c['ops'].append(['def', n, lits, rules])
            mac[n] = (lits, rules, quoted, 0)
        elif k < .8:
            lits, rules, quoted, deep = mac[n]
            p = rng.choice(rules)[0]
            p = p[1:] if isinstance(p, list) else {'d': p['d'][1:]}
            if isinstance(p, dict) and len(p['d']) == 1:
                p = p['d'][0]
            f = g.inst(p, lits, rng.choice((0, 0, 0, .05, .3)), deep)
            if not isinstance(f, (list, dict)) or isinstance(f, dict) and \
                    'd' not in f:
                continue
            c['ops'].append(['use', n, f, bool(quoted and rng.random() < .6),
                             rng.choice((1, 1, 2, 5))])
        elif k < .9:
            cl = []
            for _ in range(rng.choice((1, 2, 3))):
                pv = {}
                cl.append(g.pat([], rng.choice((1, 2, 3)), pv, 0,
                                rng.random() < .1))
            f = g.inst(rng.choice(cl), [], rng.choice((0, 0, .1)))
            c['ops'].append(['match', cl, f])
        else:
            c['ops'].append(['fill', rng.choice((1, 10, 100))])
    if rng.random() < .4:
        if rng.random() < .7:
            c['ops'] = []
        defs, prog = hyg.gen(rng)
        c['ops'] += [['hdef', n, spec] for n, spec in defs]
        c['ops'] += [['hyg', e] for e in prog]
    c['variant'] = rng.choice(['hygienic', 'hygienic-opt', 'hygienic-opt'])
    c['gc'] = U.gc_schedule(rng, .15) + '\ngclimit 600'
    c['heap'] = rng.choice(U.HEAPS)
    return c


def isvec(x):
    return isinstance(x, dict) and 'v' in x


def run(c, ctx):
    mac = {}
    prog, want = [], []
    try:
        hyg_want = iter(hyg.result(
            [o[1:] for o in c['ops'] if o[0] == 'hdef'],
            [o[1] for o in c['ops'] if o[0] == 'hyg'], hyg.GLOB))
    except (IndexError, TypeError):
        hyg_want = iter(())
    stop = False
    k = 0
    for op in c['ops']:
        k += 1
        if op[0] == 'def':
            _, n, lits, rules = op
            try:
                mac[n] = Macro(lits, rules)
                w = '|ok|'
            except Bad:
                ctx.count('probe:badrule')
                w = '|err|'
            prog.append("(try %d (lambda () (eval '(define-syntax %s "
                        '(syntax-rules %s %s)) (interaction-environment)) '
                        "'ok))" % (k, n, src(lits), ' '.join(
                            src(r) for r in rules)))
        elif op[0] == 'use':
            _, n, f, ev, times = op
            if n not in mac:
                continue
            try:
                x = mac[n].expand(obj(f))
                w = '|err|' if x is None else show(x[1])
                ctx.count('probe:nomatch' if x is None else 'probe:match')
                if x and x[0]:
                    ctx.count('probe:later-rule')
                if x and '((((((((((((((((' in w:
                    ctx.count('probe:deep')
                if x and "'v'" in repr(x[1]):
                    ctx.count('probe:vector')
                if "'...'], '...'" in repr(c['ops']):
                    ctx.count('probe:nested')
            except Uneven:
                x = w = None
            fs = src(f)[1:]
            q = x and x[1]
            if ev and q and q[0] == 'p' and q[1] == ('y', 'quote') and \
                    q[2][0] == 'p' and q[2][2] == NIL:
                ctx.count('probe:quoted')
                w = show(q[2][1])
                body = '(%s %s' % (n, fs)
            else:
                body = '(expand-macro %s %s' % (n, fs)
            if times > 1:
                ctx.count('probe:again')
            prog.append('(define u%d (lambda () %s))' % (k, body))
            prog += ['(try %d u%d)' % (k, k)] * times
            want += [(k, w)] * (times - 1)
        elif op[0] == 'hdef':
            prog.append("(try %d (lambda () (eval '(define-syntax %s %s) "
                        "(interaction-environment)) 'ok))" % (
                            k, op[1], src(op[2])))
            w = '|ok|'
            try:
                if op[2][0] != 'syntax-rules':
                    raise Bad
                Macro(op[2][1], op[2][2:])
            except (Bad, IndexError, TypeError):
                w, stop = None, True
        elif op[0] == 'hyg':
            w = next(hyg_want, None)
            stop = stop or w is None
            if stop:
                continue
            ctx.count('probe:hygiene')
            if w == '|err|':
                ctx.count('probe:hygiene-error')
            if isinstance(op[1], dict):
                e = "(eval '%s (interaction-environment)) (list 'ok)" % src(
                    op[1]['top'])
            else:
                e = '(list %s)' % src(op[1])
            prog.append('(try %d (lambda () %s))' % (k, e))
        elif op[0] == 'match':
            _, cl, f = op
            w = None
            ctx.count('probe:matchform')
            body = []
            done = False
            for p in cl:
                pv = {}
                try:
                    check_pat(obj(p), (), pv, 0)
                except Bad:
                    if not done:
                        w, done = '|err|', True
                    body.append('(%s 1)' % src(p))
                    continue
                vs = sorted(pv)
                body.append("(%s (list 'clause %d %s))" % (
                    src(p), len(body), ' '.join(vs)))
                m = {}
                if not done and match(obj(p), obj(f), (), m):
                    def val(x):
                        return x if isinstance(x, tuple) else \
                            mklist([val(y) for y in x])
                    w = '(|clause| %d%s)' % (len(body) - 1, ''.join(
                        ' ' + show(val(m[v])) for v in vs))
                    done = True
            if not done:
                w = '#<undef>'
            if any("'%s'" % x in repr(cl) for x in ('list', 'quote')):
                w = None
            prog.append("(try %d (lambda () (match '%s %s)))" % (
                k, src(f), ' '.join(body)))
        else:
            prog.append('(make-vector %d (list 1 2))' % op[1])
            continue
        want.append((k, w))
    r = ctx.sim(c['variant'], U.scen(
        c['heap'], 'cpu 6', 'maxallocs 3000000', 'quietio', 'op init',
        U.ev(SETUP, True), 'op snapshot', c['gc'], 'op gcgo',
        *[U.ev(p, True) for p in prog], 'op fini'))
    e = U.abnormal(r)
    if e:
        return [e]
    got = U.logs(r)
    for j, (k, w) in enumerate(want):
        if j >= len(got):
            return ['lost: operation %d %r gave nothing' % (k, c['ops'][k - 1])]
        if not got[j].startswith('L (%d ' % k):
            return ['order: operation %d logged as %s' % (k, got[j][:80])]
        g = got[j][len('L (%d ' % k):-1]
        if w is not None and g != w:
            return ['expansion: %s gave %s, expected %s' % (
                c['ops'][k - 1][:3], g[:300], w[:300])]
    if len(got) != len(want):
        return ['order: more results than operations']
    return []


def mklist(xs):
    t = NIL
    for x in reversed(xs):
        t = ('p', x, t)
    return t


def simpler(c):
    if c['gc'] != 'gc none':
        yield dict(c, gc='gc none')
    if c['heap'] != U.HEAP:
        yield dict(c, heap=U.HEAP)
    for j, o in enumerate(c['ops']):
        if o[0] == 'def' and len(o[3]) > 1:
            for q in range(len(o[3])):
                yield dict(c, ops=c['ops'][:j] + [
                    o[:3] + [o[3][:q] + o[3][q + 1:]]] + c['ops'][j + 1:])
        if o[0] == 'use' and o[4] > 1:
            yield dict(c, ops=c['ops'][:j] + [o[:4] + [1]] + c['ops'][j + 1:])


SHRINK = ['ops']
SHRINK_INTS = False
