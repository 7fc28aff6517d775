"""P10 every stream is opened and closed exactly once."""
import re
from .. import util as U

PROP = 'P10'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt']
COUNT = {'quick': 6000, 'thorough': 200000}
CAP = {'quick': 300, 'thorough': 3000}
TECH = 'open and close faults, descriptor exhaustion, escapes and GC schedules'
RULE = ('a case is a history of open, read, write, close, copy, drop, query '
        'and call-with operations on port variables, with open and close '
        'faults, a limit on open files, errors and escapes and a GC schedule; '
        'every result is compared with a model of the ports and every open '
        'and close of a stream is accounted for; it counts once per distinct '
        'event log')
ASSUME = ['a dropped port may stay open until finalization (the collector is '
          'conservative); how many accumulate is decided by P02']
PROBES = ['probe:closed-op', 'probe:open-failed', 'probe:close-failed',
          'probe:gc-closed', 'probe:escape', 'fault:open', 'fault:close']
NV = 4
CONTENT = {'/i0': 'abcdefghijklmnop', '/i1': '', '/i2': '(1 2) x "s" #\\a'}
SETUP = r"""
(require-extension (srfi 34) (srfi 6))
(define (try t) (guard (e (#t (if (%%error-object? e) 'err (list 'thrown e))))
  (t)))
(define (op i t) (let ((x (try t))) (sim-log (list 'o i (cond ((eof-object? x)
  'eof) ((input-port? x) 'port) (else x))))))
(define input-port?
  (let ((ip input-port?)) (lambda (x) (guard (e (#t #f)) (ip x) #t))))
(define v0 #f) (define v1 #f) (define v2 #f) (define v3 #f)
"""


def gen(rng, i):
    c = {'ops': [], 'dirs': []}
    for _ in range(rng.choice((3, 6, 12, 25))):
        k = rng.choice(['open', 'open', 'open', 'read', 'read', 'write',
                        'write', 'close', 'close', 'copy', 'drop', 'query',
                        'callw', 'wrongclose', 'with', 'gc'])
        v = rng.randrange(NV)
        w = rng.randrange(NV)
        path = rng.choice(['/i0', '/i0', '/i1', '/i2', '/none', '/o0', '/o1',
                           '/o1'])
        how = rng.choice(['ret', 'esc', 'raise', 'closed', 'ret', 'keep',
                          'nest'])
        c['ops'].append([k, v, w, path, how])
    for _ in range(rng.choice((0, 0, 1, 2, 3))):
        c['dirs'].append('fault %s %s %d %d%s' % (
            rng.choice(['/i0', '/i2', '/o0', '/o1']),
            rng.choice(['open', 'close', 'close']), rng.choice((1, 1, 2, 3)),
            rng.choice((5, 13, 24, 4, 28)), rng.choice(('', '', ' 1'))))
    if rng.random() < .2:
        c['dirs'].append('maxopen %d' % rng.choice((0, 1, 2, 3)))
    c['variant'] = rng.choice(VARIANTS)
    c['gc'] = U.gc_schedule(rng, .25) + '\ngclimit 300'
    return c


def form(i, o):
    k, v, w, path, how = o
    out = path.startswith('/o')
    V = 'v%d' % v
    if k == 'open':
        b = '(set! %s (%s "%s")) \'ok' % (
            V, 'open-output-file' if out else 'open-input-file', path)
    elif k == 'read':
        b = '(%s %s)' % ('read-char' if how in ('ret', 'esc') else 'peek-char',
                         V)
    elif k == 'write':
        b = '(display \'%s %s) \'ok' % ('abc', V)
    elif k == 'close':
        b = '((if (and %s (output-port? %s)) close-output-port ' \
            'close-input-port) %s) \'ok' % (V, V, V)
    elif k == 'wrongclose':
        b = '((if (and %s (output-port? %s)) close-input-port ' \
            'close-output-port) %s) \'ok' % (V, V, V)
    elif k == 'copy':
        b = "(set! v%d %s) 'ok" % (w, V)
    elif k == 'drop':
        b = "(set! %s #f) 'ok" % V
    elif k == 'query':
        b = '(if %s (list (output-port? %s)) 0)' % (V, V)
    elif k == 'gc':
        b = "(sim-gc) (sim-gc) 'ok"
    elif k == 'with':
        d = 'output' if out else 'input'
        cur = '(current-%s-port)' % d
        body = {'ret': "'ok", 'keep': "(set! %s %s) 'ok" % (V, cur),
                'esc': "(set! %s %s) (k 'ok)" % (V, cur), 'raise':
                "(raise 'x)", 'closed': "(close-%s-port %s) 'ok" % (d, cur),
                # the thunk redirects further by itself
                'nest': '(set! %s %s) (if (and v%d %s) '
                "(%%%%set-current-%s-port! v%d)) 'ok" % (
                    V, cur, w, ('(output-port? v%d)' if out else
                                '(not (output-port? v%d))') % w, d, w)}[how]
        b = ('(call/cc (lambda (k) (with-%s "%s" (lambda () %s))))' % (
            'output-to-file' if out else 'input-from-file', path, body))
    else:
        body = {'ret': "'ok", 'keep': "(set! %s p) 'ok" % V,
                'esc': "(set! %s p) (k 'ok)" % V, 'raise': "(raise 'x)",
                'closed': '((if (output-port? p) close-output-port '
                "close-input-port) p) 'ok",
                'nest': '(call-with-output-file "/o1" (lambda (q) '
                "(display 'abc q) (set! v%d q) (k 'ok)))" % w}[how]
        b = ('(call/cc (lambda (k) (%s "%s" (lambda (p) %s))))' % (
            'call-with-output-file' if out else 'call-with-input-file', path,
            body))
    return '(op %d (lambda () %s))' % (i, b)


class Port:
    def __init__(self, path, hid, out):
        self.path, self.hid, self.out = path, hid, out
        self.pos, self.open = 0, True


def run(c, ctx):
    dirs = ['file %s %s' % (p, t.encode().hex()) for p, t in CONTENT.items()]
    r = ctx.sim(c['variant'], U.scen(
        U.HEAP, 'cpu 6', 'maxallocs 2000000', *dirs, 'op init',
        U.ev(SETUP, True), 'op snapshot', *c['dirs'], c['gc'], 'op gcgo',
        U.ev('\n'.join(form(i, o) for i, o in enumerate(c['ops'])), True),
        'op say 1', 'op fini'))
    e = U.abnormal(r)
    if e:
        return [e]
    var = [None] * NV
    live = {}              # handle id -> path
    opened = {}
    k = 0
    ev = []
    ended = False
    for l in r.lines:
        if l.startswith('O '):
            w = l.split(' ')
            ev.append(('O', None if w[1] == '-' else int(w[1]), w[2],
                       w[3], int(w[4])))
            if w[1] != '-':
                live[int(w[1])] = opened[int(w[1])] = w[2]
            continue
        if l.startswith('C '):
            w = l.split(' ')
            h = int(w[1])
            if h not in live:
                return ['close: stream %d closed that is not open' % h]
            del live[h]
            ev.append(('C', h, int(w[2])))
            continue
        if l == 'SAY 1':
            ended = True
        m = re.match(r'L \(\|o\| (\d+) (.*)\)$', l)
        if not m:
            continue
        i, res = int(m.group(1)), m.group(2)
        if i != k:
            return ['order: operation %d logged as %d' % (k, i)]
        k += 1
        kind, v, w, path, how = c['ops'][i]
        bad = step(ctx, c, var, ev, c['ops'][i], res)
        if bad:
            return ['%s (operation %d %s on %s)' % (bad, i, kind, path)]
        ctx.key(kind, how, res, [x[0] for x in ev])
        for p in var:
            if p and p.open and p.hid not in live:
                return ['underneath: stream %d of %s was closed while its port '
                        'is in use (operation %d %s)' % (p.hid, p.path, i,
                                                         kind)]
            if p and not p.open and p.hid in live:
                return ['unclosed: stream %d of %s is open after its port was '
                        'closed (operation %d %s)' % (p.hid, p.path, i, kind)]
        ev = []
    if not ended or k != len(c['ops']):
        return ['lost: operation %d never completed' % k]
    if live:
        return ['leak: streams %s open after finalization' % sorted(
            live.items())]
    return []


def step(ctx, c, var, ev, o, res):
    kind, v, w, path, how = o
    opens = [x for x in ev if x[0] == 'O']
    closes = [x for x in ev if x[0] == 'C']
    out = path.startswith('/o')
    p = var[v]
    held = {q.hid for q in var if q and q.open}
    want = None
    mine = None           # handle this operation closes itself
    if kind in ('open', 'callw', 'with'):
        n = 2 if kind == 'callw' and how == 'nest' else 1
        if not opens:
            return 'open: no stream was opened'
        if opens[0][1] is None:
            ctx.count('probe:open-failed')
            want = '|err|'
            n = 1
        elif kind == 'open':
            var[v] = Port(path, opens[0][1], out)
            want = '|ok|'
        else:
            q = Port(path, opens[0][1], out)
            want = '|ok|'
            u = var[w]
            if kind == 'with' and how == 'nest' and w != v and u and \
                    u.out == out and not u.open:
                want = '|err|'       # a closed port cannot become current
                var[v] = q
            elif how in ('ret', 'keep', 'closed') or (
                    kind == 'with' and how == 'nest'):
                cl = [x for x in closes if x[1] == q.hid]
                if len(cl) != 1:
                    return 'unclosed: call-with left the stream open'
                q.open = False
                mine = q.hid
                if cl[0][2]:
                    want = '|err|'
                    ctx.count('probe:close-failed')
                if how in ('keep', 'nest'):
                    var[v] = q
            elif how == 'esc':
                ctx.count('probe:escape')
                var[v] = q
            elif how == 'raise':
                want = '(|thrown| |x|)'
            elif how == 'nest':
                if len(opens) < 2:
                    return 'open: no second stream'
                if opens[1][1] is None:
                    want = '|err|'
                else:
                    q2 = Port('/o1', opens[1][1], True)
                    var[w] = q2
        if len(opens) != n:
            return 'open: %d streams opened' % len(opens)
    elif opens:
        return 'open: a stream was opened'
    if kind == 'read':
        if p is None or not p.open:
            want = '|err|'
        elif p.out:
            want = None          # reading from an output stream: any error
            if res != '|err|':
                return 'read: an output port gave %s' % res
        else:
            t = CONTENT[p.path]
            want = '#\\x%x' % ord(t[p.pos]) if p.pos < len(t) else '|eof|'
            if how in ('ret', 'esc') and p.pos < len(t):
                p.pos += 1
    elif kind == 'write':
        want = '|ok|' if p and p.open and p.out else '|err|'
    elif kind in ('close', 'wrongclose'):
        want = '|ok|' if p else '|err|'
        if kind == 'close' and p and p.open:
            cl = [x for x in closes if x[1] == p.hid]
            if len(cl) != 1:
                return 'unclosed: close did not close the stream'
            mine = p.hid
            p.open = False
            if cl[0][2]:
                ctx.count('probe:close-failed')
                want = '|err|'
    elif kind == 'copy':
        var[w] = var[v]
        want = '|ok|'
    elif kind == 'drop':
        var[v] = None
        want = '|ok|'
    elif kind == 'query':
        want = '(%s)' % ('#t' if p.out else '#f') if p else '0'
    elif kind == 'gc':
        want = '|ok|'
    if p is not None and not p.open and kind in ('read', 'write'):
        ctx.count('probe:closed-op')
    # streams of ports that were in use before and still are stay open
    now = {q.hid for q in var if q and q.open}
    for x in closes:
        if x[1] != mine:
            if x[1] in held and x[1] in now:
                return 'underneath: stream %d closed' % x[1]
            ctx.count('probe:gc-closed')
    if want is not None and res != want:
        return 'result: expected %s, got %s' % (want, res)
    return None


def simpler(c):
    if c['gc'] != 'gc none':
        yield dict(c, gc='gc none')


SHRINK = ['ops', 'dirs']
SHRINK_INTS = False
