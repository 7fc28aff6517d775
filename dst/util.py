"""Helpers shared by the property modules."""
import copy
import os
import re
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'sim'))
from simlib import hx  # noqa: E402
from . import ref, gen as G  # noqa: E402

VAR = ['compact-opt', 'compact-opt', 'compact', 'fatty-opt']
HEAP = 'heap 4096 1024 256 1 64'
HEAPS = ['heap 4096 1024 256 1 64', 'heap 1024 256 512 1 16',
         'heap 512 128 1024 2 64', 'heap 10240 4000 64 1 1024',
         'heap 256 64 2048 1 8', 'heap 512 1 2048 1 64',
         'heap 128 3 8192 3 16']


def gc_schedule(rng, none=.25):
    """a random GC schedule directive"""
    r = rng.random()
    if r < none:
        return 'gc none'
    if r < none + .2:
        return 'gc every 1'
    if r < none + .35:
        n = rng.choice([2, 3, 5, 7, 11, 17])
        return 'gc every %d %d' % (n, rng.randrange(n))
    if r < none + .55:
        return 'gc rate %d %d' % (rng.randrange(1 << 30),
                                  rng.choice([20000, 100000, 400000]))
    return 'gc burst %d %d 1 %d' % (rng.randrange(1 << 30),
                                    rng.choice([2, 4, 8]),
                                    rng.choice([10, 40, 200]))


def scen(*lines):
    return '\n'.join(x for x in lines if x) + '\n'


def ev(src, quiet=False):
    return 'op eval ' + hx(src or ' ') + (' x' if quiet else '')


def step_dir(sf):
    return 'stepfail ' + ' '.join(map(str, sorted(set(sf)))) if sf else ''


LOGTAGS = ('L ', 'R ')


def logs(res):
    return [l for l in res.lines if l.startswith(LOGTAGS)]


def abnormal(res, ok=('DONE 0',)):
    """finding for a run that did not end as it should"""
    if res.crashed:
        if res.status & 0x7f == 24:
            return 'hang: the run did not end within the CPU budget'
        return 'crash: ' + res.crash_kind()
    if res.end not in ok:
        return 'end: %s %s' % (res.end, res.files.get('<stderr>', b'')[:300])
    bad = [l for l in res.lines if l.startswith('BAD ')]
    if bad:
        return 'stream: ' + bad[0]
    return None


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a + ['(nothing)'], b + ['(nothing)'])):
        if x != y:
            return i, x, y
    return None


def model_run(prog, sf):
    """(expected lines, ref) or (None, ref) if outside of the model"""
    m = ref.Ref(sf)
    try:
        return m.run(copy.deepcopy(G.PRELUDE + prog + G.EPILOGUE)), m
    except (ref.Budget, ref.Unknown, RecursionError):
        return None, m


def model_case(case, ctx):
    """run a program of gen.py on the simulator and on the model"""
    exp, m = model_run(case['prog'], case['sf'])
    if exp is None:
        ctx.nontrivial = False
        ctx.count('outside-model')
        return []
    for f in m.features:
        ctx.count('probe:' + f)
    ctx.count('injected-step-errors', m.fired)
    src = ' '.join(ref.src(x) for x in G.PRELUDE + case['prog'] + G.EPILOGUE)
    res = ctx.sim(case['variant'], scen(
        case['heap'], 'op init', ev(G.SETUP, True), 'op snapshot', case['gc'],
        'op gcgo', step_dir(case['sf']), ev(src)))
    fatal = exp[-1].startswith('FATAL')
    if fatal:
        obj = exp[-1][6:]
        exp = exp[:-1]
        ctx.count('probe:uncaught')
    got = [ref.norm(l) for l in logs(res)]
    a = abnormal(res, ('EXIT 1',) if fatal else ('DONE 0',))
    d = first_diff(got, exp)
    if a and not (d and d[1] != '(nothing)'):
        return [a]
    if d:
        return ['diverges: event %d is %s, the model says %s' %
                (d[0], d[1][:300], d[2][:300])]
    if fatal and 'FATALCB' not in res.lines:
        return ['fatal: the fatal error callback was not called']
    if fatal:
        err = res.files.get('<stderr>', b'').decode('utf-8', 'replace')
        want = 'Error: '
        if re.fullmatch(r'(-?[0-9]+|[() ]|#[tf])+', obj):
            want += 'unhandled exception:? ' + re.escape(obj) + '\n'
            ctx.count('probe:uncaught-object')
        if not re.search(want, err):
            return ['report: the uncaught %s was reported as %r' % (
                obj[:200], err[-300:])]
    return []


# ------------------------------------------------------------- shrinking
KNOWN = set(ref.Ref.forms) | set(ref.Ref().g) | {'try'}
BODY = {'begin': 1, 'lambda': 2, 'let': 2, 'let*': 2, 'letrec': 2, 'guard': 2,
        'receive': 3}


def _is_exp(x):
    return isinstance(x, int) or (
        isinstance(x, list) and x and (
            isinstance(x[0], list) or
            (isinstance(x[0], str) and x[0] in KNOWN)))


def shrink_ast(prog):
    """simpler well-formed programs, biggest reductions first"""
    for i in range(len(prog)):
        yield prog[:i] + prog[i + 1:]
    sites = []

    def walk(x, path):
        if isinstance(x, list):
            if _is_exp(x) and x[0] not in ('quote', 'define', 'quasiquote'):
                sites.append((path, x))
            if x and x[0] in ('quote', 'quasiquote'):
                return
            for j, y in enumerate(x):
                walk(y, path + [j])
    walk(prog, [])
    sites.sort(key=lambda s: len(repr(s[1])), reverse=True)

    def put(path, v):
        p = copy.deepcopy(prog)
        t = p
        for k in path[:-1]:
            t = t[k]
        t[path[-1]] = v
        return p
    for path, x in sites:
        if not path:
            continue
        yield put(path, 1)
        for y in x[1:]:
            if isinstance(y, list) and _is_exp(y):
                yield put(path, y)
                if y and y[0] == 'lambda' and len(y) > 2:
                    yield put(path, y[-1])
        b = BODY.get(x[0]) if isinstance(x[0], str) else None
        if b and len(x) > b + 1:
            for j in range(b, len(x)):
                yield put(path, x[:j] + x[j + 1:])


def model_simpler(case):
    for v in ('compact', 'compact-opt'):
        if case['variant'] not in ('compact', v):
            yield dict(case, variant=v)
    if case['gc'] != 'gc none':
        yield dict(case, gc='gc none')
    if case['sf']:
        for i in range(len(case['sf'])):
            yield dict(case, sf=case['sf'][:i] + case['sf'][i + 1:])
    for p in shrink_ast(case['prog']):
        yield dict(case, prog=p)


def model_gen(rng, focus, ban=(), sizes=(20, 40, 80, 120), nsf=(0, 1, 2),
              variants=VAR, none=.6):
    g = G.Gen(rng, size=rng.choice(sizes), focus=focus, ban=ban)
    prog = g.program(rng.choice([1, 2, 3]), rng.choice([3, 4, 5, 6, 7]))
    sf = sorted({rng.randrange(1, 9) for _ in range(rng.choice(nsf))})
    return {'prog': prog, 'sf': sf, 'variant': rng.choice(variants),
            'gc': gc_schedule(rng, none), 'heap': HEAP}


PYCODEC = {'EUC-JP': 'euc_jp', 'EUC-KR': 'euc_kr', 'EUC-CN': 'gb2312',
           'Shift_JIS': 'shift_jis', 'ISO-8859-1': 'latin-1'}
_CHARS = {}


def codec_chars(codec):
    """the encoded characters of more than ASCII that an encoding has"""
    if codec not in _CHARS:
        out = []
        for x in range(0x80, 0x10000):
            try:
                b = chr(x).encode(PYCODEC[codec])
            except UnicodeEncodeError:
                continue
            if len(b) <= 3 and (len(b) > 1 or b[0] >= 0x80):
                out.append(b)
        _CHARS[codec] = out
    return _CHARS[codec]
