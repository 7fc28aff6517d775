"""P13 require, use, require-extension and provided?."""
import os
from .. import util as U
from .. import loadm as M

PROP = 'P13'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt']
COUNT = {'quick': 6000, 'thorough': 150000}
CAP = {'quick': 300, 'thorough': 3000}
TECH = 'open, read and close faults, cut files, errors and escapes'
RULE = ('a case is a history of require and provided? over a set of files '
        'that fail, escape, require each other and meet cuts and open, read '
        'and close errors, or a history of require-extension, use and '
        '%%require-module over the system modules with open and read errors '
        'in the files they load, ending in a trap on any further open, or a '
        'history of the strings that name features and modules, which change '
        'and are dropped after their use; '
        'results, provided? and the effects of each evaluated form are '
        'compared with a model; it counts once per distinct event log')
ASSUME = ['a name is the feature: the relative and the absolute name of one '
          'file are two of them']
PROBES = ['probe:user', 'probe:names', 'probe:system', 'probe:again', 'probe:retry-ok',
          'fault:read', 'fault:open']
SETUP = M.SETUP
# module -> (system file, works?, shown value)
SYS = {1: ("srfi-1.scm", "(fold + 0 '(1 2 3))", '6'),
       9: ("srfi-9.scm", "(begin (define-record-type p (mk a) p? (a pa)) "
           "(pa (mk 5)))", '5'),
       43: ("srfi-43.scm", "(vector-index even? (vector 1 3 4))", '2'),
       69: ("srfi-69.scm", "(hash-table-ref/default (let ((t "
            "(make-hash-table))) (hash-table-set! t 1 2) t) 1 0)", '2'),
       95: ("srfi-95.scm", "(sort (list 3 1 2) <)", '(1 2 3)'),
       8: (None, "(receive (a . b) (values 1 2) b)", '(2)'),
       2: (None, "(and-let* ((x 1)) x)", '1'),
       60: (None, "(logand 6 3)", '2'),
       48: (None, "(format #f \"~a\" 1)", '"1"/1')}
DEPS = {1: {8}, 43: {8}, 69: {9}}
CMOD = {1, 9, 43, 8, 2, 60, 48}


FEATS = ['a', 'b', 'ab', 'srfi-60', 'srfi-2', 'srfi-48', 'srfi-61', '',
         '\u3042\u3044', 'x' * 40, 'sscm-ext2', '*ab-loaded*']
BUILTIN = {'srfi-60', 'srfi-2', 'srfi-48', 'srfi-8', 'srfi-28'}


def gen_names(r):
    """a history of the strings that name features"""
    ops, have = [], []
    for _ in range(r.choice((4, 8, 16))):
        k = r.random()
        if not have or k < .25:
            j = len(have)
            have.append(j)
            ops.append(['new', j, r.choice(FEATS)])
        elif k < .5:
            ops.append([r.choice(['provide', 'provide', 'mod']),
                        r.choice(have)])
        elif k < .7:
            ops.append(['mut', r.choice(have), r.random(), r.choice(
                'abz\u3042')])
        elif k < .8:
            ops.append(['drop', r.choice(have)])
        else:
            ops.append(['fill', r.choice((1, 20))])
    return {'names': ops}


def run_names(c, ctx):
    ctx.count('probe:names')
    val, done, ops, want = {}, set(), [], []
    asked = sorted({o[2] for o in c['names'] if o[0] == 'new'})
    for o in c['names']:
        k = o[0]
        if k == 'new':
            val[o[1]] = o[2]
            e = '(define s%d (string-copy "%s"))' % (o[1], o[2])
        elif k == 'fill':
            e = '(make-vector %d (string-copy "zz"))' % o[1]
        elif o[1] not in val:
            continue
        elif k == 'drop':
            e = '(define s%d #f)' % o[1]
            del val[o[1]]
        elif k == 'mut':
            t = val[o[1]]
            if not t:
                continue
            i = int(o[2] * len(t))
            val[o[1]] = t = t[:i] + o[3] + t[i + 1:]
            e = '(string-set! s%d %d #\\%s)' % (o[1], i, o[3])
            asked = sorted(set(asked) | {t})
        elif k == 'provide':
            done.add(val[o[1]])
            e = '(provide s%d)' % o[1]
        else:
            if val[o[1]] in BUILTIN:
                done.add(val[o[1]])
            e = '(%%%%require-module s%d)' % o[1]
        ops.append(U.ev(e, True))
        ops.append(U.ev("(sim-log (list 'p %s))" % ' '.join(
            '(provided? "%s")' % t for t in asked), True))
        want.append('L (|p|%s)' % ''.join(
            ' #t' if t in done else ' #f' for t in asked))
    r = ctx.sim(c['variant'], U.scen(
        U.HEAP, 'cpu 6', 'maxallocs 2000000', 'quietio', 'op init',
        U.ev(SETUP, True), 'op snapshot', c['gc'], 'op gcgo', *ops,
        'op fini'))
    e = U.abnormal(r)
    d = U.first_diff(want, U.logs(r))
    if e and not (d and d[2] != '(nothing)'):
        return [e]
    if d:
        return ['log: event %d: expected %s, got %s' % d]
    return []


def gen(rng, i):
    c = {'variant': rng.choice(VARIANTS),
         'gc': U.gc_schedule(rng, .6) + '\ngclimit 300'}
    if rng.random() < .12:
        return dict(c, **gen_names(rng))
    if rng.random() < .6:
        names, files = M.gen_files(rng, True)
        c['files'] = files
        c['tops'] = [[rng.choice(['req', 'req', 'req', 'prov?', 'load']),
                      rng.choice(names[:2] * 2 + names + ['/none'])]
                     for _ in range(rng.choice((2, 4, 6, 8)))]
        return c
    mods = rng.sample(sorted(SYS), rng.choice((1, 2, 3)))
    if 69 in mods and 9 in mods:    # srfi-69 loads srfi-9
        mods.remove(9)
    c['mods'] = mods
    c['faults'] = {}
    for n in mods:
        fl = []
        if SYS[n][0]:
            for _ in range(rng.choice((0, 1, 1, 2))):
                fl.append(rng.choice([['open1'], ['open2'],
                                      ['read', rng.random()]]))
        c['faults'][str(n)] = fl
    ops = []
    for n in mods:
        ops += [[rng.choice(['ext', 'ext', 'mod', 'use', 'cext']), n]
                for _ in range(len(c['faults'][str(n)]) + rng.choice((1, 2)))]
    rng.shuffle(ops)
    c['ops'] = ops
    return c


def run_user(c, ctx):
    ctx.count('probe:user')
    m = M.Model(c['files'])
    ops = []
    try:
        for k, name in c['tops']:
            ops.append(U.ev('(top (lambda () %s))' % M.form_src([k, name]),
                            True))
            if k == 'prov?':
                m.top(lambda: m.ev(['prov?', name]))
                continue
            m.top(lambda: m.ev([k, name]))
            ops.append(U.ev(M.form_src(['prov?', name]), True))
            m.ev(['prov?', name])
    except M.Outside:
        ctx.nontrivial = False
        return []
    if any(c['tops'].count(t) > 1 for t in c['tops']):
        ctx.count('probe:again')
    r = ctx.sim(c['variant'], U.scen(
        U.HEAP, 'cpu 6', 'maxallocs 2000000', 'quietio', 'op init',
        U.ev(SETUP, True), 'op snapshot', *M.directives(c['files']),
        c['gc'], 'op gcgo', *ops, 'op fini'))
    e = U.abnormal(r)
    d = U.first_diff(m.log, U.logs(r))
    if e and not (d and d[2] != '(nothing)'):
        return [e]
    if d:
        return ['log: event %d: expected %s, got %s' % d]
    f = [l for l in r.lines if l.startswith('FINI')][0]
    if not f.endswith('open=0'):
        return ['open: ' + f]
    return []


def run_sys(c, ctx):
    ctx.count('probe:system')
    dirs = []
    nfired = 0
    attempts = {}
    for n in c['mods']:
        f = SYS[n][0]
        fl = list(c['faults'][str(n)])
        attempts[n] = fl
        if not f:
            continue
        # only the attempts the history makes can fail
        k = sum(1 for o in c['ops'] if o[1] == n and not (
            o[0] in ('mod', 'use') and n not in CMOD))
        used = fl[:k]
        path = '/sys/' + f
        size = os.path.getsize(os.path.join(
            os.environ.get('SIM_REPO', '/repo'), 'lib', f))
        nr = (size + 4095) // 4096 + 1
        opens = reads = 0
        for x in used:
            nfired += 1
            if x[0] == 'open1':
                opens += 1
                dirs.append('fault %s open %d 2' % (path, opens))
            elif x[0] == 'open2':
                opens += 2
                dirs.append('fault %s open %d 13' % (path, opens))
            else:
                opens += 2
                j = 1 + int(x[1] * nr)
                reads += j
                dirs.append('fault %s read %d 5' % (path, reads))
        if k > len(used):
            opens += 2
        dirs.append('fault %s open %d 5 1' % (path, opens + 1))
        dirs.append('bufsize %s 4096' % path)
        dirs.append('chunks %s 4096' % path)
    want, ops = [], []
    ok = set()
    unknown = set()
    for k, n in c['ops']:
        form = {'ext': '(begin (require-extension (srfi %d)) #t)',
                'cext': '(begin (require-extension (srfi-%d)) #t)',
                'mod': '(%%%%require-module "srfi-%d")',
                'use': '(use srfi-%d)'}[k] % n
        if k in ('mod', 'use') and n not in CMOD:
            res = '#f'
        elif n in ok:
            res = '#t'
            ctx.count('probe:again')
        elif attempts[n]:
            attempts[n].pop(0)
            res = '(|caught| |error|)'
            unknown |= DEPS.get(n, set())
        else:
            if SYS[n][0] and c['faults'][str(n)]:
                ctx.count('probe:retry-ok')
            res = '#t'
            ok.add(n)
            ok |= DEPS.get(n, set())
        ops.append(U.ev('(sim-log (list %d (try (lambda () %s))))' % (n, form),
                        True))
        want.append('L (%d %s)' % (n, res))
        for m in sorted(SYS):
            if m in unknown and m not in ok:
                continue
            ops.append(U.ev('(sim-log (list \'p %d (provided? "srfi-%d")))' %
                            (m, m), True))
            want.append('L (|p| %d %s)' % (m, '#t' if m in ok else '#f'))
        if n in ok:
            ops.append(U.ev('(sim-log (list \'v %d %s))' % (n, SYS[n][1]),
                            True))
            want.append('L (|v| %d %s)' % (n, SYS[n][2]))
    r = ctx.sim(c['variant'], U.scen(
        U.HEAP, 'cpu 10', 'maxallocs 4000000', 'quietio', 'op init',
        U.ev(SETUP, True), 'op snapshot', *dirs, c['gc'], 'op gcgo', *ops,
        'op fini'))
    e = U.abnormal(r)
    d = U.first_diff(want, U.logs(r))
    if e and not (d and d[2] != '(nothing)'):
        return [e]
    if d:
        return ['log: event %d: expected %s, got %s' % d]
    n = sum(l.startswith('! ') for l in r.lines)
    if n > nfired:
        return ['again: a provided module was loaded once more: ' + [
            l for l in r.lines if l.startswith('! ')][-1]]
    return []


def run(c, ctx):
    if 'names' in c:
        return run_names(c, ctx)
    return run_user(c, ctx) if 'files' in c else run_sys(c, ctx)


def simpler(c):
    if c['gc'] != 'gc none':
        yield dict(c, gc='gc none')
    if 'files' in c:
        for f in M.simpler_files(c['files']):
            yield dict(c, files=f)


SHRINK = ['names', 'tops', 'ops', 'mods']
SHRINK_INTS = False
