"""P12 load."""
from .. import util as U
from .. import loadm as M

PROP = 'P12'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt']
COUNT = {'quick': 9000, 'thorough': 250000}
CAP = {'quick': 300, 'thorough': 3000}
TECH = 'open, read and close faults, cut files, errors and escapes'
RULE = ('a case is a set of files of forms that log, define, fail, escape, '
        'change the encoding and load each other, with their division into '
        'reads, and for each file possibly a cut, or an error of an open, a '
        'read or the close; every evaluated form, each result of load, the '
        'encoding after it and the open streams are compared with a model; '
        'it counts once per distinct event log')
ASSUME = ['a file that load gave up is closed by the collector']
PROBES = ['probe:open', 'probe:read', 'probe:close', 'probe:cut',
          'probe:nested', 'probe:fatal', 'fault:read', 'fault:open']
SETUP = M.SETUP


def gen(rng, i):
    names, files = M.gen_files(rng)
    c = {'files': files}
    tops = []
    for _ in range(rng.choice((1, 2, 3))):
        tops.append([rng.choice(names[:1] * 3 + names + ['/none']),
                     rng.choice([None, None] + list(M.CODECS))])
    c['tops'] = tops
    c['c'] = rng.choice(names) if rng.random() < .25 else None
    c['variant'] = rng.choice(VARIANTS)
    c['gc'] = U.gc_schedule(rng, .6) + '\ngclimit 300'
    return c


def run(c, ctx):
    m = M.Model(c['files'])
    ops = []
    fatal = False
    try:
        for name, codec in c['tops']:
            t = '(top (lambda () (load "%s")))' % name
            if codec:
                t = '(with-char-codec "%s" (lambda () %s))' % (codec, t)
            ops.append(U.ev(t, True))
            m.codec = codec or 'UTF-8'
            m.top(lambda: m.load(name))
            m.codec = 'UTF-8'
        ok = not m.failed
        if c['c']:
            ops.append('op load ' + c['c'].encode().hex())
            try:
                m.load_raw(c['c'])
            except M.SErr:
                fatal = True
            except M.Esc:
                raise M.Outside()
    except M.Outside:
        ctx.nontrivial = False
        return []
    for x in m.fired:
        ctx.count('probe:' + x.split(':')[0])
    if any(f['cut'] is not None for f in c['files'].values()):
        ctx.count('probe:cut')
    if any(m.loads.get(M.path_of(n)) for n in M.NAMES[1:]):
        ctx.count('probe:nested')
    if fatal:
        ctx.count('probe:fatal')
    if not fatal:
        ops.append(U.ev("(sim-log (list 'open %s))" % (
            '(sim-openfiles)' if not m.failed else 0), True))
        m.L('(|open| %d)' % (0 if m.failed else 3))
        ops.append('op fini')
    r = ctx.sim(c['variant'], U.scen(
        U.HEAP, 'cpu 6', 'maxallocs 2000000', 'quietio', 'op init',
        U.ev(SETUP, True), 'op snapshot', *M.directives(c['files']),
        c['gc'], 'op gcgo', *ops))
    e = U.abnormal(r, ('EXIT 1',) if fatal else ('DONE 0',))
    d = U.first_diff(m.log, U.logs(r))
    if e and not (d and d[2] != '(nothing)'):
        return [e]
    if d:
        return ['log: event %d: expected %s, got %s' % d]
    if not fatal:
        f = [l for l in r.lines if l.startswith('FINI')][0]
        if not f.endswith('open=0'):
            return ['open: ' + f]
    return []


def simpler(c):
    if c['gc'] != 'gc none':
        yield dict(c, gc='gc none')
    if c['c']:
        yield dict(c, c=None)
    for i in range(len(c['tops'])):
        yield dict(c, tops=c['tops'][:i] + c['tops'][i + 1:])
        if c['tops'][i][1]:
            t = list(c['tops'])
            t[i] = [t[i][0], None]
            yield dict(c, tops=t)
    for f in M.simpler_files(c['files']):
        yield dict(c, files=f)


SHRINK = []
