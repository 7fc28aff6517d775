"""P01 the GC schedule is not observable."""
import glob
import json
import os
from .. import util as U
from .. import calls
from ..util import G, ref, hx
from simlib import REPO

PROP = 'P01'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt']
COUNT = {'quick': 5000, 'thorough': 120000}
CAP = {'quick': 300, 'thorough': 3000}
RULE = ('a case is a workload (random program of the model generator, random '
        'typed calls of the whole builtin and library surface, or a test '
        'script of the repository), a build, a heap geometry and a GC '
        'schedule; its observable behaviour (logged values, outputs, end) is '
        'compared with the execution of the same workload in which no GC is '
        'forced; it counts once per distinct event log when at least one GC '
        'was forced or the heap geometry differs')
ASSUME = ['a cell allocation is the only point where GC can start (true by '
          'construction of the storage layer)',
          'conservative marking is exercised with gcc -O0 and -O2 builds']
PROBES = ['probe:gen', 'probe:calls', 'probe:test', 'probe:init']
SKIP = ('panu-srfi69', 'test-tail-rec', 'unittest')
SETUPS = {'gen': G.SETUP, 'calls': calls.SETUP}


def _tests():
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, 'test', '*.scm'))):
        n = os.path.basename(f)
        if not any(s in n for s in SKIP):
            out.append(n)
    return out


def schedule(rng, heavy):
    k = rng.random()
    lim = ' \ngclimit %d' % (250 if heavy else 1500)
    if k < .22:
        return 'gc every 1' + lim
    if k < .4:
        n = rng.choice([2, 3, 5, 7, 11, 17, 31])
        return 'gc every %d %d' % (n, rng.randrange(n)) + lim
    if k < .65:
        return 'gc rate %d %d' % (rng.randrange(1 << 30), rng.choice(
            [3000, 20000, 100000, 400000])) + lim
    if k < .88:
        return 'gc burst %d %d 1 %d' % (
            rng.randrange(1 << 30), rng.choice([2, 4, 8, 16]),
            rng.choice([10, 40, 200])) + lim
    if k < .95:
        return 'gc at ' + ' '.join(str(x) for x in sorted(
            rng.randrange(1, 4000) for _ in range(rng.randrange(1, 12))))
    return 'gc none'


def gen(rng, i):
    k = rng.random()
    c = {'variant': rng.choice(U.VAR)}
    heap2 = rng.choice(U.HEAPS)
    if k < .42:
        c['kind'] = 'gen'
        c['prog'] = G.Gen(rng, size=rng.choice((20, 40, 80)),
                          focus=rng.sample(list(G.FEATURES), 4)).program(
            rng.choice([1, 2, 3]), rng.choice([3, 4, 5, 6]))
        c['sf'] = sorted({rng.randrange(1, 9)
                          for _ in range(rng.choice((0, 0, 1, 2)))})
    elif k < .95:
        c['kind'] = 'calls'
        c['forms'] = calls.Calls(rng).forms(rng.randrange(1, 7),
                                            rng.choice([2, 3, 4, 5]))
        c['sf'] = sorted({rng.randrange(1, 9)
                          for _ in range(rng.choice((0, 0, 1, 2)))})
    elif k < .98:
        c['kind'] = 'test'
        c['test'] = rng.choice(_tests())
    else:
        c['kind'] = 'init'
        c['forms'] = calls.Calls(rng).forms(2, 2)
    c['gc'] = schedule(rng, c['kind'] in ('calls', 'test', 'init'))
    # the heap geometry of a test run stays near the usual one
    c['heap'] = heap2 if c['kind'] in ('gen', 'calls') else rng.choice(
        [U.HEAP, U.HEAPS[1]])
    return c


def _scen(c, heap, gc):
    k = c['kind']
    if k in ('gen', 'calls'):
        if k == 'gen':
            evs = [U.ev(' '.join(ref.src(x) for x in
                                 G.PRELUDE + c['prog'] + G.EPILOGUE))]
        else:
            evs = [U.ev(' '.join(c['forms']), True)]
        return U.scen(heap, 'op init', U.ev(SETUPS[k], True), 'op snapshot',
                      gc, 'op gcgo', U.step_dir(c['sf']), *evs)
    if k == 'init':
        return U.scen(heap, gc, 'gcinit' if gc != 'gc none' else '',
                      'op init', U.ev(calls.SETUP, True),
                      U.ev(' '.join(c['forms']), True), 'op fini')
    files = []
    for f in [c['test']] + [os.path.basename(x) for x in sorted(
            glob.glob(os.path.join(REPO, 'test', 'unittest*.scm')))]:
        with open(os.path.join(REPO, 'test', f), 'rb') as h:
            b = h.read().hex()
        files += ['file /lib/./test/%s %s' % (f, b)]
        if f == c['test']:
            files += ['file /lib/t.scm ' + b]
    return U.scen(heap, gc, 'quietio', *files, 'op init',
                  'op load ' + hx('t.scm'), 'op fini')


def obs(r):
    """what a user of the run can see"""
    out = [l for l in r.lines if l[:2] in ('L ', 'R ', 'S ', '! ')]
    for p in ('<stdout>', '<stderr>'):
        if p in r.files:
            out += [p + ' ' + repr(x) for x in r.files[p].split(b'\n')]
    out.append('end ' + str(r.end))
    return out


def run(c, ctx):
    k = c['kind']
    ctx.count('probe:' + k)
    base = ctx.sim(c['variant'], _scen(c, U.HEAP, 'gc none'))
    if base.crashed or base.end.startswith('LIMIT'):
        ctx.nontrivial = False      # nothing to compare with
        ctx.count('baseline-ends-abnormally')
        return []
    r = ctx.sim(c['variant'], _scen(c, c['heap'], c['gc']))
    if not r.stat.get('forced') and c['heap'] == U.HEAP:
        ctx.nontrivial = False
    a = U.abnormal(r, (base.end,))
    d = U.first_diff(obs(r), obs(base))
    if a and not a.startswith('end'):
        return [a]
    if d:
        return ['diverges: under the GC schedule observation %d is %s, '
                'without GC it is %s' % (d[0], d[1][:300], d[2][:300])]
    return []


def simpler(c):
    if c['kind'] == 'gen':
        for p in U.shrink_ast(c['prog']):
            yield dict(c, prog=p)
    if c.get('sf'):
        yield dict(c, sf=[])
    if c['heap'] != U.HEAP:
        yield dict(c, heap=U.HEAP)
    for g in ('gc every 1', 'gc every 1 \ngclimit 1500'):
        if c['gc'] != g and not c['gc'].startswith('gc at'):
            yield dict(c, gc=g)
    if c['gc'].startswith('gc at'):
        w = c['gc'].split()[2:]
        for j in range(len(w)):
            if len(w) > 1:
                yield dict(c, gc='gc at ' + ' '.join(w[:j] + w[j + 1:]))
    elif c['gc'] != 'gc none':
        # narrow the schedule down to single points
        from ..core import Ctx
        x = Ctx()
        r = x.sim(c['variant'], 'loggc\n' + _scen(c, c['heap'], c['gc']))
        at = [l[2:] for l in r.lines if l.startswith('G ')]
        if 0 < len(at):
            n = len(at)
            for w in (at[-1:], at[n // 2:], at[:n // 2]):
                if w and len(w) < 2000:
                    yield dict(c, gc='gc at ' + ' '.join(w))


SHRINK = ['forms']
