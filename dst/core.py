"""Deterministic-simulation engine: seeded search, violation gate,
minimisation, replay files, evidence.

A property module (dst/props/<id>.py) provides

  PROP      property id
  LEVEL, RULE, ASSUME
  COUNT     {'quick': n, 'thorough': n}     number of cases
  gen(rng, i)      -> case (JSON-able); everything the run depends on
  run(case, ctx)   -> list of findings "kind: text" ([] = held)
  SHRINK    keys of the case that the minimiser may cut (lists/ints/strings)
  simpler(case)    optional: iterable of further simpler cases

A case is executed by the simulator (sim/sim.c); the case alone determines the
execution, hence a replay file is the case plus the hash of its event log.
"""
import collections
import copy
import hashlib
import importlib
import itertools
import json
import multiprocessing
import os
import random
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'sim'))
import simlib  # noqa: E402

OUTDIR = os.environ.get('DST_OUT', VERIF)


class HarnessError(Exception):
    pass


class Ctx:
    """What one case execution observes."""

    def __init__(self):
        self.h = hashlib.sha256()
        self.runs = 0
        self.raws = []
        self.status = []
        self.stats = collections.Counter()
        self.keys = set()
        self.nontrivial = True

    def sim(self, variant, scen):
        r = simlib.sim(variant).run(scen)
        self.runs += 1
        self.raws.append(r.raw)
        self.status.append(r.status)
        # (where the CPU limit cuts a run is no property of the run)
        self.h.update(b'CPU' if r.status & 0x7f == 24 else r.raw)
        self.h.update(b'%d' % r.status)
        s = self.stats
        s['allocs'] += r.stat.get('allocs', 0)
        s['forced_gcs'] += r.stat.get('forced', 0)
        s['native_calls'] += r.stat.get('mcalls', 0)
        s['ops_io'] += r.stat.get('io', 0)
        for f in r.fired():
            w = f.split(' ')
            s['fault:' + (w[1] if len(w) > 3 else w[0])] += 1
        s['variant:' + variant] += 1
        if r.end and r.end.startswith('HARNESS'):
            raise HarnessError(r.raw[-400:])
        if r.end and r.end.startswith('BAD'):
            raise HarnessError('bad scenario: %r' % r.raw[-400:])
        return r

    def key(self, *k):
        """record a distinct execution shape (schedule, fault point, state)"""
        self.keys.add(hashlib.sha1(repr(k).encode()).hexdigest()[:16])

    def count(self, name, n=1):
        self.stats[name] += n


def _logdiff(a, b):
    for p, q in zip(a.raws, b.raws):
        for x, y in itertools.zip_longest(p.split(b'\n'), q.split(b'\n')):
            if x != y:
                return '%r / %r' % ((x or b'')[:300], (y or b'')[:300])
    return 'number or status of the runs: %r / %r' % (a.status, b.status)


def load(prop):
    return importlib.import_module('dst.props.' + prop.lower())


def execute(mod, case):
    c = Ctx()
    try:
        f = mod.run(case, c)
    except (IndexError, ValueError, KeyError, TypeError) as e:
        # the log of the run does not have the form every sound run has
        f = ['unreadable: the log of the run cannot be interpreted: %s %s' % (
            type(e).__name__, traceback.format_exc().strip().split('\n')[-3]
            .strip())]
    return f, c


def case_rng(prop, seed, i):
    return random.Random('%s/%d/%d' % (prop, seed, i))


def kind_of(finding):
    return finding.split(':', 1)[0]


# ------------------------------------------------------------------ worker
_deadline = None


def _worker_init(deadline):
    global _deadline
    _deadline = deadline


def _work(a):
    prop, seed, i, again = a
    if _deadline and time.time() > _deadline:
        return ('late', i)
    for k in range(3):
        r = _work1(prop, seed, i, again)
        if r[0] != 'err':
            break
        # the simulator process may have been ended from outside
        simlib.reset()
    return r


def _work1(prop, seed, i, again):
    try:
        mod = load(prop)
        case = mod.gen(case_rng(prop, seed, i), i)
        f, c = execute(mod, case)
        same = None
        if again and not f:
            f2, c2 = execute(mod, case)
            same = c2.h.digest() == c.h.digest() and f2 == f
            if not same:
                # one odd run out of five is a disturbance of the sandbox
                # (a process ended for memory, say); it is counted
                d = [execute(mod, case) for _ in range(3)]
                n = sum(x[1].h.digest() == c.h.digest() and x[0] == f
                        for x in d)
                if n < 3:
                    return ('nondet', i, case, _logdiff(c, c2))
                c.stats['probe:disturbed_reruns'] += 1
                sys.stderr.write('note: case %d once ran differently: %s\n' %
                                 (i, _logdiff(c, c2)))
        return ('ok', i, f, dict(c.stats), sorted(c.keys), c.runs,
                c.nontrivial, c.h.hexdigest(), same)
    except Exception:
        return ('err', i, traceback.format_exc())


# ---------------------------------------------------------------- minimiser
def _paths(case, keys):
    """shrinkable (path, value) pairs below the given keys"""
    out = []

    def walk(path, v):
        if isinstance(v, (list, dict, str)) or (
                isinstance(v, int) and not isinstance(v, bool)):
            out.append(path)
        if isinstance(v, list):
            for i, x in enumerate(v):
                walk(path + [i], x)
        elif isinstance(v, dict):
            for k, x in v.items():
                walk(path + [k], x)
    for k in keys:
        if k in case:
            walk([k], case[k])
    return out


def _get(c, path):
    for p in path:
        c = c[p]
    return c


def _set(c, path, v):
    for p in path[:-1]:
        c = c[p]
    c[path[-1]] = v


def minimise(mod, case, kind, budget_s=60, max_tries=1500):
    end = time.time() + budget_s
    tries = [0]
    cut_ints = getattr(mod, 'SHRINK_INTS', True)
    cut_strs = getattr(mod, 'SHRINK_STRS', False)

    def fails(c):
        if time.time() > end or tries[0] >= max_tries:
            return False
        tries[0] += 1
        try:
            f, _ = execute(mod, c)
        except Exception:
            return False
        return any(kind_of(x) == kind for x in f)

    changed = True
    while changed and time.time() < end and tries[0] < max_tries:
        changed = False
        if hasattr(mod, 'simpler'):
            for c in mod.simpler(copy.deepcopy(case)):
                if c != case and fails(c):
                    case, changed = c, True
                    break
            if changed:
                continue
        for path in _paths(case, getattr(mod, 'SHRINK', ())):
            try:
                v = _get(case, path)
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(v, list) and v or \
                    (cut_strs and isinstance(v, str) and v):
                n = max(1, len(v) // 2)
                while n >= 1:
                    i = 0
                    while True:
                        v = _get(case, path)
                        if i >= len(v):
                            break
                        c = copy.deepcopy(case)
                        _set(c, path, v[:i] + v[i + n:])
                        if fails(c):
                            case, changed = c, True
                        else:
                            i += n
                    n //= 2
            elif cut_ints and isinstance(v, int) and \
                    not isinstance(v, bool) and v > 1:
                for w in (0, 1, v // 2, v - 1):
                    if w < v:
                        c = copy.deepcopy(case)
                        _set(c, path, w)
                        if fails(c):
                            case, changed = c, True
                            break
    return case, tries[0]


# ------------------------------------------------------------------- replay
def write_replay(prop, seed, i, case, findings, h, orig):
    d = os.path.join(OUTDIR, 'build', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%d-%d.json' % (prop, seed, i))
    with open(p, 'w') as f:
        json.dump({'property': prop, 'seed': seed, 'index': i, 'case': case,
                   'findings': findings, 'event_log_sha256': h,
                   'unminimised_case': orig}, f, indent=1, sort_keys=True)
    return p


def replay(path, verbose=True):
    """returns (reproduced, findings)"""
    with open(path) as f:
        d = json.load(f)
    mod = load(d['property'])
    f, c = execute(mod, d['case'])
    ok = f == d['findings'] and c.h.hexdigest() == d['event_log_sha256']
    if verbose:
        for x in f:
            print('finding: ' + x)
        print('event log sha256 %s (%s)' % (
            c.h.hexdigest(), 'as recorded' if ok else 'DIFFERS'))
    return ok, f


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def is_known(prop, case, findings, mod):
    """the known finding all these findings belong to, or None"""
    for k in known_findings():
        if k['property'] != prop or k.get('status') == 'fixed':
            continue
        m = getattr(mod, 'matches_known', None)
        if m and m(k, case, findings):
            return k
    return None


# --------------------------------------------------------------------- check
def build(variants):
    import build as b
    for v in variants:
        b.build(v)


def check(prop, tier, seed, count=None, jobs=None, cap=None):
    t0 = time.time()
    mod = load(prop)
    build(getattr(mod, 'VARIANTS', ['compact', 'fatty']))
    t_build = time.time() - t0
    n = count or mod.COUNT[tier]
    cap = cap or getattr(mod, 'CAP', {}).get(tier) or \
        (420 if tier == 'quick' else 3000)
    jobs = jobs or int(os.environ.get('DST_JOBS', '8'))
    stats = collections.Counter()
    keys = set()
    shapes = set()
    runs = evals = nontriv = determin = 0
    bad, errs, nondet, late = [], [], [], 0
    stop_after = int(os.environ.get('DST_MAXBAD', '12'))
    # every 16th case is executed twice and the event logs are compared
    work = [(prop, seed, i, i % 16 == 3) for i in range(n)]
    with multiprocessing.Pool(jobs, _worker_init, (t0 + cap,)) as pool:
        for r in pool.imap_unordered(_work, work,
                                     chunksize=max(1, min(16, n // 64))):
            if r[0] == 'late':
                late += 1
            elif r[0] == 'err':
                errs.append(r)
                if len(errs) > 5:
                    break
            elif r[0] == 'nondet':
                nondet.append(r)
                if len(nondet) > 5:
                    break
            else:
                _, i, f, st, ks, rn, nt, h, same = r
                evals += 1
                runs += rn
                stats.update(st)
                keys.update(ks)
                if same is not None:
                    determin += 1
                if nt and h not in shapes:
                    shapes.add(h)
                    nontriv += 1
                if f:
                    bad.append((i, f, h))
                    if len(bad) >= stop_after:
                        break
        pool.terminate()
    t_run = time.time() - t0 - t_build
    status = 0
    known_hit = collections.OrderedDict()
    violation = None
    gate_fail = None
    seen = set()
    weak = []
    for i, f, h in sorted(bad):
        case = mod.gen(case_rng(prop, seed, i), i)
        k = is_known(prop, case, f, mod)
        if k:
            known_hit[k['id']] = k
            continue
        kd = kind_of(f[0])
        if kd in seen:
            continue
        seen.add(kd)
        # gate 1: the same case again gives the same event log
        f2, c2 = execute(mod, case)
        if f2 != f or c2.h.hexdigest() != h:
            gate_fail = ('case %d does not repeat: %r / %r' % (i, f, f2))
            weak.append((i, case, kd))
            continue
        small, tries = minimise(
            mod, case, kd, budget_s=float(os.environ.get('DST_MIN_S', '45')))
        fs, cs = execute(mod, small)
        if not any(kind_of(x) == kd for x in fs) or \
                is_known(prop, small, fs, mod):
            small, fs, cs = case, f2, c2
        p = write_replay(prop, seed, i, small, fs, cs.h.hexdigest(), case)
        # gate 2: fresh process
        env = dict(os.environ, PYTHONHASHSEED=str(1 + i % 1000))
        rc = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'),
                             'replay', p], stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT, env=env)
        if rc.returncode != 1:
            gate_fail = 'replay of %s: rc %d\n%s' % (
                p, rc.returncode, rc.stdout.decode('latin-1')[-1500:])
            weak.append((i, case, kd))
            continue
        violation = (p, fs)
        break
    if not violation:
        # code that reads stray memory can fail every time and each time in
        # another way; such a failure counts if five runs of five have it
        for i, case, kd in weak:
            rs = [execute(mod, case) for _ in range(5)]
            if all(any(kind_of(x) == kd for x in r[0]) for r in rs):
                f, c = rs[-1]
                p = write_replay(prop, seed, i, case, f, c.h.hexdigest(), case)
                violation = (p, f + ['note: the code under test does not '
                                     'behave the same in every run'])
                break
    cov = {
        'evaluations': evals,
        'distinct_nontrivial': nontriv,
        'rule': mod.RULE,
        'samples': _samples(mod, prop, seed, min(n, 3)),
        'simulated_runs': runs,
        'seeds': evals,
        'runs_per_hour': int(runs / max(t_run, 0.001) * 3600),
        'seeds_per_hour': int(evals / max(t_run, 0.001) * 3600),
        'simulated_time': {
            'unit': 'the code has no clock; logical time is cell allocations '
                    '(each a possible GC point) and allocator calls',
            'cell_allocations': stats.pop('allocs', 0),
            'allocator_calls': stats.pop('native_calls', 0)},
        'faults_fired': {
            'forced_gcs': stats.pop('forced_gcs', 0),
            **{k[6:]: v for k, v in sorted(stats.items())
               if k.startswith('fault:')}},
        'distinct_states': {'measure': getattr(mod, 'MEASURE', 'sha256 of the '
                            'whole event log of a case'),
                            'count': len(keys) or len(shapes)},
        'runs_by_build': {k[8:]: v for k, v in sorted(stats.items())
                          if k.startswith('variant:')},
        'probes': {k: v for k, v in sorted(stats.items())
                   if ':' not in k or k.startswith('probe:')},
        'determinism_rechecked': determin,
        'not_run_for_time': late,
        'real_code': 'all of src/*.c (+ main.c) and lib/*.scm of /repo, '
                     'libgcroots as installed',
        'stubs': 'stdio files (fopen/fgetc/fputs/fwrite/fflush/fclose/ungetc) '
                 'and their disk; malloc family is counted and failed on '
                 'demand, exit() is caught',
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
          'coverage': cov, 'assumptions': mod.ASSUME,
          'wall_s': round(time.time() - t0, 1),
          'violations': []}
    if violation:
        ev['violations'] = [{'replay': violation[0], 'findings': violation[1]}]
    os.makedirs(os.path.join(OUTDIR, 'evidence'), exist_ok=True)
    evp = os.path.join(OUTDIR, 'evidence', prop + '.json')
    with open(evp + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(evp + '.tmp', evp)
    for k in known_hit.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s %s seed=%d: %d cases (%d simulated runs, %d distinct), '
          '%d re-executed identically, %.1fs' %
          (prop, tier, seed, evals, runs, nontriv, determin, time.time() - t0))
    if violation:
        for x in violation[1][:4]:
            print('  ' + x[:600])
        print('VIOLATION property=%s replay=%s' % (prop, violation[0]))
        return 1
    if gate_fail:
        print('HARNESS ERROR (violation gate): ' + gate_fail)
        status = 3
    if errs:
        print('HARNESS ERROR case %d:\n%s' % (errs[0][1], errs[0][2][-2500:]))
        status = 3
    if nondet:
        print('HARNESS ERROR: case %d is not deterministic: %s' %
              (nondet[0][1], nondet[0][3]))
        status = 3
    if evals == 0 and not status:
        print('HARNESS ERROR: nothing was explored')
        status = 3
    missing = [p for p in getattr(mod, 'PROBES', ()) if not stats.get(p)] \
        if not late and not status and count is None else []
    if missing:
        print('note: probes never hit: %s' % ' '.join(missing))
    return status


def _samples(mod, prop, seed, n):
    out = []
    for i in range(n):
        c = mod.gen(case_rng(prop, seed, i), i)
        s = json.dumps(c)
        out.append(c if len(s) < 3000 else s[:3000] + '...')
    return out
