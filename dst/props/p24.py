"""P24 no program can crash the interpreter."""
from .. import util as U
from .. import chaos

PROP = 'P24'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt', 'fatty', 'hygienic']
COUNT = {'quick': 8000, 'thorough': 300000}
CAP = {'quick': 300, 'thorough': 3000}
RULE = ('a case is a sequence of random calls of builtin and library '
        'procedures and syntaxes with well and ill typed arguments, each in a '
        'guard, with injected errors, a GC schedule and a build; afterwards a '
        'fixed epilogue must behave as in a fresh interpreter; it counts once '
        'per distinct event log')
ASSUME = ['a call that asks for unlimited work or memory may end in the '
          'documented memory exhaustion or run out of its budget',
          'AddressSanitizer and the simulated allocator see invalid accesses '
          'to native memory; cells of the heap are only seen by their effects']
PROBES = ['probe:error', 'probe:value']
EPI = r"""
(sim-log (list (+ 1 2) (string-append "a" "b") (map (lambda (x) (* x x))
 '(1 2 3)) (let ((o (open-output-string))) (write '(1 "s" #\a #(x)) o)
 (get-output-string o)) (guard (e (#t 'caught)) (car 1))
 (call/cc (lambda (k) (dynamic-wind (lambda () 1) (lambda () (k 7))
 (lambda () 2)))) (read (open-input-string "(a . b)"))
 `(1 ,@(list 2 3) #(,(+ 1 1))) (sort (list 3 1 2) <) (force (delay 4))
 (hash-table-ref/default (ht '((a . 1))) 'a 0) (vector-map + '#(1 2))))
(write 'ok)
(newline)
"""
BUILD = ('begin', 'define')


def gen(rng, i):
    v = rng.choice(VARIANTS)
    c = chaos.Chaos(rng, v == 'hygienic')
    return {'forms': [c.form() for _ in range(rng.choice([1, 3, 6, 10]))],
            'sf': sorted({rng.randrange(1, 9)
                          for _ in range(rng.choice((0, 0, 1)))}),
            'variant': v,
            'gc': U.gc_schedule(rng, .6) + '\ngclimit 400'}


def prefix():
    return [U.HEAP, 'cpu 6', 'maxallocs 1500000', 'quietio'] + chaos.FILES + [
        'op init', U.ev(chaos.SETUP, True), 'op snapshot']


def run(c, ctx):
    r = ctx.sim(c['variant'], U.scen(
        *prefix(), c['gc'], 'op gcgo', U.step_dir(c['sf']),
        *[U.ev(f, True) for f in c['forms']], 'op say 1',
        'op gc1', U.ev(EPI, True), 'op fini'))
    for l in r.lines:
        if l.startswith('L '):
            ctx.count('probe:error' if l.startswith('L (|caught|')
                      else 'probe:value')
    if r.crashed and r.status & 0x7f == 24 or (
            r.end or '').startswith('LIMIT'):
        ctx.count('budget-exhausted')
        ctx.nontrivial = False
        return []
    if r.crashed and 'stack-overflow' in (r.crash_kind() or ''):
        # unlimited recursion, or circular data given to equal? or write
        ctx.count('stack-exhausted')
        ctx.nontrivial = False
        return []
    if r.end == 'EXIT 1' and any(
            x in r.files.get('<stderr>', b'')
            for x in (b'memory exhausted', b'heap exhausted')):
        ctx.count('memory-exhausted')
        return []
    a = U.abnormal(r)
    if a:
        return [a]
    b = ctx.sim(c['variant'], U.scen(*prefix(), 'op say 1', U.ev(EPI, True),
                                     'op fini'))
    x = r.lines[r.lines.index('SAY 1') + 1:]
    y = b.lines[b.lines.index('SAY 1') + 1:]
    x = [l for l in x if l.startswith('L ')]
    y = [l for l in y if l.startswith('L ')]
    d = U.first_diff(x, y)
    if d:
        return ['unusable: after the calls the epilogue gives %s, fresh %s' %
                (d[1][:300], d[2][:300])]
    if b'ok\n' not in r.files.get('<stdout>', b''):
        return ['unusable: stdout lost output: %r' %
                r.files.get('<stdout>', b'')[-100:]]
    return []


def simpler(c):
    if c['gc'] != 'gc none':
        yield dict(c, gc='gc none')
    if c['sf']:
        yield dict(c, sf=[])


SHRINK = ['forms']
