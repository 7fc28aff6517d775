"""P05 raise, guard and exception handlers."""
from .. import util as U

PROP = 'P05'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt']
COUNT = {'quick': 9000, 'thorough': 300000}
CAP = {'quick': 300, 'thorough': 3000}
RULE = ('a case is a random program (handlers, guards with every clause form, raises inside handlers and winds, error objects) with injected errors at chosen steps, a GC schedule and a build, compared event by event with the reference model; it counts once per distinct event log')
ASSUME = ['the reference model dst/ref.py states R5RS, SRFI-34 and '
          'doc/spec.txt correctly', 'arguments and bindings are evaluated '
          'left to right, as the shipped evaluator does']
PROBES = ['probe:handler-returned', 'probe:guard-caught', 'probe:guard-reraise', 'probe:uncaught']


FOCUS = ['guard', 'weh', 'raise', 'error', 'step', 'badop', 'wind']


def gen(rng, i):
    c = U.model_gen(rng, FOCUS, nsf=(0, 1, 2, 3))
    if rng.random() < .25:      # nobody handles what comes last
        g = U.G.Gen(rng, size=20, focus=FOCUS + ['throw'])
        d = rng.choice([2, 3, 4])
        k = rng.randrange(4)
        e = g.i([], d) if k == 0 else ['raise', g.any([], d)]
        if k == 2:
            e = ['dynamic-wind', ['lambda', [], g.stmt([], 2)],
                 ['lambda', [], e], ['lambda', [], g.stmt([], 2)]]
        elif k == 3:
            e = ['with-exception-handler', g.handler([], d), ['lambda', [], e]]
        c['prog'].append(['sim-log', e])
    return c


def run(case, ctx):
    return U.model_case(case, ctx)


simpler = U.model_simpler
