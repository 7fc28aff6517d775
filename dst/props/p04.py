"""P04 dynamic-wind and call/cc containment."""
from .. import util as U

PROP = 'P04'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt']
COUNT = {'quick': 9000, 'thorough': 300000}
CAP = {'quick': 300, 'thorough': 3000}
RULE = ('a case is a random program (call/cc, nested dynamic-wind, escapes out of every position, C callbacks; swarm weights) with injected errors at chosen steps, a GC schedule and a build, compared event by event with the reference model; it counts once per distinct event log')
ASSUME = ['the reference model dst/ref.py states R5RS, SRFI-34 and '
          'doc/spec.txt correctly', 'arguments and bindings are evaluated '
          'left to right, as the shipped evaluator does']
PROBES = ['probe:escape', 'probe:expired', 'probe:guard-caught']


FOCUS = ['callcc', 'throw', 'wind', 'capture', 'log']


def gen(rng, i):
    return U.model_gen(rng, FOCUS)


def run(case, ctx):
    return U.model_case(case, ctx)


simpler = U.model_simpler
