"""P06 expired continuations."""
from .. import util as U

PROP = 'P06'
LEVEL = 'exploration'
VARIANTS = ['compact', 'compact-opt', 'fatty-opt']
COUNT = {'quick': 9000, 'thorough': 300000}
CAP = {'quick': 300, 'thorough': 3000}
RULE = ('a case is a random program (continuations stored in variables, lists and promises and called after their extent, after escapes and errors) with injected errors at chosen steps, a GC schedule and a build, compared event by event with the reference model; it counts once per distinct event log')
ASSUME = ['the reference model dst/ref.py states R5RS, SRFI-34 and '
          'doc/spec.txt correctly', 'arguments and bindings are evaluated '
          'left to right, as the shipped evaluator does']
PROBES = ['probe:escape', 'probe:expired']


FOCUS = ['callcc', 'setk', 'gthrow', 'capture', 'throw']


def gen(rng, i):
    c = U.model_gen(rng, FOCUS)
    # call the stored continuations again, from other contexts
    r = rng
    for _ in range(r.randrange(4)):
        k = r.choice(['kg0', 'kg1', 'kg2'])
        e = r.choice([
            [k, r.randrange(9)],
            ['call/cc', ['lambda', ['kk'], ['set!', r.choice(['kg0', 'kg1']),
                                            'kk'], [k, 3]]],
            ['dynamic-wind', ['lambda', [], ['sim-log', 1]],
             ['lambda', [], [k, 4]], ['lambda', [], ['sim-log', 2]]],
            ['map', k, ['list', 1, 2]],
            ['force', ['delay', [k, 6]]],
            ['sim-call', k, 7],
            ['call/cc', k],
        ])
        c['prog'].append(['sim-log', [
            'guard', ['c', ['else', ['list', ['quote', 'caught'], 'c']]], e]])
    return c


def run(case, ctx):
    return U.model_case(case, ctx)


simpler = U.model_simpler
