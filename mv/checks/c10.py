"""C10: generated programs send each ray through the components as the instrument specifies."""
from ..core import Result, rng
from ..lib import progcheck as P

RULE = ('random instruments combining SPLIT, WHEN, GROUP, EXTEND and JUMP over components which move, scatter, absorb and restore rays are translated (also with -DNOSPLIT and -DFUNNEL), compiled and run; '
        'the logged itinerary of every ray (components entered, state, weight, random numbers, SCATTERED, EXTEND executions) is compared event by event with a reference interpreter of the instrument model; '
        'distinct = programs, non-trivial = at least one modifier and one ray event')
ASSUMPTIONS = ['GROUP members are consecutive and do not JUMP; SPLIT is not combined with jumps across it nor used inside a GROUP; SPLIT counts are positive (undefined upstream)',
               'FUNNEL programs are run without SPLIT (its count is chosen by the run time there) and ignore JUMP as documented', 'a JUMP passes coordinates unchanged into its target']
MINIMUM = {'quick': dict(evaluations=260, distinct=200, ray_events=4000, with_split=40, with_when=80, with_group=60, with_extend=80, with_jump=20, with_iterate=20, **{'with_nested-loops': 30}, programs_funnel=25),
           'thorough': dict(evaluations=6000, distinct=5000, ray_events=100000)}
EMPHASIS = dict(split=.3, when=.45, group=.6, extend=.5, jump=.4, nest=.25, n_inst=(3, 11), metadata=0, include=.05, rotated=.4, skip=.2, special_name=.03)
chunks = P.chunks_of((48, 8), (320, 40))


def run(desc, res: Result):
    for n in range(desc['per']):
        r = rng('c10', desc['seed'], desc['n'], n)
        f = dict(EMPHASIS)
        if r.random() < .5:  # SPLIT, JUMP and GROUP exclude each other partly: emphasise one
            f.update({k: 0. for k in r.sample(['split', 'jump', 'group'], r.choice([1, 2]))})
        P.one('C10', r, res, {'sequence', 'weight', 'scattered', 'coordinates', 'random'}, f, modes=dict(plain=6, nosplit=1, funnel=2), how=['parsed', 'parsed', 'parsed', 'again', 'copy'],
              nontrivial=lambda p, fs, seen: fs & {'split', 'when', 'group', 'extend', 'jump', 'iterate'} and any(seen.rays.values()))
