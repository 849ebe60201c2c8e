"""C15: user variables travel with the ray and are found by name."""
from ..core import Result, rng
from ..lib import progcheck as P

RULE = ('random instruments with USERVARS of several types in the instrument and in components are translated, compiled and run; components read every variable by name and by number, through all accessors, at every step, '
        'EXTEND blocks and components change them; each value is compared with the reference interpreter (through splits, jumps, groups and restores), and unknown names must be reported; '
        'distinct = programs, non-trivial = at least one user variable and one ray event')
ASSUMPTIONS = ['only double, MCNUM and int scalars are promised to start at zero (the translator warns about others)', 'particle_getvar and particle_getuservar_byid are meaningful for double variables only']
MINIMUM = {'quick': dict(evaluations=220, distinct=180, ray_events=3500, with_uservars=150), 'thorough': dict(evaluations=6000, distinct=5000, ray_events=100000)}
EMPHASIS = dict(uservars=1., extend=.7, split=.25, jump=.25, group=.3, metadata=0, include=.1, rotated=.3, sections=.4, n_inst=(2, 8))
chunks = P.chunks_of((48, 7), (320, 40))


def run(desc, res: Result):
    for n in range(desc['per']):
        P.one('C15', rng('c15', desc['seed'], desc['n'], n), res, {'uservars', 'state'}, EMPHASIS, modes=dict(plain=7, nosplit=1, funnel=1),
              how=['parsed', 'parsed', 'parsed', 'again', 'copy'], nontrivial=lambda p, fs, seen: fs & {'uservars', 'component-uservars'} and any(seen.rays.values()))
