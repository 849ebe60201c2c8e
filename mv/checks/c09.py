"""C09: generated programs place components, and hand rays to them, where the instrument says."""
from ..core import Result, rng
from ..lib import progcheck as P

RULE = ('random instruments with chains of absolute and relative placements (rotations, references forward through COPY and PREVIOUS, components without TRACE, groups, jumps) are translated, '
        'compiled against the event-logging run time and run with random parameter values; every absolute position and rotation, the position table and the coordinates in which each ray is '
        'handed to each component are compared with independent rigid-body arithmetic; distinct = programs, non-trivial = a rotated or relative placement and at least one ray event')
ASSUMPTIONS = ['run-time stand-in: coords_/rot_ functions follow the McCode conventions', '`_position_relative` is internal (relative to the last component whose transform is not skipped): only its effect on rays is decided',
               'angles and coordinates agree within 2e-9 absolute / 1e-9 relative']
MINIMUM = {'quick': dict(evaluations=260, distinct=200, ray_events=4000, placements=1500, with_rot=150, with_relative=150, **{'with_asked-places': 80, 'with_distance-placed': 60}),
           'thorough': dict(evaluations=6000, distinct=5000, ray_events=100000, placements=30000)}
EMPHASIS = dict(rotated=.75, n_inst=(3, 12), skip=.35, split=.05, metadata=0, include=.05, group=.3, jump=.2, special_name=.02, asks=.2, sections=.9)
chunks = P.chunks_of((48, 8), (320, 40))


def run(desc, res: Result):
    for n in range(desc['per']):
        P.one('C09', rng('c09', desc['seed'], desc['n'], n), res, {'coordinates', 'placement'}, EMPHASIS, modes=dict(plain=6, nosplit=1, funnel=2),
              how=['parsed', 'parsed', 'parsed', 'copy'], nontrivial=lambda p, fs, seen: fs & {'rot', 'relative'} and any(seen.rays.values()))
