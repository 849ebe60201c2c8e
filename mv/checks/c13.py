"""C13: generated C compiles and runs without memory errors or undefined behaviour."""
from ..core import Result, rng
from ..lib import progcheck as P

RULE = ('random instruments with every feature of the generator (strings of any content, vectors, arrays and pointers in DECLARE, metadata, libraries, long names, all modifiers) are translated, compiled by gcc or '
        'clang with AddressSanitizer and UndefinedBehaviorSanitizer and run with random parameter values; the run-time stand-in also checks every string copy against the size of its destination and its '
        'termination, and starts with poisoned particles and parameters; distinct = programs, non-trivial = at least one ray event')
ASSUMPTIONS = ['leaks are not decided (parameter vectors are never freed, as upstream)', 'instance and component names shorter than 256 characters',
               'the only diagnostics which count are errors, implicit declarations, incompatible pointers and int-pointer conversions']
MINIMUM = {'quick': dict(evaluations=200, distinct=180, programs_sanitized=180, ray_events=2500), 'thorough': dict(evaluations=5000, distinct=4500, ray_events=80000)}
EMPHASIS = dict(string=.9, vector=.7, define=.3, metadata=.4, include=.4, declare=.9, uservars=.9, special_name=.1, dependency=.5, n_inst=(2, 9))
chunks = P.chunks_of((32, 8), (320, 20))


def run(desc, res: Result):
    for n in range(desc['per']):
        P.one('C13', rng('c13', desc['seed'], desc['n'], n), res, {'memory', 'crash'}, EMPHASIS, san=1., modes=dict(plain=5, nosplit=1, funnel=1),
              how=['parsed', 'parsed', 'again', 'copy'], nontrivial=lambda p, fs, seen: any(seen.rays.values()))
