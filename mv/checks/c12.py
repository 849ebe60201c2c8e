"""C12: every section of every component runs exactly when it should, on its own instance."""
from ..core import Result, rng
from ..lib import progcheck as P

RULE = ('random instruments whose components (also COPYs, and several instances of one type) log every INITIALIZE, TRACE, SAVE, FINALLY and MCDISPLAY execution with the parameters and declared state '
        'they see are translated, compiled and run with 0-3 intermediate saves, with and without display; the complete log is compared with the predicted one; distinct = programs, non-trivial = at least two instances')
ASSUMPTIONS = ['the order of the sections is the McCode one: instrument INITIALIZE, then components; SAVE and FINALLY components first or last as the reference interpreter states (DESIGN.md)']
MINIMUM = {'quick': dict(evaluations=260, distinct=200, section_events=3000, with_display=60), 'thorough': dict(evaluations=6000, distinct=5000, section_events=60000)}
EMPHASIS = dict(sections=.9, n_inst=(2, 9), n_comp=(2, 4), metadata=0, declare=.9, init_changes=.8, comp_copy=.4, split=.08, jump=.15)
chunks = P.chunks_of((48, 8), (320, 40))


def run(desc, res: Result):
    for n in range(desc['per']):
        P.one('C12', rng('c12', desc['seed'], desc['n'], n), res, {'order', 'declared', 'parameters', 'crash'}, EMPHASIS, modes=dict(plain=8, nosplit=1, funnel=1),
              how=['parsed', 'parsed', 'again', 'copy'], nontrivial=lambda p, fs, seen: len(p.want['instances']) > 1)
