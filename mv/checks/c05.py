"""C05: parsing a component definition keeps everything that was written."""
from __future__ import annotations
import copy
from ..core import Result, rng, short_tb
from ..lib import imodel as M, imatch
from .c04 import registry

RULE = ('random chains of component definitions (new, COPY of whole definitions, COPY of sections, EXTEND) are written out, read in random '
        'order, and compared field by field with the model; after all were read every one is compared again; distinct = texts')
ASSUMPTIONS = ['reading order of a library must not matter', 'a section COPY in a definition which is itself a COPY replaces the inherited section '
               '(what the reader announces), except SHARE, which accumulates', 'blank sections count as absent']
MINIMUM = {'quick': dict(evaluations=2500, distinct=2000, copied=500, sections=5000, section_copies=900, reread=2500, block_lines=4000),
           'thorough': dict(evaluations=40000, distinct=30000)}


def chunks(tier, seed):
    n, per = (64, 8) if tier == 'quick' else (400, 25)
    return [dict(seed=seed, n=i, per=per) for i in range(n)]


def run(desc, res: Result):
    from mccode_antlr.reader import Reader
    r = rng('c05', desc['seed'], desc['n'])
    for _ in range(desc['per']):
        raw = []
        for x in range(r.randint(3, 8)):
            raw.append(M.gen_comp(r, M.ident(r, 'Type', x), raw))
        want = M.resolve_comps(raw)
        reg = registry(raw, r)
        reader = Reader(registries=[reg])
        order = [m['name'] for m in raw]
        r.shuffle(order)
        by = {m['name']: m for m in raw}
        got = {}
        for name in order:
            case = dict(name=name, library=dict(reg.components))
            try:
                got[name] = reader.get_component(name)
            except Exception as ex:
                res.violate('rejected:' + type(ex).__name__, f'valid component rejected: {short_tb(ex)}\n{reg.components[name + ".comp"]}', case)
                continue
            m = by[name]
            res.case(reg.components[name + '.comp'], bool(m['setting'] or m['define'] or m['sections']), sample=dict(text=reg.components[name + '.comp'][:800]))
            res.count('copied', bool(m['copy']))
            for s in m['sections'].values():
                res.count('section_copies' if 'copy' in s else 'sections')
            for mech, msg in imatch.match_comp(got[name], want[name]):
                res.violate(mech, msg + '\n' + texts(reg), case)
            for s in M.SECTIONS:
                blocks = getattr(got[name], s)
                res.count('block_lines', len(blocks))
                for mech, msg in imatch.match_lines(f'{name} {s}', blocks, list(reg.components.values())):
                    res.violate(mech, msg + '\n' + texts(reg), case)
            if m['category'] is None and not m['copy'] and got[name].category not in ('UNKNOWN', name + '.comp'):
                res.violate('comp-category', f'{name}: no category written, read {got[name].category}', case)
        # reading the others changed none of them
        for name, c in got.items():
            res.count('reread')
            for mech, msg in imatch.match_comp(c, want[name]):
                res.violate('later-' + mech, 'after reading the whole library: ' + msg + '\n' + texts(reg), dict(name=name, library=dict(reg.components)))
        if r.random() < 0.3:
            flags(raw, got, reader, res, reg)


def flags(raw, got, reader, res, reg):
    want = [m['dependency'] for m in raw if m['dependency'] is not None]
    have = list(reader.c_flags)
    if len(got) == len(raw) and sorted(want) != sorted(have):
        res.violate('comp-dependency', f'dependencies {sorted(want)} read as {sorted(have)}', dict(library=dict(reg.components)))
    res.count('dependencies', len(want))


def texts(reg):
    return '\n'.join(f'=== {k}\n{v}' for k, v in reg.components.items())[:6000]


PROBES = {}
