"""C11: generated programs give every component the parameter values the instrument states, and list every instrument parameter."""
from ..core import Result, rng
from ..lib import progcheck as P, prog as G, progrun as R

RULE = ('random instruments assigning numbers, expressions over instrument parameters and DECLAREd variables changed in INITIALIZE, strings of any content, vectors and identifiers to double, int, string and vector '
        'parameters (SETTING and DEFINITION, with and without defaults) are translated, compiled and run with random command-line values; the values each component logs in each section, and the parameter table '
        '(names, order, types, units, default texts) of the program, are compared with the model; with -DUSE_NEXUS what a stand-in NeXus file is told of components and parameters too; distinct = programs, non-trivial = at least one parameter assigned')
ASSUMPTIONS = ['the default text of a string parameter may be written with or without its quotes; numbers are compared by value', 'parameters are not named like macros of the particle (x, t, p, vx ...)']
MINIMUM = {'quick': dict(evaluations=260, distinct=200, with_parameters=200, table_rows=500, nexus_parameters=150), 'thorough': dict(evaluations=6000, distinct=5000, table_rows=12000)}
EMPHASIS = dict(string=.9, vector=.7, define=.3, init_changes=.8, sections=.8, metadata=0, split=.05, group=.1, jump=.05, rotated=.2, comp_copy=.4, copy=.35)
chunks = P.chunks_of((48, 8), (320, 40))
TYPES = {'bare': 4, 'double': 4, 'int': 0, 'string': 1, 'char*': 1}


def table(p, instr, c, seen, res):
    want = p.want['params']
    if seen.table is None or not seen.pars and want:
        return
    res.count('table_rows', len(seen.pars))
    if seen.table['n'] != len(want):
        yield 'table', f'{len(want)} parameters declared, the program says it has {seen.table["n"]}'
    if [x['name'] for x in seen.pars] != [q['name'] for q in want]:
        yield 'table', f'parameters {[q["name"] for q in want]} are listed as {[x["name"] for x in seen.pars]}'
        return
    for x, q in zip(seen.pars, want):
        if x['type'] != TYPES.get(q['kind'], x['type']):
            yield 'table', f'{q["name"]} is declared {q["kind"]}, listed with type {x["type"]} (0 int, 1 string, 4 double)'
        unit = G.unc(q['unit']) if q['unit'] else ''
        if (x['unit'] or '') != unit:
            yield 'table', f'{q["name"]} has unit {unit!r}, listed with {x["unit"]!r}'
        val, d = x['val'] or '', q['default']
        if d is None:
            ok = val == ''
        elif q['kind'] in ('string', 'char*'):
            ok = val in (d, G.unc(d) if d[:1] == '"' else d)
        else:
            try:
                ok = abs(float(val) - float(eval(d.replace('^', '**'), {}))) <= 1e-12 * abs(float(val))
            except Exception:
                ok = val.replace(' ', '') == d.replace(' ', '')
        if not ok:
            yield 'table', f'{q["name"]} has default {d}, listed with {val!r}'


def nexus(p, instr, c, seen, res):
    """what a NeXus file is told: every component with its place, every parameter with its value"""
    yield from table(p, instr, c, seen, res)
    if '-DMV_NEXUS' not in p.flags or not seen.places or p.mcdisplay:  # (nothing is written with --trace)
        return
    at, values = {}, {}
    for (_, name), f in seen.places:
        at[name] = f
    for e, f in seen.sections:
        if e[:2] == ('sec', 'initialize'):
            values.setdefault(e[2], f)
    want = []
    for n, x in enumerate(p.want['instances']):
        group = f'{n:04d}_{x["name"]}'
        want.append(('comp', group))
        want += [('par', group, q['name'], q, x) for k in ('define', 'setting') for q in p.comps[x['type']][k]]
    if [(a, b, *([f['name']] if a == 'par' else [])) for a, b, f in seen.nx] != [w[:3] for w in want]:
        yield 'table', f'NeXus is told about {[(a, b, f.get("name")) for a, b, f in seen.nx]}, expected {[w[:3] for w in want]}'
        return
    for (kind, group, f), w in zip(seen.nx, want):
        name = group[5:]
        if kind == 'comp':
            res.count('nexus_components')
            if f['type'] != p.want['instances'][int(group[:4])]['type']:
                yield 'table', f'NeXus is told that {name} is a {f["type"]}'
            if not R.alike(f['pos'], at[name]['pos'], 1e-9, 1e-9) or not R.alike(f['rot'], at[name]['rot'], 1e-9, 1e-9):
                yield 'table', f'NeXus is told that {name} is placed at {f}, it is at {at[name]}'
            continue
        res.count('nexus_parameters')
        q, x = w[3], w[4]
        given = dict(x['params'] or ()).get(q['name'])
        text = given if given is not None else q['default']
        if f['type'].replace(' ', '') != EXPECTED.get(q['kind'], f['type']).replace(' ', ''):
            yield 'table', f'NeXus is told that {name}.{q["name"]} ({q["kind"]}) has type {f["type"]}'
        if text is not None and text[:1] == '"' and (f['value'] or '') != p.strings.get(text, G.unc(text)):
            yield 'table', f'NeXus is told that {name}.{q["name"]} is {f["value"]!r}, not {text}'
        if q['default'] is not None and q['default'][:1] == '"' and (f['default'] or '') != p.strings.get(q['default'], G.unc(q['default'])):
            yield 'table', f'NeXus is told that the default of {name}.{q["name"]} is {f["default"]!r}, not {q["default"]}'
        v = values.get(name, {}).get('p:' + q['name'])
        if isinstance(v, (int, float)) and text is not None and number(text) is not None and number(f['value']) != number(text):
            yield 'table', f'NeXus is told that {name}.{q["name"]} is {f["value"]!r}, not {text}'


EXPECTED = {'bare': 'double', 'double': 'double', 'int': 'int', 'string': 'char*', 'char*': 'char*', 'vector': 'double*', 'double*': 'double*'}


def number(t):
    try:
        return float(t)
    except (TypeError, ValueError):
        return None


def run(desc, res: Result):
    for n in range(desc['per']):
        P.one('C11', rng('c11', desc['seed'], desc['n'], n), res, {'parameters', 'table'}, EMPHASIS, modes=dict(plain=8, nosplit=1, funnel=1, nexus=2), extra=nexus,
              how=['parsed', 'parsed', 'again', 'copy'], nontrivial=lambda p, fs, seen: 'parameters' in fs)
