"""C04: parsing an instrument keeps everything that was written."""
from __future__ import annotations
import copy
from ..core import Result, rng, short_tb
from ..lib import imodel as M, imatch

RULE = ('a random component library and a random instrument model are rendered to text with random spacing, comments, keyword spelling and '
        'references; the parsed object is compared field by field with the model; distinct = instrument texts, non-trivial = at least one instance')
ASSUMPTIONS = ['expressions are compared with what parsing the expression alone gives (C01 establishes that this keeps its value)',
               'component COPY inherits parameters, WHEN, GROUP, EXTEND, JUMP and metadata, as in McCode 3; SPLIT, REMOVABLE and CPU are not inherited']
MINIMUM = {'quick': dict(evaluations=900, distinct=700, instances=3000, copies=400, jumps=400, included=60, counted_over=30, counted_inside=15, counted_outside=15, repeated=50, block_lines=1500),
           'thorough': dict(evaluations=15000, distinct=12000, instances=40000)}


def chunks(tier, seed):
    n, per = (64, 16) if tier == 'quick' else (400, 60)
    return [dict(seed=seed, n=i, per=per) for i in range(n)]


def library(r, n=6):
    """random component models, their resolved form and their text"""
    raw = [dict(name='Arm', copy=None, noacc=False, category=None, define=[], setting=[], output=[], metadata=[], dependency=None, sections={})]
    for x in range(n):
        raw.append(M.gen_comp(r, M.ident(r, 'Type', x), raw))
    return raw, M.resolve_comps(raw)


def registry(raw, r, name='mem'):
    from mccode_antlr.reader.registry import InMemoryRegistry
    reg = InMemoryRegistry(name)
    for m in raw:
        reg.add_comp(m['name'], M.comp_text(m, r))
    return reg


def flags_of(model, raw):
    """DEPENDENCY of every component definition that is read, through copies too, each once in the order read"""
    by = {m['name']: m for m in raw}
    seen, out = [], []

    def read(n):
        if n in seen:
            return
        seen.append(n)
        m = by[n]
        if m['copy']:
            read(m['copy'])
        if m['dependency'] is not None:
            out.append(m['dependency'])
        for s in M.SECTIONS:
            sec = m['sections'].get(s)
            if sec and 'copy' in sec:
                read(sec['copy'])
    for i in model['instances']:
        if not i.get('copy'):
            read(i['type'])
    return out


def run(desc, res: Result):
    from mccode_antlr.loader.loader import parse_mccode_instr
    r = rng('c04', desc['seed'], desc['n'])
    raw, comps = library(r)
    reg = registry(raw, r)
    for n in range(desc['per']):
        if n % 5 == 4:
            included(r, raw, comps, reg, res)
            continue
        model = M.gen_instr(r, comps)
        text = M.instr_text(model, r)
        case = dict(text=text, library={k: v for k, v in reg.components.items()})
        try:
            instr = parse_mccode_instr(text, [reg])
        except Exception as ex:
            res.violate('rejected:' + type(ex).__name__, f'valid instrument rejected: {short_tb(ex)}\n{text}', case)
            continue
        want = M.resolve_instr(model, comps)
        want['comp_flags'] = flags_of(want, raw)
        note(res, model, text)
        for mech, msg in imatch.match_instr(instr, want, comps):
            res.violate(mech, msg, case)
        for mech, msg in lines(instr, [text], res):
            res.violate(mech, msg, case)
        if n % 4 == 0:
            only_parameters(text, model, res, case)
        if n % 6 == 0:
            via_file(text, want, comps, raw, reg, r, res)


def lines(instr, texts, res):
    """where every block of C code starts"""
    for name in ('declare', 'user', 'initialize', 'save', 'final'):
        res.count('block_lines', len(getattr(instr, name)))
        yield from imatch.match_lines(f'instrument {name}', getattr(instr, name), texts)
    for i in instr.components:
        res.count('block_lines', len(i.extend))
        yield from imatch.match_lines(f'EXTEND of {i.name}', i.extend, texts)


def note(res, model, text):
    res.case(text, bool(model['instances']), sample=dict(text=text[:1500]))
    for i in model['instances']:
        res.count('instances')
        for k in ('copy', 'split', 'when', 'group', 'extend', 'rot'):
            if i[k] is not None:
                res.count({'copy': 'copies'}.get(k, k))
        res.count('jumps', len(i['jumps']))
        res.count('parameter_values', len(i['params'] or []))
        res.count('repeated', bool(i.get('again')))


def only_parameters(text, model, res, case):
    from mccode_antlr.loader.loader import parse_mccode_instr_parameters
    try:
        pars = parse_mccode_instr_parameters(text)
    except Exception as ex:
        res.violate('parameters-only-rejected', f'{short_tb(ex)}\n{text}', case)
        return
    res.count('parameters_only')
    if [p.name for p in pars] != [p['name'] for p in model['params']]:
        res.violate('parameters-only', f'{[p["name"] for p in model["params"]]} read as {[p.name for p in pars]}', case)
        return
    for p, q in zip(pars, model['params']):
        if (p.unit or None) != (q['unit'] or None):
            res.violate('parameters-only', f'unit {q["unit"]} of {q["name"]} read as {p.unit}', case)
        for mech, msg in imatch.match_default('parameters', p.value, q):
            res.violate('parameters-only-' + mech, msg, case)


def via_file(text, want, comps, raw, reg, r, res):
    """the same text as a file, through Reader.get_instrument"""
    import tempfile
    from pathlib import Path
    from mccode_antlr.reader import Reader
    with tempfile.TemporaryDirectory() as d:
        f = Path(d) / 'file.instr'
        f.write_bytes(text.encode())
        case = dict(text=text, library=dict(reg.components))
        try:
            instr = Reader(registries=[reg]).get_instrument(f)
        except Exception as ex:
            res.violate('file-rejected', f'{short_tb(ex)}\n{text}', case)
            return
        if '\r' in text:  # universal newlines
            return
        res.count('via_file')
        if Path(instr.source).name != 'file.instr':
            res.violate('file-source', f'source of file.instr is {instr.source}', case)
        for mech, msg in imatch.match_instr(instr, want, comps):
            res.violate('file-' + mech, msg, case)


def included(r, raw, comps, reg, res):
    """TRACE %include of another instrument: its instances (not the removable ones), parameters, sections and metadata join in"""
    import tempfile
    from pathlib import Path
    from mccode_antlr.loader.loader import parse_mccode_instr
    inner = M.gen_instr(r, comps, name='inner', n_inst=r.randint(1, 4), features=dict(special_name=0, jump=0, copy=0.1))
    for n, i in enumerate(inner['instances']):
        i['name'] = f'inner_{i["name"]}'
        # references inside the included file refer by name to what it contains
        for key in ('at_ref', 'rot_ref', 'copy'):
            ref = i[key]
            if ref and ref['form'] == 'name':
                ref['to'] = f'inner_{ref["to"]}'
    # removable instances are left out of an included instrument: nothing in it can refer to them
    here = inner['instances']
    for n, i in enumerate(here):
        for key in ('at_ref', 'rot_ref', 'copy'):
            ref = i[key]
            if not ref or ref['form'] not in ('name', 'PREVIOUS'):
                continue
            t = M.target(here[:n], ref)
            if here[t]['removable']:
                i[key] = None if key == 'copy' else dict(form='ABSOLUTE')
            elif ref['form'] == 'PREVIOUS':
                i[key] = dict(form='name', to=here[t]['name'])
    outer = M.gen_instr(r, comps, n_inst=r.randint(1, 5), features=dict(special_name=0))
    gone = {i['name'] for i in inner['instances'] if i['removable']}
    at = r.randint(0, len(outer['instances']) - 1)
    kept = [i for i in inner['instances'] if not i['removable']]
    # PREVIOUS after the include counts the included instances too (those which are not removable)
    for n, i in enumerate(outer['instances'][at:]):
        for key in ('at_ref', 'rot_ref', 'copy'):
            ref = i[key]
            if not ref or ref['form'] != 'PREVIOUS':
                continue
            if key == 'copy':
                if (ref['by'] or 1) > n:  # what it copies is before the included ones
                    i['copy'] = dict(form='PREVIOUS', by=(ref['by'] or 1) + len(kept))
            else:
                i[key] = dict(form='PREVIOUS', by=r.randint(1, at + len(kept) + n))
                res.count('counted_over', i[key]['by'] > n)
    if kept and at < len(outer['instances']) and r.random() < 0.5:
        # refer to an included component
        outer['instances'][at]['at_ref'] = dict(form='name', to=r.choice(kept)['name'])
    with tempfile.TemporaryDirectory() as d:
        f = Path(d) / 'inner_file.instr'
        written, crossing = counting_back(r, inner, outer, at, res)
        inner_text = M.instr_text(written, r).replace('\r\n', '\n')
        f.write_text(inner_text)
        outer['include'] = dict(at=at, path=str(f))
        text = M.instr_text(outer, r)
        case = dict(text=text, inner=inner_text, library=dict(reg.components))
        for x in (inner, outer):
            # types follow when a copy was taken away
            pass
        try:
            instr = parse_mccode_instr(text, [reg])
        except Exception as ex:
            res.violate('include-rejected:' + type(ex).__name__, f'{short_tb(ex)}\n--- outer\n{text}\n--- inner\n{inner_text}', case)
            return
    win = M.resolve_instr(inner, comps)
    for n, key, name in crossing:
        x = win['instances'][n]
        x[key] = name
        if key == 'at_ref' and inner['instances'][n]['rot'] is None:
            x['rot_ref'] = name
    for m in [win, *win['instances']]:
        for x in m['metadata']:
            x['value'] = x['value'].replace('\r\n', '\n')
    full = M.gen_merge(outer, win, comps, at)
    full['comp_flags'] = flags_of(dict(instances=full['instances']), raw) + ([inner['dependency']] if inner['dependency'] is not None else [])
    res.count('included')
    note(res, outer, text)
    for mech, msg in imatch.match_instr(instr, full, comps):
        if mech == 'metadata-source':
            continue
        res.violate('include-' + mech, msg + f'\n--- outer\n{text}\n--- inner\n{inner_text}', case)
    for mech, msg in lines(instr, [text, inner_text], res):
        res.violate('include-' + mech, msg + f'\n--- outer\n{text}\n--- inner\n{inner_text}', case)


def counting_back(r, inner, outer, at, res):
    """the same included instrument with references counted by PREVIOUS, some of which reach the instances before the include"""
    out = copy.deepcopy(inner)
    here = out['instances']
    if any(i['removable'] for i in here):
        return out, []  # whether these count is not settled
    outside = M.resolve_names(outer['instances'])[:at]
    crossing = []
    for n, i in enumerate(here):
        for key in ('at_ref', 'rot_ref', 'copy'):
            ref = i[key]
            if ref and ref['form'] == 'name' and r.random() < .6:
                i[key] = dict(form='PREVIOUS', by=n - M.target(here[:n], ref))
                res.count('counted_inside')
            elif ref and key != 'copy' and outside and r.random() < .3 and (key != 'rot_ref' or i['rot'] is not None):
                back = r.randint(1, at)
                name = outside[at - back]['name']
                i[key] = dict(form='PREVIOUS', by=n + back) if r.random() < .7 else dict(form='name', to=name)
                crossing.append((n, key, name))
                res.count('counted_outside')
    return out, crossing


PROBES = {}
