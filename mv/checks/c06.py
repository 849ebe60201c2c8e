"""C06: instrument text written by the library reads back as the same instrument."""
from __future__ import annotations
import re
from ..core import Result, rng, short_tb
from ..lib import imodel as M, imatch, iapi
from ..lib.snap import describe, differ, snapshot
from .c04 import library, registry

RULE = ('random instruments, read from text, assembled through the API, included, copied or split, are written with Instr.to_file / str() and the text '
        'is parsed again with the same components; every part of the result is compared with the instrument written, and the second text with the first; '
        'distinct = instrument texts written, non-trivial = at least one instance')
ASSUMPTIONS = ['the leading comment (source file, registries) is not part of the instrument', 'blocks of one section are compared joined, flags as the set of words']
MINIMUM = {'quick': dict(evaluations=700, distinct=600, instances=2500, api=60, split=60),
           'thorough': dict(evaluations=12000, distinct=10000, instances=40000)}


def chunks(tier, seed):
    n, per = (64, 14) if tier == 'quick' else (400, 50)
    return [dict(seed=seed, n=i, per=per) for i in range(n)]


def body(text):
    """the text without its leading comment"""
    return text[text.index('*/') + 2:] if '*/' in text and text.lstrip().startswith('/*') else text


def run(desc, res: Result):
    from mccode_antlr.loader.loader import parse_mccode_instr
    r = rng('c06', desc['seed'], desc['n'])
    raw, comps = library(r)
    reg = registry(raw, r)
    for n in range(desc['per']):
        model = M.gen_instr(r, comps)
        text = M.instr_text(model, r)
        try:
            instr = parse_mccode_instr(text, [reg])
        except Exception as ex:  # C04 decides this
            res.count('unparsed')
            continue
        how = 'parsed'
        if n % 4 == 1:
            how = 'api'
            try:
                instr = iapi.build(M.resolve_instr(model, comps), model['instances'], reg, r).instrument
            except Exception as ex:  # C25 decides this
                res.count('unbuilt')
                continue
        elif n % 4 == 2 and len(instr.components) > 1:
            how = 'split'
            try:
                instr = r.choice(instr.split(r.choice(instr.components).name))
            except Exception as ex:  # C17 decides this
                res.count('unsplit')
                continue
        elif n % 8 == 3:
            how = 'copy'
            instr = instr.copy()
        res.count(how)
        check(instr, reg, res, how, dict(text=text, library=dict(reg.components)))


def norm(d):
    """expressions in the form reading gives them"""
    def e(t):
        if t is None:
            return t
        try:
            return repr(float(t))
        except ValueError:
            return imatch.canon(t)
    for p in d['params']:
        p['unit'] = p['unit'] or None
        p['default'] = None if p['default'] == 'None' else e(p['default'])
    for i in d['components']:
        i['params'] = {k: e(v) for k, v in sorted(i['params'].items())}
        for k in ('split', 'when'):
            i[k] = e(i[k])
        for k in ('at', 'rot'):
            i[k]['v'] = [e(x) for x in i[k]['v']]
        for j in i['jumps']:
            j['cond'] = e(j['cond'])
    return d


def check(instr, reg, res, how, case):
    from mccode_antlr.loader.loader import parse_mccode_instr
    res.count('instances', len(instr.components))
    before = norm(describe(instr))
    try:
        one = str(instr)
    except Exception as ex:
        res.violate('write-failed', f'{how}: {short_tb(ex)}', case)
        return
    case = dict(case, written=one)
    res.case(one, bool(instr.components), sample=dict(how=how, text=one[:1200]))
    try:
        again = parse_mccode_instr(one, [reg])
    except Exception as ex:
        res.violate('unreadable:' + type(ex).__name__, f'{how}: the text written can not be read: {short_tb(ex)}\n{one}', case)
        return
    after = norm(describe(again))
    d = differ(before, after)
    if d:
        part = re.sub(r'\[\d+\]', '', d.split(':')[0]).strip('.')
        res.violate(f'changed:{part}', f'{how}: written / re-read {d}\n{one}', case)
        return
    two = str(again)
    if body(one) != body(two):
        k = next((n for n, (x, y) in enumerate(zip(body(one), body(two))) if x != y), -1)
        res.violate('second-text', f'{how}: writing the re-read instrument gives other text: {body(one)[max(0, k - 60):k + 60]!r} / {body(two)[max(0, k - 60):k + 60]!r}', case)
        return
    res.count('rewritten')


PROBES = {}
