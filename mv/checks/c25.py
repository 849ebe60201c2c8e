"""C25: instruments built through the API equal the same instrument parsed."""
from __future__ import annotations
import difflib, re
from ..core import Result, rng, short_tb
from ..lib import imodel as M, imatch, iapi, prog as G, progrun as R
from .c06 import body
from .c24 import first_difference

RULE = ('random instruments are stated twice: as text, and call by call through the Assembler (parameters as text, pairs, tuples or dictionaries; numbers, strings or expressions for values and positions; references as names, instances or '
        'ABSOLUTE; modifiers as constructor keywords or methods; arrays through declare_array; user variables through ensure_user_var). The assembled instrument is compared part by part with what was stated, and its text, flags and generated C '
        '(without Date and positions in the text) with those of the parsed instrument; distinct = instruments, non-trivial = at least two instances')
ASSUMPTIONS = ['a rotation without a reference, next to a relative position, is not judged', 'the leading comment of the text (source, registries) and positions in #line directives differ', 'the name of the source file in the header of the C differs']
MINIMUM = {'quick': dict(evaluations=600, distinct=580, instances=2000, c_compared=300), 'thorough': dict(evaluations=15000, distinct=14000, instances=60000, c_compared=8000)}
EMPHASIS = dict(include=.3, n_comp=(2, 5), n_inst=(2, 8), metadata=.4, group=.4)


def chunks(tier, seed):
    n, per = (40, 16) if tier == 'quick' else (400, 40)
    return [dict(seed=seed, n=i, per=per) for i in range(n)]


def normal(c):
    c = re.sub(r'^\s*\* Date: .*$', ' * Date:', c, flags=re.M)
    c = re.sub(r'^\s*#line .*\n?', '', c, flags=re.M)
    c = re.sub(r'\n\s*\n+', '\n', c).replace('(0.0)*DEG2RAD', '(0)*DEG2RAD').replace('(0.0, 0.0, 0.0)', '(0, 0, 0)')
    return re.sub(r'\[(<string>|None)?:-?\d+\]', '[]', c)


def words(instr):
    t = re.sub(r'\n\s*\n+', '\n', body(str(instr)))
    return t.replace('%{\n', '%{').replace('\n%}', '%}').replace('/""', '').replace('(0.0, 0.0, 0.0)', '(0, 0, 0)')


def run(desc, res: Result):
    r = rng('c25', desc['seed'], desc['n'])
    for n in range(desc['per']):
        neutron = r.random() < .8
        p = G.gen(r, EMPHASIS, neutron)
        for k, m in enumerate(p.raw):
            if r.random() < .3:
                m['dependency'] = r.choice([f'-DA{k}', f'-DA{k} -lm', '-lm'])
        if r.random() < .3:
            p.model['dependency'] = r.choice(['-DINSTR', '-lm'])
        if r.random() < .4:
            p.model['sections']['declare'] += f'\ndouble api_arr[] = {{{",".join(r.choice(["1", "2.5", "-3", "1e-07", "16777217", "0.1234567890123", "100000.25", "-1e+22"]) for _ in range(r.randint(1, 4)))}}};'
        p.comps = M.resolve_comps(p.raw)
        p.want = M.resolve_instr(p.model, p.comps)
        tx = R.Texts(p, r)
        case = dict(instr=tx.instr, comps=tx.comps)
        try:
            try:
                parsed = tx.parse()
            except R.Broken:  # C04 decides this
                res.count('unparsed')
                continue
            calls = []
            try:
                built = iapi.build(p.want, p.model['instances'], tx.registries(), r, calls=calls, pieces=True).instrument
            except Exception as ex:
                case['calls'] = calls
                res.case(tx.instr + ''.join(tx.comps.values()), True, None)
                res.violate('assembly:' + type(ex).__name__, f'the instrument can not be assembled: {short_tb(ex, 4)}\n' + '\n'.join(calls) + '\n' + tx.instr, case)
                continue
            case['calls'] = calls
            res.case(tx.instr + ''.join(tx.comps.values()), len(p.want['instances']) > 1, dict(instr=tx.instr[:1200], calls=calls[:20]))
            res.count('instances', len(p.want['instances']))
            res.count('calls', len(calls))
            built.determine_groups()
            built.source = parsed.source
            found = list(imatch.match_instr(built, p.want, p.comps, check_flags=False, joined=True))
            for mech, msg in found[:2]:
                res.violate('content:' + mech, msg + '\n' + '\n'.join(calls), case)
            if found:
                continue
            try:
                a, b = words(parsed), words(built)
            except Exception as ex:
                res.violate('text:' + type(ex).__name__, short_tb(ex, 4) + '\n' + '\n'.join(calls), case)
                continue
            if a != b:
                res.violate('text', f'text of the assembled (+) and the parsed (-) instrument:\n{first_difference(a, b)}\n' + '\n'.join(calls), case)
                continue
            if parsed.decoded_flags() != built.decoded_flags():
                res.violate('flags', f'flags of the assembled instrument are {built.decoded_flags()}, of the parsed {parsed.decoded_flags()}\n' + '\n'.join(calls), case)
            if n % 2:
                continue
            try:
                ca, cb = normal(R.translate(parsed, neutron)), normal(R.translate(built, neutron))
            except R.Broken as ex:
                res.violate(ex.mech, f'{ex}\n' + '\n'.join(calls), case)
                continue
            res.count('c_compared')
            if ca != cb:
                res.violate('c', f'generated C of the assembled (+) and the parsed (-) instrument:\n{first_difference(ca, cb)}\n' + '\n'.join(calls), case)
        finally:
            tx.close()
