"""C28: a wrong instrument is refused, by name, and never silently read as something else."""
from __future__ import annotations
import copy, shutil, tempfile
from pathlib import Path
from ..core import Result, rng, short_tb
from ..lib import imodel as M, snap
from ..lib.progrun import translate, Broken, runtime_registry

RULE = ('a valid random library and instrument must be read and translated; then one fault is made in it (an unknown, near or repeated name, a reference '
        'before the first component, a jump out of range, an impossible value, a missing file, …) and reading or translating it must raise an exception '
        'which contains the name at fault; refused steps of an assembly must leave the instrument as it was; distinct = faulty texts or calls')
ASSUMPTIONS = ['errors of syntax are out of scope (they are reported by the generated parser and the text is read as far as it goes)',
               'a component parameter without value or default is zero, and a parameter given twice keeps its first value: the library documents both',
               'which exception is raised is not prescribed, only that its message names what is wrong']
MINIMUM = {'quick': dict(evaluations=2000, distinct=1500, accepted=150, read_faults=1000, translate_faults=150, api_faults=300),
           'thorough': dict(evaluations=25000, distinct=20000, accepted=1500)}


def chunks(tier, seed):
    n, per = (48, 6) if tier == 'quick' else (240, 30)
    return [dict(seed=seed, n=i, per=per) for i in range(n)]


# ---------------------------------------------------------------- valid instruments

PLAIN = dict(share='/* shared {u} */', declare='double {u};', user='int {u};')


def tame(sections, u, r):
    """sections which any translator can work with"""
    for s, x in sections.items():
        text = PLAIN.get(s, '/* {u} */').format(u=f'{s}_{u}')
        if isinstance(x, str):
            sections[s] = text
        elif 'copy' in x:
            x['extend'] = None
        else:
            x['text'] = text


def valid(r):
    raw = [dict(name='Arm', copy=None, noacc=False, category=None, define=[], setting=[], output=[], metadata=[], dependency=None, sections={})]
    for x in range(r.choice([3, 5])):
        c = M.gen_comp(r, M.ident(r, 'Type', x), raw)
        tame(c['sections'], c['name'], r)
        c['dependency'] = None
        raw.append(c)
    comps = M.resolve_comps(raw)
    m = M.gen_instr(r, comps, n_inst=r.randint(2, 7), features=dict(jump=0))
    m['dependency'] = None
    tame(m['sections'], 'instr', r)
    for n, i in enumerate(m['instances']):
        if i['extend'] is not None:
            i['extend'] = f'/* extend {n} */'
    named = [x['name'] for x in M.resolve_names(m['instances'])]
    copied = {M.target(M.resolve_names(m['instances'][:n]), i['copy']) for n, i in enumerate(m['instances']) if i['copy']}
    for n, i in enumerate(m['instances']):
        if r.random() < .25:
            forms = [dict(form='name', to=r.choice(named)), dict(form='MYSELF')]
            if n not in copied:
                forms += [dict(form='PREVIOUS', by=r.randint(1, n))] if n else []
                forms += [dict(form='NEXT', by=r.randint(1, len(named) - 1 - n))] if n < len(named) - 1 else []
            i['jumps'] = [dict(r.choice(forms), iterate=r.random() < .5, cond='random > 1')]
    return raw, comps, m


class Place:
    """registries which hold a library"""

    def __init__(self, raw, r, extra=None):
        from mccode_antlr.reader.registry import InMemoryRegistry, LocalRegistry
        self.dir = None
        texts = {m['name']: M.comp_text(m, r) for m in raw}
        texts.update(extra or {})
        self.texts = texts
        if r.random() < .5:
            self.dir = Path(tempfile.mkdtemp(prefix='mv28'))
            for k, v in texts.items():
                (self.dir / f'{k}.comp').write_text(v)
            self.reg = LocalRegistry('mv-lib', str(self.dir))
        else:
            self.reg = InMemoryRegistry('mem')
            for k, v in texts.items():
                self.reg.add_comp(k, v)
        self.all = [self.reg, runtime_registry()]

    def close(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)


def attempt(text, place, full=True):
    """'read', 'translated' or the exception and where it was raised"""
    from mccode_antlr.loader.loader import parse_mccode_instr
    try:
        instr = parse_mccode_instr(text, place.all)
    except Exception as ex:
        return 'read', ex
    if full:
        try:
            translate(instr)
        except Broken as ex:
            return 'translate', ex.__cause__ or ex
    return None, instr


# ---------------------------------------------------------------- faults

def near(r, name, taken):
    """a name which is not taken, but almost"""
    for _ in range(50):
        x = r.choice([name + 'x', name[:-1], name.swapcase(), name.lower(), name.upper(), name + '_1', 'x' + name, name[1:], name + '0', '_' + name,
                      name.replace('_', ''), name + name, 'Missing'])
        if x and x not in taken and (x[0].isalpha() or x[0] == '_') and x.upper() not in M.KEYWORDS and x.upper() not in ('INITIALISE', 'DISPLAY', 'PRIVATE', 'OUTPUT'):
            return x
    return 'mv_' + name + '_missing'


class Case:
    """a valid model which a fault is made in"""

    def __init__(self, r, raw, comps, model):
        self.r, self.raw, self.comps, self.m = r, copy.deepcopy(raw), comps, copy.deepcopy(model)
        self.inst = self.m['instances']
        self.named = [x['name'] for x in M.resolve_names(self.inst)]
        self.extra = {}

    def pick(self, first=0):
        return self.r.randrange(first, len(self.inst))

    def plain(self, n):
        """make the instance n one without copy, so that only what is given counts"""
        self.inst[n]['copy'] = None


def has_type(c):
    n = c.pick()
    c.inst[n]['copy'] = None
    c.inst[n]['params'] = None
    c.inst[n]['type'] = near(c.r, c.r.choice(list(c.comps)), c.comps)
    return [c.inst[n]['type']]


def reference(key):
    def f(c):
        n = c.pick()
        x = c.r.random()
        if x < .15:
            to = c.named[n]  # itself
        elif x < .4 and n < len(c.inst) - 1:
            to = c.r.choice(c.named[n + 1:])  # not there yet
        else:
            to = near(c.r, c.r.choice(c.named), c.named)
        ref = dict(form='name', to=to)
        if to in c.named[:n]:
            return None
        put_ref(c, n, key, ref)
        return [to]
    return f


def too_far(key):
    def f(c):
        n = c.pick()
        by = n + c.r.choice([1, 1, 2, 5, 20])
        put_ref(c, n, key, dict(form='PREVIOUS', by=by if by > 1 or c.r.random() < .5 else None))
        return [str(by)]
    return f


def put_ref(c, n, key, ref):
    if key == 'copy':
        c.inst[n]['copy'] = ref
        c.inst[n]['params'] = None
    else:
        if key == 'rot_ref' and c.inst[n]['rot'] is None:
            c.inst[n]['rot'] = ['0', '90', '0']
        c.inst[n][key] = ref


def same_instance(c):
    if len(c.inst) < 2:
        return None
    j = c.pick(1)
    i = c.r.randrange(j)
    if any(x['nameform'] != 'plain' for x in (c.inst[i], c.inst[j])):
        return None
    name = c.inst[i]['name']
    old = c.inst[j]['name']
    c.inst[j]['name'] = name
    for x in c.inst:
        for k in ('at_ref', 'rot_ref', 'copy'):
            if x[k] and x[k].get('to') == old:
                x[k]['to'] = name
        for t in x['jumps']:
            if t.get('to') == old:
                t['to'] = name
    return [name]


def same_parameter(c):
    if not c.m['params']:
        return None
    p = copy.deepcopy(c.r.choice(c.m['params']))
    kind = c.r.choice([p['kind'], 'int', 'string'])
    if kind != p['kind']:
        p = dict(kind=kind, name=p['name'], unit=None, default=None)
    c.m['params'].insert(c.r.randint(0, len(c.m['params'])), p)
    return [p['name']]


def parameters_of(c, n):
    """the parameters of the type an instance really has"""
    t = M.resolve_instr(c.m, c.comps)['instances'][n]['type']
    return c.comps[t]['define'] + c.comps[t]['setting']


def unknown_parameter(c):
    n = c.pick()
    have = [p['name'] for p in parameters_of(c, n)]
    name = near(c.r, c.r.choice(have + [p['name'] for p in c.m['params']] + ['xwidth']), have)
    c.inst[n]['params'] = list(c.inst[n]['params'] or [])
    c.inst[n]['params'].insert(c.r.randint(0, len(c.inst[n]['params'])), [name, c.r.choice(['1', '{1, 2}', 'NULL', '"text"', 'a', '2*a'])])
    return [name]


def impossible_value(c):
    n = c.pick()
    pars = parameters_of(c, n)
    c.r.shuffle(pars)
    for p in pars:
        if '*' in p['kind'] and p['kind'] != 'char*' or p['kind'] == 'vector':
            bad = ['1', '2.5', '-3']
        elif p['kind'] in ('string', 'char*'):
            bad = ['1', '2.5', '{1, 2}']
        else:
            bad = ['{1, 2}', '{1}']
        c.inst[n]['params'] = [x for x in c.inst[n]['params'] or [] if x[0] != p['name']] + [[p['name'], c.r.choice(bad)]]
        return [p['name']]


def constant_when(c):
    n = c.pick()
    c.inst[n]['when'] = c.r.choice(['0', '1', '27'])
    return [c.inst[n]['when']]


def jump(kind):
    def f(c):
        n = c.pick()
        if kind == 'name':
            t = dict(form='name', to=near(c.r, c.r.choice(c.named), c.named))
            out = [t['to']]
        else:
            more = c.r.choice([1, 1, 2, 7])
            by = n + more if kind == 'PREVIOUS' else len(c.inst) - 1 - n + more
            t = dict(form=kind, by=by if by > 1 or c.r.random() < .5 else None)
            out = [c.named[n]]
        if kind != 'name':
            # it is the same jump, from elsewhere, for a copy
            for x in c.inst[n + 1:]:
                if x['copy']:
                    return None
        c.inst[n]['jumps'].insert(c.r.randint(0, len(c.inst[n]['jumps'])), dict(t, iterate=c.r.random() < .5, cond='random > 1'))
        return out
    return f


def section_copy(c):
    s = c.r.choice(['declare', 'initialize', 'save', 'final'])
    word = dict(declare='DECLARE', initialize='INITIALIZE', save='SAVE', final='FINALLY')[s]
    c.m['sections'].pop(s, None)
    text = M.instr_text(c.m, c.r, plain=True)
    sec = f' {word} COPY {c.r.choice(list(c.comps))} '
    before = {'declare': [' USERVARS %{', ' INITIALIZE %{', ' TRACE '], 'initialize': [' TRACE '], 'save': [' FINALLY %{', ' END'], 'final': [' END']}[s]
    if s in ('declare', 'initialize'):
        at = min(text.find(b) for b in before if b in text)
    else:
        at = max(text.rfind(b) for b in before)
        if s == 'save' and before[0] in text:
            at = text.rfind(before[0])
    c.text = text[:at] + sec + text[at:]
    return [word]


def missing_include(c):
    name = near(c.r, 'mv-missing-lib', ())
    name = c.r.choice([name, name, name + '.h'])
    stem = name[:-2] if name.endswith('.h') else name
    block = c.r.choice(['', '\n', 'int before;\n']) + f'%include "{name}"\n'
    x = c.r.random()
    if x < .4:
        c.m['sections'][c.r.choice(['declare', 'initialize', 'save', 'final'])] = block
    elif x < .5:
        n = c.pick()
        c.inst[n]['extend'] = block
    else:
        s = c.r.choice(['share', 'declare', 'initialize', 'trace', 'save', 'final', 'display'])
        c.raw.append(dict(name='MissesLib', copy=None, noacc=False, category=None, define=[], setting=[], output=[], metadata=[], dependency=None,
                          sections={s: dict(text=block)}))
        use(c, 'MissesLib')
    return [stem]


def use(c, name):
    n = c.pick()
    for i in c.inst:
        i['copy'] = None
    c.inst[n].update(type=name, params=None)


def wrong_comp(c):
    """a fault in a component definition that is used"""
    r = c.r
    x = r.random()
    d = dict(name='WrongType', copy=None, noacc=False, category=None, define=[], setting=[], output=[], metadata=[], dependency=None, sections={})
    base = r.choice([b for b in c.raw if b['name'] != 'Arm'])
    if x < .25:
        d['copy'] = near(r, base['name'], [b['name'] for b in c.raw])
        names = [d['copy']]
    elif x < .5:
        to = near(r, base['name'], [b['name'] for b in c.raw])
        d['sections'][r.choice([s for s in M.SECTIONS if s != 'user'])] = dict(copy=to, extend=None)
        names = [to]
    elif x < .75:
        have = c.comps[base['name']]['define'] + c.comps[base['name']]['setting']
        if have and r.random() < .5:
            d['copy'] = base['name']
            name = r.choice(have)['name']
            d['setting'] = [dict(kind=r.choice(['bare', 'int']), name=name, default='3')]
        else:
            name = 'twice'
            d[r.choice(['setting', 'define'])] = [dict(kind='bare', name=name, default='1')]
            d['setting'] = d['setting'] + [dict(kind='int', name='between', default='1'), dict(kind='bare', name=name, default='2')]
        names = [name]
    else:
        # a definition that copies itself, maybe around a corner
        way = r.choice(['copy', 'section'])
        other = 'OtherWrong' if r.random() < .6 else 'WrongType'

        def copies(m, to):
            if way == 'copy' or r.random() < .4:
                m['copy'] = to
            else:
                m['sections'][r.choice(['trace', 'declare', 'final'])] = dict(copy=to, extend=None)
        copies(d, other)
        if other != 'WrongType':
            o = dict(d, name=other, copy=None, sections={}, setting=[], define=[])
            copies(o, 'WrongType')
            c.raw.append(o)
        names = ['WrongType', other]
    c.raw.append(d)
    use(c, 'WrongType')
    return names


def missing_instrument(c):
    name = near(c.r, 'mv_missing_part', ()) + c.r.choice(['', '.instr'])
    c.m['include'] = dict(at=c.r.randrange(len(c.inst)), path=name)
    return [name.split('.')[0]]


def user_variables(c):
    u = c.r.choice(['flag', 'mv_u'])
    a, b = c.r.sample(['double {u};', 'int {u};', 'char * {u};', 'double {u}[3];', 'double {u}[4];'], 2)
    text = (a + ' ' + b).format(u=u)
    if c.r.random() < .6:
        c.m['sections']['user'] = text
        return [c.m['name']]
    c.raw.append(dict(name='TwoFlags', copy=None, noacc=False, category=None, define=[], setting=[], output=[], metadata=[], dependency=None,
                      sections=dict(user=dict(text=text))))
    use(c, 'TwoFlags')
    return ['TwoFlags']


def clashing(c):
    """the numbered user variable of an instance is also one of the instrument, of another type"""
    n = c.pick()
    a, b = c.r.sample(['double {u};', 'int {u};', 'char * {u};', 'double {u}[3];', 'double {u}[4];'], 2)
    c.raw.append(dict(name='OwnFlag', copy=None, noacc=False, category=None, define=[], setting=[], output=[], metadata=[], dependency=None,
                      sections=dict(user=dict(text=a.format(u='mv_u')))))
    for i in c.inst:
        i['copy'] = None
    c.inst[n].update(type='OwnFlag', params=None)
    c.m['sections']['user'] = (c.r.choice(['', 'int other; ']) + b + c.r.choice(['', ' double last;'])).format(u=f'mv_u_{n + 1}')
    return ['OwnFlag']


def search(c):
    c.head = c.r.choice(['SEARCH "/mv-missing-directory"', 'SEARCH SHELL "echo /mv-missing-directory"'])
    return ['mv-missing-directory']


def command(c):
    k = c.r.randint(3, 9)
    c.head = c.r.choice([f'SEARCH SHELL "exit {k}"', f'SHELL "exit {k}"'])
    return [f'exit {k}']


def previous_value(c):
    """PREVIOUS as a value, where nothing is before"""
    c.raw.append(dict(name='Named', copy=None, noacc=False, category=None, define=[], setting=[dict(kind='string', name='label', default='"x"')],
                      output=[], metadata=[], dependency=None, sections={}))
    c.inst[0].update(type='Named', copy=None, params=[['label', 'PREVIOUS']])
    return ['PREVIOUS']


FAULTS = dict(component_type=has_type, at_name=reference('at_ref'), rotated_name=reference('rot_ref'), copy_name=reference('copy'),
              at_previous=too_far('at_ref'), rotated_previous=too_far('rot_ref'), copy_previous=too_far('copy'), same_instance=same_instance,
              same_parameter=same_parameter, unknown_parameter=unknown_parameter, impossible_value=impossible_value, constant_when=constant_when,
              jump_name=jump('name'), jump_next=jump('NEXT'), jump_previous=jump('PREVIOUS'), section_copy=section_copy, missing_include=missing_include,
              wrong_comp=wrong_comp, missing_instrument=missing_instrument, user_variables=user_variables, clashing=clashing, search=search, command=command,
              previous_value=previous_value)


# ---------------------------------------------------------------- running

def run(desc, res: Result):
    r = rng('c28', desc['seed'], desc['n'])
    for n in range(desc['per']):
        raw, comps, model = valid(r)
        text = M.instr_text(model, r)
        place = Place(raw, r)
        try:
            where, ex = attempt(text, place)
            if where:
                res.violate(f'valid-refused:{where}', f'valid instrument refused ({where}): {short_tb(ex)}\n{text}', dict(text=text, library=place.texts))
                continue
            res.count('accepted')
            only_parameters(r, model, res)
        finally:
            place.close()
        kinds = list(FAULTS)
        r.shuffle(kinds)
        for kind in kinds[:10] + ['at_name', 'wrong_comp']:
            written(r, kind, raw, comps, model, res)
        for _ in range(2):
            assembled(r, raw, comps, model, res)


def written(r, kind, raw, comps, model, res):
    c = Case(r, raw, comps, model)
    c.text = c.head = None
    names = FAULTS[kind](c)
    if names is None:
        return
    text = c.text or M.instr_text(c.m, r)
    if c.head:
        at = min(text.index(w) for w in TRACE_WORDS if w in text)
        plain = M.instr_text(dict(c.m, metadata=[], sections={}), r, plain=True)
        at = plain.index(' TRACE ')
        text = plain[:at] + ' ' + c.head + plain[at:]
    place = Place(c.raw, r)
    try:
        where, ex = attempt(text, place)
    except RecursionError as e:
        where, ex = 'read', e
    finally:
        place.close()
    case = dict(kind=kind, names=names, text=text, library=place.texts)
    res.case(text, sample=dict(kind=kind, names=names, refused=None if where is None else str(ex)[:200]))
    res.count('kind_' + kind)
    if where is None:
        res.violate(f'accepted:{kind}', f'{kind} {names}: the instrument was read and translated without complaint:\n{text}', case)
        return
    res.count(where + '_faults')
    if not any(x in str(ex) for x in names) and not any(x in str(getattr(ex, 'cmd', '')) for x in names):
        res.violate(f'unnamed:{kind}', f'{kind}: refused without naming any of {names}: {short_tb(ex)}\n{text}', case)


TRACE_WORDS = M.KEYWORDS['TRACE']


def only_parameters(r, model, res):
    """the reader of nothing but the parameters refuses repeated ones too"""
    from mccode_antlr.loader.loader import parse_mccode_instr_parameters
    c = Case(r, [], {}, model)
    names = same_parameter(c)
    if not names:
        return
    text = M.instr_text(c.m, r)
    res.case('parameters ' + text)
    try:
        got = parse_mccode_instr_parameters(text)
    except Exception as ex:
        if names[0] not in str(ex):
            res.violate('unnamed:parameters-only', f'refused without naming {names}: {short_tb(ex)}\n{text}', dict(text=text))
        return
    res.violate('accepted:parameters-only', f'{names} repeated, read as {[p.name for p in got]}\n{text}', dict(text=text))


def assembled(r, raw, comps, model, res):
    """steps of an assembly which must be refused, and leave no trace"""
    from mccode_antlr.assembler import Assembler
    from mccode_antlr.common import InstrumentParameter
    from mccode_antlr.loader import load_mcstas_instr
    place = Place(raw, r)
    try:
        a = Assembler('assembled', registries=place.all)
        pars = ['double p1 = 3', 'int p2', 'string p3 = "x"']
        for p in pars:
            a.parameter(p)
        types = [n for n in comps]
        names = []
        done = []
        for k in range(r.randint(1, 4)):
            name = M.ident(r, r.choice(['arm', 'det']), k)
            t = r.choice(types)
            done.append(a.component(name, t, at=((0, 0, k), r.choice(names) if names and r.random() < .5 else 'ABSOLUTE')))
            names.append(name)
        fine = r.choice(types)
        typed = lambda i: comps[i.type.name]['define'] + comps[i.type.name]['setting']
        last = r.choice(done)
        wrong = near(r, r.choice([p['name'] for p in typed(last)] or ['xwidth']), [p['name'] for p in typed(last)])
        ghost = near(r, r.choice(names), names)
        odd = near(r, r.choice(types), types)
        fine_wrong = near(r, r.choice([p['name'] for p in comps[fine]['define'] + comps[fine]['setting']] or ['xwidth']),
                          [p['name'] for p in comps[fine]['define'] + comps[fine]['setting']])
        gone = f'/mv-missing/{ghost}.instr'
        steps = dict(same_name=(lambda: a.component(r.choice(names), fine), names),
                     type=(lambda: a.component('fresh', odd), [odd]),
                     parameters=(lambda: a.component('fresh', fine, parameters={fine_wrong: 1}), [fine_wrong]),
                     set_parameter=(lambda: last.set_parameter(wrong, 1), [wrong]),
                     set_parameters=(lambda: last.set_parameters(**{wrong: 1}), [wrong]),
                     at=(lambda: a.component('fresh', fine, at=((0, 0, 1), ghost)), [ghost]),
                     rotate=(lambda: a.component('fresh', fine, at=((0, 0, 1), r.choice(names)), rotate=((0, 9, 0), ghost)), [ghost]),
                     two=(lambda: a.component('fresh', fine, at=((0, 1), r.choice(names))), ['three']),
                     parameter=(lambda: a.parameter(r.choice(['p1', 'int p1 = 2', InstrumentParameter.parse('string p1')])), ['p1']),
                     pairs=(lambda: a.parameters(p2=3), ['p2']),
                     get=(lambda: a.instrument.get_component(ghost), [ghost]),
                     when=(lambda: last.WHEN('1'), ['1']),
                     split=(lambda: a.instrument.split(ghost), [ghost]),
                     mcpl_split=(lambda: a.instrument.mcpl_split(ghost), [ghost]),
                     file=(lambda: load_mcstas_instr(gone), [ghost]))
        for p in typed(last):
            if p['kind'] in ('vector', 'int*', 'double*') and not any(q.name == p['name'] for q in last.parameters):
                steps['vector'] = (lambda p=p: last.set_parameter(p['name'], 3), [p['name']])
            elif p['kind'] == 'string' and not any(q.name == p['name'] for q in last.parameters):
                steps['string'] = (lambda p=p: last.set_parameter(p['name'], 3), [p['name']])
        for kind in r.sample(list(steps), 6):
            call, said = steps[kind]
            before = snap.snapshot(a.instrument)
            case = dict(kind=kind, names=said, have=names, types=types, ghost=ghost, odd=odd, wrong=wrong, fine=fine, fine_wrong=fine_wrong, library=place.texts)
            res.case(f'{kind} {said} {names} {types}', sample=dict(step=kind, names=said))
            res.count('kind_api_' + kind)
            res.count('api_faults')
            try:
                call()
            except Exception as ex:
                if not any(x in str(ex) for x in said):
                    res.violate(f'unnamed:api-{kind}', f'step {kind} refused without naming any of {said}: {short_tb(ex)}', case)
            else:
                res.violate(f'accepted:api-{kind}', f'step {kind} {said} accepted, instrument has {names} of {types}', case)
            d = snap.differ(before, snap.snapshot(a.instrument))
            if d:
                res.violate(f'trace-left:api-{kind}', f'step {kind} was refused, but changed the instrument: {d}', case)
                return
    finally:
        place.close()


PROBES = {}
