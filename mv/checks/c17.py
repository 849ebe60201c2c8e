"""C17: splitting and sub-copying an instrument loses nothing."""
from __future__ import annotations
import copy, re
from ..core import Result, rng, short_tb
from ..lib import imodel as M, prog as G, progrun as R, snap
from .c18 import deep, change

RULE = ('random instruments are split at a component (by name or instance, with and without removal of unused parameters), split for MCPL with random components, parameters and file names, and copied in part. (A) A picture of every part - instances in order with type, '
        'values, modifiers, metadata, what they are relative to (which must be the instance of the same part), sections, flags, groups, parameters - is compared with the one of the original, and the original with its picture from before; parts are written and read again. '
        '(B) parts are translated, compiled and run: placements must be those of the same components in the original, rays, sections and values those of the reference interpreter on the truncated model; '
        'distinct = instrument with the cut, non-trivial = the part has at least one instance and one reference, group or modifier')
ASSUMPTIONS = ['a part whose JUMP leaves it is not translated', 'an instance whose reference is outside of the part is placed absolutely', 'a parameter counts as used when its name occurs as an identifier in an expression or code block, and as unused when its '
               'characters occur nowhere in the text of the instances and sections (between the two nothing is decided)', 'the MCPL component takes name and placement of the component at the split and nothing else']
MINIMUM = {'quick': dict(evaluations=450, distinct=440, parts=1800, executed=120, executed_mcpl=25, relative_outside=200, relative_inside=300, grouped=100, removed=80, kept=300, reread=200),
           'thorough': dict(evaluations=9000, distinct=8500, parts=36000, executed=2500, executed_mcpl=500, removed=2000)}
EMPHASIS = dict(include=.2, n_comp=(2, 4), n_inst=(2, 9), metadata=.4, group=.5, jump=.25, split=.25, copy=.3, rotated=.7, ownuv=0, asks=0)  # (a part numbers its components anew)
SECTIONS = ('declare', 'user', 'initialize', 'save', 'final')
MVOUT = 'DEFINE COMPONENT Mvout SETTING PARAMETERS (string filename=0, int verbose=1, double level=2.5) {dep}INITIALIZE %{{ {log} %}} TRACE %{{ %}} END\n'


def chunks(tier, seed):
    n, per = (48, 7) if tier == 'quick' else (360, 28)
    return [dict(seed=seed, n=i, per=per) for i in range(n)]


def special(name, dep):
    ops = [('sec', 'init', name, [('filename', 'string'), ('verbose', 'int'), ('level', 'double')], [])]
    text = ' '.join(G.op_c(o, {}) for o in ops)
    return MVOUT.replace('Mvout', name).format(dep=f'DEPENDENCY "{dep}" ' if dep else '', log=text), text, ops


def program(r):
    neutron = r.random() < .8
    p = G.gen(r, EMPHASIS, neutron)
    # parameters nobody uses, or only one place does
    for k in range(r.choice([0, 1, 2])):
        kind = r.choice(['double', 'double', 'int', 'int', 'string'])
        name = f'spare{k}' if r.random() < .7 else f'q{k}_w'
        p.model['params'].append(dict(kind=kind, name=name, unit=None, default={'double': '1.5', 'int': '2', 'string': '"s"'}[kind]))
        p.kinds[name] = {'double': 'd', 'int': 'i', 'string': 's'}[kind]
        if r.random() < .7:
            mention(p, r, name, p.kinds[name])
    for k, m in enumerate(p.raw):
        if r.random() < .2:
            m['dependency'] = f'-DA{k}'
    if r.random() < .3:
        p.model['dependency'] = '-DINSTR'
    p.comps = M.resolve_comps(p.raw)
    p.want = M.resolve_instr(p.model, p.comps)
    if not G.sound(p):
        return program(r)
    tx = R.Texts(p, r)
    p.mv = {n: special(n, r.choice([None, f'-D{n.upper()}'])) for n in ('Mvout', 'Mvin')}
    tx.comps.update({n: t[0] for n, t in p.mv.items()})
    return p, tx, neutron


def mention(p, r, name, kind):
    """use a parameter in one place only"""
    x = r.choice(p.model['instances'])
    hopping = [i for i in p.model['instances'] if any(j['iterate'] for j in i['jumps'])]
    if hopping and kind == 'i' and r.random() < .6:
        for j in r.choice(hopping)['jumps']:
            if j['iterate']:
                j['cond'] = G.p_text(r, p, ('bin', 'i', '+', ('paren', 'i', p.trees[j['cond']]), ('bin', 'i', '%', v_of(kind, name), ('lit', 'i', '1'))))
        return
    where = r.choice(['at', 'rot', 'param', 'when', 'extend', 'section', 'split'])
    v, lit = ('var', kind, name), ('lit', 'd', '2.5') if kind == 'd' else ('lit', 'i', '2')
    tree = lambda t: ('paren', kind, p.trees[t]) if p.trees[t][0] != 'lit' else p.trees[t]
    if where == 'section' or kind == 's':
        s = p.model['sections']
        k = r.choice([k for k in s if isinstance(s[k], str)])
        s[k] += f'\n/* {name} */\n'
    elif where in ('at', 'rot') and x[where] and kind == 'd':
        k = r.randrange(3)
        x[where][k] = G.p_text(r, p, ('bin', 'd', r.choice('+-'), tree(x[where][k]), v))
    elif where == 'param' and x['params']:
        for par in x['params']:
            t = dict((a, b) for a, b, _ in p.types[x['type']]['setting'])[par[0]]
            if t == {'d': 'double', 'i': 'int'}[kind]:
                par[1] = G.p_text(r, p, ('bin', kind, '*', tree(par[1]), v))
                break
    elif where == 'when' and x['when']:
        x['when'] = G.p_text(r, p, ('bin', 'i', '&&', ('bin', 'i', '>', v, lit), tree(x['when'])))
    elif where == 'extend' and x['extend']:
        p.ops[x['extend'] + f'/* {name} */\n'] = p.ops[x['extend']]
        x['extend'] += f'/* {name} */\n'
    elif where == 'split' and p.trees.get(x['split'], ('next',)) != ('next',) and kind == 'i':
        x['split'] = G.p_text(r, p, ('bin', 'i', '+', tree(x['split']), ('bin', 'i', '-', v, v)))


def v_of(kind, name):
    return ('var', kind, name)


# ---------------------------------------------------------------- A: what a part says

def tokens(instr, part):
    """(identifiers in expressions and code of the part, all text of the original that could mention a parameter)"""
    from .c18 import expressions_own
    words = set()
    for i in part.components:
        for e in [*i.at_relative[0], *i.rotate_relative[0]]:
            words |= set(re.findall(r'[A-Za-z_]\w*', str(e)))
        words |= {w for x in i.extend for w in re.findall(r'[A-Za-z_]\w*', x.source)}
    for e in expressions_own(part):
        if not e.is_str:
            words |= set(re.findall(r'[A-Za-z_]\w*', re.sub(r'"(\\.|[^"\\])*"', ' ', str(e))))
    code = '\n'.join(x.source for s in SECTIONS for x in getattr(instr, s))
    words |= set(re.findall(r'[A-Za-z_]\w*', code))
    text = code + '\n'.join(str(i) for i in instr.components) + '\n'.join(str(e) for i in instr.components for e in (*i.orientation.position(), *i.orientation.angles()))
    return words, text


def part_differs(instr, part, lo, hi, name, remove, res, mcpl=None, extra=()):
    """first difference between a part and the range [lo, hi) of the original: (mechanism, message) or None.  mcpl: (index in part, type name, parameters)"""
    a, b = snap.describe(instr), snap.describe(part)
    want = a['components'][lo:hi]
    names = [x['name'] for x in want]
    if b['name'] != name:
        return 'name', f'the part is named {b["name"]}, expected {name}'
    if [x['name'] for x in b['components']] != names:
        return 'components', f'the part holds {[x["name"] for x in b["components"]]}, expected {names}'
    for k, (x, y, own) in enumerate(zip(want, b['components'], part.components)):
        orig = instr.components[lo + k]
        if mcpl and k == mcpl[0]:
            x = dict(x, type=mcpl[1], params=mcpl[2], split=None, when=None, group=None, extend='', removable=False, cpu=False, jumps=[], metadata=[])
        if own.type.name == orig.type.name and own.type is not orig.type and own.type != orig.type:
            return 'type', f'{own.name} has another component type than in the original'
        for key in x:
            if key in ('at', 'rot'):
                if x[key]['ref'] in names or x[key]['ref'] is None:
                    if x[key]['ref'] is not None:
                        res.count('relative_inside')
                    if x[key] != y[key]:
                        return 'placement', f'{own.name} has {key} {y[key]}, expected {x[key]}'
                else:
                    res.count('relative_outside')
                    if y[key]['ref'] is not None:
                        return 'placement', f'{own.name} is placed relative to {y[key]["ref"]}, which is not part of {names}'
            elif x[key] != y[key]:
                return key, f'{own.name} has {key} {y[key]!r}, expected {x[key]!r}'
        for key in ('at_relative', 'rotate_relative'):
            ref = getattr(own, key)[1]
            if ref is not None and not any(ref is c for c in part.components[:k]):
                return 'reference', f'{own.name} is placed relative to an instance {ref.name} which is not the one of its instrument'
            if any(ref is c for c in instr.components):
                return 'reference', f'{own.name} is placed relative to the instance of the original'
        if any(own is c for c in instr.components):
            return 'shared', f'{own.name} is the instance of the original'
    for key in (*SECTIONS, 'metadata'):
        if a[key] != b[key]:
            return key, f'{key} is {b[key]!r}, expected {a[key]!r}'
    if sorted(set(a['flags']) | set(extra)) != b['flags']:
        return 'flags', f'flags are {b["flags"]}, expected {a["flags"]} and {list(extra)}'
    if part.included != instr.included or [id(x) for x in part.registries] != [id(x) for x in instr.registries]:
        return 'registries', f'included {part.included}, registries {part.registries}; expected {instr.included}, {instr.registries}'
    if part.source != instr.source:
        return 'source', f'source {part.source}, expected {instr.source}'
    # parameters
    have, given = b['params'], a['params']
    if mcpl:
        if not have or have[-1]['name'] != 'mcpl_filename':
            return 'parameters', f'mcpl_filename is not the last parameter: {[p["name"] for p in have]}'
        last = have.pop()
        if last['default'] != mcpl[3] or 'str' not in last['type']:
            return 'parameters', f'mcpl_filename is {last}, expected default {mcpl[3]}'
    if [p for p in given if p['name'] in {q['name'] for q in have}] != have:
        return 'parameters', f'parameters {have}, expected (some of) {given}'
    missing = [p['name'] for p in given if p not in have]
    if missing and not remove:
        return 'parameters', f'parameters {missing} are lost'
    words, text = tokens(instr, part)
    for p in given:
        if p['name'] in words:
            res.count('kept')
            if p['name'] in missing:
                return 'parameter-used', f'parameter {p["name"]} is used but removed'
        elif remove and p['name'] not in text:
            res.count('removed')
            if p['name'] not in missing:
                return 'parameter-unused', f'parameter {p["name"]} is used nowhere but kept'
    # groups
    if instr.groups:
        g = {}
        for k, c in enumerate(part.components):
            if c.group:
                g.setdefault(c.group, []).append(k)
        if g:
            res.count('grouped')
        if g != {n: x.ids for n, x in part.groups.items()}:
            return 'groups', f'groups are {[(n, x.ids) for n, x in part.groups.items()]}, expected {g}'
        if any(m is not part.components[k] for x in part.groups.values() for k, m in zip(x.ids, x.members)):
            return 'groups', 'the members of a group are not the instances of the part'
    return None


def reread(part, tx):
    """difference between a part and what is read from its text"""
    from mccode_antlr.loader.loader import parse_mccode_instr
    again = parse_mccode_instr(str(part), tx.registries(), '<string>')
    a, b = snap.describe(part, flags=False), snap.describe(again, flags=False)
    for d in (a, b):
        for x in d['components']:
            for v in (x['at']['v'], x['rot']['v']):
                v[:] = [number(t) for t in v]
    return snap.differ(a, b)


def number(t):
    try:
        return float(t)
    except ValueError:
        return t


# ---------------------------------------------------------------- B: what a part does

def truncated(p, sim, lo, hi, part, mcpl=None):
    """the model of a part, or None when it is not a sound instrument on its own"""
    q = copy.copy(p)
    q.want = copy.deepcopy(p.want)
    q.want['instances'] = inst = q.want['instances'][lo:hi]
    names = {x['name'] for x in inst}
    q.trees, q.comps, q.types, q.ops, q.kinds, q.strings = dict(p.trees), dict(p.comps), dict(p.types), dict(p.ops), dict(p.kinds), dict(p.strings)
    for k, x in enumerate(inst):
        s = sim.state[lo + k]
        if x['at_ref'] not in names:
            x['fixed_at'], x['at_ref'] = list(s['P']), None
        if x['rot_ref'] not in names:
            x['fixed_rot'], x['rot_ref'] = s['R'], None
    kept = {x.name for x in part.parameters}
    q.model = dict(p.model, params=[x for x in p.model['params'] if x['name'] in kept])
    q.args = {k: v for k, v in p.args.items() if k in kept}
    if mcpl:
        k, tname, params, default = mcpl
        x = inst[k]
        x.update(type=tname, params=params, split=None, when=None, group=None, extend=[], jumps=[], metadata=[], removable=False, cpu=False)
        _, text, ops = p.mv[tname]
        q.comps[tname] = dict(name=tname, noacc=False, category=None, define=[], setting=[], output=[], metadata=[], dependency=None,
                              sections={s: [] for s in M.SECTIONS} | {'initialize': [text]})
        q.types[tname] = dict(setting=[('filename', 'string', '0'), ('verbose', 'int', '1'), ('level', 'double', '2.5')], declare=[], user=[], alloc=None)
        q.ops[text] = ops
        q.kinds['mcpl_filename'] = 's'
        q.model['params'].append(dict(kind='string', name='mcpl_filename', unit=None, default=default))
        q.trees['mcpl_filename'] = ('var', 's', 'mcpl_filename')
        for v in params.values():
            if v.startswith('"'):
                q.strings[v] = v[1:-1]
            elif v not in q.trees:
                q.trees[v] = ('lit', 'd' if '.' in v else 'i', v)
        q.snames = p.snames + ['mcpl_filename']
    try:
        if not G.sound(q):
            return None
    except KeyError:  # a JUMP to a component outside
        return None
    return q


def execute(q, part, neutron, tx, r, name):
    """differences between the part executed and predicted"""
    sim = G.Sim(q)
    c = R.translate(part, neutron)
    exe = R.build(c, tx.dir, name=name, compiler='gcc')
    rc, log, out, err = R.execute(exe, tx.dir, q, name=name + '.log')
    return R.judge(q, sim, log, rc, err, tol=2e-6)[0]


# ---------------------------------------------------------------- driver

def mcpl_arguments(instr, r):
    """arguments of mcpl_split, and what the two new instances must say: (kwargs, default of mcpl_filename, output parameters, input parameters)"""
    from mccode_antlr.common import ComponentParameter, Expr
    kw = dict(output_component='Mvout', input_component='Mvin')
    default = f'"{instr.name}.mcpl"'
    if r.random() < .6:
        f = r.choice(['a.mcpl', 'two words.mcpl', 'sub/dir.mcpl', '"quoted.mcpl"', 'x,y=z.mcpl', 'é.mcpl', 'mcpl'])
        kw['filename'] = f
        default = f if f[0] == '"' else f'"{f}"'
    out, inp = {'filename': 'mcpl_filename'}, {'verbose': '0', 'filename': 'mcpl_filename'}

    def chosen(which, want):
        if r.random() < .4:
            ps = []
            if r.random() < .4:
                ps.append(ComponentParameter('filename', Expr.parse('"own.mcpl"')))
                want['filename'] = '"own.mcpl"'
            if r.random() < .4:
                ps.append(ComponentParameter('verbose', Expr.parse('3')))
                want['verbose'] = '3'
            if r.random() < .5:
                ps.append(ComponentParameter('level', Expr.parse('0.25')))
                want['level'] = '0.25'
            kw[which] = tuple(ps)
    chosen('output_parameters', out)
    chosen('input_parameters', inp)
    return kw, default, out, inp


def same_params(got, want):
    num = lambda v: v if re.match(r'["A-Za-z_]', v) else float(v)
    return {k: num(v) for k, v in got.items()} == {k: num(v) for k, v in want.items()}


def run(desc, res: Result):
    for n in range(desc['per']):
        r = rng('c17', desc['seed'], desc['n'], n)
        p, tx, neutron = program(r)
        case = dict(instr=tx.instr, comps=tx.comps, neutron=neutron, args=p.args, rays=p.nrays)
        try:
            instr = tx.parse()
        except R.Broken:  # C04 decides this
            res.count('unparsed')
            tx.close()
            continue
        try:
            one(p, instr, tx, neutron, r, res, case, n)
        except Exception as ex:
            res.violate('error:' + type(ex).__name__, f'failed: {short_tb(ex, 5)}\n{tx.instr}', case)
        finally:
            tx.close()


def one(p, instr, tx, neutron, r, res, case, n):
    N = len(instr.components)
    if r.random() < .7:
        instr.determine_groups()
    if r.random() < .5:
        instr.verify_instance_parameters()
    before = deep(instr)
    groups = lambda: [(k, v.index, list(v.ids), [id(m) for m in v.members]) for k, v in instr.groups.items()]
    g = groups()
    ways = []
    cuts = list(range(N)) if N <= 3 else sorted(r.sample(range(N), 3))
    for i in cuts:
        ways.append(('split', i))
    ways += [('copy', None), ('mcpl', r.randrange(N)), ('odd', None)]
    executed = r.choice(ways[:-1])
    for w in ways:
        what, i = w
        done = []   # (part, lo, hi, name, remove, mcpl)
        remove = r.random() < .5
        try:
            if what == 'split':
                x = instr.components[i]
                at = x if r.random() < .4 else x.name
                says = f'split({x.name!r}, remove_unused_parameters={remove})'
                a, b = instr.split(at, remove_unused_parameters=remove) if remove or r.random() < .5 else instr.split(at)
                done = [(a, 0, i + 1, instr.name + '_first', remove, None), (b, i, N, instr.name + '_second', remove, None)]
            elif what == 'copy':
                lo = r.randint(0, N - 1)
                hi = r.choice([r.randint(lo, N), -r.randint(1, N - lo + 1)])
                says, remove = f'copy({lo}, {hi})', False
                done = [(instr.copy(lo, hi), lo, hi if hi >= 0 else N + 1 + hi, instr.name, False, None)]
            elif what == 'mcpl':
                x = instr.components[i]
                kw, default, out, inp = mcpl_arguments(instr, r)
                says = f'mcpl_split({x.name!r}, {kw}, remove_unused_parameters={remove})'
                if r.random() < .2:
                    from mccode_antlr.reader import Reader
                    for k in ('output_component', 'input_component'):
                        kw[k] = Reader(registries=tx.registries()).get_component(kw[k])
                a, b = instr.mcpl_split(x if r.random() < .3 else x.name, remove_unused_parameters=remove, **kw)
                done = [(a, 0, i + 1, instr.name + '_first', remove, (i, 'Mvout', out, default)), (b, i, N, instr.name + '_second', remove, (0, 'Mvin', inp, default))]
            else:
                says = 'a split which is impossible'
                for bad in ('no_such_component', 0, None):
                    try:
                        instr.split(bad)
                    except (RuntimeError, ValueError, TypeError):
                        res.count('refused')
                    else:
                        res.violate('accepted', f'split({bad!r}) succeeds\n{tx.instr}', case)
        except Exception as ex:
            res.violate(f'{what}:error:{type(ex).__name__}', f'{says} fails: {short_tb(ex, 5)}\n{tx.instr}', dict(case, says=says))
            continue
        d = change(before, deep(instr))
        if d or groups() != g:
            res.violate(f'{what}:original', f'the original is changed by {says}: {d or "groups"}\n{tx.instr}', dict(case, says=says))
            before, g = deep(instr), groups()
        for k, (part, lo, hi, name, remove, mcpl) in enumerate(done):
            res.count('parts')
            extra = []
            if mcpl:
                got = {x.name: str(x.value) for x in part.components[mcpl[0]].parameters} if len(part.components) > mcpl[0] else None
                if got is None or not same_params(got, mcpl[2]):
                    res.violate('mcpl:parameters', f'{says}: the new component has parameters {got}, expected {mcpl[2]}\n{tx.instr}', dict(case, says=says))
                    continue
                mcpl = (*mcpl[:2], got, mcpl[3])
                dep = re.search(r'DEPENDENCY "([^"]*)"', tx.comps[mcpl[1]])
                extra = [dep.group(1)] if dep and isinstance(kw[('output' if mcpl[1] == 'Mvout' else 'input') + '_component'], str) else []
            d = part_differs(instr, part, lo, hi, name, remove, res, mcpl, extra)
            if d:
                res.violate(f'{what}:{d[0]}', f'{says}, part {k + 1}: {d[1]}\n{tx.instr}', dict(case, says=says))
                continue
            key = f'{says}|{k}|{tx.instr}'
            res.case(key, hi > lo and any(c.group or c.when or c.split or c.jump or c.at_relative[1] for c in part.components),
                     dict(instr=tx.instr[:800], says=says, part=[c.name for c in part.components]))
            if r.random() < .3 and hi > lo and not any(isinstance(x.target, str) and x.relative_target == 0 and not part.has_component_named(x.target) for c in part.components for x in c.jump):
                res.count('reread')
                try:
                    d = reread(part, tx)
                except Exception as ex:
                    d = f'it is rejected: {short_tb(ex, 3)}'
                if d:
                    res.violate(f'{what}:text', f'{says}, part {k + 1}, written and read again: {d}\n{part}', dict(case, says=says))
            if w is executed and hi > lo:
                try:
                    sim = G.Sim(p)
                    q = truncated(p, sim, lo, hi, part, mcpl)
                    if q is None:
                        res.count('unsound')
                        continue
                    found = execute(q, part, neutron, tx, r, f'x{k}')
                except G.Runaway:
                    continue
                except R.Broken as ex:
                    found = [(ex.mech, str(ex))]
                res.count('executed')
                if mcpl:
                    res.count('executed_mcpl')
                for a, m in found[:2]:
                    res.violate(f'{what}:run:{a}', f'{says}, part {k + 1} executed: {m}\n{R.Texts.all(tx)}\n--- part:\n{part}', dict(case, says=says))
