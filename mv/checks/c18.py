"""C18: instruments are independent of their copies and of their readers."""
from __future__ import annotations
import contextlib, io, shutil, tempfile
from pathlib import Path
from ..core import Result, rng, short_tb
from ..lib import imodel as M, imatch, prog as G, progrun as R, snap, cexpr as X
from .c24 import first_difference

RULE = ('random instruments are (A) asked every question the library answers about them - text, HTML, flags, metadata, parameters used, orientation algebra, expression arithmetic, copies, splits, HDF5, translation for either flavour - in random '
        'order and number, (B) copied (whole, in part, split, copies of copies, single instances, single expressions) and the copies changed through methods, attributes and setters, also one instance of an instrument next to those that share text with it '
        'through COPY, (C) read next to other instruments by the same reader; and expressions of every form are copied and the parts of the copies changed. A deep picture of everything the original holds (expressions, references, orientations, component types, registries, sources) is compared before and after each step; '
        'distinct = instruments with the steps done, non-trivial = at least three steps that changed a copy or answered')
ASSUMPTIONS = ['component types and registries are shared between an instrument and its copies by design', 'jump distances, translated text and group tables filled in by translation are caches; so is the mark of an identifier as an instrument parameter, except when '
               'it is a parameter of a copy only', 'a vector or orientation is replaced, not changed in place']
MINIMUM = {'quick': dict(evaluations=500, distinct=480, questions=5000, changes=4000, shared_reads=300, neighbours=700, type_changes=200, expression_changes=9000), 'thorough': dict(evaluations=12000, distinct=11000, questions=120000, changes=100000)}
EMPHASIS = dict(include=.3, n_comp=(2, 4), n_inst=(2, 7), metadata=.6, group=.5, jump=.5, split=.5, copy=.6)


def chunks(tier, seed):
    n, per = (40, 13) if tier == 'quick' else (400, 32)
    return [dict(seed=seed, n=i, per=per) for i in range(n)]


CACHES = ('absolute_target', 'translated', 'groups')


def instance(i, known, marks):
    skip = CACHES + (() if marks else ('_object',))
    one = {}
    for k, v in vars(i).items():
        if k == 'type':
            one[k] = i.type.name
        elif k in ('at_relative', 'rotate_relative'):
            ref = v[1]
            one[k] = (snap.snapshot(v[0], skip=skip), None if ref is None else (ref.name, known.get(id(ref), 'elsewhere')))
        else:
            one[k] = snap.snapshot(v, skip=skip)
    return one


def types(instr):
    return {c.name: snap.snapshot(c, skip=CACHES) for c in instr.component_types()}


def deep(instr, marks=False, with_types=True):
    known = {id(x): n for n, x in enumerate(instr.components)}
    skip = CACHES + (() if marks else ('_object',))
    out = {k: snap.snapshot(v, skip=skip) for k, v in vars(instr).items() if k not in ('components', 'registries', 'groups')}
    out['registries'] = [(type(x).__name__, x.name, getattr(x, 'priority', None)) for x in instr.registries]
    out['components'] = [instance(i, known, marks) for i in instr.components]
    if with_types:
        out['types'] = types(instr)
    return out


def change(a, b, path=''):
    return snap.differ(a, b, path)


# ---------------------------------------------------------------- questions

def expressions(instr):
    out = [p.value for p in instr.parameters]
    for i in instr.components:
        out += [p.value for p in i.parameters] + [e for e in (i.when, i.split) if e is not None] + [j.condition for j in i.jump]
        out += [*i.at_relative[0], *i.rotate_relative[0]]
    for c in instr.component_types():
        out += [p.value for p in (*c.define, *c.setting, *c.output)]
    return out


def ask(instr, r, neutron, d):
    """one question: (name, thunk)"""
    from mccode_antlr.common import Expr, HTMLWrapper
    names = [p.name for p in instr.parameters] or ['nothing']
    inst = r.choice(instr.components)
    first, last = sorted(r.sample(range(len(instr.components) + 1), 2))
    e, e2 = r.choice(expressions(instr)), r.choice(expressions(instr))

    def quiet(f, *allowed):
        def g():
            try:
                return f()
            except allowed:
                return None
        return g
    o = inst.orientation
    some = [
        ('str', lambda: str(instr)), ('html', lambda: instr._my_repr_html_()), ('to_string', lambda: instr.to_string(HTMLWrapper())), ('repr', lambda: repr(instr)),
        ('flags', lambda: (instr.decoded_flags(), instr.unique_flags)), ('unused', lambda: instr.check_instrument_parameters(remove=False)),
        ('parameter_used', lambda: [instr.parameter_used(x) for x in names]), ('metadata', lambda: instr.collect_metadata()),
        ('get', lambda: (instr.get_component(inst.name), instr.has_component_named(inst.name), instr.last_component(), instr.get_parameter(names[0]), instr.component_types(),
                         instr.get_component_names_by_category('x'))),
        ('check_expr', lambda: instr.check_expr(r.choice(['1+2', names[0], f'2*{names[0]}', 'cos(x)']))),
        ('copy', lambda: instr.copy()), ('part', lambda: instr.copy(first, last)), ('equal', lambda: instr == instr.copy()),
        ('split', lambda: instr.split(inst.name, remove_unused_parameters=r.random() < .5)), ('split-instance', lambda: instr.split(inst, remove_unused_parameters=True)),
        ('mcpl', lambda: instr.mcpl_split(inst.name, output_component='Mvout', input_component='Mvin', remove_unused_parameters=r.random() < .5)),
        ('translate', lambda: R.translate(instr, neutron)), ('translate-other', quiet(lambda: R.translate(instr, not neutron), R.Broken)),
        ('groups', lambda: instr.determine_groups()), ('verify', lambda: instr.verify_instance_parameters()),
        ('inst-text', lambda: (str(inst), inst.partial_str(), repr(inst))), ('inst-copy', lambda: inst.copy()),
        ('inst-get', lambda: [inst.get_parameter(p.name) for p in inst.type.setting] + [inst.collect_metadata(), inst.defines_parameter('x'), inst.parameter_used(names[0])]),
        ('orient', lambda: (o.position(), o.rotation(), o.rotation('coordinates'), str(o), repr(o), o.position_parts(), o.rotation_parts())),
        ('orient-algebra', quiet(lambda: (o.inverse(), o.reduce(), o.combine(), o + o), Exception)), ('angles', quiet(lambda: o.angles(), Exception)),
        ('expr-text', lambda: (str(e), f'{e:p}', repr(e), hash(e))), ('expr-simplify', lambda: (e.simplify(), e.copy(), e.depends_on(names[0]), names[0] in e)),
        ('expr-evaluate', quiet(lambda: e.evaluate({x: Expr.float(2.) for x in names}), Exception)),
        ('expr-compare', quiet(lambda: (e == e2, e < e2, e.compatible(e2)), Exception)),
        ('expr-algebra', quiet(lambda: ((e + e2).simplify(), (e * 2).simplify(), -e, abs(e), 1 / e, e - e2), Exception)),
        ('comp', lambda: (repr(inst.type), hash(inst.type), inst.type.collect_metadata(), inst.type.has_parameter('x'), inst.type.get_parameter('x'))),
        ('hdf5', quiet(lambda: save(instr, d), Exception)),
    ]
    return r.choice(some)


def save(instr, d):
    from mccode_antlr.io import save_hdf5
    save_hdf5(instr, str(d / 'x.h5'))


# ---------------------------------------------------------------- changes

def alter_expr(e, r):
    from mccode_antlr.common import Expr, DataType
    from mccode_antlr.common.expression import Value
    k = r.randrange(4)
    if k == 0 and len(e.expr) == 1 and not e.is_str:
        e.data_type = DataType.float if e.data_type == DataType.int else DataType.int
        return 'data type'
    if k == 1:
        ids = [v for v in leaves(e) if isinstance(v.value, str) and v.is_id]
        if ids:
            e.verify_parameters([ids[0].value])
            return f'{ids[0].value} marked as parameter'
    if k == 2:
        vs = [v for v in leaves(e) if not isinstance(v.value, (list, str)) and v.value is not None]
        if vs:
            v = r.choice(vs)
            v.value = 77
            return 'value'
    e.expr[0] = Value.best(12345)
    return 'replaced'


def leaves(e):
    from mccode_antlr.common.expression import Value, UnaryOp, BinaryOp, TrinaryOp, Expr
    out, todo = [], list(e.expr)
    while todo:
        x = todo.pop()
        if isinstance(x, Expr):
            todo += x.expr
        elif isinstance(x, Value):
            out.append(x)
            if isinstance(x.value, list):
                todo += [y for y in x.value if isinstance(y, Expr)]
        elif isinstance(x, UnaryOp):
            todo += x.value
        elif isinstance(x, BinaryOp):
            todo += x.left + x.right
        elif isinstance(x, TrinaryOp):
            todo += x.first + x.second + x.third
    return out


def alter_instance(i, r, rename=True):
    """change one thing of an instance; what was changed, or None"""
    from mccode_antlr.common import Expr, MetaData
    from mccode_antlr.instr.jump import Jump
    from mccode_antlr.instr.orientation import Vector, Angles
    k = r.randrange(20)
    if k <= 2 and i.parameters:
        p = r.choice(i.parameters)
        what = r.choice(['value', 'name', 'expr', 'expr'])
        if what == 'value':
            p.value = Expr.float(9.75)
        elif what == 'name':
            p.name += '_x'
        else:
            what += ' ' + alter_expr(p.value, r)
        return f'parameter {p.name} {what}'
    if k == 3:
        p = [p for p in i.type.setting if not p.value.is_vector and not p.value.is_str]
        if p:
            i.set_parameter(r.choice(p).name, 3, overwrite=True)
            return 'set_parameter'
    if k == 4:
        i.WHEN('mv_changed > 2')
        return 'WHEN'
    if k == 5 and i.when is not None:
        return 'when ' + alter_expr(i.when, r)
    if k == 6:
        i.SPLIT('mv_changed')
        return 'SPLIT'
    if k == 7 and i.split is not None:
        return 'split ' + alter_expr(i.split, r)
    if k == 8:
        i.EXTEND('mv_changed();')
        return 'EXTEND'
    if k == 9 and i.extend:
        r.choice(i.extend).source += '/* changed */'
        return 'extend text'
    if k == 10:
        i.GROUP('mv_changed')
        return 'GROUP'
    if k == 11:
        i.JUMP(Jump(i.name, 0, True, Expr.integer(3) if hasattr(Expr, 'integer') else Expr.best(3)))
        return 'JUMP'
    if k == 12 and i.jump:
        return alter_jump(i, r)
    if k == 13:
        i.add_metadata(MetaData.from_instance_tokens(i.name, 'text', 'mv_changed', 'x'))
        return 'add_metadata'
    if k in (14, 15) and i.metadata:
        m = r.choice(i.metadata)
        w = r.choice(['name', 'mimetype', 'value', 'source'])
        if w == 'source':
            m.source.name = 'mv_changed'
        else:
            setattr(m, w, 'mv_changed')
        return 'metadata ' + w
    if k == 16:
        i.removable, i.cpu = not i.removable, not i.cpu
        return 'removable, cpu'
    if k == 17:
        i.at_relative = Vector(*[Expr.float(.5)] * 3), None
        i.rotate_relative = Angles(*[Expr.float(.5)] * 3), None
        return 'placement'
    if k == 18 and rename:
        i.name += '_mv'
        return 'name'
    if k == 19 and rename:
        refs = [x[1] for x in (i.at_relative, i.rotate_relative) if x[1] is not None]
        if refs:
            refs[0].name += '_ref'
            return 'name of its reference'
    return None


def alter_jump(i, r):
    j = r.choice(i.jump)
    w = r.choice(['target', 'iterate', 'relative_target', 'condition', 'condition'])
    if w == 'condition':
        w += ' ' + alter_expr(j.condition, r)
    else:
        setattr(j, w, dict(target='mv_changed', iterate=not j.iterate, relative_target=j.relative_target + 5)[w])
    return 'jump ' + w


def alter_type(c, r):
    """change one thing of a component definition"""
    pars = [*c.define, *c.setting, *c.output]
    blocks = [x for s in ('share', 'user', 'declare', 'initialize', 'trace', 'save', 'final', 'display') for x in getattr(c, s)]
    for _ in range(6):
        k = r.randrange(4)
        if k == 0 and pars:
            p = r.choice(pars)
            if r.random() < .4:
                p.name += '_x'
                return 'parameter name'
            return 'parameter ' + alter_expr(p.value, r)
        if k == 1 and blocks:
            x = r.choice(blocks)
            if r.random() < .5:
                x.source += '/* changed */'
                return 'section text'
            x.translated, x.line = '/* changed */', 12345
            return 'section line'
        if k == 2 and c.metadata:
            m = r.choice(c.metadata)
            w = r.choice(['name', 'mimetype', 'value', 'source'])
            if w == 'source':
                m.source.name = 'mv_changed'
            else:
                setattr(m, w, 'mv_changed')
            return 'metadata ' + w
        if k == 3:
            c.name, c.category, c.acc = 'mv_changed', 'mv_changed', not c.acc
            return 'name'
    return None


def change_expressions(r, res):
    """copies of expressions of every form, whose parts are changed"""
    from mccode_antlr.common import Expr
    for _ in range(6):
        t = X.render(X.gen(r, r.randint(1, 4)), r)
        e = Expr.parse(t)
        how = r.choice(['copy', 'copy', 'copy of copy', 'Expr of copies'])
        c = e.copy() if how == 'copy' else e.copy().copy() if how == 'copy of copy' else Expr([x.copy() for x in e.expr])
        for first, second, said in ((e, c, how), (c, e, 'the original')):
            pic = snap.snapshot(first)
            done = []
            for _ in range(3):
                done.append(alter_expr(second, r))
                res.count('expression_changes')
                w = change(pic, snap.snapshot(first))
                if w:
                    res.violate('expression:' + done[-1].split()[-1], f'changing {done} of {said} of {t} changes the other: {w}', dict(text=t, how=how))
                    return


def change_types(p, tx, r, res, steps, case):
    """a component definition which is read as (part of) a copy is changed: the one it copies is not, and neither the other way round"""
    from mccode_antlr.reader import Reader
    kin = [m for m in p.raw if m['copy'] or any('copy' in x for x in m['sections'].values() if isinstance(x, dict))]
    if not kin:
        return
    reader = Reader(registries=tx.registries())
    got = [reader.get_component(m['name']) for m in p.raw]
    for _ in range(3):
        m = r.choice(kin)
        base = {m['copy'], *(x['copy'] for x in m['sections'].values() if isinstance(x, dict) and 'copy' in x)}
        name = r.choice(sorted({m['name'], *base} - {None}))
        pics = [snap.snapshot(c, skip=CACHES) for c in got]
        c = got[[x['name'] for x in p.raw].index(name)]
        what = alter_type(c, r)
        if not what:
            continue
        steps.append(f'type {what}')
        res.count('type_changes')
        for x, pic in zip(got, pics):
            w = x is not c and change(pic, snap.snapshot(x, skip=CACHES))
            if w:
                res.violate('kin:' + what.split()[0], f'changing {what} of component definition {name} changes {x.name}: {w}\n' + '\n'.join(tx.comps.values()), dict(case, steps=[what]))
                return


def alter_instr(c, r):
    from mccode_antlr.common import Expr, InstrumentParameter, MetaData
    k = r.randrange(16)
    if k <= 1 and c.parameters:
        p = r.choice(c.parameters)
        w = r.choice(['value', 'unit', 'name', 'expr', 'expr'])
        if w == 'expr':
            w += ' ' + alter_expr(p.value, r)
        else:
            setattr(p, w, dict(value=Expr.float(8.5), unit='mv', name=p.name + '_mv')[w])
        return f'instrument parameter {w}'
    if k == 2:
        ids = [v.value for e in expressions_own(c) for v in leaves(e) if v.is_id and isinstance(v.value, str) and not c.has_parameter(v.value) and v.value.isidentifier()]
        if ids:
            n = r.choice(ids)
            c.add_parameter(InstrumentParameter.parse(f'double {n}'))
            c.verify_instance_parameters()
            return f'parameter {n} added and marked'
    if k == 3:
        c.check_instrument_parameters(remove=True)
        return 'unused removed'
    if k == 4:
        for f in (c.DECLARE, c.USERVARS, c.INITIALIZE, c.SAVE, c.FINALLY):
            f('/* mv */ int mv_changed;')
        return 'sections'
    if k == 5:
        s = [x for s in (c.declare, c.user, c.initialize, c.save, c.final) for x in s]
        if s:
            x = r.choice(s)
            x.source += '/* changed */'
            x.filename, x.line = 'mv', 99
            return 'section text'
    if k == 6:
        c.DEPENDENCY('-DMV_CHANGED')
        c.add_included('mv')
        return 'flags, included'
    if k == 7:
        c.add_metadata(MetaData.from_instrument_tokens(c.name, 'text', r.choice([m.name for m in c.metadata] + ['mv']), 'x'))
        return 'add_metadata'
    if k == 8 and c.metadata:
        m = r.choice(c.metadata)
        m.source.name, m.value = 'mv', 'mv'
        return 'metadata'
    if k == 9 and c.components:
        c.components = tuple(reversed(c.components))[:-1]
        return 'components'
    if k == 10 and c.groups:
        g = r.choice(list(c.groups.values()))
        g.ids.append(0)
        g.members.reverse()
        g.name = 'mv'
        return 'group'
    if k == 11:
        c.name, c.source, c.parameters, c.registries = 'mv', 'mv', c.parameters[:-1], ()
        return 'name, source, last parameter, registries'
    if k == 12 and c.groups and any(g.members for g in c.groups.values()):
        g = r.choice([g for g in c.groups.values() if g.members])
        m = r.choice(g.members)
        m.group, m.name = 'mv', 'mv'
        return 'group member'
    if c.components:
        w = alter_instance(r.choice(c.components), r)
        return w and 'instance: ' + w
    return None


def expressions_own(c):
    out = []
    for i in c.components:
        out += [p.value for p in i.parameters] + [e for e in (i.when, i.split) if e is not None] + [j.condition for j in i.jump]
    return out


def copies(instr, r, neutron):
    """a way to make copies: (name, list of instruments)"""
    k = r.choice(['copy', 'copy', 'copy', 'copy of copy', 'part', 'split', 'split', 'mcpl'])
    x = r.choice(instr.components)
    if k == 'copy':
        return k, [instr.copy()]
    if k == 'copy of copy':
        c = instr.copy()
        return k, [c.copy()]
    if k == 'part':
        a, b = sorted(r.sample(range(len(instr.components) + 1), 2))
        return f'copy({a}, {b})', [instr.copy(a, b)]
    if k == 'split':
        return f'split at {x.name}', list(instr.split(x.name, remove_unused_parameters=r.random() < .5))
    return f'mcpl split at {x.name}', list(instr.mcpl_split(x.name, output_component='Mvout', input_component='Mvin', remove_unused_parameters=r.random() < .5))


# ---------------------------------------------------------------- driver

MVOUT = 'DEFINE COMPONENT Mvout SETTING PARAMETERS (string filename=0, int verbose=1) TRACE %{ %} END\n'
MVIN = 'DEFINE COMPONENT Mvin SETTING PARAMETERS (string filename=0, int verbose=1) TRACE %{ %} END\n'


def program(r):
    neutron = r.random() < .8
    p = G.gen(r, EMPHASIS, neutron)
    for k, m in enumerate(p.raw):
        if r.random() < .3:
            m['dependency'] = r.choice([f'-DA{k}', f'-DA{k} -lm', '-lm'])
    if r.random() < .3:
        p.model['dependency'] = '-DINSTR'
    p.comps = M.resolve_comps(p.raw)
    tx = R.Texts(p, r)
    tx.comps.update(Mvout=MVOUT, Mvin=MVIN)
    return p, tx, neutron


def run(desc, res: Result):
    r = rng('c18', desc['seed'], desc['n'])
    d = Path(tempfile.mkdtemp(prefix='c18'))
    try:
        for n in range(desc['per']):
            p, tx, neutron = program(r)
            case = dict(instr=tx.instr, comps=tx.comps)
            try:
                try:
                    instr = tx.parse()
                except R.Broken:   # C04 decides this
                    res.count('unparsed')
                    continue
                steps = []
                try:
                    ask_all(instr, r, neutron, d, res, steps, case)
                    change_copies(instr, r, neutron, res, steps, case)
                    change_alone(instr, r, res, steps, case)
                    change_one(tx, r, res, steps, case)
                    change_types(p, tx, r, res, steps, case)
                    change_expressions(r, res)
                    if n % 2 == 0:
                        read_more(p, tx, r, neutron, res, steps, case)
                except Exception as ex:
                    res.violate('error:' + type(ex).__name__, f'{steps[-1] if steps else "?"} failed: {short_tb(ex, 5)}\n{tx.instr}', dict(case, steps=steps[-6:]))
                res.case(tx.instr + '|' + '|'.join(steps), len(steps) >= 3, dict(instr=tx.instr[:1200], steps=steps))
            finally:
                tx.close()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def ask_all(instr, r, neutron, d, res, steps, case):
    before = deep(instr)
    code = R.translate(instr, neutron) if r.random() < .3 else None
    asked = []
    for _ in range(r.randint(6, 16)):
        with contextlib.redirect_stdout(io.StringIO()):
            name, f = ask(instr, r, neutron, d)
            steps.append('asked ' + name)
            asked.append(name)
            f()
        res.count('questions')
        after = deep(instr)
        w = change(before, after)
        if w:
            res.violate('asked:' + name, f'the instrument is changed by {name} (after {asked[:-1]}): {w}\n{case["instr"]}', dict(case, asked=asked))
            before = after
    if code is not None:
        again = R.translate(instr, neutron)
        a, b = strip(code), strip(again)
        if a != b:
            res.violate('asked-c', f'generated C differs after {asked}:\n{first_difference(a, b)}', dict(case, asked=asked))


def strip(c):
    return '\n'.join(x for x in c.splitlines() if ' * Date:' not in x)


def change_copies(instr, r, neutron, res, steps, case):
    instr.verify_instance_parameters()
    if r.random() < .5:
        instr.determine_groups()
    for _ in range(3):
        before = deep(instr, marks=True)
        groups = snap.snapshot({k: (v.name, v.index, list(v.ids), [m.name for m in v.members]) for k, v in instr.groups.items()})
        how, some = copies(instr, r, neutron)
        done = [how]
        steps.append(how)
        w = change(before, deep(instr, marks=True))
        if w:
            res.violate('copying:' + how.split()[0].split('(')[0], f'the instrument is changed by {how}: {w}\n{case["instr"]}', case)
            continue
        for _ in range(r.randint(2, 8)):
            c = r.choice(some)
            what = alter_instr(c, r)
            if what is None:
                continue
            done.append(what)
            steps.append(what)
            res.count('changes')
            after = deep(instr, marks=True)
            w = change(before, after)
            if not w:
                g = snap.snapshot({k: (v.name, v.index, list(v.ids), [m.name for m in v.members]) for k, v in instr.groups.items()})
                w = change(groups, g, 'groups')
                groups = g
            if w:
                kind = what.split(':')[-1].split()[0]
                res.violate(f'copy:{how.split()[0].split("(")[0]}:{kind}', f'changing {what} of {how} changes the original: {w} (steps {done})\n{case["instr"]}', dict(case, steps=done))
                return
        if len(some) == 2 and r.random() < .5:   # the parts are independent of each other
            a = deep(some[0], marks=True, with_types=False)
            what = alter_instr(some[1], r)
            if what:
                res.count('changes')
                w = change(a, deep(some[0], marks=True, with_types=False))
                if w:
                    res.violate(f'parts:{how.split()[0]}:{what.split(":")[-1].split()[0]}', f'changing {what} of the second part of {how} changes the first: {w}\n{case["instr"]}', dict(case, steps=done))
                    return


def change_alone(instr, r, res, steps, case):
    """copies of single instances and expressions"""
    for _ in range(3):
        i = r.choice(instr.components)
        before = deep(instr, marks=True)
        c = i.copy()
        w = change(instance(i, {}, True), instance(c, {}, True))
        if w:
            res.violate('instance-copy', f'the copy of instance {i.name} differs from it: {w}\n{case["instr"]}', case)
        done = []
        for _ in range(r.randint(1, 4)):
            what = None
            for _ in range(6):
                what = alter_instance(c, r)
                if what == 'name of its reference':   # an instance on its own is placed relative to the same instance as the original
                    before, what = deep(instr, marks=True), None
                if what:
                    break
            if not what:
                continue
            done.append(what)
            steps.append('alone ' + what)
            res.count('changes')
            w = change(before, deep(instr, marks=True))
            if w:
                res.violate('instance:' + what.split()[0], f'changing {what} of the copy of instance {i.name} changes the original: {w}\n{case["instr"]}', dict(case, steps=done))
                return
    for _ in range(4):
        e = r.choice(expressions(instr))
        before = snap.snapshot(e)
        c = e.copy()
        if change(before, snap.snapshot(c)):
            res.violate('expr-copy', f'the copy of {e} differs from it: {change(before, snap.snapshot(c))}', case)
        what = alter_expr(c, r)
        res.count('changes')
        w = change(before, snap.snapshot(e))
        if w:
            res.violate('expr:' + what.split()[-1], f'changing ({what}) a copy of {str(e)} changes it: {w}', dict(case, steps=[what]))


def change_one(tx, r, res, steps, case):
    """one instance of an instrument is changed: the others, also those which were read as COPY, and the component types are not"""
    instr = tx.parse()
    instr.verify_instance_parameters()
    hopping = [k for k, i in enumerate(instr.components) if i.jump]
    for _ in range(4):
        known = {}
        pics = [instance(i, known, True) for i in instr.components]
        t = types(instr)
        k = r.choice(hopping) if hopping and r.random() < .3 else r.randrange(len(instr.components))
        what = alter_jump(instr.components[k], r) if k in hopping and r.random() < .4 else alter_instance(instr.components[k], r, rename=False)
        if not what:
            continue
        steps.append(f'one {what}')
        res.count('neighbours')
        for m, (i, pic) in enumerate(zip(instr.components, pics)):
            w = m != k and change(pic, instance(i, known, True))
            if w:
                res.violate('neighbour:' + what.split()[0], f'changing {what} of {instr.components[k].name} changes {i.name}: {w}\n{case["instr"]}', dict(case, steps=[what]))
                return
        w = change(t, types(instr))
        if w:
            res.violate('type:' + what.split()[0], f'changing {what} of {instr.components[k].name} changes its component type: {w}\n{case["instr"]}', dict(case, steps=[what]))
            return


def read_more(p, tx, r, neutron, res, steps, case):
    """several instruments read by one reader"""
    from mccode_antlr.reader import Reader
    reader = Reader(registries=tx.registries())
    d = Path(tempfile.mkdtemp(prefix='more'))
    try:
        kept = []
        for k in range(r.randint(2, 4)):
            if k == 0 or r.random() < .3:
                text = tx.instr
            else:
                text = another(p, r)
            f = d / f'more{k}.instr'
            f.write_text(text)
            try:
                instr = reader.get_instrument(f)
            except RuntimeError:
                res.count('unread')
                continue
            fresh = Reader(registries=tx.registries()).get_instrument(f)
            steps.append('read by the same reader')
            res.count('shared_reads')
            a, b = deep(fresh), deep(instr)
            w = change(a, b)
            if w:
                res.violate('reader', f'instrument {k + 1} read by a reader differs from the one read by a fresh reader: {w}\n{text}', dict(case, texts=[t for t, *_ in kept] + [text]))
                return
            code = strip(R.translate(instr, neutron)) if text == tx.instr and r.random() < .7 else None
            kept.append((text, instr, deep(instr), code))
            for t, i, pic, c in kept:
                w = change(pic, deep(i))
                if w:
                    res.violate('reader-earlier', f'reading or translating a later instrument changes an earlier one: {w}\n{t}\n--- later:\n{text}', dict(case, texts=[t for t, *_ in kept]))
                    return
            for t, i, pic, c in kept[:-1]:
                if c is not None and r.random() < .5:
                    again = strip(R.translate(i, neutron))
                    res.count('retranslated')
                    if again != c:
                        res.violate('reader-c', f'generated C of an earlier instrument differs after a later one was read and translated:\n{first_difference(c, again)}', dict(case, texts=[t for t, *_ in kept]))
                        return
    finally:
        shutil.rmtree(d, ignore_errors=True)


def another(p, r):
    """another instrument of the same component types"""
    m = M.gen_instr(r, p.comps, n_inst=r.randint(1, 4), name=f'More{r.randint(0, 99)}', features=dict(blocks=0))
    return M.instr_text(m, r)
