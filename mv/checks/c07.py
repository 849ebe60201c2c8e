"""C07: instruments and components saved to HDF5 load back equal."""
from __future__ import annotations
import shutil, tempfile
from pathlib import Path
from ..core import Result, rng, short_tb
from ..lib import imodel as M, iapi, prog as G, progrun as R, snap
from .c04 import library, registry
from .c06 import body
from .c18 import strip, leaves, expressions
from .c24 import first_difference

RULE = ('random instruments - read from text with in-memory or directory registries, assembled through the API, copied, split, split for MCPL, with parameters marked, values set through the API, expressions evaluated, read in minimal mode, translated before - are saved to '
        'HDF5 and loaded; a deep picture of everything the loaded instrument holds (expressions with their types, references, orientations, component types, groups, registries with their content and priority) is compared with the one of the saved instrument, so are ==, text, '
        'answers about flags and files, and generated C; the same for the parts of an instrument saved alone and for a second save of the loaded instrument; distinct = instruments, non-trivial = at least one instance')
ASSUMPTIONS = ['numbers held by numpy scalars equal the Python numbers', 'text without NUL characters', 'the version of the library is the same when saving and loading']
MINIMUM = {'quick': dict(evaluations=320, distinct=280, translated=90, api=40, split=25, mcpl=8, minimal=8, pieces=1000, big=8, resaved=60, registries=500),
           'thorough': dict(evaluations=12000, distinct=11000, translated=3000, pieces=25000)}
EMPHASIS = dict(include=.2, n_comp=(2, 4), n_inst=(2, 7), metadata=.5, group=.5, jump=.4, split=.25, copy=.4)


def chunks(tier, seed):
    n, per = (40, 10) if tier == 'quick' else (400, 34)
    return [dict(seed=seed, n=i, per=per) for i in range(n)]


# ---------------------------------------------------------------- pictures

def registry_picture(x):
    out = {k: getattr(x, k, None) for k in ('name', 'url', 'version', 'filename', 'priority', 'registry')}
    out['root'] = str(getattr(x, 'root', None))
    out['components'] = dict(getattr(x, 'components', None) or {})
    pooch = getattr(x, 'pooch', None)
    out['files'] = None if pooch is None else dict(pooch.registry)
    return type(x).__name__, out


def instance(i, known):
    one = {}
    for k, v in vars(i).items():
        if k == 'type':
            one[k] = i.type.name
        elif k in ('at_relative', 'rotate_relative'):
            one[k] = (snap.snapshot(v[0]), None if v[1] is None else (v[1].name, known.get(id(v[1]), 'elsewhere')))
        else:
            one[k] = snap.snapshot(v)
    return one


def picture(instr):
    known = {id(x): n for n, x in enumerate(instr.components)}
    out = {k: snap.snapshot(v) for k, v in vars(instr).items() if k not in ('components', 'registries', 'groups')}
    out['registries'] = [registry_picture(x) for x in instr.registries]
    out['components'] = [instance(i, known) for i in instr.components]
    out['types'] = {c.name: snap.snapshot(c) for c in instr.component_types()}
    out['shared'] = [[n for n, i in enumerate(instr.components) if i.type is c] for c in instr.component_types()]
    out['groups'] = {k: (g.name, int(g.index), [int(n) for n in g.ids], [known.get(id(m), 'elsewhere') for m in g.members]) for k, g in instr.groups.items()}
    return out


def answers(instr, files):
    """what the library answers from what is loaded"""
    from mccode_antlr.reader import Reader
    out = dict(flags=list(instr.unique_flags), metadata=snap.snapshot(instr.collect_metadata()), categories=instr.get_component_names_by_category('a'),
               unused=[p.name for p in instr.parameters if not instr.parameter_used(p.name)])
    reader = Reader(registries=list(instr.registries))
    for f in files:
        try:
            out[f] = str(reader.locate(f)) if not hasattr(reader, 'contents') else reader.contents(f)
        except RuntimeError as ex:
            out[f] = 'not found'
    return out


# ---------------------------------------------------------------- instruments

def from_text(r, d):
    """(how, instrument) from the models of instruments"""
    raw, comps = library(r)
    if r.random() < .5:
        reg = registry(raw, r)
    else:
        from mccode_antlr.reader.registry import LocalRegistry
        where = d / f'comps{r.randint(0, 1 << 40)}'
        (where / 'sub').mkdir(parents=True)
        for m in raw:
            (where / r.choice(['', 'sub']) / f'{m["name"]}.comp').write_text(M.comp_text(m, r))
        reg = LocalRegistry('somewhere', str(where), r.choice([10, 3, -2, 50]))
    model = M.gen_instr(r, comps)
    text = M.instr_text(model, r)
    if r.random() < .3:
        try:
            return 'api', iapi.build(M.resolve_instr(model, comps), model['instances'], reg, r).instrument, text
        except Exception:   # C25 decides this
            return None
    from mccode_antlr.loader.loader import parse_mccode_instr
    try:
        if r.random() < .15:
            from mccode_antlr.common import Mode
            from mccode_antlr.reader import Reader
            f = d / 'minimal.instr'
            f.write_text(text)
            return 'minimal', Reader(registries=[reg]).get_instrument(f, mode=Mode.minimal), text
        return 'parsed', parse_mccode_instr(text, [reg]), text
    except Exception:       # C04 decides this
        return None


def alter(instr, r, how, res):
    """what can happen to an instrument before it is saved"""
    import numpy as np
    from mccode_antlr.common import Expr, MetaData
    did = []
    if how != 'minimal' and r.random() < .25 and len(instr.components) > 1:
        try:
            instr = r.choice(instr.split(r.choice(instr.components).name, remove_unused_parameters=r.random() < .5))
            did.append('split')
        except Exception:    # C17 decides this
            pass
    elif r.random() < .15:
        instr = instr.copy()
        did.append('copy')
    if r.random() < .4:
        instr.verify_instance_parameters()
        did.append('marked')
    if r.random() < .4:
        instr.determine_groups()
        did.append('groups')
    if r.random() < .3 and instr.components:
        i = r.choice(instr.components)
        for p in i.type.setting:
            if p.value.is_vector or p.value.is_str:
                continue
            i.set_parameter(p.name, r.choice([np.float64(2.5), 3, 0.1, -1e-300, 'mv_name*2', 2**40, float('1e308'), Expr.parse('a ? b : c'), np.int64(7), np.float32(.5)]) if not p.value.is_str else '"x"',
                            overwrite=True)
            did.append('set')
            break
    if r.random() < .3:
        es = [e for e in expressions(instr) if not e.is_str]
        for e in r.sample(es, min(3, len(es))):
            for v in leaves(e):
                if v.is_id and isinstance(v.value, str) and r.random() < .5:
                    pass
        for i in instr.components:
            for p in i.parameters:
                if r.random() < .2 and not p.value.is_str and not p.value.is_vector:
                    try:
                        p.value = r.choice([lambda e: e.simplify(), lambda e: e + 1, lambda e: -e, lambda e: e * e, lambda e: abs(e)])(p.value)
                        did.append('computed')
                    except Exception:   # C02 decides this
                        pass
    if r.random() < .08:
        size = r.choice([65000, 70000, 200000])
        if r.random() < .5 or not instr.components:
            instr.add_metadata(MetaData.from_instrument_tokens(instr.name, 'text/plain', 'big', 'x' * size))
        else:
            r.choice(instr.components).add_metadata(MetaData.from_instance_tokens('i', 'text/plain', 'big', 'é\n' * (size // 2)))
        did.append('big')
        res.count('big')
    if r.random() < .1:
        instr.INITIALIZE((r.choice(['', 'file name.instr']), r.choice([-1, 0, 100000]), 'y' * 80000 + ';'))
        did.append('long block')
    if r.random() < .05:
        instr.parameters = ()
        did.append('no parameters')
    return instr, did


def remote(r, d):
    """registries which stand for remote repositories, without asking them"""
    from mccode_antlr.reader.registry import GitHubRegistry, ModuleRemoteRegistry
    files = {f'comp{n}.comp': 'sha256:' + f'{n:x}' * 64 for n in range(r.randint(1, 3))}
    v = f'v1.{r.randint(0, 1 << 30)}'
    return GitHubRegistry(f'mv{r.randint(0, 1 << 30)}', 'https://example.org/owner/repo', v, registry=files, priority=r.choice([0, -10, 5]))


# ---------------------------------------------------------------- the check

def loaded(obj, f, r):
    from mccode_antlr.io import save_hdf5, load_hdf5
    save_hdf5(obj, r.choice([str, Path])(f))
    return load_hdf5(r.choice([str, Path])(f))


def differs(instr, again, files):
    a, b = picture(instr), picture(again)
    w = snap.differ(a, b)
    if w:
        return 'content', w
    if str(instr) != str(again):
        return 'text', first_difference(str(instr), str(again))
    w = snap.differ(answers(instr, files), answers(again, files))
    if w:
        return 'answers', w
    if not (again == instr) or not (instr == again) or again != instr:
        for k in vars(instr):
            if not getattr(instr, k) == getattr(again, k):
                return 'equality', f'the loaded instrument is not == the saved one: {k} differ: {getattr(instr, k)!r:.300} / {getattr(again, k)!r:.300}'
        return 'equality', 'the loaded instrument is not == the saved one'
    return None


def quick_version():
    """asking the installed package for its version takes most of the time; it is the same each time"""
    import functools, importlib.metadata as m
    if not hasattr(m.version, 'cache_info'):
        m.version = functools.lru_cache(None)(m.version)


def run(desc, res: Result):
    quick_version()
    r = rng('c07', desc['seed'], desc['n'])
    d = Path(tempfile.mkdtemp(prefix='c07'))
    try:
        for n in range(desc['per']):
            if n % 3 == 0:
                executed(r, d, res)
            else:
                got = from_text(r, d)
                if got is None:
                    res.count('unbuilt')
                    continue
                how, instr, text = got
                res.count(how)
                one(instr, how, text, r, d, res, None)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def executed(r, d, res):
    neutron = r.random() < .8
    p = G.gen(r, EMPHASIS, neutron)
    tx = R.Texts(p, r)
    tx.comps.update(Mvout='DEFINE COMPONENT Mvout SETTING PARAMETERS (string filename=0, int verbose=1) TRACE %{ %} END\n',
                    Mvin='DEFINE COMPONENT Mvin SETTING PARAMETERS (string filename=0, int verbose=1) TRACE %{ %} END\n')
    try:
        try:
            instr = tx.parse()
        except R.Broken:
            res.count('unparsed')
            return
        how = 'program'
        if r.random() < .2:
            how = 'mcpl'
            instr = r.choice(instr.mcpl_split(r.choice(instr.components).name, output_component='Mvout', input_component='Mvin'))
        elif r.random() < .3:
            try:
                R.translate(instr, neutron)
                how = 'translated before'
            except R.Broken:
                res.count('untranslated')
                return
        res.count(how)
        one(instr, how, tx.instr, r, d, res, neutron)
    finally:
        tx.close()


def one(instr, how, text, r, d, res, neutron):
    f = d / r.choice(['x.h5', 'two words.h5', 'é.h5', 'x'])
    case = dict(how=how, text=text)
    did = []
    if neutron is None:
        try:
            instr, did = alter(instr, r, how, res)
        except Exception as ex:
            res.unsure('alteration failed: ' + short_tb(ex, 3)) if hasattr(res, 'unsure') else None
            return
    for x in did:
        res.count(x)
    case['did'] = did
    if r.random() < .1:
        instr.registries = (*instr.registries, remote(r, d))
        res.count('remote')
    if r.random() < .1:
        from mccode_antlr.reader.registry import InMemoryRegistry
        extra = InMemoryRegistry('more', r.choice([100, 7]), some='DEFINE COMPONENT some TRACE %{ %} END')
        extra.add('dir/other.h', '/* ' + 'z' * r.choice([10, 70000]) + ' */')
        extra.add_instr('odd', '')
        instr.registries = (*instr.registries, extra)
        res.count('memory')
    res.count('registries', len(instr.registries))
    files = [f'{c.name}.comp' for c in instr.component_types()][:2] + ['no_such.comp']
    before = picture(instr)
    try:
        again = loaded(instr, f, r)
    except Exception as ex:
        res.case(text + str(did) + how, bool(instr.components))
        res.violate('failed:' + type(ex).__name__, f'{how} {did}: saving and loading fails: {short_tb(ex, 6)}\n{text}', case)
        return
    res.case(text + str(did) + how, bool(instr.components), dict(how=how, did=did, instr=text[:800]))
    w = snap.differ(before, picture(instr))
    if w:
        res.violate('saving', f'{how} {did}: saving changes the instrument: {w}\n{text}', case)
        return
    try:
        w = differs(instr, again, files)
        if w:
            part = w[1].split(':')[0].strip('.').split('.')[0].split('[')[0] if w[0] == 'content' else ''
            res.violate(w[0] + ':' + part, f'{how} {did}: saved / loaded {w[1]}\n{text}', case)
            return
        if neutron is not None:
            try:
                a = strip(R.translate(instr, neutron))
            except R.Broken:
                res.count('untranslated')
                return
            b = strip(R.translate(again, neutron))
            res.count('translated')
            if a != b:
                res.violate('c', f'{how} {did}: generated C differs: {first_difference(a, b)}\n{text}', case)
                return
        if r.random() < .3:
            res.count('resaved')
            third = loaded(again, f, r)
            w = differs(again, third, files)
            if w:
                res.violate('resaved:' + w[0], f'{how} {did}: saved again / loaded again {w[1]}\n{text}', case)
                return
        if r.random() < .3 and instr.components and how != 'minimal':   # what is loaded can be worked with
            res.count('used')
            i, x = r.choice(list(zip(instr.components, again.components)))
            for how2, f2 in (('copy', lambda q: q.copy()), ('split', lambda q: q.split(i.name)[0]), ('split', lambda q: q.split(i.name)[1])):
                try:
                    a = f2(instr)
                except Exception:
                    continue
                w = snap.differ(picture(a), picture(f2(again)))
                if w:
                    res.violate('used:' + how2, f'{how} {did}: {how2} of saved / loaded {w}\n{text}', case)
                    return
        pieces(instr, r, d, res, how, case)
    except Exception as ex:
        res.violate('error:' + type(ex).__name__, f'{how} {did}: using the loaded instrument fails: {short_tb(ex, 6)}\n{text}', case)


def pieces(instr, r, d, res, how, case):
    """parts of an instrument saved alone"""
    some = [*expressions(instr), *instr.metadata, *instr.parameters, *(b for s in (instr.declare, instr.initialize) for b in s)]
    for i in instr.components:
        some += [i.type, *i.parameters, *i.jump, *i.extend, *i.metadata, i.at_relative[0], i.rotate_relative[0], i.parameters]
        if i.orientation is not None:
            some += [i.orientation, i.orientation.rotation(), i.orientation.position(), i.orientation.angles(), i.orientation.position_parts()]
    for x in r.sample(some, min(4, len(some))):
        res.count('pieces')
        f = d / 'piece.h5'
        try:
            y = loaded(x, f, r)
        except Exception as ex:
            res.violate(f'piece:{type(x).__name__}:{type(ex).__name__}', f'saving and loading {type(x).__name__} {x!r:.300} fails: {short_tb(ex, 5)}', case)
            continue
        w = snap.differ(snap.snapshot(x), snap.snapshot(y))
        if w:
            res.violate(f'piece:{type(x).__name__}', f'{type(x).__name__} {x!r:.300} saved / loaded: {w}', case)
        elif str(x) != str(y):
            res.violate(f'piece:{type(x).__name__}:text', f'{type(x).__name__} saved / loaded: {x!s:.300} / {y!s:.300}', case)
