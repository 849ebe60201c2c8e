"""C19: component and file lookup honours the order of registries."""
import contextlib, hashlib, io, os, re, shutil, tempfile
from pathlib import Path
from ..core import Result, rng, short_tb
from ..lib import progrun as R

RULE = ('one to six registries (in-memory, local directories with folders, remote ones of both kinds with a filled local cache; names which contain each other, equal and different priorities) hold random overlapping subsets of files with confusable '
        'names (Arm.comp, FarArm.comp, optics/Arm.comp, a folder Arm, lib.h, mylib.h; Al[1].laz beside Al1.laz, and asked-for names such as *.laz that nothing has), each with its own mark; registries are given in any order, prepended, appended and named by SEARCH (path, path with a space, name and path, url forms, the output of '
        'a command, before TRACE and in it). Every name, also with folders and unknown ones, is looked up by contents, locate, fullname, known, contain, unique, get_component, get_instrument (with and without `which`), %include at translation '
        'and GETPATH; the mark found is compared with a model of ordered dictionaries; distinct = worlds with their history, non-trivial = at least two registries have a name in common')
ASSUMPTIONS = ['two files of one name in different folders of one directory are not generated, unless one is at its top', 'an in-memory registry has files by their full name only',
               'names that no registry has may be matched by part of a file name when strict is not asked for, except by components, instruments, %include and GETPATH', 'SEARCH of a directory that is already known puts it first',
               'prepend and append put a registry first and last, whatever its priority']
MINIMUM = {'quick': dict(evaluations=900, distinct=600, queries=30000, refused=4000, components=2000, instruments=400, included=300, searched=500, remote=800, getpath=500), 'thorough': dict(evaluations=20000, distinct=14000, queries=600000)}

COMPS = ['Arm', 'FarArm', 'Arm2', 'Armature', 'Monitor', 'PSD_Monitor', 'Monitor_nD', 'mon']
LIBS = ['lib', 'mylib', 'lib-two', 'read_table-lib', 'table-lib']
DATA = ['Al.laz', 'oldAl.laz', 'Al.lazy', 'data.txt', 'a.dat', 'Al[1].laz', 'Al1.laz']
INSTRS = ['test', 'mytest', 'test2', 'test.v2']
FOLDERS = ['', '', '', 'optics', 'a/b', 'sub', 'Arm', 'lib']


def chunks(tier, seed):
    n, per = (44, 22) if tier == 'quick' else (260, 80)
    return [dict(seed=seed, n=i, per=per) for i in range(n)]


def text_of(name, mark, r, libs):
    stem, ext = name.rsplit('.', 1)
    if ext == 'comp':
        inc = ''.join(f'%include "{l}"\n' for l in libs)
        return f'DEFINE COMPONENT {stem}\nSETTING PARAMETERS (int mark={mark})\nSHARE %{{\n{inc}%}}\nTRACE %{{ %}}\nEND\n'
    if ext == 'instr':
        stem = stem.replace('.', '_')
        return f'DEFINE INSTRUMENT {stem}(int mark={mark})\nTRACE\nEND\n'
    if ext == 'h':
        return f'/* header mark {mark} */\n'
    if ext == 'c':
        return f'/* source mark {mark} */\n'
    return f'mark {mark}\n'


class Reg:
    """what one registry has: path -> mark"""

    def __init__(self, kind, name, priority, files):
        self.kind, self.name, self.priority, self.files, self.obj, self.dir = kind, name, priority, files, None, None

    def find(self, name):
        """the path of the file that has this name (its last parts), or None"""
        if name in self.files:
            return name
        if self.kind == 'memory':
            return None
        got = [f for f in self.files if f.endswith('/' + name)]
        return got[0] if got else None

    def once(self, name):
        return sum(f == name or (self.kind != 'memory' and f.endswith('/' + name)) for f in self.files) == 1


def contents_of_registry(r, kind, bag, mark):
    files = {}
    for base in bag:
        if r.random() < .45:
            continue
        d = '' if kind == 'memory' else r.choice(FOLDERS)
        names = [f'{base}.comp'] if base in COMPS else [f'{base}.instr'] if base in INSTRS else [f'{base}.h', f'{base}.c'] if base in LIBS else [base]
        for n in names:
            files[f'{d}/{n}' if d else n] = next(mark)
    if kind != 'memory' and r.random() < .3:   # the same name again, at the top
        for f in list(files)[:2]:
            if '/' in f and f.split('/')[-1] not in files:
                files[f.split('/')[-1]] = next(mark)
    items = list(files.items())
    r.shuffle(items)
    return dict(items)


def make(reg: Reg, root: Path, texts):
    from mccode_antlr.reader.registry import InMemoryRegistry, LocalRegistry, ModuleRemoteRegistry, GitHubRegistry
    if reg.kind == 'memory':
        reg.obj = InMemoryRegistry(reg.name, priority=reg.priority)
        for f in reg.files:
            (reg.obj.add_comp if f.endswith('.comp') and len(f) % 2 else reg.obj.add)(f, texts[reg.name, f])
        return
    reg.dir = root / reg.where

    def fill(d: Path):
        for f in reg.files:
            (d / f).parent.mkdir(parents=True, exist_ok=True)
            (d / f).write_text(texts[reg.name, f])
    if reg.kind == 'local':
        reg.dir.mkdir(parents=True, exist_ok=True)
        fill(reg.dir)
        reg.obj = LocalRegistry(reg.name, str(reg.dir), reg.priority)
        return
    listing = ''.join(f'{f} sha256:{hashlib.sha256(texts[reg.name, f].encode()).hexdigest()}\n' for f in reg.files)
    reg.url = f'https://nowhere.invalid/{reg.name}/'
    if reg.kind == 'module':
        reg.listing = root / f'{reg.name}-list.txt'
        reg.listing.write_text(listing)
        reg.make = lambda: ModuleRemoteRegistry(reg.name, reg.url, reg.listing, priority=reg.priority)
    else:
        import pooch
        c = Path(pooch.os_cache(f'mccode_antlr/{reg.name}')) / reg.version
        c.mkdir(parents=True, exist_ok=True)
        (c / f'{reg.name}.txt').write_text(listing)
        reg.make = lambda: GitHubRegistry(reg.name, reg.url.rstrip('/'), reg.version, f'{reg.name}.txt', priority=reg.priority)
    reg.obj = reg.make()
    fill(Path(reg.obj.pooch.abspath))


def world(r, root):
    from itertools import count
    mark = count(r.randrange(1000, 5000))
    bag = r.sample(COMPS, 5) + r.sample(LIBS, 3) + r.sample(DATA, 3) + r.sample(INSTRS, 2)
    names = r.sample(['mc', 'mcstas', 'mcstas2', 'my', 'mymc', 'lab', 'la', 'local', 'old'], r.choice([1, 2, 3, 3, 4, 4, 5, 6]))
    regs, texts = [], {}
    for n in names:
        kind = r.choice(['memory', 'local', 'local', 'module', 'github'])
        g = Reg(kind, n, r.choice([-10, 0, 10, 10, 10, 20, 100]), contents_of_registry(r, kind, bag, mark))
        g.where = f'dir_{n}' + (' with space' if r.random() < .25 else '') + r.choice(['', '', '/comps'])
        g.version = r.choice(['v1.2', 'v3.5.20', 'v10.0.0'])
        for f, m in g.files.items():
            texts[n, f] = text_of(f.split('/')[-1], m, r, r.sample([b for b in bag if b in LIBS], r.choice([0, 0, 1])))
        make(g, root, texts)
        regs.append(g)
    return regs, bag, texts


def by_priority(regs):
    return sorted(regs, key=lambda g: -g.priority)


def search_spec(g: Reg, r):
    if g.kind == 'local':
        return r.choice([str(g.dir), str(g.dir), os.path.relpath(g.dir)] + ([f'{g.name} {g.dir}'] if ' ' not in str(g.dir) else []))
    if g.kind == 'module':
        return f'{g.name} {g.url} {g.listing}'
    if g.kind == 'github':
        return f'{g.name} {g.url.rstrip("/")} {g.version} {g.name}.txt'


class Ask:
    """compare answers of the code under test with the model"""

    def __init__(self, res, texts, case, what):
        self.res, self.texts, self.case, self.what, self.bad = res, texts, case, what, 0

    def fail(self, mech, msg):
        self.bad += 1
        if self.bad < 4:
            self.res.violate(mech, f'{self.what}: {msg}', self.case())

    def same(self, mech, question, got, want):
        self.res.count('queries')
        if got != want:
            self.fail(mech, f'{question} gives {got!r}, expected {want!r}')

    def call(self, mech, question, f, want, name):
        """want: the value, or None if it has to be refused with an error that names it"""
        self.res.count('queries')
        try:
            got = f()
        except Exception as ex:
            if want is None and name in str(ex):
                self.res.count('refused')
            elif want is None:
                self.fail(mech + ':message', f'{question} is refused without naming it: {short_tb(ex)}')
            else:
                self.fail(mech, f'{question} failed, expected {want!r}: {short_tb(ex)}')
            return
        if want is None:
            self.fail(mech + ':unknown', f'{question} gives {str(got)[:200]!r}, although no registry has it')
        elif got != want:
            self.fail(mech, f'{question} gives {str(got)[:200]!r}, expected {str(want)[:200]!r}')


def first(order, name):
    for g in order:
        f = g.find(name)
        if f is not None:
            return g, f
    return None


def path_of(g, f):
    if g.kind == 'memory':
        return None
    return str(Path(g.obj.pooch.abspath, f) if g.kind in ('module', 'github') else g.dir / f)


def ask_reader(reader, order, bag, r, ask):
    names = [f'{b}.comp' for b in COMPS] + [f'{b}.h' for b in LIBS] + DATA + [f'{b}.instr' for b in INSTRS]
    names += [f for g in order for f in g.files if '/' in f][:6] + ['rm.comp', 'm.comp', 'ib.h', 'l.laz', 'None.comp', 'ptics/Arm.comp', 'comp', 'Ar?.comp', '*.laz', '[AF]*.comp', 'a.da[t]']
    for name in r.sample(names, min(len(names), 14)):
        stem, ext = (name[:-5], '.comp') if name.endswith('.comp') else (name, None)
        which = r.choice([None, None, None, *[g.name for g in order], 'm', 'local2', r.sample([g.name for g in order], r.randint(1, len(order))) + r.choice([[], ['m']])])
        among = [g for g in order if which is None or g.name in ([which] if isinstance(which, str) else which)]
        hit = first(among, name)
        strict = r.random() < .7 or hit is None
        kw = dict(which=which, strict=strict)
        q = f'{name}, {kw}'
        if which not in (None, 'm', 'local2'):
            ask.res.count('which')
        a, e = ((stem, ext) if ext and r.random() < .5 else (name, None))
        ask.call('contents', f'contents({a!r}, ext={e!r}, {kw})', lambda: reader.contents(a, ext=e, **kw), hit and ask.texts[hit[0].name, hit[1]], a)
        if hit is None or hit[0].kind != 'memory':
            ask.call('locate', f'locate({a!r}, ext={e!r}, {kw})', lambda: str(reader.locate(a, ext=e, **kw)), hit and path_of(*hit), a)
        if hit is None or hit[0].kind != 'local':
            ask.call('fullname', f'fullname({a!r}, ext={e!r}, {kw})', lambda: str(reader.fullname(a, ext=e, **kw)), hit and hit[1], a)
        ask.same('known', f'known({name!r}, which={which!r}, strict=True)', bool(reader.known(name, which=which, strict=True)), hit is not None)
        ask.same('contain', f'contain({name!r}, which={which!r}, strict=True)', list(reader.contain(name, which=which, strict=True)), [g.name for g in among if g.find(name)])
        ask.same('unique', f'unique({name!r}, which={which!r})', bool(reader.unique(name, which=which)), sum(g.once(name) for g in among) == 1)
    for g in order:
        rx = r.choice(['Arm', r'\.comp$', 'lib', 'optics/', r'Al\.laz$', 'm', 'arm', 'LIB', re.compile('ARM', re.I), '.*Arm', ''])
        for way in ('search', 'match'):
            want = {f for f in g.files if getattr(re, way)(rx, f if g.kind != 'local' else str(g.dir / f))}
            got = getattr(g.obj, way)(rx)
            ask.same('search', f'{way}({rx!r}) of {g.kind} registry {g.name}', sorted(str(Path(x).relative_to(g.dir)) if g.kind == 'local' else x for x in got), sorted(want))
        for h in order:
            ask.same('same-registry', f'registry {g.name} == registry {h.name}', bool(g.obj == h.obj), g is h)
        if g.kind == 'memory':
            from mccode_antlr.reader.registry import InMemoryRegistry
            twin = InMemoryRegistry(g.obj.name, g.obj.priority)
            for f in r.sample(list(g.files), len(g.files)):
                twin.add(f, ask.texts[g.name, f])
            ask.same('same-registry', f'registry {g.name} == another with the same files', bool(g.obj == twin), True)
            f = r.choice([*g.files, 'New.comp'])
            twin.add(f, ask.texts.get((g.name, f), '') + '// changed\n')
            ask.same('same-registry', f'registry {g.name} == another with a changed {f}', bool(g.obj == twin), False)
    comps = {}
    for b in r.sample(COMPS, 4) + ['rm', 'Mon']:
        hit = first(order, f'{b}.comp')
        ask.res.count('components')
        ask.call('component', f'get_component({b})', lambda: int(str(reader.get_component(b).get_parameter('mark').value)), hit and hit[0].files[hit[1]], b)
        if hit:
            comps[b] = hit[0].files[hit[1]]
            kind, path = hit[0].kind, hit[1]
            want = {'UNKNOWN'} if kind == 'local' else {path.split('/')[0]} if '/' in path else {'UNKNOWN', path, b}
            try:
                got = reader.get_component(b).category
            except Exception:  # reported above
                continue
            ask.res.count('categories')
            if got not in want:
                ask.same('category', f'category of {b}, which the {kind} registry {hit[0].name} has as {path}', got, sorted(want)[0])
    for b in r.sample(INSTRS, 2) + ['est']:
        hit = first(order, f'{b}.instr')
        ask.res.count('instruments')
        ask.call('instrument', f'get_instrument({b})', lambda: int(str(reader.get_instrument(b).parameters[0].value)), hit and hit[0].files[hit[1]], b)
    # an instrument file which exists is meant itself, however it is written, whatever the registries have
    b = r.choice(INSTRS + ['est'])
    sub = Path(r.choice(['.', 'sub dir']))
    sub.mkdir(exist_ok=True)
    f = sub / f'{b}.instr'
    f.write_text(f'DEFINE INSTRUMENT {b.replace(".", "_")}(int mark=987654)\nTRACE\nEND\n')
    ask.res.count('own_files')
    spelled = r.choice([f, str(f), f.absolute(), str(f.absolute()), str(f.with_suffix('')), f'./{f}'])
    ask.same('instrument', f'get_instrument({spelled!r}), a file in the working directory', int(str(reader.get_instrument(spelled).parameters[0].value)), 987654)
    f.unlink()
    return comps


def instrument(regs, bag, r, ask, res, scratch):
    """an instrument whose text names further registries by SEARCH"""
    from mccode_antlr.loader.loader import parse_mccode_instr
    from mccode_antlr.reader import Reader
    r.shuffle(regs)
    given = [g for g in regs if g.kind == 'memory' or r.random() < .6]
    order, lines, known, wanted = by_priority(given), [], {}, []
    searched = 0

    def search():
        nonlocal order, searched
        g = r.choice([g for g in regs if g.kind != 'memory'] or [None])
        if g is None or (g in given and g.kind != 'local'):
            return None
        spec = search_spec(g, r)
        order = [g] + [x for x in order if x is not g]
        searched += 1
        res.count('searched')
        if r.random() < .2:
            k = scratch / f'spec{searched}.txt'
            k.write_text(spec + '\n' + r.choice(['', '\n']))
            return f"SEARCH SHELL \"cat '{k}'\""
        return f'SEARCH "{spec}"'
    lines.append('DEFINE INSTRUMENT main(double q=1)')
    if r.random() < .6:
        s = search()
        if s:
            lines.append(s)
    data = r.choice(DATA)
    lines.append(f'DEPENDENCY "-DX=GETPATH({data})"')
    libs = r.sample(LIBS, r.choice([0, 1, 2]))
    lines.append('DECLARE %{\n' + ''.join(f'%include "{x}"\n' for x in libs) + '%}\nTRACE')
    last = None
    missing = None
    for i in range(r.randrange(1, 6)):
        if r.random() < .35:
            s = search()
            if s:
                lines.append(s)
        b = r.choice(COMPS)
        hit = first(order, f'{b}.comp')
        if b in known:
            hit = known[b]
        if hit is None:
            if r.random() < .1 and missing is None:
                missing = b
                lines.append(f'COMPONENT c{i} = {b}() AT (0,0,0) ABSOLUTE')
                break
            continue
        known.setdefault(b, hit)
        lines.append(f'COMPONENT c{i} = {b}() AT (0,0,0) ABSOLUTE')
        wanted.append((f'c{i}', b, hit[0].files[hit[1]]))
    lines.append('END')
    text = '\n'.join(lines) + '\n'
    ask.case = lambda text=text, c=ask.case: dict(c(), instrument=text, given=[g.name for g in given])
    objs = [g.obj for g in given] + [R.runtime_registry()]
    objs[-1].priority = -50
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if r.random() < .5:
                instr = parse_mccode_instr(text, objs)
            else:
                f = scratch / 'main.instr'
                f.write_text(text)
                instr = Reader(registries=objs).get_instrument(f)
    except Exception as ex:
        if missing is not None and missing in str(ex):
            res.count('refused')
        else:
            ask.fail('parse', f'instrument is not accepted: {short_tb(ex, 4)}')
        return
    if missing is not None:
        ask.fail('parse:unknown', f'component type {missing} is accepted although no registry has it')
        return
    got = [(i.name, i.type.name, int(str(i.type.get_parameter('mark').value))) for i in instr.components]
    ask.same('instances', 'the component types of the instrument (name, type, mark)', got, wanted)
    hit = first(order, data)
    ask.res.count('getpath')
    want = '-DX=.' if hit is None else '-DX=' + (path_of(*hit) or f'/proc/memory/{hit[1]}')
    flags = instr.decoded_flags()
    ask.same('getpath', f'GETPATH({data})', [os.path.relpath(f[4:], '/') if len(f) > 5 else f for f in flags], [os.path.relpath(want[4:], '/') if len(want) > 5 else want])
    # libraries asked for by the instrument and by the components in use
    need = list(libs)
    for _, b, m in wanted:
        g, f = known[b]
        need += re.findall(r'%include "(.*)"', ask.texts[g.name, f])
    absent = [x for x in need if first(order, f'{x}.h') is None]
    try:
        c = R.translate(instr)
    except R.Broken as ex:
        if absent and any(x in str(ex) for x in absent):
            res.count('refused')
        else:
            ask.fail('include', f'translation failed although the libraries {need} are known: {ex}')
        return
    if absent:
        ask.fail('include:unknown', f'%include of {absent} is accepted although no registry has it')
        return
    for what, ext in (('header', 'h'), ('source', 'c')):
        want = sorted({first(order, f'{x}.{ext}')[0].files[first(order, f'{x}.{ext}')[1]] for x in need})
        got = sorted(int(x) for x in re.findall(rf'/\* {what} mark (\d+) \*/', c))
        ask.same('included', f'the {what} marks of the libraries {sorted(set(need))} in the program', got, want)
    res.count('included')


def one(r, res: Result):
    from mccode_antlr.reader import Reader
    scratch = Path(tempfile.mkdtemp(prefix='reg'))
    old, here = os.environ.get('XDG_CACHE_HOME'), os.getcwd()
    os.environ['XDG_CACHE_HOME'] = str(scratch / 'cache')
    (scratch / 'cwd').mkdir()
    os.chdir(scratch / 'cwd')
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            regs, bag, texts = world(r, scratch)
            res.count('remote', sum(g.kind in ('module', 'github') for g in regs))
            history, made = [], [g.obj for g in regs]
            desc = {g.name: (g.kind, g.priority, g.where, g.files) for g in regs}

            def case():
                return dict(registries=desc, history=list(history))
            order = list(regs)
            r.shuffle(order)
            k = r.randrange(1, len(order) + 1)
            given, rest = order[:k], order[k:]
            history.append(['given'] + [g.name for g in given])
            objs = [g.obj for g in given]
            reader = Reader(registries=objs)
            order = by_priority(given)
            ask = Ask(res, texts, case, 'reader')
            ask.same('order', 'the list given to Reader', [x.name for x in objs], [g.name for g in given])
            while rest or r.random() < .2:
                if not rest:
                    g = r.choice([g for g in order if g.kind == 'local'] or [None])
                    if g is None:
                        break
                    how = 'search'
                else:
                    g = rest.pop()
                    how = r.choice(['prepend', 'append'] + (['search'] if g.kind != 'memory' else []))
                spec = search_spec(g, r) if how == 'search' else None
                history.append([how, g.name, spec])
                if how == 'search':
                    res.count('searched')
                    try:
                        reader.handle_search_keyword(spec)
                    except Exception as ex:
                        ask.fail('search-spec', f'SEARCH {spec!r} is refused: {short_tb(ex)}')
                        return
                    new = reader.registries[0]
                    if g in order:
                        ask.same('search-known', f'SEARCH {spec!r} of a known directory', any(x is g.obj for x in reader.registries), True)
                    g.obj = new
                    if new.name != g.name:   # a path alone names the registry after itself
                        g.name, was = new.name, g.name
                        for f in g.files:
                            texts[g.name, f] = texts[was, f]
                    order = [g] + [x for x in order if x is not g]
                elif how == 'prepend':
                    reader.prepend_registry(g.obj)
                    order = [g] + order
                else:
                    reader.append_registry(g.obj)
                    order = order + [g]
            ask_reader(reader, order, bag, r, ask)
            common = len({f.split('/')[-1] for g in order for f in g.files}) < sum(len({f.split('/')[-1] for f in g.files}) for g in order)
            res.case([desc, history], common, None)
            for g, obj in zip(regs, made):
                g.obj = obj
                if g.name != obj.name:
                    g.name, was = obj.name, g.name
                    for f in g.files:
                        texts[g.name, f] = texts[was, f]
            instrument(list(regs), bag, r, Ask(res, texts, case, 'instrument'), res, scratch)
    finally:
        os.chdir(here)
        if old is None:
            os.environ.pop('XDG_CACHE_HOME', None)
        else:
            os.environ['XDG_CACHE_HOME'] = old
        shutil.rmtree(scratch, ignore_errors=True)


def run(desc, res: Result):
    for n in range(desc['per']):
        one(rng('c19', desc['seed'], desc['n'], n), res)
