"""C22: the runner starts the program with what the user asked for."""
import contextlib, io, os, shutil, sys, tempfile
from fractions import Fraction as F
from itertools import product
from pathlib import Path
from ..core import Result, rng, short_tb
from ..lib import recorder
from . import c21

RULE = ('a recording stand-in replaces the compiled program (and the C compiler and mpirun); the run command line (options in every position and spelling), mccode_run_scan, mccode_run and mccode_run_compiled are called with random '
        'options, parameters (numbers, ranges, lists, texts with spaces, quotes, = and non-ASCII letters), output directories, linear and grid scans, dry runs, failing runs, MPI with and without process counts; '
        'the recorded argument vectors are decoded as the McCode runtime decodes them and compared with what was asked, point by point; results are matched with their points; distinct = requests')
ASSUMPTIONS = ['the program is one that reads options as McCode does (-n/--ncount, -s/--seed, -d/--dir, -t/--trace, -g/--gravitation, --bufsiz=, --format=, name=value)', 'values that begin with - are given as name=value', 'a value with a colon is a range']
MINIMUM = {'quick': dict(evaluations=3500, distinct=3000, started=6000, scans=1000, texts=1000, command_lines=1000, compiled=150, mpi=150, dry=150, failing=150, compiled_run_instr=80, programs_made=50),
           'thorough': dict(evaluations=80000, distinct=60000, started=150000)}
HOME = None


def prepare(tier):
    global HOME
    HOME = Path(tempfile.mkdtemp(prefix='mv22'))
    recorder.build(HOME)


def chunks(tier, seed):
    n, per = (32, 130) if tier == 'quick' else (200, 500)
    return [dict(seed=seed, n=i, per=per, exe=str(HOME / 'recorder')) for i in range(n)]


TEXTS = ['a', 'two words', 'file.dat', 'x=y', '"quoted"', "it's", 'é ü', 'C\\new', '$HOME', '*', ' lead', 'a,b', '1 2', 'a;b', '`x`', 'tab\there', '']


def decode(argv):
    """options and parameters as the McCode runtime reads them; lists, so that repeats are seen"""
    opts, pars, i = {}, [], 0
    put = lambda k, v: opts.setdefault(k, []).append(v)
    short = {'-n': 'ncount', '-s': 'seed', '-d': 'dir', '--ncount': 'ncount', '--seed': 'seed', '--dir': 'dir', '--format': 'format', '--bufsiz': 'bufsiz'}
    while i < len(argv):
        a = argv[i]
        if a in short:
            i += 1
            put(short[a], argv[i] if i < len(argv) else None)
        elif a.startswith('--') and '=' in a and a[:a.index('=')] in short:
            put(short[a[:a.index('=')]], a[a.index('=') + 1:])
        elif a in ('-t', '--trace', '--trace=1'):
            put('trace', True)
        elif a in ('-g', '--gravitation', '--gravity'):
            put('gravitation', True)
        elif not a.startswith('-') and '=' in a:
            pars.append(tuple(a.split('=', 1)))
        else:
            put('unknown', a)
        i += 1
    return opts, pars


def agrees(text, want):
    if isinstance(want, str):
        return text == want
    try:
        return c21.close(float(text), F(want))
    except ValueError:
        return False


class Scene:
    def __init__(self, r, exe):
        self.r, self.exe = r, exe
        self.dir = Path(tempfile.mkdtemp(prefix='run22'))
        self.log = self.dir / 'log'
        self.work = self.dir / r.choice(['work', 'my work', 'wörk'])
        self.work.mkdir()

    def place(self, name):
        t = self.work / name
        t.parent.mkdir(exist_ok=True, parents=True)
        shutil.copy(self.exe, t)
        t.chmod(0o700)
        return t


def request(r):
    """options, parameters (name -> text, values), grid"""
    o = {}
    for k, p, v in (('ncount', .6, lambda: r.choice([1, 10, 12345, 10 ** 9])), ('seed', .5, lambda: r.choice([0, 1, 42, 2 ** 31 + 7])), ('trace', .3, lambda: True), ('gravitation', .3, lambda: True),
                    ('bufsiz', .25, lambda: r.choice([0, 1000])), ('format', .3, lambda: r.choice(['NeXus', 'McCode', 'Matlab "binary"', 'two words']))):
        if r.random() < p:
            o[k] = v()
    grid = r.random() < .4
    names = r.sample(c21.NAMES[:-1], r.choice([1, 1, 2, 2, 3, 4]))
    n = r.choice([1, 1, 2, 3, 4])
    texts, want = {}, {}
    for k in names:
        if n > 1 and r.random() < .6:
            t, pts, _ = c21.a_range(r, n if not grid else r.choice([2, 3]))
            texts[k], want[k] = t, pts
        elif r.random() < .5:
            t = c21.number(r)
            texts[k], want[k] = t, [F(t)]
        else:
            t = r.choice(TEXTS)
            texts[k], want[k] = t, [t]
    if (grid or len(names) == 1) and r.random() < .05:   # a range between two ends that no step joins
        k = r.choice(names)
        texts[k], want[k] = r.choice(['5:1:3', '0:-1:2.5', '-1:0.5:-2']), []
    if grid:
        pts = [dict(zip(names, p)) for p in product(*want.values())]
    else:
        m = max(len(w) for w in want.values())
        pts = [{k: w[i] if len(w) > 1 else w[0] for k, w in want.items()} for i in range(m)]
    return o, names, texts, want, grid, pts


def command(r, o, texts, names, filename, directory, extra):
    """one spelling of a request as a command line"""
    groups = []
    for k, v in o.items():
        flag = {'ncount': ['-n', '--ncount'], 'seed': ['-s', '--seed'], 'trace': ['-t', '--trace'], 'gravitation': ['-g', '--gravitation'], 'bufsiz': ['--bufsiz'], 'format': ['--format']}[k]
        f = r.choice(flag)
        groups.append([f] if v is True else [f'{f}={v}'] if f.startswith('--') and r.random() < .5 else [f, str(v)])
    if directory is not None:
        groups.append(r.choice([['-d', directory], ['--directory', directory], [f'--directory={directory}']]))
    groups += extra
    pars = []
    for k in names:
        pars.append([k, texts[k]] if '=' not in texts[k] and not texts[k].startswith('-') and texts[k] and r.random() < .25 else [f'{k}={texts[k]}'])
    r.shuffle(groups)
    # the file name comes before the parameters, options anywhere but inside a pair
    line = [[filename]] + pars
    for g in groups:
        line.insert(r.randint(0, len(line)), g)
    return [a for g in line for a in g]


def made_program(s, o, embed, names, res, bad):
    """the program which was compiled, compiled in earnest: it can be traced, and has its source, if that is asked for"""
    from types import SimpleNamespace
    from ..lib import progrun as R
    try:
        exe = R.build(Path(f'{s.log}.src').read_text(), s.dir, flags=('-O0',))
        rc, log, _, err = R.execute(exe, s.dir, SimpleNamespace(args={k: '1' for k in names}, nrays=0, saves=0, seed=1, mcdisplay=False), name='made-log')
    except R.Broken as ex:
        return bad(ex.mech, str(ex))
    seen = R.Seen(log)
    res.count('programs_made')
    if seen.table is None:
        return bad('made', f'the program ends with status {rc}: {err} {log[:200]}')
    if seen.table['trace'] != int(bool(o.get('trace', False))):
        bad('made-trace', f'the program was made with tracing {seen.table["trace"]}')
    text = (s.work / 'small file.instr').read_text()
    if embed and seen.code != text:
        bad('made-source', f'the source in the program is {seen.code!r}, it is {text!r}')
    if not embed and SECRET in seen.code:
        bad('made-source', f'the source was put into the program unasked: {seen.code!r}')


def instrument(s, name, names, want):
    from mccode_antlr.reader import Reader, LocalRegistry
    from ..lib.progrun import runtime_registry
    write(s, name, names, want)
    (s.work / 'Thing.comp').write_text(COMP)
    return Reader(registries=[runtime_registry(), LocalRegistry('here', str(s.work))]).get_instrument(s.work / 'small file.instr')


def write(s, name, names, want):
    (s.work / 'small file.instr').write_text(INSTR.format(name=name, pars=', '.join(f'{"string" if isinstance(want[k][:1], list) and any(isinstance(x, str) for x in want[k]) else "double"} {k}' for k in names)))


SECRET = 'a secret "of" 100% \\n ü'
INSTR = '/* ' + SECRET + ' */\nDEFINE INSTRUMENT {name}({pars})\nTRACE\nCOMPONENT a = Thing() AT (0,0,0) ABSOLUTE\nEND\n'
COMP = 'DEFINE COMPONENT Thing\nSETTING PARAMETERS (double u=1)\nTRACE %{ %}\nEND\n'


@contextlib.contextmanager
def surroundings(s, argv=None, fail=None):
    from mccode_antlr.config import config
    from mccode_antlr.compiler import check
    old_cwd, old_argv, old_check = os.getcwd(), sys.argv, check.simple_instr_compiles
    null, keep = os.open(os.devnull, os.O_WRONLY), (os.dup(1), os.dup(2))
    sys.stdout.flush(), sys.stderr.flush()
    os.chdir(s.work)
    os.dup2(null, 1), os.dup2(null, 2)
    os.environ['MV_REC'] = str(s.log)
    os.environ.pop('MV_REC_FAIL', None)
    if fail is not None:
        os.environ['MV_REC_FAIL'] = str(fail)
    cc, mpicc, mpirun = (s.dir / x for x in ('mvcc', 'mvcc-mpi', 'mpirun-stand-in'))
    for x in (cc, mpicc, mpirun):
        if not x.exists():
            shutil.copy(s.exe, x)
    before = config['cc'].get(), config['mpi']['cc'].get(), config['mpi']['run'].get()
    config['cc'], config['mpi']['cc'], config['mpi']['run'] = str(cc), str(mpicc), str(mpirun)
    check.simple_instr_compiles = lambda which: True
    if argv is not None:
        sys.argv = ['mcrun-antlr', *argv]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        config['cc'], config['mpi']['cc'], config['mpi']['run'] = before
        check.simple_instr_compiles = old_check
        sys.argv = old_argv
        os.chdir(old_cwd)
        os.dup2(keep[0], 1), os.dup2(keep[1], 2)
        for fd in (null, *keep):
            os.close(fd)
        os.environ.pop('MV_REC_FAIL', None)


def one(r, res, exe):
    s = Scene(r, exe)
    try:
        _one(r, res, s)
    finally:
        shutil.rmtree(s.dir, ignore_errors=True)


def _one(r, res, s):
    from mccode_antlr.compiler.c import CBinaryTarget
    from mccode_antlr.run import runner
    o, names, texts, want, grid, pts = request(r)
    how = r.choices(['line', 'line-instr', 'scan', 'run', 'compiled'], [.35, .12, .3, .15, .08 if pts else 0])[0]
    dry = r.random() < .07
    fail = r.randrange(len(pts)) if pts and not dry and r.random() < .08 else None
    mpi = how in ('line', 'scan', 'run') and r.random() < .12
    procs = r.choice([None, 1, 4, 16]) if mpi else None
    outs = r.choice(['out', 'out dir', 'sub/out', 'œut', str(s.dir / 'elsewhere')])
    directory = outs if how in ('scan', 'compiled') or r.random() < .7 else None
    name = r.choice(['prog', 'my prog', 'prog.out', 'prög', 'a.b'])
    extra = []
    if dry:
        extra.append(['--dryrun'])
    if grid:
        extra.append([r.choice(['-m', '--mesh'])])
    if mpi:
        extra.append(['--parallel'])
        if procs is not None:
            extra.append(r.choice([['--process-count', str(procs)], [f'--process-count={procs}']]))
    case = dict(how=how, options=o, texts=texts, grid=grid, directory=directory, dry=dry, fail=fail, mpi=mpi, procs=procs, name=name)
    bad = lambda mech, msg: res.violate(mech, f'{msg}; asked: {case}', case)
    results, error, embed = None, None, False
    started_by = name
    pname = lambda: {k: v for k, v in o.items()}
    try:
        if how == 'line':
            exe = s.place(name)
            fn = r.choice([name, './' + name, str(exe)])
            argv = case['argv'] = command(r, o, texts, names, fn, directory, extra)
            with surroundings(s, argv, fail):
                if r.random() < .5:
                    runner.mcstas_cmd()
                else:
                    runner.mcxtrace_cmd()
            res.count('command_lines')
        elif how == 'line-instr':
            from mccode_antlr.reader.registry import InMemoryRegistry
            from mccode_antlr.translators.target import MCSTAS_GENERATOR
            from ..lib.progrun import runtime_registry
            started_by = iname = r.choice(['small', 'Instr_2'])
            write(s, iname, names, want)
            where = r.choice(['cwd', 'search', 'both'])
            if where != 'search':
                (s.work / 'Thing.comp').write_text(COMP)
            if where != 'cwd':
                (s.dir / 'more comps').mkdir()
                (s.dir / 'more comps' / 'Thing.comp').write_text(COMP)
                extra.append(r.choice([['-I', str(s.dir / 'more comps')], [f'--search-dir={s.dir}/more comps']]))
            if r.random() < .4:
                started_by = r.choice(['bin.exe', 'my bin'])
                extra.append(r.choice([['-o', started_by], [f'--output-file={started_by}']]))
            else:
                started_by += '.out'
            if r.random() < .4:
                embed = True
                extra.append(['--source'])
            argv = case['argv'] = command(r, o, texts, names, 'small file.instr', directory, extra)
            with surroundings(s, argv, None if fail is None else fail + 1):
                runner.mccode_run_cmd('mcstas', runtime_registry(), MCSTAS_GENERATOR)
            res.count('compiled')
            res.count('command_lines')
        else:
            made = how == 'run' and r.random() < .35  # the program is to be made from the instrument
            exe = None if made else s.place(name)
            pars = c21_parameters(r, names, texts, want)
            case['parameters'] = {k: str(v) for k, v in pars.items()}
            target = CBinaryTarget(mpi=mpi, count=0 if procs is None else procs)
            if how == 'scan':
                given = dict(o)
                for k, alias in (('ncount', 'n'), ('seed', 's'), ('trace', 't'), ('gravitation', 'g')):
                    if k in given and r.random() < .2:
                        given[alias] = given.pop(k)
                if r.random() < .3:
                    given.update({k: None for k in ('ncount', 'seed', 'format') if k not in given and k[0] not in given})
                where = r.choice([Path, str])(directory)
                case['given'] = given
                with surroundings(s, None, fail):
                    results = runner.mccode_run_scan(name, exe, target, pars, where, grid, dry_run=dry, **given)
            elif how == 'run':
                from types import SimpleNamespace
                given = {{'bufsiz': 'bufsize', 'format': 'fmt'}.get(k, k): v for k, v in o.items()}
                directory = None
                named = r.random() < .5
                inst = SimpleNamespace(name='other' if named else name)
                f = r.choice([runner.mcstas_run, runner.mcxtrace_run, None])
                if made:
                    how = 'run-instr'
                    inst, f = instrument(s, 'Other' if named else 'Made', names, want), runner.mcstas_run
                    name = started_by = case['name'] = name if named else 'Made'
                where = r.choice([Path, str])(s.work)
                kw = dict(mesh=grid, dryrun=dry, parallel=mpi, process_count=0 if procs is None else procs, **({'binary_name': name} if named else {}), **given)
                if made and r.random() < .4:
                    embed = kw['source'] = True
                with surroundings(s, None, fail + 1 if made and fail is not None else fail):
                    results = f(inst, where, pars, **kw) if f else runner.mccode_run(inst, {}, pars, where, **kw)
            else:
                del pts[1:]
                fail = case['fail'] = None if fail is None else 0
                words = runner.mccode_runtime_dict_to_args_list(o) + [f'{k}={text_of(v)}' for k, v in pts[0].items()]
                (s.work / directory).parent.mkdir(exist_ok=True)
                with surroundings(s, None, fail):
                    results = runner.mccode_run_compiled(exe, target, r.choice([Path, str])(directory), words, dry_run=dry)
    except SystemExit as ex:
        error = ex
    except Exception as ex:
        error = ex
    res.case(case, sample=case)
    seen = recorder.records(s.log)
    if how in ('line-instr', 'run-instr'):
        compiled, seen = seen[:1], seen[1:]
        if not compiled or '/mvcc' not in compiled[0][0]:
            return bad('compile', f'the compiler was not started: {short_tb(error) if error else compiled}')
        res.count('compiled_' + how.replace('-', '_'))
        if r.random() < .2:
            case['embed'] = embed
            made_program(s, o, embed, names, res, bad)
    for k in ('dry', 'mpi'):
        if case[k]:
            res.count(k)
    if len(pts) > 1:
        res.count('scans')
    if not pts:
        res.count('empty')
    res.count('started', len(seen))
    if any(isinstance(x, str) for w in want.values() for x in w):
        res.count('texts')
    if fail is not None:
        res.count('failing')
        if not isinstance(error, RuntimeError):
            return bad('failure', f'run {fail} of the program failed and this was not reported ({error!r})')
        expected = pts[:fail + 1]
    elif error is not None:
        return bad('error', f'the run failed: {short_tb(error, 4)}')
    else:
        expected = [] if dry else pts
    if len(seen) != len(expected):
        return bad('times', f'the program was started {len(seen)} times, {len(expected)} are asked')
    dirs = []
    todo = list(range(len(expected)))
    for n, argv in enumerate(seen):
        if mpi:
            if Path(argv[0]).name != 'mpirun-stand-in':
                return bad('mpi', f'mpirun was not started but {argv[0]}')
            if procs:
                if argv[1:3] not in (['-np', str(procs)], ['-n', str(procs)]):
                    return bad('mpi', f'mpirun got {argv[1:4]}')
                argv = argv[3:]
            else:
                argv = argv[1:]
        if Path(argv[0]).name != started_by or not Path(argv[0]).is_absolute() and '/' not in argv[0]:
            return bad('program', f'the program started is {argv[0]}, not {started_by}')
        opts, pars = decode(argv[1:])
        d = opts.pop('dir', [])
        if len(d) != 1:
            return bad('dir', f'run {n}: output directories {d}: {argv}')
        dirs.append(Path(d[0]) if Path(d[0]).is_absolute() else s.work / d[0])
        if {k: v for k, v in opts.items()} != {k: [v if v is True else str(v)] for k, v in o.items()}:
            return bad('options', f'run {n}: options are {opts}: {argv}')
        if sorted(k for k, _ in pars) != sorted(names):
            return bad('parameters', f'run {n}: parameters are {pars}')
        pars = dict(pars)
        if grid and fail is None and len(expected) > 1:   # any order, each once
            hit = next((i for i in todo if all(agrees(pars[k], v) for k, v in expected[i].items())), None)
            if hit is None:
                return bad('values', f'run {n} has {pars}, which is not one of the points left')
            todo.remove(hit)
        elif grid and fail is not None:
            if not any(all(agrees(pars[k], v) for k, v in p.items()) for p in pts):
                return bad('values', f'run {n} has {pars}, which is not one of the points')
        elif not all(agrees(pars[k], v) for k, v in expected[n].items()):
            return bad('values', f'run {n} has {pars}, the point is { {k: text_of(v) for k, v in expected[n].items()} }')
    if directory is not None and expected:
        asked = Path(directory) if Path(directory).is_absolute() else s.work / directory
        if len(pts) == 1 and dirs[0] != asked:
            return bad('dir', f'the output directory is {dirs[0]}')
        if len(pts) > 1 and any(x.parent != asked for x in dirs):
            return bad('dir', f'the output directories are {dirs}')
    elif expected:
        if any(s.work not in x.parents for x in dirs):
            return bad('dir', f'the output directories are {dirs}, not below the working directory')
    if len(set(dirs)) != len(dirs) or (len(pts) > 1 and [x.name for x in dirs] != [str(i) for i in range(len(dirs))]):
        return bad('dir', f'the output directories are {[x.name for x in dirs]}')
    if results is not None and error is None and not mpi and not dry:
        pairs = results if isinstance(results, list) else [results]
        if len(pairs) != len(expected):
            return bad('results', f'{len(pairs)} results for {len(expected)} points')
        for i, (out, dats) in enumerate(pairs):
            i += how == 'run-instr'  # the compiler was the first to be started
            if b'run %d\n' % i not in (out if isinstance(out, bytes) else out.encode()) or list(dats) != ['mon'] or float(dats['mon'].data.reshape(-1)[0]) != i:
                return bad('results', f'the result of point {i} is {out!r}, {dats}')


def text_of(v):
    return v if isinstance(v, str) else str(int(v)) if v.denominator == 1 else repr(float(v))


def c21_parameters(r, names, texts, want):
    from mccode_antlr.run.range import MRange, Singular, parse_scan_parameters
    if r.random() < .5:
        return parse_scan_parameters([f'{k}={texts[k]}' for k in names])
    out = {}
    for k in names:
        w = want[k]
        if not w:
            out[k] = MRange.from_str(texts[k])
            continue
        num = [x if isinstance(x, str) else int(x) if x.denominator == 1 else float(x) for x in w]
        if len(w) > 1:
            out[k] = MRange.from_str(texts[k]) if r.random() < .5 else num
        else:
            out[k] = r.choice([Singular(num[0]), num, num[0]])
    return out


def run(desc, res: Result):
    for n in range(desc['per']):
        try:
            one(rng('c22', desc['seed'], desc['n'], n), res, desc['exe'])
        except Exception as ex:
            res.count('harness_errors')
            res.unsure(short_tb(ex, 5))
