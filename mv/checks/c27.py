"""C27: configuration and cache commands touch only what they name."""
import contextlib, copy, importlib, io, json, os, re, shutil, sys, tempfile
from pathlib import Path
from ..core import Result, rng, short_tb

RULE = ('cache remove/list commands (plain names, missing ones, names of links, "..", ".", absolute and nested paths, empty names; with and without force, any answer at the prompt, also end of input) run through the command line entry point in '
        'a forked process of an unprivileged user against a scratch cache with neighbours of similar names; the file tree before and after is compared and removals outside the scratch cache are refused by an audit hook and reported. '
        'Sequences of config set/get/unset/list/save and reloads run against a scratch configuration directory (defaults, a user file, values set before) and are compared with a model of nested dictionaries; distinct = command sequences')
ASSUMPTIONS = ['unset removes the value for this process; after save and reload a value with a default has its default again', 'a group (flags) is not itself set to a value', 'whether a nested name (a/b) is refused or removes exactly that is left open']
MINIMUM = {'quick': dict(evaluations=3000, distinct=2500, removals=250, refused=250, kept=500, prompts=250, config_commands=6000, reloads=700, hostile=400), 'thorough': dict(evaluations=40000, distinct=30000)}
NOBODY = 65534


def prepare(tier):
    d = Path(tempfile.gettempdir())   # the scratch directory of this run; the unprivileged process has to reach below it
    for x in (d, d.parent):
        if x.name.startswith(('mv-', 'tmp')) and x != Path('/tmp'):
            os.chmod(x, 0o711)


def chunks(tier, seed):
    n, per = (32, 110) if tier == 'quick' else (200, 220)
    return [dict(seed=seed, n=i, per=per) for i in range(n)]


def tree(d: Path):
    out = {}
    for base, dirs, files in os.walk(d):
        for x in dirs + files:
            p = Path(base) / x
            out[str(p.relative_to(d))] = 'link ' + os.readlink(p) if p.is_symlink() else p.read_text() if p.is_file() else 'dir'
    return out


def in_child(scratch: Path, env, work, allowed):
    """run work() in a forked, unprivileged process in which nothing outside `allowed` can be removed; its answer"""
    rd, wr = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            escapes = []

            def hook(event, args):
                if event in ('shutil.rmtree', 'os.remove', 'os.rmdir', 'os.rename', 'os.truncate', 'shutil.move', 'subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn'):
                    if event.startswith(('subprocess', 'os.system', 'os.exec', 'os.posix')):
                        escapes.append(f'{event} {args[:2]}')
                        raise PermissionError(event)
                    dir_fd = args[1] if len(args) > 1 and isinstance(args[1], int) else -1
                    p = os.fspath(args[0]) if not isinstance(args[0], int) else ''
                    base = os.readlink(f'/proc/self/fd/{dir_fd}') if dir_fd >= 0 else os.getcwd()
                    full = os.path.join(base, p)
                    real = os.path.join(os.path.realpath(os.path.dirname(full.rstrip('/'))), os.path.basename(full.rstrip('/')))
                    real = os.path.normpath(real)
                    if not (real + '/').startswith(str(allowed) + '/'):
                        escapes.append(f'{event} {real}')
                        raise PermissionError(real)
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 0), os.dup2(null, 1), os.dup2(null, 2)
            os.chdir(scratch)
            for k in [k for k in os.environ if k.startswith('MCCODEANTLR_')]:
                del os.environ[k]
            os.environ.update(env)
            if os.getuid() == 0:
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)
            sys.addaudithook(hook)
            try:
                answer = work()
            except BaseException as ex:
                answer = dict(error=short_tb(ex, 3), kind=type(ex).__name__)
            answer['escapes'] = escapes
            with os.fdopen(wr, 'w') as f:
                json.dump(answer, f, default=str)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as f:
        text = f.read()
    os.waitpid(pid, 0)
    return json.loads(text) if text else dict(error='the process ended early', escapes=[])


def command(argv, answer=None):
    """one command line; what it printed, and how often it asked"""
    import builtins
    from mccode_antlr.cli.management import mccode_management
    asked = []

    def ask(prompt=''):
        asked.append(str(prompt))
        if answer is None:
            raise EOFError
        return answer
    old, old_in = sys.argv, builtins.input
    sys.argv, builtins.input = ['mccode-antlr', *argv], ask
    out = io.StringIO()
    error = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            mccode_management()
    except SystemExit as ex:
        error = f'exit {ex.code}' if ex.code else None
    except Exception as ex:
        error = short_tb(ex, 3)
    finally:
        sys.argv, builtins.input = old, old_in
    return dict(out=out.getvalue(), asked=asked, error=error)


def own(d: Path):
    if os.getuid() == 0:
        for base, dirs, files in os.walk(d):
            for x in [base] + [os.path.join(base, f) for f in files]:
                os.chown(x, NOBODY, NOBODY, follow_symlinks=False)


PACKAGES = ['mcstas', 'mcxtrace', 'libc', 'mcstas2', 'mc', 'my pack', 'é', 'mcstas.old']
VERSIONS = ['v3.5.1', 'v3.5', 'v3.5.11', 'main', 'v3', '1.0']


def cache_case(r, res, d: Path):
    root = d / 'home' / 'mccode_antlr'
    packs = r.sample(PACKAGES, r.choice([1, 2, 3, 4]))
    for x in (root, d / 'home' / 'mccode_antlr2', d / 'home' / 'other', d / 'outside' / 'deep'):
        x.mkdir(parents=True, exist_ok=True)
        (x / 'file.txt').write_text(x.name)
    for p in packs:
        for v in r.sample(VERSIONS, r.choice([0, 1, 2, 3])):
            (root / p / v / 'sub').mkdir(parents=True, exist_ok=True)
            (root / p / v / 'a.comp').write_text(p + v)
            (root / p / v / 'sub' / 'b.comp').write_text('b')
            if r.random() < .2:
                (root / p / v / 'elsewhere').symlink_to(d / 'outside')
        (root / p).mkdir(exist_ok=True)
    link = r.random() < .3
    if link:
        (root / 'link').symlink_to(d / 'outside')
    own(d)
    k = r.random()
    hostile = False
    version = None
    if k < .45:
        name = r.choice(packs + PACKAGES[:3])
        if r.random() < .6:
            version = r.choice([*(x.name for x in (root / name).glob('*') if x.is_dir()), *VERSIONS])
    elif k < .6:
        name = None
    else:
        hostile = True
        bad = ['..', '../other', '../mccode_antlr2', str(d / 'outside'), '/', '', './..', f'{packs[0]}/../../other', '../../outside/deep', str(d), '.', './', '~', '*', '../mccode_antlr'] + (['link', 'link/deep', 'link/'] if link else [])
        if r.random() < .65:
            name = r.choice(bad)
            version = r.choice([None, None, 'deep', '..', 'v3.5'])
        else:
            name = r.choice(packs)
            version = r.choice(['..', '../..', '../../other', '', '.', str(d / 'outside'), '/', '../../../outside', '*', f'../{packs[-1]}', '../../mccode_antlr2'])
    force = r.random() < .5
    answer = r.choice(['y', 'Y', 'yes', 'YES', 'n', 'no', '', 'ye', 'yess', 'nyes', None, 'force', '1'])
    argv = ['cache', 'remove'] + ([] if name is None else [name]) + ([] if version is None else [version])
    if force:
        argv.insert(r.choice([2, len(argv)]), r.choice(['-f', '--force']))
    before = tree(d)
    case = dict(argv=argv, answer=answer, packs={p: sorted(x.name for x in (root / p).iterdir()) for p in packs})
    res.case(case, sample=case)
    got = in_child(d, dict(XDG_CACHE_HOME=str(d / 'home'), HOME=str(d / 'home')), lambda: command(argv, answer), root)
    after = tree(d)
    gone = sorted(set(before) - set(after))
    bad = lambda mech, msg: res.violate(mech, f'{msg}; the command said {got.get("out")!r} {got.get("error")!r}', case)
    if got['escapes']:
        return bad('outside', f'{argv} tried to remove what is outside of the cache: {got["escapes"][:2]}')
    other = {k: (before[k], after.get(k)) for k in before if k in after and before[k] != after[k]} or {k: v for k, v in after.items() if k not in before}
    if other:
        return bad('changed', f'{argv} changed or made {list(other.items())[:2]}')
    agreed = force or (got.get('asked') and answer is not None and answer.strip().lower() in ('y', 'yes'))
    if not force:
        res.count('prompts')
    if force and got.get('asked'):
        return bad('asked', f'{argv} asked {got["asked"]}')
    if hostile:
        res.count('hostile')
        inside = [x for x in gone if x.startswith('home/mccode_antlr/') or x == 'home/mccode_antlr']
        if gone != inside:
            return bad('outside', f'{argv} removed {sorted(set(gone) - set(inside))[:3]}')
        if gone:
            parts = [x for x in (name, version) if x is not None]
            exact = os.path.normpath(os.path.join('home/mccode_antlr', *parts)) if parts and all(x.strip('./') and '..' not in x for x in parts) else None
            if exact is None or not agreed or any(not (x + '/').startswith(exact + '/') for x in gone):
                return bad('unnamed', f'{argv} removed {gone[:3]}')
        else:
            res.count('refused')
        return
    target = 'home/mccode_antlr' + (f'/{name}' if name is not None else '') + (f'/{version}' if version is not None else '')
    want = sorted(x for x in before if (x + '/').startswith(target + '/')) if agreed else []
    # without confirmation, or where there is nothing of that name, nothing is removed
    if gone != want:
        extra, missing = sorted(set(gone) - set(want)), sorted(set(want) - set(gone))
        return bad('removed', f'{argv} (answer {answer!r}) ' + (f'also removed {extra[:3]}' if extra else f'did not remove {missing[:3]}'))
    res.count('removals' if want else 'kept')


def list_case(r, res, d: Path):
    root = d / 'home' / 'mccode_antlr'
    root.mkdir(parents=True)
    packs = r.sample(PACKAGES, r.choice([0, 1, 3]))
    for p in packs:
        (root / p).mkdir()
        for v in r.sample(VERSIONS, r.choice([0, 1, 3])):
            (root / p / v).mkdir()
    (root / 'a file').write_text('x')
    own(d)
    name = r.choice([None, *packs])
    argv = ['cache', 'list'] + ([] if name is None else [name]) + r.choice([[], ['-l'], ['--long']])
    case = dict(argv=argv, packs=packs)
    res.case([argv, tree(d)])
    before = tree(d)
    got = in_child(d, dict(XDG_CACHE_HOME=str(d / 'home'), HOME=str(d / 'home')), lambda: command(argv), root)
    where = root if name is None else root / name
    want = sorted(str(x) if argv[-1].startswith('-') else x.name for x in where.iterdir() if x.is_dir())
    lines = [x.strip() for x in got.get('out', '').splitlines()[1:] if x.strip()]
    if sorted(lines) != want:
        res.violate('cache list', f'{argv} lists {lines}, there are {want}: {got}', case)
    elif tree(d) != before or got['escapes']:
        res.violate('cache list', f'{argv} changed files', case)


# ---------------------------------------------------------------- configuration
KEYS = ['cc', 'ext', 'flags.cc', 'flags.ld', 'flags.nexus', 'mpi.cc', 'mpi.run', 'mccode_pooch.tag', 'mcstas.name', 'mcstas.project', 'acc']
NEW = ['machinefile', 'my.key', 'my.other', 'flags.mine', 'mpi.deep.er', 'x', 'Cc', 'flags2.cc', 'cc2', 'mcstas.prefix2']
VALUES = ['gcc-13', '-O3 -g', '', 'two words', 'a: b', '#no comment', "it's", '"q"', '12', '1.50', 'true', 'null', '- x', '{a', 'é', 'a=b', '%s', '~/x', 'line', 'yes', '[1]', '@NEXUSFLAGS@', 'C:\\x', ' lead']


def get(d, key):
    for k in key.split('.'):
        if not isinstance(d, dict) or k not in d:
            return None
        d = d[k]
    return d


def put(d, key, v):
    *levels, last = key.split('.')
    for k in levels:
        d = d.setdefault(k, {})
    d[last] = v


def drop(d, key):
    *levels, last = key.split('.')
    for k in levels:
        d = d.get(k)
        if not isinstance(d, dict):
            return
    d.pop(last, None)


def overlay(low, high):
    out = copy.deepcopy(low)
    for k, v in high.items():
        out[k] = overlay(out[k], v) if isinstance(v, dict) and isinstance(out.get(k), dict) else copy.deepcopy(v)
    return out


def leaves(d, prefix=''):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out.update(leaves(v, f'{prefix}{k}.'))
        else:
            out[f'{prefix}{k}'] = v
    return out


def config_work(desc, steps):
    """in the child: run the steps, look at the configuration after each"""
    import yaml
    import mccode_antlr.config as package

    def fresh():
        os.environ['MCCODEANTLRDIR'] = desc['dir']
        importlib.reload(package)
        return package.config

    def look():
        return json.loads(json.dumps(package.config.flatten()))
    config = fresh()
    seen = [dict(config=look())] if desc['look'] else [dict(config=None)]
    for s in steps:
        if s[0] == 'reload':
            if s[1]:
                os.environ['MCCODEANTLRDIR'] = desc['dir'] = s[1]
            config = fresh()
            seen.append(dict(config=look()))
            continue
        got = command(['config', *s])
        try:
            got['yaml'] = yaml.safe_load(got['out'])
        except yaml.YAMLError as ex:
            got['yaml'] = f'not yaml: {ex}'
        got['config'] = look() if desc['look'] or s[0] != 'get' else None
        if s[0] in ('get', 'list') and s[-1] != '-v':
            got['resolved'] = None
        seen.append(got)
    return dict(seen=seen)


def defaults():
    import yaml
    from importlib.resources import files
    f = files('mccode_antlr.config')
    return overlay(yaml.safe_load(f.joinpath('platforms.yaml').read_text())['Linux'], yaml.safe_load(f.joinpath('config_default.yaml').read_text()))


def config_case(r, res, d: Path):
    import yaml
    user = {}
    home, save_dir = d / 'conf', d / 'saved'
    home.mkdir()
    save_dir.mkdir()
    for _ in range(r.choice([0, 0, 1, 3])):
        put(user, r.choice(KEYS + NEW[:5]), r.choice(VALUES))
    if user or r.random() < .5:
        (home / 'config.yaml').write_text(yaml.safe_dump(user))
    own(d)
    low = defaults()
    if 'CC' in os.environ:
        put(low, 'cc', os.environ['CC'])
    model = overlay(low, user)
    if 'CC' in os.environ:
        put(model, 'cc', os.environ['CC'])
    files = {str(home): user}
    at = str(home)
    steps, want = [], []
    key = lambda: r.choice(KEYS + NEW)
    touched = []
    for _ in range(r.choice([2, 4, 6, 9])):
        k = r.random()
        if k < .35:
            a, v = key(), r.choice(VALUES)
            if isinstance(get(model, a), dict) or any(isinstance(get(model, '.'.join(a.split('.')[:i])), str) for i in range(1, len(a.split('.')))):
                continue
            put(model, a, v)
            touched.append(a)
            step = ['set', a, v] if not v.startswith('-') else ['set', a, '--', v]
            steps.append(step)
        elif k < .5:
            a = r.choice(touched) if touched and r.random() < .5 else key()
            if isinstance(get(model, a), dict):
                continue
            drop(model, a)
            steps.append(['unset', a])
        elif k < .68:
            a = r.choice([key(), key(), 'flags', 'mpi', 'nope', 'flags.nope', 'my', None])
            steps.append(['get'] + ([] if a is None else [a]) + (['-v'] if r.random() < .2 else []))
        elif k < .8:
            steps.append(['list'] + r.choice([[], ['flags'], ['^mpi'], ['cc'], ['cc$'], ['nothing'], ['.*name'], [r'flags\.']]))
        elif k < .92:
            where = r.choice([None, str(save_dir)])
            files[where or at] = copy.deepcopy(model)
            steps.append(['save'] + ([] if where is None else [where]) + (['-v'] if r.random() < .3 else []))
        else:
            at = r.choice([at, str(save_dir) if str(save_dir) in files else at])
            steps.append(['reload', at])
            model = overlay(low, files.get(at, {}))
            if 'CC' in os.environ:
                put(model, 'cc', os.environ['CC'])
        want.append(copy.deepcopy(model))
    look = r.random() < .7
    case = dict(user=user, steps=steps, look=look)
    res.case(case, len(steps) > 1, sample=case)
    res.count('config_commands', len(steps))
    res.count('reloads', sum(s[0] == 'reload' for s in steps))
    got = in_child(d, dict(HOME=str(d)), lambda: config_work(dict(dir=str(home), look=look), steps), d)
    bad = lambda mech, msg: res.violate(mech, msg, case)
    if 'seen' not in got:
        return bad('config failed', f'{got}')
    if got['escapes']:
        return bad('outside', f'{got["escapes"]}')
    strip = lambda x: {k: v for k, v in leaves(x or {}).items()}
    for s, w, g in zip(steps, want, got['seen'][1:]):
        if s[0] != 'reload' and g['error']:
            return bad('config error', f'config {s}: {g["error"]}')
        if g['config'] is not None:
            a, b = strip(g['config']), strip(w)
            if {k: str(v) for k, v in a.items()} != {k: str(v) for k, v in b.items()}:
                diff = {k: (a.get(k), b.get(k)) for k in {*a, *b} if str(a.get(k)) != str(b.get(k))}
                return bad('config ' + s[0], f'after {s} the configuration has (actual, expected) {dict(list(diff.items())[:3])}')
        if s[0] == 'get':
            a = s[1] if len(s) > 1 and s[1] != '-v' else None
            v = w if a is None else get(w, a)
            out = g['yaml']
            if a is not None and v is None:
                if isinstance(out, dict) and out.get(a) is not None:
                    return bad('config get', f'{s} prints {g["out"]!r} for a value that is not set')
            else:
                shown = out if a is None else out.get(a) if isinstance(out, dict) else None
                x, y = (leaves(shown), leaves(v)) if isinstance(v, dict) and isinstance(shown, dict) else ({'': shown}, {'': v})
                if {k: str(t) for k, t in x.items()} != {k: str(t) for k, t in y.items()}:
                    return bad('config get', f'{s} prints {g["out"][:200]!r}, the value is {str(v)[:200]!r}')
        elif s[0] == 'list':
            shown = leaves(g['yaml'] or {})
            y = {k: v for k, v in leaves(w).items() if len(s) < 2 or re.search(s[1], k)}
            if {k: str(t) for k, t in shown.items()} != {k: str(t) for k, t in y.items()}:
                return bad('config list', f'{s} prints {str(shown)[:300]}, expected {str(y)[:300]}')
    final = {str(home): home / 'config.yaml', str(save_dir): save_dir / 'config.yaml'}
    for where, f in final.items():
        if where in files and f.exists():
            a, b = leaves(yaml.safe_load(f.read_text()) or {}), leaves(files[where])
            if {k: str(v) for k, v in a.items()} != {k: str(v) for k, v in b.items()}:
                return bad('config save', f'{f.name} in {Path(where).name} has {str(a)[:300]}, expected {str(b)[:300]}')
        elif files.get(where) and not f.exists():
            return bad('config save', f'nothing was saved in {Path(where).name}')
    for f in d.rglob('*'):
        if f.is_file() and f not in final.values():
            return bad('config save', f'{f.relative_to(d)} was written')


def run(desc, res: Result):
    import mccode_antlr.cli.management, pooch, yaml, confuse, platformdirs  # noqa: loaded before the process gives up its rights
    for n in range(desc['per']):
        r = rng('c27', desc['seed'], desc['n'], n)
        d = Path(os.path.realpath(tempfile.mkdtemp(prefix='mgm')))
        os.chmod(d, 0o755)
        if os.getuid() == 0:
            os.chown(d, NOBODY, NOBODY)
        try:
            (config_case if n % 2 else list_case if n % 20 == 0 else cache_case)(r, res, d)
        except Exception as ex:
            res.count('harness_errors')
            res.unsure(short_tb(ex, 5))
        finally:
            shutil.rmtree(d, ignore_errors=True)


def not_saved():
    d = Path(os.path.realpath(tempfile.mkdtemp(prefix='mgm')))
    try:
        import mccode_antlr.cli.management, pooch, yaml, confuse, platformdirs  # noqa
        os.chmod(d, 0o755)
        if os.getuid() == 0:
            os.chown(d, NOBODY, NOBODY)
        got = in_child(d, dict(HOME=str(d)), lambda: config_work(dict(dir=str(d), look=True), [['set', 'cc', 'clang-99'], ['reload', str(d)]]), d)
        if got['seen'][-1]['config'].get('cc') != 'clang-99':
            return 'config set cc clang-99 is forgotten when the command ends'
    finally:
        shutil.rmtree(d, ignore_errors=True)


PROBES = {'set-not-saved': not_saved}
