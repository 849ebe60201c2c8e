"""C26: compilation uses exactly the flags the instrument depends on."""
import contextlib, io, json, os, shutil, tempfile
from collections import Counter
from pathlib import Path
from ..core import Result, rng, short_tb
from ..lib import recorder
from ..lib.progrun import runtime_registry
from ..lib.standard import replaced
from . import c22

RULE = ('random component libraries (DEPENDENCY of words, @keywords@, ENV, GETPATH, CMD, also several and nested ones in a text; copies of definitions and sections; definitions that are not used) and instruments (own DEPENDENCY, includes with removable '
        'instances, CPU instances), parsed one after the other with one Reader, by the loaders, built with an Assembler, copied, or read from their own text, are compiled for cc, MPI, OpenACC and NeXus targets with configured compilers and flags by a '
        'recording compiler; its argument vector is compared, as a multiset and in the order of the words of each dependency, with the one computed from the texts, decoded_flags and the CFLAGS printed with the dependencies; failing '
        'and many-line commands have to be reported; compilers which work, warn, fail, leave nothing, are missing or can not be started (also only with some flags or for some instruments) are told apart in new processes; distinct = sets of dependencies, non-trivial = at least two')
ASSUMPTIONS = ['flags are separated by white space, no quoting', 'a copied definition or section brings the flags of what it is copied from', 'dependencies are told apart by their text; one contained in another as whole words is not repeated',
               'GETPATH of a file no registry has is not specified']
MINIMUM = {'quick': dict(updated_targets=100, replaced=150, evaluations=900, distinct=550, compiled=600, cmd=300, env=300, getpath=300, keyword=400, unused=900, copies=200, reader_again=250, refused=60, compilers_work=150, compilers_refused=300),
           'thorough': dict(evaluations=25000, distinct=14000, compiled=15000)}
HOME = None
FILES = ['mv-data.h', 'table.laz', 'libx', 'only-libc.h']


def prepare(tier):
    global HOME
    HOME = Path(tempfile.mkdtemp(prefix='mv26'))
    recorder.build(HOME)


def chunks(tier, seed):
    n, per = (44, 22) if tier == 'quick' else (260, 100)
    return [dict(seed=seed, n=i, per=per, exe=str(HOME / 'recorder')) for i in range(n)]


class Names:
    def __init__(self, r, conf, env, where):
        self.r, self.conf, self.env, self.where, self.n = r, conf, env, where, 0

    def word(self):
        self.n += 1
        return self.r.choice(['-DM{}', '-lm{}', '-I/opt/m{}', '-DCMD_M{}=1', '-DENV{}', '-Wl,-rpath,/m{}', '-DGETPATH_{}', '-DENVIRON{}=ENV', 'm{}.o', '-L/a-b/m{}', '-DX{}=@']).format(self.n)

    def piece(self, res, depth=0):
        """a piece of a dependency and what it means"""
        r, k = self.r, self.r.random()
        if k < .4:
            w = self.word()
            return w, w
        if k < .6:
            res.count('keyword')
            key = r.choice(['NEXUS', 'GSL', 'XRL', 'nexus', 'Gsl', 'FOO', 'bar', 'MCCODE_LIB', 'UNKNOWN', 'MINE'])
            if key == 'MCCODE_LIB':
                return '-I@MCCODE_LIB@/x', '-I./x'
            if key == 'UNKNOWN':
                return '-DQ=@UNKNOWN@', '-DQ=@UNKNOWN@'
            s = r.choice(['FLAGS', 'FLAGS', 'flags'])
            return f'@{key}{s}@', self.conf.get(key.lower(), f'-l{key.lower()}')
        if k < .75:
            res.count('env')
            v = r.choice(list(self.env) + ['MV26_UNSET'])
            return (lambda t: (f'{t}ENV({v})', t + self.env.get(v, '')))(r.choice(['', '-I', '-DY=']))
        if k < .87:
            res.count('getpath')
            f = r.choice(FILES)
            t = r.choice(['', '-I', '-L', '-DF='])
            return f'{t}GETPATH({f})', t + str(self.where[f])
        res.count('cmd')
        if r.random() < .3:
            v = r.choice(list(self.env))
            return f'CMD(echo -DZ=ENV({v}))', '-DZ=' + ' '.join(self.env[v].split())
        w = self.word()
        return r.choice([(f'CMD(echo {w})', w), (f'-DC=CMD(printf a{self.n})', f'-DC=a{self.n}'), (f"CMD(echo; echo '  {w}  '; echo)", w), (f'CMD(true)', '')]) if '\\' not in w else (w, w)

    def dependency(self, res):
        ps = [self.piece(res) for _ in range(self.r.choice([1, 1, 2, 3]))]
        sep = self.r.choice([' ', ' ', '  '])
        return sep.join(p[0] for p in ps), sep.join(p[1] for p in ps)


def make_comps(r, names, res, prefix=''):
    comps = []
    for i in range(r.randint(2, 7)):
        c = dict(name=f'{prefix}C{i}', dep=names.dependency(res) if r.random() < .65 else None, copy=None, section=None, acc=True)
        if comps and r.random() < .25:
            c['copy'] = r.choice(comps)['name']
            res.count('copies')
        elif comps and r.random() < .15:
            c['section'] = r.choice(comps)['name']
            res.count('copies')
        if r.random() < .1 and comps:   # the same text again
            c['dep'] = r.choice(comps)['dep']
        comps.append(c)
    return comps


def comp_text(c):
    t = f'DEFINE COMPONENT {c["name"]}' + (f' COPY {c["copy"]}' if c['copy'] else '') + '\n'
    if not c['copy']:
        t += 'SETTING PARAMETERS (double u=1)\n'
    if c['dep']:
        t += f'DEPENDENCY "{c["dep"][0]}"\n'
    if c['section']:
        t += f'TRACE COPY {c["section"]}\n'
    elif not c['copy']:
        t += 'TRACE %{ %}\n'
    return t + 'END\n'


def deps_of(by, name):
    """(text, meaning) of a component type, those it is copied from first"""
    c = by[name]
    out = []
    if c['copy']:
        out += deps_of(by, c['copy'])
    if c['dep']:
        out.append(c['dep'])
    if c['section']:
        out += deps_of(by, c['section'])
    return out


def expected(deps):
    """each once; one that is contained in another as whole words is part of it"""
    out = []
    for t, m in deps:
        if not any(f' {t} ' in f' {x} ' for x, _ in out):
            out.append((t, m))
    return out


def contiguous(words, args):
    n = len(words)
    return not n or any(args[i:i + n] == words for i in range(len(args) - n + 1))


def one(r, res: Result, exe):
    from mccode_antlr.config import config
    d = Path(tempfile.mkdtemp(prefix='flags'))
    s = c22.Scene(r, exe)
    keep = {}
    try:
        env = {'MV26_A': r.choice(['/usr/local/x', 'one']), 'MV26_B': r.choice(['two words', 'a  b', 'x=1'])}
        conf = {}
        for k in ('cc', 'ld', 'acc', 'nexus', 'mpi', 'gsl', 'xrl', 'mine'):
            if r.random() < .5 or k == 'mine':
                conf[k] = ' '.join(f'-D{k}{i}' for i in range(r.randint(0 if k != 'mine' else 1, 3))) + r.choice(['', '', r' -DB=\1', r' -DB=\\g'])
        for k, v in env.items():
            os.environ[k] = v
        for k in conf:
            keep[k] = config['flags'][k].get() if config['flags'][k].exists() else None
            config['flags'][k] = conf[k]
        full = {k: config['flags'][k].as_str_expanded() for k in ('cc', 'ld', 'acc', 'nexus', 'mpi', 'gsl', 'xrl', 'mine')}
        _one(r, res, s, d, conf, full, env)
    finally:
        for k, v in keep.items():
            config['flags'][k] = '' if v is None else v
        for k in ('MV26_A', 'MV26_B'):
            os.environ.pop(k, None)
        shutil.rmtree(s.dir, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)


def _one(r, res, s, d, conf, full, env):
    from mccode_antlr.reader.registry import LocalRegistry
    files, libc = d / 'files', d / 'libc'
    files.mkdir(), libc.mkdir()
    for f in FILES:
        ((libc if f == 'only-libc.h' else files) / f).write_text('x')
    for f in r.sample(FILES, r.randint(0, 2)):
        (libc / f).write_text('another')   # the files of the user come first
    with replaced(LIBC_REGISTRY=LocalRegistry('libc', str(libc), -10)):
        _two(r, res, s, d, conf, full, env, files, libc)


def _two(r, res, s, d, conf, full, env, files, libc):
    from mccode_antlr.assembler import Assembler
    from mccode_antlr.compiler.c import CBinaryTarget, compile_instrument
    from mccode_antlr.config import config
    from mccode_antlr.loader.loader import parse_mccode_instr
    from mccode_antlr.reader import Reader
    from mccode_antlr.reader.registry import InMemoryRegistry, LocalRegistry
    from mccode_antlr.translators.target import MCSTAS_GENERATOR
    keywords = {k: full[k] for k in ('nexus', 'gsl', 'xrl', 'mine')}
    names = Names(r, keywords, env, {f: (libc if f == 'only-libc.h' else files).resolve() / f for f in FILES})
    comps = make_comps(r, names, res)
    by = {c['name']: c for c in comps}
    mem = InMemoryRegistry('mem')
    for c in comps:
        mem.add_comp(c['name'], comp_text(c))
    regs = [mem, LocalRegistry('files', str(files)), runtime_registry()]
    texts, many = [], r.choice([1, 2, 3])
    inner = None
    if r.random() < .3:
        inner = dict(dep=names.dependency(res) if r.random() < .5 else None, uses=[(r.choice(comps)['name'], r.random() < .4) for _ in range(r.randint(1, 3))])
        (d / 'inner.instr').write_text('DEFINE INSTRUMENT inner(double qi=1)\n' + (f'DEPENDENCY "{inner["dep"][0]}"\n' if inner['dep'] else '') + 'TRACE\n'
                                       + ''.join(f'{"REMOVABLE " if rm else ""}COMPONENT in{i} = {t}() AT (0,0,0) ABSOLUTE\n' for i, (t, rm) in enumerate(inner['uses'])) + 'END\n')
    reader = Reader(registries=list(regs))
    for k in range(many):
        own = names.dependency(res) if r.random() < .5 else None
        uses = [(r.choice(comps)['name'], r.random() < .1) for _ in range(r.randint(1, 4))]
        with_inner = inner is not None and r.random() < .6
        text = f'DEFINE INSTRUMENT main{k}(double q=1)\n' + (f'DEPENDENCY "{own[0]}"\n' if own else '') + 'TRACE\n'
        if with_inner:
            text += f'%include "{d}/inner.instr"\n'
        text += ''.join(f'{"CPU " if cpu else ""}COMPONENT c{i} = {t}() AT (0,0,0) ABSOLUTE\n' for i, (t, cpu) in enumerate(uses)) + 'END\n'
        types = [t for t, rm in inner['uses'] if not rm] if with_inner else []
        types += [t for t, _ in uses]
        deps = ([own] if own else []) + ([inner['dep']] if with_inner and inner['dep'] else [])
        cdeps = [x for t in dict.fromkeys(types) for x in deps_of(by, t)]
        how = r.choice(['reader', 'reader', 'loader', 'assembler' if not with_inner else 'reader', 'copy', 'again'])
        case = dict(text=text, library=dict(mem.components), inner=(d / 'inner.instr').read_text() if with_inner else None, how=how, before=list(texts), flags={k: v for k, v in conf.items()}, env=env)
        texts.append((how, text))
        bad = lambda mech, msg: res.violate(mech, f'{msg}\n{how}\n{text}\n' + '\n'.join(mem.components.values())[:2500], case)
        res.count('unused', len(comps) - len({*types}))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if how == 'reader':
                    res.count('reader_again', k > 0)
                    (d / f'main{k}.instr').write_text(text)
                    instr = reader.get_instrument(d / f'main{k}.instr')
                elif how == 'assembler':
                    a = Assembler(f'main{k}', registries=list(regs))
                    if own:
                        a.instrument.DEPENDENCY(own[0])
                    for c in r.sample(comps, 2):
                        a.reader.get_component(c['name'])   # looked at, not used
                    for i, (t, cpu) in enumerate(uses):
                        a.component(f'c{i}', t, at=(0, 0, 0), cpu=cpu)
                    instr = a.instrument
                else:
                    instr = parse_mccode_instr(text, list(regs))
                    if how == 'copy':
                        instr = instr.copy()
                    if how == 'again':
                        instr = parse_mccode_instr(str(instr), list(regs))
        except Exception as ex:
            bad('rejected', f'valid instrument is rejected: {short_tb(ex, 4)}')
            continue
        cpu = [('-DFUNNEL', '-DFUNNEL')] if any(c for _, c in uses) else []
        want = expected(deps + cdeps + cpu)
        res.case([sorted(t for t, _ in want), how], len(want) > 1, dict(dependencies=[t for t, _ in want], how=how))
        meant = Counter(w for _, m in want for w in m.split())
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                got = instr.decoded_flags()
        except Exception as ex:
            bad('decode', f'dependencies can not be decoded: {short_tb(ex, 4)}')
            continue
        if Counter(w for g in got for w in g.split()) != meant:
            bad('decoded', f'decoded flags are {got}, expected {[m for _, m in want]}')
            continue
        # compile
        kind = r.choice(['cc', 'cc', 'mpi', 'acc', 'mpi+acc'])
        nexus = r.random() < .3
        target = CBinaryTarget(mpi='mpi' in kind, acc='acc' in kind, count=2, nexus=nexus)
        if r.random() < .2:
            res.count('updated_targets')
            asked = dict(mpi='mpi' in kind, acc='acc' in kind, nexus=nexus)
            kept = r.sample(list(asked), r.randint(0, 3))
            target = CBinaryTarget(**{k: asked[k] if k in kept else r.random() < .5 for k in asked})
            target.update({k: v for k, v in asked.items() if k not in kept})
        out = s.work / f'main{k}.out'
        sub = r.random() < .5
        acc = config['acc'].get()
        try:
            shutil.copy(s.exe, s.dir / 'mvcc-acc')
            config['acc'] = str(s.dir / 'mvcc-acc')
            n0 = len(recorder.records(s.log))
            with c22.surroundings(s):
                result = compile_instrument(instr, target, str(s.work) if sub else out, generator=MCSTAS_GENERATOR,
                                            config=dict(default_main=True, enable_trace=False, portable=False, include_runtime=True, embed_instrument_file=False, verbose=False, output='x.c'))
        except Exception as ex:
            bad('compile', f'compilation failed: {short_tb(ex, 4)}')
            continue
        finally:
            config['acc'] = acc
        res.count('compiled')
        seen = recorder.records(s.log)[n0:]
        if len(seen) != 1:
            bad('compile', f'the compiler was started {len(seen)} times')
            continue
        argv = seen[0]
        compiler = {'cc': 'mvcc', 'mpi': 'mvcc-mpi'}.get(kind, 'mvcc-acc')
        if Path(argv[0]) != s.dir / compiler:
            bad('compiler', f'the compiler started for {kind} is {argv[0]}')
        flags = full['acc' if 'acc' in kind else 'cc'].split() + (full['mpi'].split() if 'mpi' in kind else []) + (full['nexus'].split() if nexus else [])
        extra = ['-D__GNUC__'] if any('OPENACC' in w for w in flags) and any('NeXus' in w for w in flags) else []
        ask = Counter(flags + extra + full['ld'].split() + ['-o', str(result), '-']) + meant
        have = Counter(argv[1:])
        if have != ask:
            bad('command', f'the compiler for {kind}{" nexus" if nexus else ""} is started with {argv[1:]}; missing {list((ask - have).elements())}, not asked for {list((have - ask).elements())}')
            continue
        if Path(result) != out:
            bad('output', f'the program is {result}, not {out}')
        after = argv[argv.index('-') + 1:]
        for t, m in want:
            if not contiguous(m.split(), argv):
                bad('torn', f'the words of {t!r} are not passed together: {argv[1:]}')
            if any(w.startswith('-l') and w not in after for w in m.split()):
                bad('library-first', f'libraries of {t!r} are named before the source: {argv[1:]}')
        # an existing program is only replaced on request
        with c22.surroundings(s):
            compile_instrument(instr, CBinaryTarget(), out, replace=False, generator=MCSTAS_GENERATOR, config={})
        if len(recorder.records(s.log)) != n0 + 1:
            bad('replace', 'an existing program is compiled again although replace is False')
        elif r.random() < .3:
            res.count('replaced')
            Path(out).unlink()   # (it can be a link to the recorder)
            Path(out).write_text('an old program')
            with c22.surroundings(s):
                compile_instrument(instr, CBinaryTarget(), out, replace=True, generator=MCSTAS_GENERATOR, config={'include_runtime': True})
            if len(recorder.records(s.log)) != n0 + 2:
                bad('replace', 'an existing program is not compiled again although this is asked')
    if r.random() < .15:   # commands that can not be decoded are reported
        res.count('refused')
        t = r.choice(['CMD(false)', 'CMD(exit 3)', 'CMD(echo a; echo b)', 'CMD(echo a', 'ENV(X', 'CMD(mv26-no-such-command)'])
        instr = parse_mccode_instr(f'DEFINE INSTRUMENT x(double q=1)\nDEPENDENCY "{t}"\nTRACE\nEND\n', list(regs))
        try:
            got = instr.decoded_flags()
        except Exception:
            return
        res.violate('undecodable', f'dependency {t!r} is decoded as {got}', dict(dependency=t))


# compilers which work, and those which do not
COMPILER = """#!/bin/sh
kind={kind}
out=
say=
for a in "$@"; do
  [ "$last" = -o ] && out=$a
  [ "$a" = -DMV_REJECT ] && kind=failing
  [ "$a" = -DMV_NOTHING ] && kind=silent
  last=$a
done
cat > /dev/null
echo $kind >> {log}
case $kind in
  good) echo program > "$out" && chmod 700 "$out";;
  warning) echo program > "$out" && chmod 700 "$out"; echo "x.c: warning: unused error" >&2;;
  failing) echo "x.c: an error of the compiler" >&2; exit 2;;
  partial) echo program > "$out"; exit 1;;
  silent) ;;
esac
exit 0
"""


def compilers(r, res):
    d = Path(tempfile.mkdtemp(prefix='compilers'))
    try:
        log = d / 'log'
        log.write_text('')
        kinds, conf, where = {}, {}, r.choice(['bin', 'my bin'])
        (d / where).mkdir()
        for k in ('cc', 'acc', 'mpi'):
            kinds[k] = r.choice(['good', 'good', 'good', 'warning', 'failing', 'partial', 'silent', 'missing', 'plain'])
            f = d / where / f'mv-{k}'
            if kinds[k] != 'missing':
                f.write_text(COMPILER.format(kind=kinds[k], log=f"'{log}'"))
                f.chmod(0o600 if kinds[k] == 'plain' else 0o700)
            conf[k] = r.choice([str(f), str(f), str(f), f'$MV26_BIN/mv-{k}', '${MV26_BIN}/mv-' + k, f'mv-{k}'])
        flags = {k: '-DMV_REJECT' if r.random() < .1 else '-O2' for k in ('cc', 'acc', 'mpi', 'nexus')}
        works = lambda k: kinds[k] in ('good', 'warning')
        requests = []
        for _ in range(r.randint(3, 8)):
            k, nexus = r.choice(['cc', 'acc', 'mpi', 'mpi+acc']), r.random() < .2
            dep = r.choice(['', '', '-DMV_FINE', '-DMV_REJECT', '-DMV_NOTHING'])
            with_acc = 'acc' in k
            used = [flags['acc' if with_acc else 'cc']] + [flags['mpi']] * ('mpi' in k) + [flags['nexus']] * nexus
            ok = works('acc' if with_acc else k) and '-DMV_REJECT' not in used and dep in ('', '-DMV_FINE')
            requests.append(dict(target=k, nexus=nexus, dependency=dep, works=ok))
        read, write = os.pipe()
        child = os.fork()   # what is known about compilers is kept for the life of a process
        if not child:
            try:
                os.close(read)
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1), os.dup2(null, 2)
                answer = _compilers(d, where, conf, flags, requests)
            except BaseException as ex:
                answer = dict(harness=short_tb(ex, 6))
            with os.fdopen(write, 'w') as f:
                json.dump(answer, f)
            os._exit(0)
        os.close(write)
        with os.fdopen(read) as f:
            text = f.read()
        os.waitpid(child, 0)
        answer = json.loads(text) if text else dict(harness='no answer')
        if 'harness' in answer:
            raise RuntimeError(answer['harness'])
        res.case([kinds, flags, [list(q.values()) for q in requests]], True, dict(compilers=kinds, flags=flags, requests=requests))
        for n, (q, (made, err, is_file)) in enumerate(zip(requests, answer['results'])):
            res.count('compilers_work' if q['works'] else 'compilers_refused')
            msg = f'compilers {kinds} as {conf}, flags {flags}; request {n} of {requests}'
            case = dict(compilers=kinds, configured=conf, flags=flags, requests=requests, n=n)
            if q['works'] and (err or not is_file):
                res.violate('working-compiler', f'a compiler that works is refused, or what it makes is lost: {err or made}\n{msg}', case)
            if not q['works'] and not err:
                res.violate('broken-compiler', f'no program is made, and this is not reported: {made}\n{msg}', case)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _compilers(d, where, conf, flags, requests):
    from mccode_antlr.compiler.c import CBinaryTarget, compile_instrument
    from mccode_antlr.config import config
    from mccode_antlr.loader.loader import parse_mccode_instr
    from mccode_antlr.reader.registry import LocalRegistry
    from mccode_antlr.translators.target import MCSTAS_GENERATOR
    lib = d / 'lib'
    shutil.copytree(runtime_registry().root, lib)
    (lib / 'Arm.comp').write_text('DEFINE COMPONENT Arm\nSETTING PARAMETERS (double u=1)\nTRACE %{ %}\nEND\n')
    library = LocalRegistry('library', str(lib))
    os.environ['MV26_BIN'] = str(d / where)
    os.environ['PATH'] = f"{d / where}:{os.environ['PATH']}"
    config['cc'], config['acc'], config['mpi']['cc'] = conf['cc'], conf['acc'], conf['mpi']
    for k, v in flags.items():
        config['flags'][k] = v
    config['flags']['ld'] = '-lm'
    work = d / 'work'
    work.mkdir()
    os.chdir(work)
    out = []
    with replaced(MCSTAS_REGISTRY=library, LIBC_REGISTRY=library):
        for n, q in enumerate(requests):
            dep = f'DEPENDENCY "{q["dependency"]}"\n' if q['dependency'] else ''
            instr = parse_mccode_instr(f'DEFINE INSTRUMENT x{n}(double q=1)\n{dep}TRACE\nCOMPONENT a = Arm() AT (0,0,0) ABSOLUTE\nEND\n', [library])
            target = CBinaryTarget(mpi='mpi' in q['target'], acc='acc' in q['target'], count=1, nexus=q['nexus'])
            path = work / f'x{n}.out'
            made, err = None, None
            try:
                made = compile_instrument(instr, target, path, generator=MCSTAS_GENERATOR,
                                          config=dict(default_main=True, enable_trace=False, portable=False, include_runtime=True, embed_instrument_file=False, verbose=False, output='x.c'))
            except Exception as ex:
                err = f'{type(ex).__name__}: {ex}'[:500]
            out.append((str(made), err, path.is_file()))
    return dict(results=out)


def run(desc, res: Result):
    for n in range(desc['per']):
        one(rng('c26', desc['seed'], desc['n'], n), res, desc['exe'])
    for n in range(desc['per'] // 4):
        compilers(rng('c26-compilers', desc['seed'], desc['n'], n), res)
