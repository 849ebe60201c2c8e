"""C29: the command line translates an instrument as the library does."""
from __future__ import annotations
import contextlib, io, os, re, shutil, subprocess, sys
from pathlib import Path
from ..core import Result, rng, short_tb
from ..lib import prog as G, progcheck as P, progrun as R

RULE = ('the commands mcstas-antlr and mcxtrace-antlr are given random instrument files (or the HDF5 form of one) whose components and libraries are spread over the working directory, -I directories '
        '(also of equal names, and holding decoys of the standard library) and the standard library, with the options in random order and spelling; the C file named by -o (or beside the input) is compiled, linked '
        'with a probe of its global variables and run: the event log is compared with the prediction from the instrument, the probe with the options, the embedded text with the bytes of the file, and the C text with that of the library; '
        'the same for files loaded and translated through the library (load_mcstas_instr, CTargetVisitor.save); refused instruments must not leave a C file')
ASSUMPTIONS = ['the standard libraries are a stand-in of the lowest priority (as the real ones, which can not be fetched here)', 'no two of the directories given by the user hold a file of the same name',
               'the file encoding is UTF-8; the ends of lines may be normalised in the embedded text', '--no-runtime is not explored: its output depends on files of the real run time']
MINIMUM = {'quick': dict(evaluations=150, distinct=140, ray_events=2000, programs_run=130, embedded=40, no_main=20, traced=40, search_dirs=80, decoys=40, hdf5=10, api=10, refused=5, beside=20),
           'thorough': dict(evaluations=3000, distinct=2800, ray_events=50000)}
EMPHASIS = dict(n_comp=(2, 4), n_inst=(2, 7), include=.3, metadata=.4, rotated=.8)
LEVEL = 'generated instruments and command lines'

PROBE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
extern int traceenabled, defaultmain;
extern char instrument_name[], instrument_source[], instrument_code[];
int mccode_main(int argc, char *argv[]);
#ifdef MV_NEEDS_MAIN
int main(int argc, char *argv[]) { return mccode_main(argc, argv); }
#endif
__attribute__((constructor)) static void mv_probe(void) {
  char *name = getenv("MV_PROBE");
  FILE *f = name ? fopen(name, "wb") : 0;
  if (!f) return;
  fprintf(f, "%d%c%d%c%s%c%s%c%s", traceenabled, 0, defaultmain, 0, instrument_name, 0, instrument_source, 0, instrument_code);
  fclose(f);
  _exit(0);
}
'''


def chunks(tier, seed):
    n, per = (48, 5) if tier == 'quick' else (200, 30)
    return [dict(seed=seed, n=i, per=per) for i in range(n)]


@contextlib.contextmanager
def surroundings(cwd, argv, std, neutron):
    from mccode_antlr import loader, reader
    from mccode_antlr.cli import commands
    which = 'MCSTAS_REGISTRY' if neutron else 'MCXTRACE_REGISTRY'
    old_cwd, old_argv, old = os.getcwd(), sys.argv, getattr(reader, which)
    holders = [m for k, m in list(sys.modules.items()) if k.startswith('mccode_antlr') and getattr(m, which, None) is old]
    out, err = io.StringIO(), io.StringIO()
    os.chdir(cwd)
    sys.argv = ['mcstas-antlr' if neutron else 'mcxtrace-antlr', *argv]
    for m in holders:
        setattr(m, which, std)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            yield out, err
    finally:
        for m in holders:
            setattr(m, which, old)
        sys.argv = old_argv
        os.chdir(old_cwd)


def spread(r, tx, std, cwd, extra):
    """the files of a program over the directories; decoys (other files of the same name) in the standard library"""
    decoys = 0
    files = {f'{k}.comp': v for k, v in tx.comps.items()}
    for f in list(tx.dir.glob('mv*.[ch]')):
        files[f.name] = f.read_text()
        f.unlink()
    libs = {}
    for name, text in files.items():
        stem = name.rsplit('.', 1)[0]
        if name.endswith('.comp'):
            where = r.choice([cwd, std, *extra, *extra])
        else:   # the parts of a library stay together
            where = libs.setdefault(stem.replace('extra', 'lib'), r.choice([cwd, std, *extra, *extra]))
        if where is not std and r.random() < .35:
            decoys += 1
            wrong = re.sub(r'mv_trace\(', 'mv_trace_of_another(', text) if name.endswith('.comp') else '#error decoy\n'
            (std / name).write_text(wrong)
        sub = where / r.choice(['', '', 'deeper', 'a/b'])
        sub.mkdir(parents=True, exist_ok=True)
        (sub / name).write_text(text)
    return decoys


def comparable(c, file, output):
    """the lines of a translation but for the names of files and the date"""
    for n, x in enumerate({file: 0, output: 0, file.resolve(): 0, output.resolve(): 0}):
        c = c.replace(R_escaped(x), '<file>').replace(str(x), '<file>')
    return [x for x in c.splitlines() if not re.match(r'\s*\*\s*(Date|File|Instrument|Generator|Creator):', x)
            and 'SIG_MESSAGE' not in x and not x.startswith(('char  instrument_source[]', 'char instrument_code[]'))]


def R_escaped(x):
    return str(x).replace('\\', '\\\\').replace('"', '\\"')


def one(r, res: Result):
    neutron = r.random() < .7
    p = G.gen(r, EMPHASIS, neutron)
    try:
        sim = G.Sim(p)
    except G.Runaway:
        res.count('runaway')
        return
    tx = R.Texts(p, r)
    try:
        _one(r, res, neutron, p, sim, tx)
    finally:
        tx.close()


def _one(r, res, neutron, p, sim, tx):
    from mccode_antlr.cli import commands
    from mccode_antlr.reader.registry import LocalRegistry
    top = tx.dir
    cwd = top / r.choice(['work', 'my work', 'wörk'])
    std = top / 'standard'
    extra = [top / x for x in r.sample(['comps', 'other/comps', 'comps.v2', 'more comps', 'é', 'x/y/z'], r.choice([0, 1, 1, 2, 3]))]
    shutil.copytree(R.RUNTIME, std)
    for d in (cwd, *extra):
        d.mkdir(parents=True, exist_ok=True)
    name = r.choice(['x', 'x y', 'a.b', 'instr', 'ünï', "it's"])
    suffix = '.instr'
    home = r.choice([cwd, cwd, top / 'elsewhere', cwd / 'sub'])
    home.mkdir(parents=True, exist_ok=True)
    file = home / (name + suffix)
    text = tx.instr.replace('\r\n', '\n')
    if r.random() < .3:
        text += r.choice(['/* é∆ "quoted" \\n %d ??/ ??= */\n', '// tab\there \\\\ 100%\n', '/* ' + 'long ' * 2000 + '*/\n', '\n\n\n'])
    file.write_bytes(text.encode())
    decoys = spread(r, tx, std, cwd, extra)
    options = []
    source, trace, no_main, portable = r.random() < .45, r.random() < .5, r.random() < .25, r.random() < .2
    for on, words in ((source, ['--source']), (trace, ['-t', '--trace']), (no_main, ['--no-main']), (portable, ['-p', '--portable']), (r.random() < .1, ['--verbose'])):
        if on:
            options.append([r.choice(words)])
    rel = lambda path: r.choice([str(path), os.path.relpath(path, cwd)])
    searched = []
    for d in extra:
        x = rel(d)
        searched.append(r.choice([['-I', x], [f'-I{x}'], ['--search-dir', x], [f'--search-dir={x}']]))
    r.shuffle(options)
    options = options + searched
    if r.random() < .3:
        output = file.with_suffix('.c')
        res.count('beside')
    else:
        output = r.choice([cwd, cwd, top / 'outs']) / r.choice(['out.c', 'my out.c', 'o', 'a.b.c', 'œ.c'])
        output.parent.mkdir(exist_ok=True)
        x = rel(output)
        options.insert(r.randint(0, len(options)), r.choice([['-o', x], [f'-o{x}'], ['--output-file', x], [f'--output-file={x}']]))
    hdf5 = r.random() < .15
    fault = None if hdf5 or r.random() > .1 else r.choice(['component', 'instrument', 'input'])
    given = file
    api = not hdf5 and fault != 'input' and r.random() < .15
    standard = LocalRegistry('mcstas' if neutron else 'mcxtrace', str(std), -10)
    if hdf5:
        from mccode_antlr.io import save_hdf5
        from mccode_antlr.loader.loader import parse_mccode_instr
        regs = [LocalRegistry(f'dir {n}', str(d)) for n, d in enumerate([*extra, cwd])] + [standard]
        given = home / (name + r.choice(['.h5', '.H5']))
        save_hdf5(parse_mccode_instr(text, regs, str(file)), given)
        if r.random() < .5:
            options = [x for x in options if x not in searched]   # the file knows them
    elif fault == 'component':
        used = p.want['instances'][r.randrange(len(p.want['instances']))]['type']
        for f in list(top.rglob(f'{used}.comp')):
            f.unlink()
    elif fault == 'instrument':
        file.write_text(f'DEFINE INSTRUMENT x()\nTRACE\nCOMPONENT a = {p.want["instances"][0]["type"]}() AT (0, 0, 0) RELATIVE nothing\nEND\n')
    elif fault == 'input':
        file.unlink()
    options.insert(r.randint(0, len(options)), [rel(given)])
    if str(options[-1][0])[:1] != '-' and r.random() < .2 and options[-1] == [str(given)]:
        options.insert(-1, ['--'])
    argv = [w for o in options for w in o]
    case = dict(neutron=neutron, argv=argv, fault=fault, args=p.args, rays=p.nrays, hdf5=hdf5, api=api, decoys=decoys)
    bad = lambda mech, msg: res.violate(mech, f'{msg}\n{argv}', {**case, 'texts': text + '\n'.join(tx.comps.values())})
    error = None
    listing = lambda: {f for f in top.rglob('*') if f.is_file()}
    before = listing()
    kept = {f: f.read_bytes() for f in before if std not in f.parents}
    with surroundings(cwd, argv, standard, neutron) as (out, err):
        try:
            if api:
                from mccode_antlr import loader
                from mccode_antlr.translators.c import CTargetVisitor
                from mccode_antlr.translators.target import MCSTAS_GENERATOR, MCXTRACE_GENERATOR
                regs = [LocalRegistry(r.choice([x.stem, x.name, standard.name]), x if r.random() < .5 else str(x)) for x in [*extra, cwd]]
                way = r.choice(['load', 'load', 'parse', 'reader', 'reader'])
                res.count('api_' + way)
                if way == 'load':
                    instr = (loader.load_mcstas_instr if neutron else loader.load_mcxtrace_instr)(r.choice([file, str(file), os.path.relpath(file, cwd)]), regs)
                elif way == 'parse':
                    instr = (loader.parse_mcstas_instr if neutron else loader.parse_mcxtrace_instr)(text, regs)
                    instr.source = str(file)
                else:
                    from mccode_antlr.reader import Reader
                    form = r.choice([file, str(file), os.path.relpath(file, cwd), Path(os.path.relpath(file, cwd))])
                    if r.random() < .4:
                        form = type(form)(str(form)[:-len(suffix)])
                    instr = Reader(registries=[*regs, standard]).get_instrument(form)
                config = dict(default_main=not no_main, enable_trace=trace, portable=portable, include_runtime=True, embed_instrument_file=source, verbose=False, output=str(output))
                CTargetVisitor(instr, generate=MCSTAS_GENERATOR if neutron else MCXTRACE_GENERATOR, config=config).save(filename=r.choice([output, str(output)]))
            else:
                (commands.mcstas if neutron else commands.mcxtrace)()
        except (Exception, SystemExit) as ex:
            error = ex
    made = listing() - before
    res.case([text, argv, sorted(tx.comps.items())], sample=case)
    changed = [str(f) for f, b in kept.items() if not f.exists() or f.read_bytes() != b]
    if changed:
        return bad('input-changed', f'the command changed {changed}')
    if fault:
        res.count('refused')
        if error is None:
            return bad('accepted:' + fault, 'the command accepted what can not be translated')
        if made:
            return bad('refused-output', f'the command failed ({error!r}) and left {[str(x) for x in made]}')
        return
    if error is not None:
        return bad(f'failed:{type(error).__name__}', f'the command failed: {short_tb(error, 4)} {err.getvalue()[-500:]}')
    if made != {output}:
        return bad('output', f'the command wrote {[str(x) for x in made]}, {output} is asked')
    for k, on in (('embedded', source), ('traced', trace), ('no_main', no_main), ('hdf5', hdf5), ('api', api), ('decoys', decoys), ('search_dirs', extra)):
        if on:
            res.count(k)
    try:
        c = output.read_text()
        build = top / 'build'
        build.mkdir()
        (build / 'probe.c').write_text(PROBE)
        q = subprocess.run(['gcc', '-c', *(['-DMV_NEEDS_MAIN'] if no_main else []), '-o', str(build / 'probe.o'), str(build / 'probe.c')], capture_output=True, text=True)
        assert not q.returncode, q.stderr
        exe = R.build(c, build, flags=[str(build / 'probe.o')])
    except R.Broken as ex:
        return bad(ex.mech, str(ex))
    os.environ.pop('MV_PROBE', None)
    env = build / 'probe'
    subprocess.run([str(exe)], capture_output=True, env={**os.environ, 'MV_PROBE': str(env)}, cwd=build, timeout=60)
    got = env.read_bytes().split(b'\0')
    if len(got) != 5:
        return bad('probe', f'the strings of the instrument are {got}')
    t, m, iname, isrc, code = got
    if t != str(int(trace)).encode():
        return bad('trace', f'traceenabled is {t}, --trace was {"" if trace else "not "}given')
    if m != str(int(not no_main)).encode():
        return bad('main', f'defaultmain is {m}')
    if iname.decode() != p.model['name']:
        return bad('name', f'the instrument is called {iname}')
    want_source = str(file)
    if isrc.decode() not in (want_source, os.path.relpath(file, cwd), file.name):
        return bad('source', f'the instrument is said to come from {isrc}, not {want_source}')
    code, text = code.decode().replace('\r\n', '\n'), text.replace('\r\n', '\n')
    if source and code != text:
        n = next((i for i, (a, b) in enumerate(zip(code, text)) if a != b), min(len(code), len(text)))
        return bad('embedded', f'the embedded text differs at byte {n}: {code[max(0, n - 20):n + 20]} instead of {text[max(0, n - 20):n + 20]}')
    if not source and 'not embedded' not in code:
        return bad('embedded', f'the instrument text is embedded although this was not asked: {code[:100]}')
    macros = subprocess.run(['gcc', '-E', '-dM', '-x', 'c', str(output)], capture_output=True, text=True).stdout
    if ('#define MC_PORTABLE' in macros) != portable:
        return bad('portable', 'MC_PORTABLE and --portable disagree')
    # the library, in its default mode, from the text
    from mccode_antlr.loader.loader import parse_mccode_instr
    regs = [LocalRegistry(f'dir {n}', str(d)) for n, d in enumerate([*extra, cwd])] + [standard]
    same = parse_mccode_instr(text.replace('\r\n', '\n'), regs, str(file))
    same.source = str(file)
    want = R.translate(same, neutron, dict(default_main=not no_main, enable_trace=trace, portable=portable, include_runtime=True, embed_instrument_file=source, output=str(output)))
    a, b = comparable(want, file, output), comparable(c, file, output)
    if a != b:
        res.count('differ_in_text')
        n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        bad('text', f'the command writes {b[n:n + 2]} where the library writes {a[n:n + 2]}')
    res.count('lines_compared', len(a))
    rc, log, out, err = R.execute(exe, build, p)
    found, seen = R.judge(p, sim, log, rc, err)
    res.count('programs_run')
    res.count('ray_events', sum(map(len, seen.rays.values())))
    if found:
        case['log'] = log[:4000]
        for a, msg in found[:2]:
            bad('run:' + a, msg)


def run(desc, res: Result):
    for n in range(desc['per']):
        one(rng('c29', desc['seed'], desc['n'], n), res)
