"""Translate, compile and run a predicted program, read its log, and compare it with the prediction."""
from __future__ import annotations
import contextlib, io, math, os, re, shutil, subprocess, tempfile
from pathlib import Path
from . import imodel as M, prog as G
from ..core import short_tb

RUNTIME = Path(__file__).resolve().parent.parent / 'runtime'
CFLAGS = ['-std=gnu11', '-O0', '-w', '-Werror=implicit-function-declaration', '-Werror=incompatible-pointer-types', '-Werror=int-conversion']
SAN = ['-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']


class Broken(Exception):
    """the library failed on a valid instrument, or its C is not accepted by the compiler"""

    def __init__(self, mech, msg):
        super().__init__(msg)
        self.mech = mech


def runtime_registry():
    from mccode_antlr.reader.registry import LocalRegistry
    return LocalRegistry('mv-runtime', str(RUNTIME))


class Texts:
    """the files of a program, in a scratch directory"""

    def __init__(self, p, r):
        self.dir = Path(tempfile.mkdtemp(prefix='prog'))
        self.comps = {m['name']: M.comp_text(m, r) for m in p.raw}
        self.instr = M.instr_text(p.model, r)
        self.libs = p.libs
        for name, lib in p.libs.items():
            (self.dir / f'{name}.h').write_text(lib['h'])
            (self.dir / f'{name}.c').write_text(lib['c'])
            if lib['extra']:
                (self.dir / lib['extra'][0]).write_text(lib['extra'][1])

    def all(self):
        return '\n'.join([f'=== {k}.comp\n{v}' for k, v in self.comps.items()] + [f'=== {f.name}\n{f.read_text()}' for f in sorted(self.dir.rglob('*.[ch]'))
                                                                               if f.name[:2] == 'mv'] + ['=== instr', self.instr])

    def use_libc(self, r):
        """some libraries are only in the standard C library, others are there too with another content"""
        self.libc = self.dir / 'libc'
        self.libc.mkdir()
        for n, x in enumerate(self.libs.items()):
            name, lib = x
            mine = [f'{name}.h', f'{name}.c'] + ([lib['extra'][0]] if lib['extra'] else [])
            how = r.random()
            for f in mine:
                if how < .3:
                    (self.dir / f).rename(self.libc / f)
                elif how < .6:
                    (self.libc / f).write_text('#error this file is not meant\n')

    def standard(self):
        """the context in which the libraries are found"""
        if not getattr(self, 'libc', None):
            return contextlib.nullcontext()
        from mccode_antlr.reader.registry import LocalRegistry
        from .standard import replaced
        return replaced(LIBC_REGISTRY=LocalRegistry('libc', str(self.libc), -10))

    def registries(self):
        from mccode_antlr.reader.registry import InMemoryRegistry, LocalRegistry
        mem = InMemoryRegistry('mem')
        for k, v in self.comps.items():
            mem.add_comp(k, v)
        return [mem, LocalRegistry('mv-libs', str(self.dir), 20), runtime_registry()]

    def parse(self):
        from mccode_antlr.loader.loader import parse_mccode_instr
        try:
            return parse_mccode_instr(self.instr, self.registries(), '<string>')
        except Exception as ex:
            raise Broken('rejected:' + type(ex).__name__, 'valid instrument rejected: ' + short_tb(ex, 4)) from ex

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def translate(instr, neutron=True, config=None, ask=None):
    """the C of an instrument; ask: what to do with the translator for it (the plain way otherwise)"""
    from mccode_antlr.translators.c import CTargetVisitor
    from mccode_antlr.translators.target import MCSTAS_GENERATOR, MCXTRACE_GENERATOR
    cfg = dict(default_main=True, enable_trace=True, portable=False, include_runtime=True, embed_instrument_file=False, verbose=False, output='x.c', flavor='mcstas')
    cfg.update(config or {})
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            v = CTargetVisitor(instr, generate=MCSTAS_GENERATOR if neutron else MCXTRACE_GENERATOR, config=cfg, verbose=False)
            if ask is not None:
                return ask(v)
            v.translate()
            return v.contents()
    except Exception as ex:
        raise Broken('translation:' + type(ex).__name__, 'translation failed: ' + short_tb(ex, 4)) from ex


def build(c_text, where: Path, name='x', flags=(), san=False, compiler='gcc'):
    src, exe = where / f'{name}.c', where / name
    src.write_text(c_text)
    q = subprocess.run([compiler, *CFLAGS, *(SAN if san else ()), *flags, str(src), '-o', str(exe), '-lm'], capture_output=True, text=True, timeout=240, errors='replace')
    if q.returncode:
        errs = [x for x in q.stderr.splitlines() if 'error' in x][:4]
        lines = c_text.splitlines()
        show = []
        for e in errs:
            m = re.match(r'[^:]*:(\d+):', e)
            if m and int(m.group(1)) <= len(lines):
                show.append(e + '\n      ' + '\n      '.join(lines[max(0, int(m.group(1)) - 2):int(m.group(1))])[:600])
            else:
                show.append(e)
        raise Broken('not-c', 'generated C is not accepted by the compiler:\n' + '\n'.join(show))
    return exe


def execute(exe, where: Path, p, name='log', nrays=None, display=None, saves=None, args=None, timeout=60):
    log = where / name
    args = p.args if args is None else args
    cmd = [str(exe), '-n', str(p.nrays if nrays is None else nrays), '--dump', '--save', str(p.saves if saves is None else saves), '-s', str(p.seed)]
    if p.mcdisplay if display is None else display:
        cmd.append('--trace')
    cmd += [f'{k}={v}' for k, v in args.items()]
    env = {k: v for k, v in os.environ.items() if not k.startswith('MV_')}
    env.update(MV_LOG=str(log), ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1')
    q = subprocess.run(cmd, capture_output=True, timeout=timeout, cwd=where, env=env)
    text = log.read_text(errors='replace') if log.exists() else ''
    return q.returncode, text, q.stdout.decode(errors='replace'), q.stderr.decode(errors='replace')


class Seen:
    """the log, read back"""

    def __init__(self, text):
        self.table, self.pars, self.meta, self.places, self.positions, self.sections = None, [], [], [], {}, []
        self.rays, self.news, self.alarms, self.other = {}, [], [], []
        self.draws, self.nx, self.code = [], [], None
        ray = None
        started = False
        for line in text.splitlines():
            if not line:
                continue
            w = line.split(' ')
            k = w[0]
            if k == 'table':
                self.table = kv(w[1:])
            elif k == 'code':
                self.code = kv(w[1:])['text']
            elif k == 'par':
                self.pars.append(kv(w[1:]))
            elif k == 'meta':
                self.meta.append(kv(w[1:]))
            elif k == 'metadata':
                self.nmeta = kv(w[1:])['n']
            elif k == 'place':
                v = list(map(float, w[2:]))
                self.places.append((('place', w[1]), dict(pos=v[:3], rot=v[3:])))
            elif k == 'nxcomp':
                v = list(map(float, w[2:14]))
                self.nx.append(('comp', w[1], dict(pos=v[:3], rot=v[3:], **kv(w[14:]))))
            elif k == 'nxpar':
                self.nx.append(('par', w[1], dict(name=w[2], **kv(w[3:]))))
            elif k == 'position':
                self.positions[int(w[1])] = list(map(float, w[2:5]))
            elif k == 'new':
                if not started:
                    self.sections.append((('rays',), {}))
                    started = True
                self.news.append(list(map(float, w[1:])))
            elif k == 'ray':
                ray = self.rays.setdefault(int(w[1]), [])
            elif k == 'ray-end':
                ray = None
            elif k == 'trace':
                head, placed, rest = line.split(' | ')[0].split(), *[x for x in line.split(' |', 2)[1:]]
                v = list(map(float, head[4:]))
                pl = list(map(float, placed.split()))
                f = kv(rest.split())
                out = {'C': v[:10], 'w': v[10], 'pos': pl[:3], 'rot': pl[3:], 'extra': v[11]}
                out['rand'] = f.get('rand')
                out['unknown'] = (f.get('unknown'), f.get('unknownv'), f.get('unknowns'))
                for a, b in f.items():
                    if a[:2] in ('u_', 'c_'):
                        out[a[0] + ':' + a[2:]] = b
                    elif a[:3] == 'id_':
                        out['id:' + a[3:]] = b
                    elif a.startswith(('bad', 'differs')):
                        out[a] = b
                self.rays.setdefault(int(head[3]), []).append((('trace', head[1], int(head[2]), int(head[3]), f['tag']), out))
            elif k == 'told':  # the name and state which a traced run tells of a component before its code
                v = list(map(float, w[3:]))
                self.rays.setdefault(int(w[2]), []).append((('told', w[1], int(w[2])), {'C': v[:10], 'w': v[10]}))
            elif k == 'extend':
                f = kv(w[3:])
                self.rays.setdefault(int(w[2]), []).append((('extend', w[1], int(w[2])), {**{'S': f['S']}, **{'u:' + a[2:]: b for a, b in f.items() if a[:2] == 'u_'}}))
            elif k == 'arr':
                (ray if ray is not None else self.other).append((('arr', w[1]), {'u:' + a: b for a, b in kv(w[2:]).items()}))
            elif k == 'sec':
                f = kv(w[5:])
                e = (('sec', w[1], w[2], w[3], int(w[4])), {('s:' + a[2:] if a[:2] == 's_' else 'p:' + a): b for a, b in f.items()})
                (self.sections if w[1] != 'trace' else ray if ray is not None else self.other).append(e)
            elif k == 'call':
                (fn, v), = kv(w[2:]).items()
                self.sections.append((('call', w[1], fn), {'value': v}))
            elif k == 'instrument':
                self.sections.append((('instrument', w[1]), kv(w[2:])))
            elif k in ('save-requested', 'finish', 'exit'):
                if k == 'finish' and not started:
                    self.sections.append((('rays',), {}))
                self.sections.append(((k,), {}))
            elif k in ('line', 'circle', 'box', 'multiline'):
                self.draws.append(k)
            elif k in ('overflow', 'unterminated', 'runaway', 'setfail', 'unset', 'table-not-terminated'):
                self.alarms.append(line)


def kv(words):
    out = {}
    for w in words:
        if '=' not in w:
            continue
        a, b = w.split('=', 1)
        if b == 'NULL':
            v = None
        elif b[:1] == '"':
            v = bytes.fromhex(b[1:]).decode('utf8', 'surrogateescape')
        elif ',' in b:
            v = [float(x) for x in b.split(',')]
        elif re.fullmatch(r'-?\d+', b):
            v = int(b)
        else:
            try:
                v = float(b)
            except ValueError:
                v = b
        out[a] = v
    return out


def alike(a, b, rel=1e-11, absol=1e-300):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        a = list(a) if isinstance(a, (list, tuple)) else [a]
        b = list(b) if isinstance(b, (list, tuple)) else [b]
        return len(a) == len(b) and all(alike(x, y, rel, absol) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    return abs(a - b) <= max(absol, rel * max(abs(a), abs(b)))


ASPECT = dict(rand='random', C='coordinates', w='weight', pos='placement', rot='placement', S='scattered', unknown='uservars', extra='state', value='included')


def aspect(field, event):
    if field in ASPECT:
        return ASPECT[field]
    k = field.split(':')[0]
    if event[0] == 'instrument':
        return 'placement' if k in ('n', 'd') else 'parameters'
    return {'p': 'parameters', 's': 'declared', 'u': 'uservars', 'id': 'uservars', 'c': 'uservars'}.get(k, 'uservars')


def close_enough(field, tol=None):
    if field.startswith('d:'):
        field = 'pos'
    if tol and field in ('C', 'pos', 'rot'):
        return dict(absol=tol, rel=tol)
    return dict(absol=2e-9, rel=1e-9) if field in ('C', 'pos', 'rot') else dict(absol=1e-12, rel=1e-10)


def compare(want, got, order, tol=None):
    """differences between two event lists as (aspect, message); order: the aspect of a wrong sequence"""
    out = []
    n = 0
    for n, (a, b) in enumerate(zip(want, got)):
        if a[0] != b[0]:
            out.append((order, f'event {n}: expected {a[0]}, observed {b[0]}; before it: {[x[0] for x in want[max(0, n - 3):n]]}; '
                        f'expected next {[x[0] for x in want[n:n + 4]]}, observed next {[x[0] for x in got[n:n + 4]]}'))
            return out
        seen = set()
        for k, v in a[1].items():
            if k not in b[1]:
                out.append((aspect(k, a[0]), f'event {n} {a[0]}: {k} not observed, expected {v}'))
            elif not alike(v, b[1][k], **close_enough(k, tol)) and aspect(k, a[0]) not in seen:
                seen.add(aspect(k, a[0]))
                out.append((aspect(k, a[0]), f'event {n} {a[0]}: {k} expected {v}, observed {b[1][k]}'))
        for k in b[1]:
            if k not in a[1]:
                out.append((aspect(k, a[0]), f'event {n} {a[0]}: unexpected {k} = {b[1][k]}'))
        if len(out) > 6:
            return out
    if len(want) != len(got):
        n = min(len(want), len(got))
        out.append((order, f'expected {len(want)} events, observed {len(got)}; first extra or missing: {(want[n:n + 3] or got[n:n + 3])}'))
    return out


def judge(p, sim, text, rc, err, tol=None):
    """everything observed against everything predicted: list of (aspect, message)"""
    out = []
    if rc != 0:
        san = [x for x in err.splitlines() if 'ERROR: AddressSanitizer' in x or 'runtime error' in x]
        out.append(('memory' if san or rc < 0 else 'crash', f'program ended with status {rc}: {(san or err.splitlines())[:3]} {err[:1500] if san else ""}'))
    s = Seen(text)
    for a in s.alarms:
        if a != 'runaway':
            out.append(('memory' if a.startswith(('overflow', 'untermin')) else 'uservars' if a == 'setfail' else 'table', a))
    if 'runaway' in s.alarms:
        out.append(('sequence', 'the program does not end'))
    places = compare(sim.places, s.places, 'order', tol)
    out += places
    for n, (_, f) in enumerate(sim.places):
        if not alike(f['pos'], s.positions.get(n + 1), rel=tol or 1e-9, absol=tol or 1e-9):
            out.append(('placement', f'table of positions: component {n + 1} expected {f["pos"]}, observed {s.positions.get(n + 1)}'))
    def split(events):
        return [e for e in events if e[0][0] != 'call'], [e for e in events if e[0][0] == 'call']
    w, wc = split(sim.sections)
    g, gc = split(s.sections)
    out += compare(w, g, 'order', tol)
    out += compare(wc, gc, 'included')
    for n in range(sim.nrays):
        w, g = sim.rays[n], s.rays.get(n, [])
        # what has no code may be skipped, and is told of only when it is not
        g = [e for e in g if e[0][0] != 'told' or e[0][1] not in sim.codeless]
        if sim.funnel:  # only events which name the ray, since rays are interleaved
            w, g = [e for e in w if e[0][0] in ('trace', 'extend')], [e for e in g if e[0][0] in ('trace', 'extend')]
        out += compare(w, g, 'sequence', tol)
    for n in s.rays:
        if n not in sim.rays:
            out.append(('sequence', f'ray {n} was not requested'))
    if len(s.news) != sim.nrays:
        out.append(('sequence', f'{sim.nrays} rays requested, {len(s.news)} started'))
    for v in s.news:
        if v != [0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0]:
            out.append(('state', f'a fresh ray starts as {v}'))
            break
    if s.other and not sim.funnel:
        out.append(('sequence', f'events outside any ray: {s.other[:2]}'))
    return out, s
