"""C20: simulation output files are read and combined without losing data."""
import math, shutil, tempfile
from pathlib import Path
from ..core import Result, rng, short_tb

RULE = ('random McCode data files (0-D, 1-D with 1 to 40 points including as many points as variables, 2-D of any shape; values of all magnitudes, inf and nan errors excluded; titles, labels, parameters and text of many kinds) are written by '
        'the monitor in the format of the McCode runtime, read, written back and read again, and combined in groups of up to five repeats and with files that differ in one respect (parameter value or set, axes, limits, shape, variables, '
        'component); mccode.sim files likewise, those of repeats, of runs extended by monitors and parameters, and of runs that differ in a parameter value or an axis; sums and quadratures are recomputed with exact floating-point summation; distinct = files')
ASSUMPTIONS = ['the last three variables are intensity, its error and the number of events', 'text contains no line break; metadata has no leading or trailing blanks', 'repeats of a 2-D file have the same file name',
               'sim files: only what the statement says of files of repeated runs (values, Ncount, minimum, maximum), not estimates of means']
MINIMUM = {'quick': dict(evaluations=8000, distinct=7000, files=12000, square=400, combined=5000, refused=4000, sims=1800, sims_refused=150, repeated=150, shared=200, axes=1500, numbers=600000), 'thorough': dict(evaluations=50000, distinct=45000, files=80000)}
TEXT = ['Counts', 'a: b', 'x = y', 'run #5', 'number #', '# of counts', 'Lon. Divergence', 'é', 'PSD monitor; "quoted"', 'C:\\data', 'Param: no', '[a/b]', '100%', 'x' * 200]
PNAMES = ['Lm', 'E', 'Seed_x', 'Date0', 'values', 'Ncounts', 'signal2', 'Directory', 'filename', 'phi', 'statistics', 'k']


def chunks(tier, seed):
    n, per = (32, 300) if tier == 'quick' else (200, 300)
    return [dict(seed=seed, n=i, per=per) for i in range(n)]


def number(r):
    k = r.randrange(8)
    if k == 0:
        return 0.
    if k == 1:
        return float(r.randint(0, 10 ** 6))
    if k == 2:
        return r.uniform(-1, 1) * 10. ** r.randint(-300, 300)
    if k == 3:
        return -r.random()
    return r.random() * 10. ** r.randint(-12, 12)


class File:
    def __init__(self, r, dims=None):
        self.dims = dims = r.choice([0, 1, 1, 1, 2, 2]) if dims is None else dims
        base = ['I', 'I_err', 'N']
        self.vars = (['x', 'L', 't_1', 'Wavelength'][r.randrange(4):][:1] if dims == 1 else []) + (['q'] if dims == 1 and r.random() < .1 else []) + base
        if dims == 0:
            self.shape = ()
            kind = r.choice(['array_0d', 'array_0d()'])
        elif dims == 1:
            n = len(self.vars) if r.random() < .15 else r.choice([1, 2, 3, 4, 5, 10, 40])
            self.shape = (n,)
            kind = f'array_1d({n})'
        else:
            nx, ny = r.choice([(1, 1), (3, 3), (1, 4), (5, 1), (2, 7), (3, 1), (r.randint(1, 12), r.randint(1, 12))])
            self.shape = (ny, nx)
            kind = f'array_2d({nx}, {ny})'
        t = lambda: r.choice(TEXT)
        self.first = {'Format': 'McCode with text headers', 'URL': 'http://www.mccode.org', 'Creator': t(), 'Instrument': 'i.instr', 'Ncount': str(r.choice([1, 1000, 10 ** 9])), 'Trace': 'no', 'Gravitation': r.choice(['yes', 'no']),
                      'Seed': str(r.choice([1, 12, 123, 2 ** 31])), 'Directory': r.choice(['out', '/tmp/a b', 'run1'])}
        self.pars = {k: r.choice(['1', '2.5', 'text', 'a=b', 'a: b', '"q"', '1e-3', '']) for k in r.sample(PNAMES, r.choice([0, 1, 2, 4]))}
        self.meta = {'Date': 'Thu Nov 19 16:00:00 2026 (1700000000)', 'type': kind, 'Source': 'i (i.instr)', 'component': r.choice(['mon', 'PSD_1']), 'position': '0 0 1', 'title': t(), 'Ncount': self.first['Ncount'],
                     'filename': 'm.dat', 'statistics': 'X0=1; dX=2;', 'signal': 'Min=0; Max=1; Mean=.5;', 'values': '1 2 3'}
        if dims == 1:
            self.meta.update(xvar=self.vars[0], yvar='(I,I_err)', xlabel=r.choice(['Wavelength [AA]', 'x [m]', 'ToF [\\gms]']), ylabel=t(), xlimits=f'{r.randint(-5, 0)} {r.randint(1, 5)}')
        if dims == 2:
            self.meta.update(xvar='X', yvar='Y', xlabel='X position [cm]', ylabel=r.choice(['Y [cm]', 'E [meV]']), zvar='I', zlabel='Signal per bin', xylimits=f'-1 1 {r.randint(-9, -1)} 2')
        if dims == 0 and r.random() < .3:
            self.meta.update(yvar='(I,I_err)', ylabel=t(), xlimits='0 1')
        self.meta['variables'] = ' '.join(self.vars)
        self.extra = {k: t() for k in r.sample(['Note', 'Kind', 'User'], r.choice([0, 0, 0, 1, 2]))}
        self.fill(r)

    def fill(self, r):
        n = math.prod(self.shape)
        self.data = {}
        for v in self.vars:
            self.data[v] = [float(r.randint(0, 10 ** 7)) for _ in range(n)] if v == 'N' else [abs(number(r)) for _ in range(n)] if v == 'I_err' else [number(r) for _ in range(n)]
        if self.dims == 1:
            self.axis = self.data[self.vars[0]] = sorted(self.data[self.vars[0]])

    def repeat(self, r):
        """another run of the same"""
        from copy import deepcopy
        o = deepcopy(self)
        o.fill(r)
        for v in self.vars[:-3]:
            o.data[v] = list(self.data[v])
        o.first.update(Seed=str(r.choice([1, 2, 3, 23, 231, 9])), Directory=r.choice(['out', 'out2', 'ou', 'r']))
        o.first['Ncount'] = o.meta['Ncount'] = str(r.choice([5, 1000, 7 * 10 ** 8]))
        o.meta['Date'] = f'Thu Nov 19 16:00:0{r.randint(0, 9)} 2026 (17)'
        o.meta.update(statistics='X0=3; dX=1;', signal='Min=1; Max=9; Mean=.2;', values='9 9 9')
        return o

    def different(self, r):
        """what must not be combined with this, and why"""
        o = self.repeat(r)
        ways = ['component', 'extra parameter', 'variables', 'position']
        if self.pars:
            ways += ['parameter value'] * 3 + ['parameter missing'] * 2
        if self.dims == 1:
            ways += ['xlimits', 'xlabel', 'points'] * 2
        if self.dims == 2:
            ways += ['xylimits', 'xlabel', 'ylabel', 'shape'] * 2
        way = r.choice(ways)
        if way == 'component':
            o.meta['component'] += '_b'
        elif way == 'position':
            o.meta['position'] = '0 0 1.5'
        elif way == 'extra parameter':
            o.pars[next(k for k in r.sample(PNAMES, len(PNAMES)) if k not in o.pars)] = '3'
        elif way == 'parameter value':
            k = r.choice(list(o.pars))
            o.pars[k] += '1'
        elif way == 'parameter missing':
            del o.pars[r.choice(list(o.pars))]
        elif way == 'variables':
            o.vars[-3], o.data['p'] = 'p', o.data[o.vars[-3]]
            o.meta['variables'] = ' '.join(o.vars)
        elif way in ('xlimits', 'xylimits'):
            limits = o.meta[way].split()
            limits[r.randrange(len(limits))] = r.choice(['7.5', '-9.5'])
            o.meta[way] = ' '.join(limits)
        elif way in ('xlabel', 'ylabel'):
            o.meta[way] = 'Other [deg]'
        else:
            o = File(r, self.dims)
            o.pars = dict(self.pars)
            if o.shape == self.shape:
                return None, None
        return o, way

    def text(self, r):
        fmt = r.choice([repr, repr, lambda x: f'{x:.17g}', lambda x: f'{x:g}'])
        for k, v in self.data.items():
            self.data[k] = [float(fmt(x)) for x in v]
        lines = [f'# {k}: {v}' for k, v in self.first.items()] + [f'# Param: {k}={v}' for k, v in self.pars.items()] + [f'# {k}: {v}' for k, v in self.extra.items()] + \
            [f'# {k}: {v}' for k, v in self.meta.items()]
        n = math.prod(self.shape)
        if self.dims < 2:
            lines += [' '.join(fmt(self.data[v][i]) for v in self.vars) + (' ' if r.random() < .2 else '') for i in range(n)]
        else:
            for label, v in zip(('Data', 'Errors', 'Events'), self.vars):
                lines.append(f'# {label} [{self.meta["component"]}/{self.meta["filename"]}] {v}:')
                ny, nx = self.shape
                lines += [' '.join(fmt(x) for x in self.data[v][i * nx:(i + 1) * nx]) + ' ' for i in range(ny)]
        return '\n'.join(lines) + '\n'

    def metadata(self):
        return {**self.first, **self.extra, **self.meta}


def near(a, b):
    return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b)) or (math.isinf(a) and math.isinf(b))


def differs(d, f, data, res, meta=True):
    """what an object read is that the file is not"""
    if list(d.variables) != f.vars:
        return f'variables {d.variables}, written {f.vars}'
    if {k: str(v) for k, v in d.parameters.items()} != f.pars:
        return f'parameters {d.parameters}, written {f.pars}'
    if meta:
        for k, v in f.metadata().items():
            if str(d.metadata.get(k)) != v:
                return f'metadata {k} is {d.metadata.get(k)!r}, written {v!r}'
        more = [k for k in d.metadata if k not in f.metadata() and not k.startswith(('Data [', 'Errors [', 'Events ['))]
        if more:
            return f'metadata {more} was not written'
    if tuple(d.data.shape) != (len(f.vars), *f.shape):
        return f'shape {d.data.shape}, written {len(f.vars)} variables of {f.shape}'
    for i, v in enumerate(f.vars):
        got = [float(x) for x in d.data[i].reshape(-1)]
        res.count('numbers', len(got))
        bad = [(k, a, b) for k, (a, b) in enumerate(zip(got, data[v])) if not near(a, b)]
        if bad:
            return f'{v}[{bad[0][0]}] is {bad[0][1]!r}, expected {bad[0][2]!r} ({len(bad)} of {len(got)} differ)'
        if [float(x) for x in d[v].reshape(-1)] != got:
            return f'{v} by name is not its column'


def axes(d, f, res):
    """what is said of the axes is not what the file says"""
    if f.dims and 1 in f.shape:
        return   # one bin has no width here
    res.count('axes', f.dims)
    got, sizes = d.dim_metadata(), f.shape[::-1]
    if len(got) != f.dims:
        return f'{f.dims} dimensions are described as {got}'
    limits = [float(v) for v in f.meta['xlimits' if f.dims == 1 else 'xylimits'].split()] if f.dims else []
    for k, (g, n, key) in enumerate(zip(got, sizes, ('xlabel', 'ylabel'))):
        label, _, unit = f.meta[key].partition(' ')
        unit = unit.strip('[]').replace('\\gms', 'microseconds')
        if (g['label'], g['unit']) != (label, unit):
            return f'axis {f.meta[key]!r} is described by {g["label"]!r}, {g["unit"]!r}'
        b = [float(v) for v in g['bin_boundaries']]
        if len(b) != n + 1 or any(v >= w for v, w in zip(b, b[1:])) or abs((b[0] + b[-1]) - (limits[2 * k] + limits[2 * k + 1])) > 1e-9:
            return f'{n} bins of {key[0]}, limits {limits}, have the boundaries {b}'


def combined(files):
    out = {}
    for v in files[0].vars:
        col = list(zip(*[f.data[v] for f in files]))
        if v == files[0].vars[-2]:
            out[v] = [math.hypot(*c) for c in col]
        elif v in files[0].vars[-3:]:
            out[v] = [math.fsum(c) if abs(math.fsum(map(abs, c))) < 1e15 * abs(math.fsum(c)) else None for c in col]
        else:
            out[v] = [c[0] for c in col]
    return out


def one(r, res, d):
    from mccode_antlr.loader import read_mccode_dat, write_combined_mccode_dats
    from mccode_antlr.loader.datfile import combine_mccode_dats
    f = File(r)
    path = d / 'a.dat'
    path.write_text(f.text(r))
    case = dict(text=path.read_text()[:2500])
    res.case(path.read_text(), sample=dict(type=f.meta['type'], variables=f.vars))
    bad = lambda mech, msg: res.violate(mech, msg, case)
    x = read_mccode_dat(r.choice([str, Path])(path))
    res.count('files')
    if f.dims == 1 and f.shape[0] == len(f.vars):
        res.count('square')
    w = differs(x, f, f.data, res)
    if w:
        return bad('read', w)
    for k, v in f.pars.items():
        if k not in f.vars and x[k] != v:
            return bad('read', f'parameter {k} by name is {x[k]!r}, written {v!r}')
    w = axes(x, f, res)
    if w:
        return bad('axes', w)
    x.to_filename(str(d / 'b.dat'))
    again = read_mccode_dat(d / 'b.dat')
    res.count('files')
    w = differs(again, f, f.data, res)
    if w:
        return bad('rewritten', w)
    if f.dims == 2:
        titles = [l for l in (d / 'b.dat').read_text().splitlines() if l.startswith(('# Data', '# Errors', '# Events'))]
        want = [f'# {label} [{f.meta["component"]}/{f.meta["filename"]}] {v}:' for label, v in zip(('Data', 'Errors', 'Events'), f.vars)]
        if titles != want:
            return bad('rewritten', f'the blocks of data are titled {titles}, expected {want}')
    # repeats
    group = [f] + [f.repeat(r) for _ in range(r.choice([1, 1, 2, 4]))]
    for g in group:
        for v in ('I', f.vars[-3]):      # sums of moderate numbers, so that rounding does not matter
            g.data[v] = [abs(a) for a in g.data[v]]
    paths = []
    for i, g in enumerate(group):
        paths.append(d / f'g{i}.dat')
        paths[-1].write_text(g.text(r))
    case['group'] = [p.read_text()[:1200] for p in paths[1:]]
    res.count('combined')
    objects = [read_mccode_dat(p) for p in paths]
    how = r.choice(['objects', 'files'])
    if how == 'objects':
        both = combine_mccode_dats(objects)
    else:
        write_combined_mccode_dats([r.choice([str, Path])(p) for p in paths], str(d / 'c.dat'))
        both = read_mccode_dat(d / 'c.dat')
    want = combined(group)
    want = {k: [float(x) if w is None else w for w, x in zip(v, both[k].reshape(-1))] for k, v in want.items()} if tuple(both.data.shape) == (len(f.vars), *f.shape) else f.data
    w = differs(both, f, want, res, meta=False)
    if w:
        return bad('combined', f'{len(group)} files combined ({how}): {w}')
    m = {k: str(v) for k, v in both.metadata.items()}
    if int(m['Ncount']) != sum(int(g.first['Ncount']) for g in group):
        return bad('combined', f'Ncount of {[g.first["Ncount"] for g in group]} combined is {m["Ncount"]}')
    for k in ('Seed', 'Directory', 'Date'):
        for g in group:
            if f' {g.metadata()[k]} ' not in f' {m[k]} ':
                return bad('combined', f'{k} {g.metadata()[k]} is lost in {m[k]}')
    for k, v in f.metadata().items():
        if k not in ('Ncount', 'Seed', 'Directory', 'Date', 'filename', 'signal', 'statistics', 'values') and m.get(k) != v:
            return bad('combined', f'metadata {k} of the combined file is {m.get(k)!r}, was {v!r}')
    for g, o in zip(group, objects):
        w = differs(o, g, g.data, res)
        if w:
            return bad('changed', f'combining changed its argument: {w}')
    # others
    other, way = f.different(r)
    if other:
        (d / 'o.dat').write_text(other.text(r))
        case['other'] = (d / 'o.dat').read_text()[:2000]
        pair = [objects[0], read_mccode_dat(d / 'o.dat')]
        r.shuffle(pair)
        res.count('refused')
        try:
            combine_mccode_dats(pair)
        except Exception:
            return
        bad('mixed', f'files that differ in {way} were combined')


def who(e):
    return e['component'], e.get('filename')


def sim_text(r, n_data, pars, without=(), same=None, shared=False):
    names = [f'mon{i}' for i in range(n_data)]
    t = lambda: r.choice(TEXT)
    fields = dict(description=r.choice(['McStas simulation description file for i.'] * 3 + ['McXtrace simulation: of "i"', 'McStas simulation description file for i. Again']),
                  date=r.choice(['Thu 2026', 'Thu 2026', 'Thu 2026 12:00:01', 'Fri 2026']), program=r.choice(['3.4 (April 2023)', '3.4 (April 2023)', '3.5', 'McStas 3.5 - May']), name='i', file='i.out', ncount=r.choice([10, 1000, 10, 1000, 0]), seed=r.choice([1, 2, 77]), dir=r.choice(['out', 'out1', 'b', 'c']),
                  yes=[r.choice(['yes', 'no']) for _ in range(5)], creator=t())
    fields.update(same or {})
    y = fields['yes']
    s = f'{fields["description"]}\nDate: {fields["date"]}\nProgram: {fields["program"]}\n\nbegin instrument: i\n  File: i.out\n  Source: i.instr\n  Parameters: {" ".join(k + "(double)" for k in pars)}\n' \
        f'  Trace_enabled: {y[0]}\n  Default_main: {y[1]}\n  Embedded_runtime: {y[2]}\nend instrument\n\nbegin simulation: {fields["dir"]}\n  Format: McCode\n  URL: http://www.mccode.org\n' \
        f'  Creator: {fields["creator"]}\n  Instrument: i.instr\n  Ncount: {fields["ncount"]}\n  Trace: {y[3]}\n  Gravitation: {y[4]}\n  Seed: {fields["seed"]}\n  Directory: {fields["dir"]}\n'
    s += ''.join(f'  Param: {k}={v}\n' for k, v in pars.items()) + 'end simulation\n\n'
    data = []
    for i, nm in enumerate(names):
        if i in without:
            continue
        kind = (i + n_data) % 3
        v = (abs(number(r)) % 1e9, abs(number(r)) % 1e6, r.choice([0, 0, 3, 1000, 123456]))
        lo, hi = sorted((r.random(), r.random()))
        e = dict(Date='Thu (17)', type=['array_0d', 'array_1d(20)', 'array_2d(3, 4)'][kind], Source='i (i.instr)', component=names[i - i % 2] if shared else nm, position='0 0 1', title=f'title {i}', Ncount=fields['ncount'])
        if kind or i % 2:
            e['filename'] = f'{nm}.dat'
        e.update(statistics=['None', 'X0=1.5; dX=0.25;', 'X0=1; dX=2; Y0=3; dY=4;'][kind], signal='None' if not kind else f'Min={lo!r}; Max={hi!r}; Mean={(lo + hi) / 2!r};', values=f'{v[0]!r} {v[1]!r} {v[2]}')
        if kind == 0:
            e.update(xylimits='0 0 0 0', variables='I I_err N')
        elif kind == 1:
            e.update(xvar='L', yvar='(I,I_err)', xlabel='Wavelength [AA]', ylabel='Intensity', xlimits='0 1', variables='L I I_err N')
        else:
            e.update(xvar='X', yvar='Y', xlabel='X', ylabel='Y', zvar='I', zlabel='Signal', xylimits='0 1 0 1', variables='I I_err N')
        data.append((e, v, (lo, hi)))
        s += 'begin data\n' + ''.join(f'  {k}: {x}\n' for k, x in e.items()) + 'end data\n\n'
    return s, fields, data


def sim(r, res, d):
    from mccode_antlr.loader import read_mccode_sim, combine_mccode_sims, write_combined_mccode_sims
    pars = {k: r.choice(['1', '2.5', 'a=b', 'x: y']) for k in r.sample(PNAMES, r.choice([0, 1, 3]))}
    n = r.choice([0, 1, 2, 4])
    out = []
    extended = n > 1 and r.random() < .4   # files of a run of which some monitors were added later
    same = dict(dir=r.choice(['out', 'b']), yes=[r.choice(['yes', 'no']) for _ in range(5)], creator='C 1') if not extended and r.random() < .4 else None
    shared = r.random() < .2    # components with several files
    for i in range(r.choice([1, 2, 2, 3])):
        mine = pars
        if extended and pars:      # and some parameters
            mine = {k: v for k, v in pars.items() if r.random() < .8}
        s, fields, data = sim_text(r, n, mine, [k for k in range(n) if r.random() < .35] if extended else (), same, shared)
        fields['pars'] = mine
        (d / f'{i}.sim').write_text(s)
        out.append((s, fields, data))
    res.count('sims')
    case = dict(texts=[x[0][:2500] for x in out])
    res.case(case)
    bad = lambda mech, msg: res.violate(mech, msg, case)
    read = [read_mccode_sim(d / f'{i}.sim') for i in range(len(out))]
    tokens = lambda t: [x.strip() for x in t.splitlines() if x.strip()]
    for (s, fields, data), x in zip(out, read):
        y = fields['yes']
        flags = [x.instrument.Trace_enabled, x.instrument.Default_main, x.instrument.Embedded_runtime, x.simulation.Trace, x.simulation.Gravitation]
        if (x.header.description, x.header.Date, x.header.Program) != (fields['description'], fields['date'], fields['program']):
            return bad('sim read', f'the header is read as {x.header}')
        if flags != [v == 'yes' for v in y] or x.simulation.Ncount != fields['ncount'] or x.simulation.Seed != fields['seed'] or x.simulation.Params != [f'{k}={v}' for k, v in fields['pars'].items()] or x.simulation.Directory != fields['dir']:
            return bad('sim read', f'the simulation block is read as {x.simulation}, {x.instrument}')
        if len(x.data) != len(data):
            return bad('sim read', f'{len(data)} data blocks are read as {len(x.data)}')
        for (e, v, _), got in zip(data, x.data):
            wrong = {k: (getattr(got, k), w) for k, w in e.items() if getattr(got, k) != w}
            if wrong:
                return bad('sim read', f'data of {e["component"]}: {wrong}')
        x.save(d / 'again.sim')
        if tokens((d / 'again.sim').read_text()) != tokens(s):
            diff = [(a, b) for a, b in zip(tokens((d / 'again.sim').read_text()), tokens(s)) if a != b][:2]
            return bad('sim rewritten', f'written back differently: {diff}')
    if len(out) < 2:
        return
    res.count('shared', shared)
    if not shared and r.random() < .3:
        return sim_different(r, res, d, out, read, bad)
    pars = {k: v for x in out for k, v in x[1]['pars'].items()}
    if r.random() < .5:
        both = combine_mccode_sims(read)
    else:
        write_combined_mccode_sims([d / f'{i}.sim' for i in range(len(out))], d / 'all.sim')
        both = read_mccode_sim(d / 'all.sim')
    present = {who(e) for x in out for e, _, _ in x[2]}
    if sorted(str((x.component, x.filename)) for x in both.data) != sorted(map(str, present)):
        return bad('sim combined', f'monitors {sorted(present)} became {[x.component for x in both.data]}')
    if extended:
        res.count('extended')
    dirs, seeds = {x[1]['dir'] for x in out}, {x[1]['seed'] for x in out}
    if set(both.simulation.Directory.split(' + ')) != dirs or set(both.simulation.Params) != {f'{k}={v}' for k, v in pars.items()}:
        return bad('sim combined', f'the simulation block of runs in {dirs} is {both.simulation}')
    for k, key in (('description', 'description'), ('Date', 'date'), ('Program', 'program')):
        vals = {x[1][key] for x in out}
        got = getattr(both.header, k)
        if set(got.split(' + ')) != vals or len(vals) == 1 and got not in vals:
            return bad('sim combined', f'{k} of files with {vals} is {got!r}')
    names = set(both.instrument.Parameters.split())
    if names != {k + '(double)' for k in pars}:
        return bad('sim combined', f'the instrument with the parameters {sorted(pars)} has {both.instrument.Parameters!r}')
    if same and both.simulation.Ncount != sum(x[1]['ncount'] for x in out):
        return bad('sim combined', f'Ncount {[x[1]["ncount"] for x in out]} of repeated simulations is {both.simulation.Ncount}')
    res.count('repeated', bool(same))
    if len(seeds) == 1 and both.simulation.Seed not in seeds or len(out) == 2 and len(seeds) == 2 and len(dirs) == 2 and both.simulation.Seed in seeds:
        return bad('sim combined', f'the seed of different runs with seeds {seeds} is {both.simulation.Seed}')
    for k, name in (('Trace_enabled', 0), ('Default_main', 1), ('Embedded_runtime', 2)):
        if len(out) == 2 and getattr(both.instrument, k) and not all(x[1]['yes'][name] == 'yes' for x in out):
            return bad('sim combined', f'{k} of {[x[1]["yes"] for x in out]} is {getattr(both.instrument, k)}')
    for got in both.data:
        es, vs, lims = zip(*[d for x in out for d in x[2] if who(d[0]) == (got.component, got.filename)])
        I, err, N = (float(x) for x in got.values.split())
        want = math.fsum(v[0] for v in vs), math.hypot(*(v[1] for v in vs)), sum(v[2] for v in vs)
        if not near(I, want[0]) or not (near(err, want[1]) or max(err, want[1]) < 1e-140) or N != want[2]:
            return bad('sim combined', f'values {[e["values"] for e in es]} combined are {got.values}, expected {want}')
        if got.component != es[0]['component'] or got.Ncount != sum(e['Ncount'] for e in es):
            return bad('sim combined', f'{got.component}: Ncount {got.Ncount} for {[e["Ncount"] for e in es]}')
        if es[0]['signal'] == 'None':
            ok = got.signal == 'None'
        else:
            p = dict(x.strip().split('=') for x in got.signal.split(';') if x.strip())
            ok = near(float(p['Min']), min(x[0] for x in lims)) and near(float(p['Max']), max(x[1] for x in lims))
        if not ok:
            return bad('sim combined', f'signals {[e["signal"] for e in es]} combined are {got.signal}')
        wrong = {k: (getattr(got, k), w) for k, w in es[0].items() if k not in ('Date', 'Ncount', 'statistics', 'signal', 'values') and getattr(got, k) != w}
        if wrong:
            return bad('sim combined', f'data of {got.component}: {wrong}')
    for (s, fields, data), x in zip(out, read):
        if (x.simulation.Ncount, x.simulation.Seed, x.simulation.Directory, len(x.data)) != (fields['ncount'], fields['seed'], fields['dir'], len(data)):
            return bad('sim changed', f'combining changed its argument: {x.simulation} of {len(x.data)} monitors')
        for (e, v, _), got in zip(data, x.data):
            if got.values != e['values'] or got.Ncount != e['Ncount']:
                return bad('sim changed', f'combining changed its argument: {got.values} was {e["values"]}')


def sim_different(r, res, d, out, read, bad):
    """sim files that differ in what must not be mixed"""
    from mccode_antlr.loader import read_mccode_sim, combine_mccode_sims
    (s, fields, data), way = out[-1], None
    common = {e['component']: e for x in out[:-1] for e, _, _ in x[2]}
    mine = [e for e, _, _ in data if e['component'] in common]
    earlier = {k for x in out[:-1] for k in x[1]['pars']}
    pars = [k for k in fields['pars'] if k in earlier]
    if pars and r.random() < .5:
        k = r.choice(pars)
        way, changed = f'parameter {k}', s.replace(f'  Param: {k}={fields["pars"][k]}\n', f'  Param: {k}={fields["pars"][k]}1\n')
    elif mine:
        e = r.choice(mine)
        way = r.choice([k for k in e if k in ('type', 'position', 'xlimits', 'xylimits', 'xlabel', 'xvar', 'variables')])
        head, tail = s.split(f'  component: {e["component"]}\n')
        if way in ('type',):
            at = head.rindex('begin data')
            changed = head[:at] + head[at:].replace(f'  {way}: {e[way]}\n', f'  {way}: {e[way]}1\n') + f'  component: {e["component"]}\n' + tail
        else:
            changed = head + f'  component: {e["component"]}\n' + tail.replace(f'  {way}: {e[way]}\n', f'  {way}: {e[way]}1\n', 1)
        way = f'{way} of {e["component"]}'
    else:
        return
    if changed == s:
        raise RuntimeError('harness: no difference')
    (d / 'other.sim').write_text(changed)
    group = read[:-1] + [read_mccode_sim(d / 'other.sim')]
    r.shuffle(group)
    res.count('sims_refused')
    try:
        combine_mccode_sims(group)
    except Exception:
        return
    bad('sim mixed', f'sim files that differ in {way} were combined')


def run(desc, res: Result):
    for n in range(desc['per']):
        r = rng('c20', desc['seed'], desc['n'], n)
        d = Path(tempfile.mkdtemp(prefix='dat'))
        try:
            (sim if n % 4 == 3 else one)(r, res, d)
        except Exception as ex:
            res.violate('failed: ' + type(ex).__name__, short_tb(ex, 4), dict(seed=[desc['seed'], desc['n'], n], files={p.name: p.read_text()[:2500] for p in sorted(d.iterdir())[:3]}))
        finally:
            shutil.rmtree(d, ignore_errors=True)
