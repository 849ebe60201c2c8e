"""C21: parameter scans visit exactly the requested points."""
from fractions import Fraction as F
from itertools import product
from math import floor
from ..core import Result, rng, short_tb

RULE = ('random ranges written min:step:max or min:max (integers, decimals, exponents, either direction, ends on a step or between two), single numbers and text values, under names that differ in case or are prefixes of '
        'each other, written name=value or as two words; every range is read by iteration (twice, interleaved), by index and by length and compared with exact rational arithmetic, then scans of up to four '
        'parameters (linear and grid; from text, and from ranges, lists, arrays and plain values) are compared with the points their lists denote; ranges of one point and of none are read too; distinct = scan texts, non-trivial = more than one point')
ASSUMPTIONS = ['a range whose end lies between two steps ends at the last step before it (as in MATLAB); ends closer than 1e-6 of a step to a grid point without being one are not written',
               'text values that look like numbers may be normalised (007)']
MINIMUM = {'quick': dict(evaluations=5000, distinct=3500, ranges=4000, rounded_end=400, grids=1000, linear=1000, points=40000, mismatched=200, short_ranges=3000),
           'thorough': dict(evaluations=100000, distinct=70000, ranges=90000)}
NAMES = ['Lm', 'LM', 'lm', 'L', 'E', 'e', 'phi', 'Phi', 'phi2', 'n', 'dir', 'omega_1', 'x', 'X']


def chunks(tier, seed):
    n, per = (32, 250) if tier == 'quick' else (200, 1000)
    return [dict(seed=seed, n=i, per=per) for i in range(n)]


def close(a, b):
    return abs(F(a) - b) <= F(1, 10 ** 9) * max(1, abs(b)) if not isinstance(a, (str, bool)) else False


def number(r, wide=True):
    k = r.randrange(6)
    if k < 2:
        return str(r.randint(-40, 40))
    if k < 4:
        return f'{r.randint(-400, 400) / 10 ** r.randint(1, 3):.{r.randint(1, 3)}f}'
    if k == 4:
        return f'{r.randint(-99, 99)}e{r.randint(-3, 2)}'
    return r.choice(['0', '0.0', '1', '-1', '.5', '-.25', '2.', '1E1', '+3'])


def a_range(r, n=None):
    """A text and the points it denotes, and whether floating-point arithmetic is inexact at its end"""
    while True:
        start = F(number(r))
        n = n or r.choice([2, 2, 3, 4, 5, 7, 11, 31, 101] + [r.randint(2, 60)])
        form = r.random()
        if form < .2:
            step, tail, st = F(1), F(0) if r.random() < .6 else F(r.randint(1, 9), 10), None
        else:
            st = r.choice(['0.1', '0.2', '0.3', '0.01', '0.05', '0.7', '1', '2', '3', '-1', '-2', '-0.1', '-0.3', '1e-2', '-1e1', '0.125', '.1', '+2', '1.1', number(r)])
            step, tail = F(st), F(0) if r.random() < .65 else F(r.randint(1, 9), 10)
        if not step:
            continue
        stop = start + (n - 1) * step + tail * step
        s0, s1 = dec(start, r), dec(stop, r)
        if s0 is None or s1 is None or start == stop:
            continue
        text = f'{s0}:{st}:{s1}' if st else f'{s0}:{s1}'
        return text, [start + k * step for k in range(n)], tail == 0 and int((float(stop) - float(start)) / float(step)) != n - 1


def dec(f, r):
    """Exact decimal text of a fraction"""
    for p in range(8):
        if (f * 10 ** p).denominator == 1:
            v = int(f * 10 ** p)
            s = f'{"-" if v < 0 else ""}{abs(v) // 10 ** p}' + (f'.{abs(v) % 10 ** p:0{p}d}' if p else '')
            return s if p or r.random() < .8 else s + r.choice(['.0', '.', 'e0'])
    return None


def value(r):
    """A single value: text, what it is"""
    if r.random() < .7:
        s = number(r)
        try:
            return s, int(s)
        except ValueError:
            return s, F(s)
    s = r.choice(['a', 'file.dat', 'two words', '', 'a=b', 'x,y', '1,2,3', 'C', '/data/run', '-n', 'n=5', '1.5m', 'C\\x', '"q"', 'é', '--seed', '1 2'])
    return s, s


def same(got, want):
    if isinstance(want, str):
        return isinstance(got, str) and got == want
    if isinstance(want, int):
        return isinstance(got, int) and got == want
    return close(got, want)


def check_range(m, text, want, r, res):
    res.count('ranges')
    bad = lambda what: res.violate('range', f'{text}: {what}; it denotes {len(want)} points {[float(x) for x in want[:4]]} ... {float(want[-1])}', dict(text=text))
    got = list(m)
    if len(got) != len(want) or not all(close(a, b) for a, b in zip(got, want)):
        return bad(f'iteration gives {len(got)} points {got[:4]} ... {got[-1:]}')
    if len(m) != len(want):
        return bad(f'its length is {len(m)}')
    for k in {0, len(want) - 1, r.randrange(len(want))}:
        if not close(m[k], want[k]):
            return bad(f'element {k} is {m[k]}')
    try:
        v = m[len(want)]
        return bad(f'it has an element {len(want)}: {v}')
    except IndexError:
        pass
    i, j = iter(m), iter(m)
    mixed = [next(i), next(j), next(i), next(j)]
    if mixed != [got[0], got[0], got[1], got[1]] or len(list(i)) != len(want) - 2 or len(list(m)) != len(want):
        return bad('two iterations of the same range disturb each other')
    if not close(m.min, want[0]) or float(m.max) != m.max or (m.max - got[-1]) * (want[1] - want[0]) < -1e-9:
        return bad(f'its ends are {m.min} and {m.max}')
    again = type(m).from_str(str(m))
    if list(again) != got or not again == m:
        return bad(f'its text {m} reads as {list(again)[:4]}')


def short_range(r, res):
    """a range that ends before its second point, or lies on the other side of its start: one point, and none"""
    from mccode_antlr.run.range import MRange, parse_scan_parameters
    up = r.choice([1, -1])
    start, step, away = r.randint(-9, 9), up * r.randint(2, 6), up * r.choice([.5, 1, 1.5])
    for text, want in ((f'{start}:{step}:{start + away}', [start]), (f'{start}:{step}:{start - away}', []), (f'{start}:{start - abs(away)}', [])):
        res.count('short_ranges')
        try:
            m = MRange.from_str(text)
        except ValueError as ex:
            if want:
                res.violate('range', f'{text} is refused: {short_tb(ex)}', dict(text=text))
            continue
        got, n = list(m), len(m)
        if got != want or n != len(want):
            res.violate('range', f'{text}: iteration gives {len(got)} points {got[:4]}, its length is {n}; it denotes {want}', dict(text=text))
        for k in (len(want), len(want) + 1):
            try:
                res.violate('range', f'{text} has an element {k}: {m[k]}; it denotes {want}', dict(text=text))
            except IndexError:
                pass
        args = [f'x={text}', 'y=7']
        p = parse_scan_parameters(args)
        if list(p['x']) != want:
            res.violate('range', f'{args}: x is {list(p["x"])[:4]}; it denotes {want}', dict(text=text))


def one(r, res):
    from mccode_antlr.run.range import MRange, parse_scan_parameters, parameters_to_scan
    n_par = r.choice([0, 1, 1, 2, 2, 3, 4])
    names = r.sample(NAMES, n_par)
    grid = r.random() < .5
    n = r.choice([2, 2, 3, 5, 8, 20])
    mismatch = not grid and n_par > 1 and r.random() < .15
    args, want, texts, inexact = [], {}, {}, False
    n_ranges = 0
    for k in names:
        if r.random() < .6 or (mismatch and n_ranges < 2):
            size = n if not grid and not (mismatch and n_ranges) else r.choice([2, 3, 4, 6]) if not mismatch else n + r.randint(1, 3)
            n_ranges += 1
            text, points, inex = a_range(r, size)
            inexact |= inex
            if inex:
                res.count('rounded_end')
            texts[k], want[k] = text, points
        else:
            texts[k], v = value(r)
            want[k] = [v]
        if '=' not in texts[k] and r.random() < .3 and not (texts[k].startswith('-')):
            args += [k, texts[k]]
        else:
            args += [f'{k}={texts[k]}']
    mismatch = not grid and len({len(v) for v in want.values() if len(v) > 1}) > 1
    case = dict(args=list(args), grid=grid)
    api = r.random() < .4
    kinds = {}
    if api:
        from mccode_antlr.run.range import Singular
        pars = {}
        for k in names:
            w = want[k]
            if len(w) > 1:
                kinds[k] = r.choice(['range', 'list', 'array', 'tuple'])
                num = [float(x) for x in w]
                if kinds[k] == 'array':
                    from numpy import array
                    num = array(num)
                pars[k] = MRange.from_str(texts[k]) if kinds[k] == 'range' else tuple(num) if kinds[k] == 'tuple' else num
            else:
                kinds[k] = r.choice(['singular', 'list', 'plain'])
                v = float(w[0]) if isinstance(w[0], F) else w[0]
                pars[k] = Singular(v) if kinds[k] == 'singular' else [v] if kinds[k] == 'list' else v
        case['kinds'] = kinds
    else:
        pars = parse_scan_parameters(args)
        if args != case['args']:
            res.violate('arguments', f'parsing changed the argument list to {args}', case)
        if list(pars) != names:
            return res.violate('names', f'{case["args"]} was read as parameters {list(pars)}', case)
        longest = max([len(w) for w in want.values()] or [1])
        for k, v in pars.items():
            if len(want[k]) > 1:
                check_range(v, texts[k], want[k], r, res)
            elif not same(v.value, want[k][0]):
                res.violate('value', f'{k}={texts[k]!r} was read as {v.value!r}', case)
            elif [x for x in v] != [v.value] * longest or len(v) != longest or not same(v.min, want[k][0]) or not same(v.max, want[k][0]):
                res.violate('singular', f'{k}={texts[k]!r}: the single value is repeated {len(v)} times beside ranges of {longest}', case)
    before = {k: (str(v), type(v), getattr(v, 'maximum', None)) for k, v in pars.items()}
    try:
        got = parameters_to_scan(pars, grid=grid)
    except ValueError as ex:
        res.case(case, True)
        res.count('mismatched')
        if not mismatch:
            res.violate('refused', f'{case}: {ex}', case)
        elif not any(k in str(ex) for k in names):
            res.violate('refused', f'{case}: the error names no parameter: {ex}', case)
        return
    if {k: (str(v), type(v), getattr(v, 'maximum', None)) for k, v in pars.items()} != before or list(before) != list(pars):
        res.violate('changed', f'{case}: the dictionary given to parameters_to_scan was changed to {pars}', case)
    if mismatch:
        return res.violate('accepted', f'{case}: lists of different lengths were accepted: {got[0]} points', case)
    n_pts, got_names, points = got
    points = [list(p) for p in points]
    if grid:
        denoted = [list(p) for p in product(*want.values())] if want else []
        res.count('grids')
    else:
        m = max([len(w) for w in want.values()] or [0])
        denoted = [[w[k] if len(w) > 1 else w[0] for w in want.values()] for k in range(m)]
        res.count('linear')
    res.count('points', len(denoted))
    res.case(case, len(denoted) > 1, sample=dict(case, points=len(denoted)))
    if list(got_names) != names:
        return res.violate('names', f'{case}: the scan is over {got_names}', case)
    if n_pts != len(denoted) or len(points) != len(denoted):
        return res.violate('points', f'{case}: {n_pts} points announced, {len(points)} given, {len(denoted)} requested', case)
    if grid:  # every combination once, in whatever order
        order = lambda p: [str(x) if isinstance(x, str) else '' for x in p] + [0. if isinstance(x, str) else round(float(x), 7) + 0. for x in p]
        points, denoted = sorted(points, key=order), sorted(denoted, key=order)
    for p, w in zip(points, denoted):
        if len(p) != len(w) or not all(same(a, b) or (api and not isinstance(b, str) and close(a, F(b))) for a, b in zip(p, w)):
            return res.violate('points', f'{case}: a point is {p} where {[x if isinstance(x, str) else float(x) for x in w]} is requested', case)


def run(desc, res: Result):
    for n in range(desc['per']):
        r = rng('c21', desc['seed'], desc['n'], n)
        try:
            one(r, res)
            if n % 4 == 0:
                short_range(r, res)
        except Exception as ex:
            res.violate('failed', short_tb(ex, 4), dict(seed=[desc['seed'], desc['n'], n]))


def normalised():
    from mccode_antlr.run.range import parse_scan_parameters
    p = parse_scan_parameters(['file=007'])
    if str(p['file'].value) != '007':
        return f'file=007 is passed on as file={p["file"].value}'


PROBES = {'numeric-text': normalised}
