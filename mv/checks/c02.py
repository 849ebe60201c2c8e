"""C02: building, simplifying and evaluating expressions through the API keeps their value and their inputs."""
from __future__ import annotations
import math, operator
from ..core import Result, rng, short_tb
from ..lib import cexpr as X

RULE = ('random sequences of Python operations on expression objects (arithmetic with expressions and plain numbers on '
        'either side, negation, abs, function and ternary nodes, simplify, evaluate with partial and full bindings, copy) '
        'run in lockstep with a float model; gcc evaluates what the objects print; non-trivial = two or more operations '
        'on at least one identifier. Expressions which are said to be equal must have equal values, and constants are ordered as their values')
ASSUMPTIONS = ['identifiers stand for doubles; evaluation bindings are finite', 'printed text is judged as C by gcc']
MINIMUM = {'quick': dict(evaluations=6000, distinct=4000, evaluated_full=2000, simplified=2000, mutation_checks=6000, powers=1500, wholes=150, compared_with_numbers=3000),
           'thorough': dict(evaluations=120000, distinct=60000)}

NAMES = ['a', 'b', 'c', 'd', 'e', 'g']
# SETS values of the variables, as in the C prelude
DV = [[1.37, -2.61, 0.731, 3.19, -0.457, 5.03], [-0.83, 1.91, -3.37, 0.219, 2.77, -1.13], [12.3, 7.7, 1.01, -9.2, 0.033, -0.71]]
INTS = [0, 1, -1, 2, -3, 4, 7]
FLTS = [0.5, -1.25, 2.75, 1e-3, -250.5, 3.3]
ZERO = [0.0, 1.0, -1.0]


def chunks(tier, seed):
    n, per = (48, 150) if tier == 'quick' else (400, 400)
    return [dict(seed=seed, n=i, per=per) for i in range(n)]


class Skip(Exception):
    pass


def model(fn, *vals):
    out = []
    for row in zip(*vals):
        try:
            v = fn(*row)
        except (ZeroDivisionError, OverflowError, ValueError):
            raise Skip()
        if not math.isfinite(v) or abs(v) > 1e60:
            raise Skip()
        out.append(float(v))
    return out


def leaf(r):
    """(expression, values per variable set, description, contains identifier)"""
    from mccode_antlr.common.expression import Expr
    x = r.random()
    if x < 0.55:
        n = r.randrange(len(NAMES))
        return Expr.id(NAMES[n]), [v[n] for v in DV], NAMES[n], True
    if x < 0.7:
        v = r.choice(INTS)
        return Expr.int(v), [float(v)] * 3, f'int({v})', False
    v = r.choice(FLTS if r.random() < 0.8 else ZERO)
    return (Expr.float(v) if r.random() < 0.6 else Expr.best(v)), [v] * 3, f'float({v})', False


def number(r):
    v = r.choice(INTS + FLTS + ZERO)
    return v, [float(v)] * 3, repr(v)


BIN = [('+', operator.add), ('-', operator.sub), ('*', operator.mul), ('/', operator.truediv)]
CMP = [('__lt__', operator.lt), ('__gt__', operator.gt), ('__le__', operator.le), ('__ge__', operator.ge),
       ('__eq__', operator.eq), ('__neq__', operator.ne), ('__and__', lambda x, y: bool(x) and bool(y)),
       ('__or__', lambda x, y: bool(x) or bool(y))]


def integers(*operands):
    """may C divide these as integers? Comparisons are integers there"""
    return any('__' in d for _, _, d, *_ in operands) and all(float(v).is_integer() for _, vs, *_ in operands for v in vs)


def build(r, steps, res):
    """Run a random operation sequence on a pool of expressions, in lockstep with the model."""
    from mccode_antlr.common.expression import Expr, BinaryOp, TrinaryOp, UnaryOp, Value, ObjectType
    pool = [leaf(r) for _ in range(3)]
    for _ in range(steps):
        before = [str(p[0]) for p in pool]
        x = r.choice(pool[-3:])
        kind = r.random()
        try:
            if kind < 0.45:
                op, fn = r.choice(BIN)
                y = r.choice(pool[-4:]) if r.random() < 0.7 else leaf(r)
                vals = model(fn, x[1], y[1])
                if op == '/' and (any(abs(v) < 1e-9 for v in y[1]) or integers(x, y)):
                    raise Skip()
                new = (fn(x[0], y[0]), vals, f'({x[2]} {op} {y[2]})', x[3] or y[3])
            elif kind < 0.65:
                op, fn = r.choice(BIN)
                v, vv, d = number(r)
                if r.random() < 0.5:
                    if op == '/' and (v == 0 or integers(x, (v, vv, d))):
                        raise Skip()
                    vals = model(fn, x[1], vv)
                    new = (fn(x[0], v), vals, f'({x[2]} {op} {d})', x[3])
                else:
                    if op == '/' and (any(abs(q) < 1e-9 for q in x[1]) or integers(x, (v, vv, d))):
                        raise Skip()
                    vals = model(fn, vv, x[1])
                    new = (fn(v, x[0]), vals, f'({d} {op} {x[2]})', x[3])
            elif kind < 0.73:
                new = (-x[0], [-v for v in x[1]], f'-({x[2]})', x[3])
            elif kind < 0.76:
                new = (+x[0], list(x[1]), f'+({x[2]})', x[3])
            elif kind < 0.80:
                new = (abs(x[0]), [abs(v) for v in x[1]], f'abs({x[2]})', x[3])
            elif kind < 0.84:
                new = (x[0].simplify(), list(x[1]), f'simplify({x[2]})', x[3])
                res.count('simplified_inside')
            elif kind < 0.88:
                new = (x[0].copy(), list(x[1]), f'copy({x[2]})', x[3])
            elif kind < 0.93:
                name, fn = r.choice([('sin', math.sin), ('tanh', math.tanh), ('atan', math.atan)])
                f = Value(name, object_type=ObjectType.function)
                new = (Expr(BinaryOp('__call__', f, x[0])), model(fn, x[1]), f'{name}({x[2]})', True)
            elif kind < 0.97:
                op, fn = r.choice(CMP)
                y = r.choice(pool[-4:])
                new = (Expr(BinaryOp(op, x[0], y[0])), [float(fn(p, q)) for p, q in zip(x[1], y[1])],
                       f'{op}({x[2]}, {y[2]})', True)
            else:
                y, z = r.choice(pool[-4:]), r.choice(pool[-4:])
                new = (Expr(TrinaryOp('__trinary__', x[0], y[0], z[0])), [q if p else s for p, q, s in zip(x[1], y[1], z[1])],
                       f'({x[2]} ? {y[2]} : {z[2]})', True)
        except Skip:
            continue
        except Exception as ex:
            res.violate('operation-error', f'operation on {[p[2] for p in pool]} failed: {short_tb(ex)}', dict(note='rerun seed'))
            continue
        after = [str(p[0]) for p in pool]
        res.count('mutation_checks')
        if before != after:
            k = [i for i in range(len(before)) if before[i] != after[i]][0]
            res.violate('operand-mutated', f'computing {new[2]} changed operand {before[k]!r} to {after[k]!r}', dict(desc=new[2]))
        pool.append(new)
    return pool


def compare(r, pool, res):
    """two expressions which are equal have the same value, constants are ordered as their values"""
    some = list(pool[-4:])
    x, y = r.choice(pool), r.choice(pool)
    for op, fn in BIN:
        try:
            for p, q in ((x, y), (y, x)):
                if not (op == '/' and (any(abs(v) < 1e-9 for v in q[1]) or integers(p, q))):
                    some.append((fn(p[0], q[0]), model(fn, p[1], q[1]), f'({p[2]} {op} {q[2]})', p[3] or q[3]))
        except Skip:
            pass
        except Exception as ex:
            res.violate('operation-error', f'{x[2]} {op} {y[2]} failed: {short_tb(ex)}', dict(ops=[x[2], y[2]]))
    for p in some:
        for q in some:
            try:
                same = p[0] == q[0]
                res.count('compared')
                if isinstance(same, bool) and same:
                    res.count('found_equal')
                    if not X.same(p[1], q[1], 1e-9):
                        res.violate('equal', f'{p[2]}, printed {p[0]}, is said to equal {q[2]}, printed {q[0]}, but their values are {p[1]} and {q[1]}', dict(first=p[2], second=q[2]))
                    if (p[0] != q[0]) is True:
                        res.violate('equal-and-not', f'{p[0]} is both equal and not equal to {q[0]}', dict(first=p[2], second=q[2]))
                elif same is False and p is q:
                    res.violate('not-itself', f'{p[2]}, printed {p[0]}, is said not to equal itself', dict(first=p[2]))
                if p[0].is_constant and q[0].is_constant:
                    for name, fn in (('<', operator.lt), ('>', operator.gt)):
                        said = fn(p[0], q[0])
                        if isinstance(said, bool) and said != fn(p[1][0], q[1][0]) and not X.same(p[1][:1], q[1][:1], 1e-9):
                            res.violate('order', f'{p[0]} {name} {q[0]} is said to be {said}', dict(first=p[2], second=q[2]))
                        res.count('ordered')
            except Exception as ex:
                res.violate('operation-error', f'comparing {p[0]} and {q[0]} failed: {short_tb(ex)}', dict(first=p[2], second=q[2]))


def power_text(text, names):
    """value of printed text in which ^ raises to a power"""
    if not re.fullmatch(r'[\w\s.+*/^()-]*', text):
        raise SyntaxError(text)
    return eval(text.replace('^', '**'), dict(FUNCTIONS, __builtins__={}), names)


def half_away(v):
    return math.copysign(math.floor(abs(v) + 0.5), v)


FUNCTIONS = dict(fabs=abs, abs=abs, round=half_away)
POWERS = [('**', operator.pow)] * 3 + BIN + [('round', None), ('abs', None), ('-', None)]


def powers(r, res):
    """powers, rounding and the rest, in lockstep with a model"""
    from mccode_antlr.common.expression import Expr
    names = dict(zip(NAMES, [1.3, 2.0, 0.7, 3.0, 1.9, 2.6]))
    pool = [(Expr.id(n), v, n, True) for n, v in r.sample(sorted(names.items()), 2)] + [(Expr.float(1.5), 1.5, '1.5', False)]
    done = 0
    for _ in range(r.randint(2, 7)):
        op, fn = r.choice(POWERS)
        x = r.choice(pool[-3:])
        before = [str(p[0]) for p in pool]
        try:
            if fn is None:
                if op == 'round':
                    if abs(abs(x[1]) % 1 - 0.5) < 1e-3 or abs(x[1]) > 1e9:
                        continue
                    new = (round(x[0]), half_away(x[1]), f'round({x[2]})', x[3])
                elif op == 'abs':
                    new = (abs(x[0]), abs(x[1]), f'abs({x[2]})', x[3])
                else:
                    new = (-x[0], -x[1], f'-({x[2]})', x[3])
            else:
                if r.random() < 0.5:
                    v = r.choice([0, 1, 2, 3, -1, -2] if op == '**' else [1, 2, 3, -1, 0.5, 2.5])
                    y = (v, float(v), repr(v), False)
                else:
                    y = r.choice(pool[-3:])
                if r.random() < 0.3:
                    x, y = y, x
                if not (isinstance(x[0], Expr) or isinstance(y[0], Expr)):
                    continue
                if op == '**' and (x[1] < 0 and not float(y[1]).is_integer() or abs(x[1]) < 1e-6 or abs(y[1]) > 6):
                    continue
                if op == '/' and abs(y[1]) < 1e-6:
                    continue
                v = fn(x[1], y[1])
                if not 1e-30 < abs(v) < 1e30:
                    continue
                new = (fn(x[0], y[0]), v, f'({x[2]} {op} {y[2]})', x[3] or y[3])
        except OverflowError:
            continue
        except Exception as ex:
            res.violate('power-operation-error', f'{x[2]} {op}: {short_tb(ex)}', dict(first=x[2], op=op))
            continue
        if [str(p[0]) for p in pool] != before:
            res.violate('operand-mutated', f'computing {new[2]} changed one of {before}', dict(desc=new[2]))
        pool.append(new)
        done += 1
    if not done:
        return
    e, value, d, ident = pool[-1]
    res.case(('power', d), ident, sample=dict(ops=d, prints=str(e), value=value))
    res.count('powers')
    some = {n: Expr.float(v) for n, v in names.items() if r.random() < 0.5}
    try:
        texts = [('str', str(e)), ('simplify', str(e.simplify())), ('evaluate partial', str(e.evaluate(some))),
                 ('evaluate full', str(e.evaluate({n: Expr.float(v) for n, v in names.items()}))), ('copy', str(e.copy()))]
    except Exception as ex:
        res.violate('transform-error', f'{d}: {short_tb(ex)}', dict(desc=d))
        return
    for what, text in texts:
        try:
            got = power_text(text, names)
        except OverflowError:
            continue
        except (SyntaxError, NameError, TypeError, ValueError, ZeroDivisionError) as ex:
            res.violate(f'invalid:{what}', f'{d}: {what} prints {text!r}: {ex!r}', dict(desc=d, text=text))
            continue
        if isinstance(got, complex) or not X.same([got], [value], 1e-8):
            res.violate(f'power:{what}', f'{d} = {value} but {what} prints {text!r} = {got}', dict(desc=d, text=text))


def wholes(r, res):
    """division which rounds down, of whole numbers which are not negative, and comparisons with plain numbers"""
    from mccode_antlr.common.expression import Expr
    a, b, c = r.randint(0, 40), r.randint(1, 9), r.randint(0, 12)
    f = r.choice([0.3, 2.7, 7.5, 11.999, 6.0, 1.5])
    n, m = Expr.id('n'), Expr.id('m')
    known = {'n': Expr.int(a), 'm': Expr.int(b)}
    jobs = [('a // b', lambda: Expr.int(a) // b, a // b), ('a // b reversed', lambda: a // Expr.int(b), a // b),
            ('a // b of expressions', lambda: Expr.int(a) // Expr.int(b), a // b),
            ('f // b', lambda: Expr.float(f) // b, math.floor(f / b)), ('f // 1', lambda: Expr.float(f) // 1, math.floor(f)),
            ('n // b', lambda: n // b, a // b), ('n // 1', lambda: n // 1, a), ('a // m', lambda: a // m, a // b),
            ('n // m', lambda: n // m, a // b), ('(n + c) // b', lambda: (n + c) // b, (a + c) // b),
            ('(n + c) // 1', lambda: (n + c) // 1, a + c), ('(n * c) // m', lambda: (n * c) // m, a * c // b),
            ('(n + c) // m * c', lambda: (n + c) // m * c, (a + c) // b * c), ('n // m // c', lambda: n // m // (c + 1), a // b // (c + 1)),
            ('c * (n // m)', lambda: c * (n // m), c * (a // b)), ('(n // m) - c', lambda: n // m - c, a // b - c)]
    row = []
    for d, fn, want in jobs:
        try:
            e = fn()
            for what, t in (('str', str(e)), ('simplify', str(e.simplify())), ('evaluate', str(e.evaluate(known)))):
                row.append((d, what, t, want))
        except Exception as ex:
            res.violate('floor-error', f'{d} with n={a} m={b} c={c} f={f} failed: {short_tb(ex)}', dict(desc=d, a=a, b=b, c=c, f=f))
    v = r.choice([a, f, b, -f])
    for d, e, val in (('n', n, a), ('constant int', Expr.int(a), a), ('constant float', Expr.float(f), f)):
        for name, fn in (('<', operator.lt), ('>', operator.gt), ('<=', operator.le), ('>=', operator.ge)):
            for way, call in (('', lambda: fn(e, v)), ('reversed', lambda: fn(v, e))):
                want = fn(val, v) if not way else fn(v, val)
                try:
                    got = call()
                except Exception as ex:
                    res.violate('compare-error', f'{d} {name} {v} {way} failed: {short_tb(ex)}', dict(desc=d, a=a, v=v))
                    continue
                res.count('compared_with_numbers')
                if isinstance(got, bool):
                    if got != want or d == 'n':
                        res.violate('compare-number', f'{e} {name} {v} {way} is {got}', dict(desc=d, a=a, v=v))
                else:
                    row.append((f'{d} {name} {v} {way}', 'str', str(got), float(want)))
    got = [(Expr.int(a) <= Expr.int(c)), (Expr.int(a) >= Expr.int(c)), Expr.float(f) <= Expr.int(c), Expr.float(f) >= Expr.int(c)]
    if got != [a <= c, a >= c, f <= c, f >= c]:
        res.violate('order', f'{a} and {f} compared with {c} by <= and >=: {got}', dict(a=a, c=c, f=f))
    return dict(a=a, b=b), row


def run(desc, res: Result):
    arithmetic(desc, res)
    r = rng('c02-wholes', desc['seed'], desc['n'])
    wrows = []
    for _ in range(4):
        wrows.append(wholes(r, res))
        res.count('wholes')
    out = X.evaluate_texts([[(f'({{int n = {k["a"]}, m = {k["b"]}; (double)({t[2]});}})', True) for t in row] for k, row in wrows])
    for (k, row), vs in zip(wrows, out):
        for (d, what, text, want), v in zip(row, vs):
            if isinstance(v, str):
                res.violate(f'invalid:{what}', f'{d}: {what} prints {text!r}: {v}', dict(desc=d, text=text))
            elif not X.same(v[:1], [float(want)], 1e-9):
                res.violate(f'whole:{what}', f'{d} with {k} is {want} but {what} prints {text!r} = {v[0]}', dict(desc=d, text=text))
    r = rng('c02-powers', desc['seed'], desc['n'])
    for _ in range(desc['per'] // 2):
        powers(r, res)


def arithmetic(desc, res: Result):
    from mccode_antlr.common.expression import Expr
    r = rng('c02', desc['seed'], desc['n'])
    rows, meta = [], []
    for _ in range(desc['per']):
        pool = build(r, r.randint(2, 7), res)
        e, vals, d, ident = pool[-1]
        compare(r, pool, res)
        if len(pool) < 5:
            continue
        res.case(d, ident, sample=dict(ops=d, prints=str(e), values=vals))
        row = [('str', str(e))]
        before = repr(e), str(e)
        try:
            s = e.simplify()
            row.append(('simplify', str(s)))
            res.count('simplified')
            ss = s.simplify()
            row.append(('simplify twice', str(ss)))
            # a partial binding leaves the rest symbolic; bind to values of set 0
            some = {n: Expr.float(DV[0][k]) for k, n in enumerate(NAMES) if r.random() < 0.5}
            row.append(('evaluate partial', str(e.evaluate(some)), 0))
            full = {n: Expr.float(DV[1][k]) for k, n in enumerate(NAMES)}
            ev = e.evaluate(full)
            row.append(('evaluate full', str(ev), 1))
            for n in NAMES:
                if ev.depends_on(n):
                    res.violate('evaluate-left-name', f'{d} evaluated with every name bound still depends on {n}: {ev}', dict(desc=d))
            res.count('evaluated_full')
            row.append(('copy', str(e.copy())))
            if not (e.copy() == e):
                res.violate('copy-not-equal', f'copy of {e} is not equal to it', dict(desc=d))
            # rename one variable through an expression binding: same as binding the value
            n = r.choice(NAMES)
            k = NAMES.index(n)
            m = r.choice([x for x in NAMES if x != n])
            row.append(('evaluate alias', str(e.evaluate({n: Expr.id(m)})), ('alias', k, NAMES.index(m))))
        except Exception as ex:
            res.violate('transform-error', f'{d}: {short_tb(ex)}', dict(desc=d))
            continue
        if (repr(e), str(e)) != before:
            res.violate('transform-mutated', f'simplify/evaluate/copy changed {before[1]!r} to {e}', dict(desc=d))
        rows.append(row)
        meta.append((d, vals))
    # every identifier is a double and whole-number folding keeps values, so only int/int could differ: print doubles
    texts = [[(t[1], True) for t in row] for row in rows]
    # aliases need their own reference: evaluate the plain text with one variable replaced
    for row, tr in zip(rows, texts):
        for t in row:
            if len(t) > 2 and isinstance(t[2], tuple):
                tr.append((f'({{double {NAMES[t[2][1]]} = {NAMES[t[2][2]]}; (double)({row[0][1]});}})', True))
    out = X.evaluate_texts([[(as_double(t), b) for t, b in tr] for tr in texts])
    for (d, vals), row, vs in zip(meta, rows, out):
        alias_ref = vs[-1]
        for t, v in zip(row, vs):
            if isinstance(v, str):
                res.violate(f'invalid:{t[0]}', f'{d}: {t[0]} prints {t[1]!r}: {v}', dict(desc=d, text=t[1]))
                continue
            if len(t) > 2 and isinstance(t[2], tuple):
                ok = X.same(v, alias_ref, 1e-9) or not X.all_finite(alias_ref)
                want = alias_ref
            elif len(t) > 2:
                ok = X.same([v[t[2]]], [vals[t[2]]], 1e-9)
                want = vals[t[2]]
            else:
                ok = X.same(v, vals, 1e-9)
                want = vals
            if not ok:
                res.violate(f'value:{t[0]}', f'{d} = {want} but {t[0]} prints {t[1]!r} = {v}', dict(desc=d, text=t[1]))


import re
_INT = re.compile(r'(?<![\w.])(?<![eE][-+])(\d+)(?![\w.])')


def as_double(text):
    """Whole numbers in printed text denote reals here, so keep C from dividing integers."""
    return _INT.sub(r'\1.', text)


PROBES = {}
