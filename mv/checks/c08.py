"""C08: placements compose like rigid-body transformations."""
from __future__ import annotations
import math
from ..core import Result, rng, short_tb
from ..lib import cexpr as X
from ..lib.prog import rot_set, mat, tr, app

RULE = ('random chains of placements (numbers - right angles, straight angles, tiny and arbitrary ones - and expressions of parameters, in degrees or radians, relative to any earlier placement for position and rotation separately), built directly, through '
        'instances of a parsed instrument, and as lists of parts which are joined, subtracted, inverted, reduced and resolved. Every position, rotation matrix and set of angles the library gives is printed and evaluated by a C compiler for four sets of '
        'parameter values, among them right angles, and compared with double-precision matrices of the rigid-body transformations; distinct = chains, non-trivial = at least two placements with a rotation')
ASSUMPTIONS = ['expressions of parameters are evaluated as C, as they are when they are printed into an instrument', 'numbers agree to 1e-9 (angles near gimbal lock and of numerically found axes: the rotation they give to 2e-6)',
               'position in "coordinates" of a pure translation and the sum of Orient objects are not judged', 'at most three rotations of a chain are expressions']
MINIMUM = {'quick': dict(evaluations=3400, distinct=2300, quantities=170000, symbolic=50000, angles=24000, gimbal=1500, axis_angle=800, algebra=14000),
           'thorough': dict(evaluations=46000, distinct=30000, quantities=2300000, symbolic=680000, angles=330000, gimbal=20000, axis_angle=11000, algebra=190000)}
NAMES = ['a1', 'a2', 'a3', 'a4', 'x1', 'x2']
VALUES = [dict(a1=37.25, a2=-104.5, a3=61.75, a4=12.125, x1=.75, x2=-1.5, n1=7, n2=-3), dict(a1=90., a2=-90., a3=180., a4=0., x1=0., x2=2., n1=90, n2=1),
          dict(a1=150.5, a2=120.25, a3=-170., a4=91., x1=-.25, x2=.125, n1=-45, n2=2), dict(a1=0., a2=45., a3=-135., a4=-180., x1=3., x2=0., n1=0, n2=180)]
PRELUDE = '#include <stdio.h>\n#include <math.h>\n#define PI 3.14159265358979323846\n#define DEG2RAD (PI/180.0)\n#define RAD2DEG (180.0/PI)\n#define SETS %d\nstatic double %s; static int n1, n2;\nstatic void setvars(int n){%s}\n' % (
    len(VALUES), ','.join(NAMES), ''.join('if(n==%d){%s}' % (n, ''.join(f'{k}={v!r};' for k, v in s.items())) for n, s in enumerate(VALUES)))
ANGLES = ['0', '90', '-90', '180', '-180', '45', '30', '-60', '120', '270', '360', '0.001', '90.0', '0.0', '1e-7', '-0.5']
SYMBOLIC = ['a1', 'a2', 'a3', '-a1', '2*a2', 'a1+a2', 'a3/2', 'n1', '90-a1', 'a4', 'a1+90', '-(a2)', 'n1/2', 'a3*n2']
COORDS = ['0', '1', '-2', '0.5', '1e-3', '3.75', '-0.125', '10']
SYMCOORDS = ['x1', 'x2', '-x1', '2*x2', 'sin(x1)', 'x1+x2', 'sqrt(x2*x2+1)', 'n1', 'x1/4', 'cos(a1)', 'fabs(x2)', 'n2*0.5']


def chunks(tier, seed):
    n, per = (80, 44) if tier == 'quick' else (400, 120)
    return [dict(seed=seed, n=i, per=per) for i in range(n)]


class Ask:
    """texts to be evaluated together, and what to do with their values"""

    def __init__(self):
        self.rows, self.then = [], []

    def __call__(self, exprs, then):
        self.rows.append([(str(e), True) for e in exprs])
        self.then.append(then)

    def answer(self):
        if not self.rows:
            return
        values = evaluate(self.rows)
        for row, v, f in zip(self.rows, values, self.then):
            f([t for t, _ in row], v)


def evaluate(rows):
    texts = {}
    for row in rows:
        for t, _ in row:
            texts.setdefault(t, None)
    todo = list(texts)
    for n in range(0, len(todo), 3000):
        part = todo[n:n + 3000]
        for t, v in zip(part, X.evaluate_texts([[(t, False) for t in part]], PRELUDE)[0]):
            texts[t] = v
    return [[texts[t] for t, _ in row] for row in rows]


# ---------------------------------------------------------------- generators

def angle(r, symbolic):
    if symbolic and r.random() < .45:
        return r.choice(SYMBOLIC)
    x = r.random()
    return r.choice(ANGLES) if x < .65 else repr(round(r.uniform(-180, 180), 4)) if x < .95 else repr(r.uniform(-400, 400))


def angles(r, symbolic, flat=.4):
    if r.random() < .2:
        return ['0', '0', '0']
    if r.random() < flat:
        a = ['0', '0', '0']
        a[r.randrange(3)] = angle(r, symbolic)
        return a
    return [angle(r, symbolic) for _ in range(3)]


def coord(r, symbolic):
    return r.choice(SYMCOORDS) if symbolic and r.random() < .3 else r.choice(COORDS) if r.random() < .7 else repr(round(r.uniform(-5, 5), 5))


def is_symbolic(texts):
    return sum(any(c.isalpha() and c != 'e' for c in t) for t in texts)


def expr(t, r):
    from mccode_antlr.common import Expr
    x = r.random()
    try:
        if x < .3:
            return Expr.float(float(t))
        if x < .4 and '.' not in t:
            return Expr.best(int(t))
    except ValueError:
        pass
    return Expr.parse(t)


def close(got, want, tol=1e-9):
    return all(abs(g - w) <= tol * max(1., abs(w)) for g, w in zip(got, want))


def flat(m):
    return [x for row in m for x in row]


# ---------------------------------------------------------------- chains of placements

def chain(r, ask, res, how):
    from mccode_antlr.instr.orientation import Orient, Vector, Angles
    symbolic = r.random() < .6
    degrees = how != 'direct' or r.random() < .75
    nodes = []
    for n in range(r.choice([1, 2, 2, 3, 3, 4, 5, 6])):
        at_ref = r.choice([None, *range(n)]) if r.random() < .5 else (n - 1 if n else None)
        rot_ref = r.choice([None, *range(n)]) if r.random() < .35 else at_ref
        carried = nodes[rot_ref]['sym'] if rot_ref is not None else 0
        a = angles(r, symbolic and carried < 3)
        if carried + is_symbolic(a) > 3:
            a = angles(r, False)
        if not degrees:
            a = [t if is_symbolic([t]) else repr(math.radians(float(t))) for t in a]
        v = [coord(r, symbolic) for _ in range(3)]
        nodes.append(dict(at=v, a=a, at_ref=at_ref, rot_ref=rot_ref, sym=carried + is_symbolic(a)))
    said = f'{how}, {"degrees" if degrees else "radians"}: ' + '; '.join(f'{n}: AT ({", ".join(x["at"])}) of {x["at_ref"]} ROTATED ({", ".join(x["a"])}) of {x["rot_ref"]}' for n, x in enumerate(nodes))
    case = dict(nodes=nodes, how=how, degrees=degrees)
    try:
        if how == 'direct':
            orients = []
            for x in nodes:
                v, a = Vector(*[expr(t, r) for t in x['at']]), Angles(*[expr(t, r) for t in x['a']])
                rel, rot = [None if k is None else orients[k] for k in (x['at_ref'], x['rot_ref'])]
                if x['at_ref'] == x['rot_ref'] and r.random() < .5:
                    orients.append(Orient.from_dependent_orientation(rel, v, a, degrees=degrees))
                else:
                    orients.append(Orient.from_dependent_orientations(rel, v, rot, a, degrees=degrees))
        else:
            instr = parse(nodes, r)
            if how == 'copied':
                instr = instr.copy()
            orients = [i.orientation for i in instr.components]
    except Exception as ex:
        res.violate('error:' + type(ex).__name__, f'{said}: {short_tb(ex, 5)}', case)
        return said, False
    texts = [t for x in nodes for t in (*x['at'], *x['a'])]
    state = {}

    def oracle(ts, vs):
        v = dict(zip(ts, vs))
        for s in range(len(VALUES)):
            done = []
            for x in nodes:
                f = math.radians if degrees else float
                R = rot_set(*[f(v[t][s]) for t in x['a']])
                if x['rot_ref'] is not None:
                    R = mat(R, done[x['rot_ref']][0])
                P = [v[t][s] for t in x['at']]
                if x['at_ref'] is not None:
                    q = done[x['at_ref']]
                    P = [a + b for a, b in zip(q[1], app(tr(q[0]), P))]
                done.append((R, P))
            state[s] = done
    ask(texts, oracle)
    for n, o in enumerate(orients):
        where = f'placement {n} of {said}'

        def judge(what, exprs, want, tol=1e-9, n=n, where=where):
            def f(ts, vs):
                for s in range(len(VALUES)):
                    res.count('quantities')
                    if is_symbolic(ts):
                        res.count('symbolic')
                    w = want(*state[s][n])
                    if any(isinstance(v, str) for v in vs):
                        res.violate('text:' + what, f'{what} of {where} is not C: {[v for v in vs if isinstance(v, str)][0]}: {ts}', case)
                        return
                    g = [v[s] for v in vs]
                    if not close(g, w, tol):
                        res.violate(what, f'{what} of {where} is {g}, not {w}, for {VALUES[s]}: {[t[:200] for t in ts]}', case)
                        return
            ask(exprs, f)

        def judge_angles(what, exprs, unit, n=n, where=where):
            def f(ts, vs):
                for s in range(len(VALUES)):
                    res.count('quantities')
                    res.count('angles')
                    R = state[s][n][0]
                    if any(isinstance(v, str) for v in vs):
                        res.violate('text:' + what, f'{what} of {where} are not C: {[v for v in vs if isinstance(v, str)][0]}: {ts}', case)
                        return
                    g = [v[s] for v in vs]
                    locked = abs(R[2][0]) > 1 - 1e-9
                    if locked:
                        res.count('gimbal')
                        if is_symbolic(ts):   # the angles of a rotation that is only known later can not be told apart here
                            continue
                    again = rot_set(*[math.radians(x) if unit else x for x in g]) if all(map(math.isfinite, g)) else [[9] * 3] * 3
                    if not close(flat(again), flat(R), 2e-6 if abs(R[2][0]) > 1 - 1e-6 else 1e-8):
                        res.violate(what, f'{what} of {where} are {g}, which is the rotation {again}, not {R}, for {VALUES[s]}: {[t[:200] for t in ts]}', case)
                        return
            ask(exprs, f)
        try:
            R = lambda R, P: flat(R)
            RT = lambda R, P: flat(tr(R))
            judge('position', o.position(), lambda R, P: P)
            judge('rotation', o.rotation(), R)
            judge('coordinates rotation', o.rotation('coordinates'), RT)
            judge_angles('angles', o.angles(), o.degrees)
            k = r.randrange(6)
            if k == 0:
                judge('rotation of the parts', o.rotation_parts().rotation(), R)
                judge('position of the parts', o.position_parts().position(), lambda R, P: P)
            elif k == 1:
                q = o.reduce()
                judge('reduced position', q.position(), lambda R, P: P)
                judge('reduced rotation', q.rotation('axes'), R)
                judge_angles('reduced angles', q.angles(), q.degrees)
            elif k == 2:
                judge('combined position', o.combine().position(), lambda R, P: P)
                judge('combined rotation', o.combine().rotation(), R)
            elif k == 3:
                judge('inverse rotation', o.inverse().rotation(), RT)
            res.count('algebra')
        except Exception as ex:
            res.violate('error:' + type(ex).__name__, f'{where}: {short_tb(ex, 5)}', case)
    return said, len(nodes) > 1 and any(t not in ('0', '0.0') for x in nodes for t in x['a'])


def parse(nodes, r):
    from mccode_antlr.loader.loader import parse_mccode_instr
    from mccode_antlr.reader.registry import InMemoryRegistry
    mem = InMemoryRegistry('mem')
    mem.add_comp('Spot', 'DEFINE COMPONENT Spot SETTING PARAMETERS (double p=0) TRACE %{ %} END\n')
    lines = [f'DEFINE INSTRUMENT Chain({", ".join("double " + x for x in NAMES)}, int n1, int n2) TRACE']

    def ref(k, n):
        if k is None:
            return 'ABSOLUTE'
        if k == n - 1 and r.random() < .5:
            return 'RELATIVE PREVIOUS'
        return f'RELATIVE c{k}' if k != n - 2 or r.random() < .5 else 'RELATIVE PREVIOUS(2)'
    for n, x in enumerate(nodes):
        t = f'COMPONENT c{n} = Spot() AT ({", ".join(x["at"])}) {ref(x["at_ref"], n)}'
        if any(float(a) if not is_symbolic([a]) else 1 for a in x['a']) or x['rot_ref'] != x['at_ref'] or r.random() < .3:
            t += f' ROTATED ({", ".join(x["a"])}) {ref(x["rot_ref"], n)}'
        lines.append(t)
    return parse_mccode_instr('\n'.join(lines) + '\nEND\n', [mem], '<string>')


# ---------------------------------------------------------------- lists of parts

def part(r, symbolic, depth=0):
    """(library part, texts, function from their values to a 4x4 matrix, said)"""
    from mccode_antlr.instr.orientation import RotationX, RotationY, RotationZ, TranslationPart, Vector, Part
    k = r.randrange(8)
    if k < 3:
        t = [coord(r, symbolic) for _ in range(3)]
        return TranslationPart(v=Vector(*[expr(x, r) for x in t])), t, lambda v: aff(None, v), f'T({",".join(t)})'
    if k < 7 or depth:
        c, n = r.choice([(RotationX, 0), (RotationY, 1), (RotationZ, 2)])
        t = angle(r, symbolic)
        degrees = r.random() < .7
        if not degrees and not is_symbolic([t]):
            t = repr(math.radians(float(t)))

        def m(v, n=n, degrees=degrees):
            a = [0., 0., 0.]
            a[n] = math.radians(v[0]) if degrees else v[0]
            return aff(rot_set(*a), None)
        return c(v=expr(t, r), degrees=degrees), [t], m, f'R{"xyz"[n]}({t}{"" if degrees else " rad"})'
    p, tp, fp, sp = part(r, False, 1)
    q, tq, fq, sq = part(r, False, 1)
    return Part((p * q).axes), tp + tq, lambda v: mul(fp(v[:len(tp)]), fq(v[len(tp):])), f'Part({sp}*{sq})'


def aff(R, t):
    R, t = R or [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]], t or [0., 0., 0.]
    return [[*R[i], t[i]] for i in range(3)]


def mul(a, b):
    R, s = [x[:3] for x in a], [x[3] for x in a]
    Q, t = [x[:3] for x in b], [x[3] for x in b]
    return aff(mat(R, Q), [u + v for u, v in zip(s, app(R, t))])


def inv(a):
    R = tr([x[:3] for x in a])
    return aff(R, [-u for u in app(R, [x[3] for x in a])])


def rodrigues(axis, a):
    n = math.sqrt(sum(x * x for x in axis))
    x, y, z = [u / n for u in axis]
    K = [[0, -z, y], [z, 0, -x], [-y, x, 0]]
    K2 = mat(K, K)
    return [[(i == j) + math.sin(a) * K[i][j] + (1 - math.cos(a)) * K2[i][j] for j in range(3)] for i in range(3)]


def parts(r, ask, res):
    from mccode_antlr.instr.orientation import Parts, Part
    symbolic = r.random() < .4
    lists, said = [], []
    for _ in range(3):
        ps = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            ps.append(part(r, symbolic and sum(is_symbolic(x[1]) for x in ps) < 2))
        lists.append(ps)
        said.append('[' + ' '.join(x[3] for x in ps) + ']')
    case = dict(parts=said)
    said = 'parts ' + ' and '.join(said)
    state = {}

    def oracle(ts, vs):
        v = dict(zip(ts, vs))
        for s in range(len(VALUES)):
            out = []
            for ps in lists:
                M = aff(None, None)
                for _, t, f, _ in ps:
                    M = mul(f([v[x][s] for x in t]), M)
                out.append(M)
            state[s] = out
    ask([t for ps in lists for x in ps for t in x[1]], oracle)

    def judge(what, exprs, want, tol=1e-9):
        def f(ts, vs):
            for s in range(len(VALUES)):
                res.count('quantities')
                if is_symbolic(ts):
                    res.count('symbolic')
                if any(isinstance(v, str) for v in vs):
                    res.violate('text:' + what, f'{what} of {said} is not C: {[v for v in vs if isinstance(v, str)][0]}: {ts}', case)
                    return
                w = flat(want(*state[s]))
                g = [v[s] for v in vs]
                if not close(g, w, tol):
                    res.violate(what, f'{what} of {said} is {g}, not {w}, for {VALUES[s]}: {[t[:150] for t in ts]}', case)
                    return
        ask(exprs, f)
    try:
        a, b, c = [Parts(tuple(x[0] for x in ps)) for ps in lists]
        first = [str(x) for x in (a, b, c)]
        A = lambda A, B, C: A
        for what, f, want in [
            ('resolved parts', lambda: a.resolve(), A), ('reduced parts', lambda: a.reduce().resolve(), A), ('copied parts', lambda: a.copy(r.random() < .5).resolve(), A),
            ('inverse of parts', lambda: a.inverse().resolve(), lambda A, B, C: inv(A)), ('twice inverted parts', lambda: a.inverse().inverse().resolve(), A),
            ('sum of parts', lambda: (a + b).resolve(), lambda A, B, C: mul(B, A)), ('difference of parts', lambda: (a - b).resolve(), lambda A, B, C: mul(inv(B), A)),
            ('difference to itself', lambda: (a - a).reduce().resolve(), lambda A, B, C: aff(None, None)),
            ('left sum', lambda: ((a + b) + c).resolve(), lambda A, B, C: mul(C, mul(B, A))), ('right sum', lambda: (a + (b + c)).reduce().resolve(), lambda A, B, C: mul(C, mul(B, A))),
            ('reduced sum', lambda: (a.reduce() + b.reduce()).reduce().resolve(), lambda A, B, C: mul(B, A)),
            ('sum with a part', lambda: (a + b.resolve()).resolve(), lambda A, B, C: mul(B, A)), ('difference with a part', lambda: (a - b.resolve()).resolve(), lambda A, B, C: mul(inv(B), A)),
        ]:
            if r.random() < .5:
                judge(what, f().axes, want)
                res.count('algebra')
        judge('rotation', a.rotation(), lambda A, B, C: [x[:3] for x in A])
        if [str(x) for x in (a, b, c)] != first:
            res.violate('operands', f'{said} became {[str(x) for x in (a, b, c)]}', case)
        one = a.resolve()
        judge('coordinates', one.coordinates, lambda A, B, C: inv(A))
        judge('part product', (one * b.resolve()).axes, lambda A, B, C: mul(A, B))
        judge('part inverse', one.inverse().axes, lambda A, B, C: inv(A))
        judge('seitz inverse', (one.axes.inverse() * one.axes), lambda A, B, C: aff(None, None))
        singles(r, ask, res, lists[0], said, case)
    except Exception as ex:
        res.violate('error:' + type(ex).__name__, f'{said}: {short_tb(ex, 5)}', case)
    return said, len(lists[0]) > 1


def singles(r, ask, res, ps, said, case):
    """what single parts say of themselves"""
    from mccode_antlr.instr.orientation import Part
    some = [x for x in ps]
    if len(ps) > 1 and not any(is_symbolic(x[1]) for x in ps):   # a general rotation or transformation
        p = ps[0][0]
        for x in ps[1:]:
            p = x[0] * p
        M = lambda v: None
        some.append((p, None, None, 'their product'))
    for p, t, f, what in some:
        constant = t is None or not is_symbolic(t)

        def look(ts, vs, p=p, what=what):
            if any(isinstance(v, str) for v in vs):
                return
            g = [v[0] for v in vs]
            axes = [g[0:3], g[4:7], g[8:11]]
            moved, turned = max(abs(g[k]) for k in (3, 7, 11)), max(abs(x - (i == j)) for i, row in enumerate(axes) for j, x in enumerate(row))
            try:
                if constant and (moved == 0 or moved > 1e-9) and bool(p.is_translation) != (moved > 0) and type(p).__name__ not in ('TranslationPart',):
                    res.violate('is_translation', f'is_translation of {what} of {said} is {p.is_translation}', case)
                if constant and (turned == 0 or turned > 1e-4) and type(p).__name__ == 'Part' and bool(p.is_rotation) != (turned > 0):
                    res.violate('is_rotation', f'is_rotation of {what} of {said} is {p.is_rotation}', case)
                if constant and turned > 1e-4 and type(p).__name__ == 'Part' and p.is_identity:
                    res.violate('is_identity', f'is_identity of {what} of {said} is {p.is_identity}', case)
            except Exception as ex:
                res.violate('error:' + type(ex).__name__, f'{what} of {said}: {short_tb(ex, 5)}', case)
        ask(p.axes, look)
        if type(p).__name__ != 'TranslationPart' and constant and p.is_constant:
            s = p.specialization()
            axis, a, unit = p.rotation_axis_angle

            def turn(ts, vs, p=p, what=what, unit=unit):
                if any(isinstance(v, str) for v in vs):
                    return
                g = [v[0] for v in vs]
                axis, a, m, sp, back = g[0:3], g[3], [g[4:7], g[7:10], g[10:13]], [g[13:16], g[16:19], g[19:22]], g[22:25]
                turned = max(abs(x - (i == j)) for i, row in enumerate(m) for j, x in enumerate(row))
                if turned > 1e-4:
                    res.count('axis_angle')
                    w = rodrigues(axis, math.radians(a) if unit == 'degrees' else a)
                    if not close(flat(w), flat(m), 2e-6):
                        res.violate('axis and angle', f'axis and angle of {what} of {said} are {axis}, {a} {unit}, which is {w}, not {m}', case)
                    if not close(flat(sp), flat(tr(m)), 2e-6):
                        res.violate('specialization', f'specialization of {what} of {said} has axes {sp}, not {tr(m)}', case)
                res.count('angles')
                again = rot_set(*map(math.radians, back)) if all(map(math.isfinite, back)) else [[9] * 3] * 3
                if abs(m[0][2]) > 1 - 1e-9:
                    res.count('gimbal')
                if not close(flat(again), flat(tr(m)), 2e-6 if abs(m[0][2]) > 1 - 1e-6 else 1e-8):
                    res.violate('part angles', f'angles of {what} of {said} are {back}, which is {again}, not {tr(m)}', case)
            ask([*axis, a, *p.rotation('coordinates'), *s.axes.rotation(), *p.angles()], turn)


def plain(r, ask, res):
    """matrices, vectors and rotations from angles"""
    from mccode_antlr.common import Expr
    from mccode_antlr.instr.orientation import Matrix, Vector, Angles, Rotation, Seitz
    n = [repr(round(r.uniform(-3, 3), 3)) if r.random() < .8 else r.choice(['0', 'x1', 'x2', '1']) for _ in range(30)]
    e = [expr(t, r) for t in n]
    case = dict(values=n)
    said = f'values {n}'
    A, B, v, w = Matrix(*e[:9]), Matrix(*e[9:18]), Vector(*e[18:21]), Vector(*e[21:24])
    degrees = r.random() < .6
    at = [angle(r, r.random() < .4) for _ in range(3)]
    if not degrees:
        at = [t if is_symbolic([t]) else repr(math.radians(float(t))) for t in at]
    ang = Angles(*[expr(t, r) for t in at])
    state = {}

    def oracle(ts, vs):
        for s in range(len(VALUES)):
            state[s] = [x[s] for x in vs]
    ask(n + at, oracle)

    def judge(what, exprs, want, tol=1e-9):
        def f(ts, vs):
            for s in range(len(VALUES)):
                res.count('quantities')
                x = state[s]
                if any(isinstance(y, str) for y in vs):
                    res.violate('text:' + what, f'{what} of {said} {at} is not C: {[y for y in vs if isinstance(y, str)][0]}: {ts}', case)
                    return
                a, b = [x[0:3], x[3:6], x[6:9]], [x[9:12], x[12:15], x[15:18]]
                w = want(a, b, x[18:21], x[21:24], x[30:33])
                g = [y[s] for y in vs]
                if not close(g, w, tol):
                    res.violate(what, f'{what} of {said} {at if "angle" in what else ""} is {g}, not {w}, for {VALUES[s]}: {[t[:150] for t in ts]}', case)
                    return
        ask(exprs, f)
    try:
        if r.random() < .5:
            judge('matrix product', A * B, lambda a, b, v, w, t: flat(mat(a, b)))
            judge('matrix times vector', A * v, lambda a, b, v, w, t: app(a, v))
            judge('vector times matrix', v * A, lambda a, b, v, w, t: app(tr(a), v))
            judge('matrix sum', A + B, lambda a, b, v, w, t: [x + y for x, y in zip(flat(a), flat(b))])
            judge('matrix difference', A - B, lambda a, b, v, w, t: [x - y for x, y in zip(flat(a), flat(b))])
            judge('matrix times number', A * Expr.float(2.5), lambda a, b, v, w, t: [2.5 * x for x in flat(a)])
        else:
            judge('vector sum', v + w, lambda a, b, v, w, t: [x + y for x, y in zip(v, w)])
            judge('vector difference', v - w, lambda a, b, v, w, t: [x - y for x, y in zip(v, w)])
            judge('vector times number', v * Expr.float(2.5), lambda a, b, v, w, t: [2.5 * x for x in v])
            judge('vector divided', v / Expr.float(2.5), lambda a, b, v, w, t: [x / 2.5 for x in v])
            judge('length', [v.length()], lambda a, b, v, w, t: [math.sqrt(sum(x * x for x in v))])
            judge('cross product', v.cross_matrix() * w, lambda a, b, v, w, t: [v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]])
        f = math.radians if degrees else float
        judge('rotation from angles', Rotation.from_angles(ang, degrees=degrees), lambda a, b, v, w, t: flat(rot_set(*map(f, t))))
        judge('inverse rotation from angles', Rotation.from_angles(ang, degrees=degrees).inverse(), lambda a, b, v, w, t: flat(tr(rot_set(*map(f, t)))))
        judge('moved vector from angles', Rotation.from_angles(ang, degrees=degrees) * v, lambda a, b, v, w, t: app(rot_set(*map(f, t)), v))
        S = Seitz.from_rotation(Rotation.from_angles(ang, degrees=degrees)) * Seitz.from_vector(v)
        judge('seitz from angles', [*S.rotation(), *S.vector()], lambda a, b, v, w, t: flat(rot_set(*map(f, t))) + app(rot_set(*map(f, t)), v))
        judge('seitz inverse from angles', [*S.inverse().vector()], lambda a, b, v, w, t: [-x for x in v])
        res.count('algebra', 8)
    except Exception as ex:
        res.violate('error:' + type(ex).__name__, f'{said} {at}: {short_tb(ex, 5)}', case)
    return said + str(at), True


def run(desc, res: Result):
    r = rng('c08', desc['seed'], desc['n'])
    ask = Ask()
    for n in range(desc['per']):
        k = r.random()
        if k < .3:
            said, interesting = chain(r, ask, res, 'direct')
        elif k < .55:
            said, interesting = chain(r, ask, res, r.choice(['instr', 'instr', 'copied']))
        elif k < .85:
            said, interesting = parts(r, ask, res)
        else:
            said, interesting = plain(r, ask, res)
        res.case(said, interesting, dict(case=said[:600]))
    ask.answer()
