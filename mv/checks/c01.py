"""C01: expression text keeps its value from the source through the parser to the emitted C."""
from __future__ import annotations
from ..core import Result, rng, short_tb
from ..lib import cexpr as X

RULE = ('random C expressions (operators, signs, calls, indexing, member access, ternary; minimal or redundant '
        'parentheses; random spacing) are parsed as free expressions and as component parameters of an instrument '
        'with parameters; gcc evaluates source and printed text on 3 variable assignments; numbers of all the digits of a double compared exactly; non-trivial = at least '
        'one operator and a finite value for every assignment')
ASSUMPTIONS = ['gcc evaluates the source text as the McCode author meant it',
               'no int/int division (folded as real division by design), no ^ (exponent in McCode, xor in C)']
MINIMUM = {'quick': dict(evaluations=2500, distinct=1500, reparsed=2000, with_parameters=400, numbers=400),
           'thorough': dict(evaluations=60000, distinct=40000)}


def chunks(tier, seed):
    n, per = (24, 130) if tier == 'quick' else (400, 250)
    return [dict(seed=seed, n=i, per=per) for i in range(n)]


INSTR = '''DEFINE INSTRUMENT expr_probe(pE=1.0, double pL=2.0, q2, int nP=3, int mP, double x=3, string z="z")
TRACE
{comps}
END
'''


def parse_in_instrument(texts, registry_name='c01'):
    """Give every text to a component parameter of one instrument; return the recorded parameter values."""
    from mccode_antlr.loader import parse_mcstas_instr
    from mccode_antlr.reader.registry import InMemoryRegistry
    from antlr4 import InputStream
    from mccode_antlr.grammar import McInstr_parse
    from mccode_antlr.instr import InstrVisitor
    from mccode_antlr.reader import Reader
    reg = InMemoryRegistry(registry_name, Val='DEFINE COMPONENT Val\nSETTING PARAMETERS (double v=0)\nTRACE %{ %}\nEND\n')
    comps = '\n'.join(f'COMPONENT c{n} = Val(v = {t}) AT (0, 0, {n}) ABSOLUTE' for n, t in enumerate(texts))
    tree = McInstr_parse(InputStream(INSTR.format(comps=comps)), 'prog')
    ins = InstrVisitor(Reader(registries=[reg]), None).visitProg(tree)
    return [c.get_parameter('v').value for c in ins.components]


def number(r):
    """A number that needs all the digits of a double, or a large whole number."""
    x = r.random()
    if x < 0.03:   # of a string, that can be empty
        a, b = (f'"{r.choice(["", "", "a", "a b", "x;y"])}"' for _ in 'ab')
        return r.choice([f'strlen({a})', f'(strcmp({a}, {b}) == 0)', f'(strlen({a}) + {r.randint(1, 9)}.5 * strncmp({b}, {a}, 1))'])
    if x < 0.25:
        return str(r.choice([r.randint(100, 2 ** 31 - 1), r.randint(2 ** 31, 2 ** 53), 2 ** 31 - 1, 2 ** 31, 10 ** r.randint(3, 15)]))
    digits = str(r.randint(10 ** 16, 10 ** 17 - 1)) if x < 0.8 else str(r.randint(10 ** 19, 10 ** 21))
    at = r.randint(0, 17)
    text = f'{digits[:at]}.{digits[at:]}'
    return text + (r.choice('eE') + r.choice(['', '+', '-']) + str(r.randint(0, 250)) if r.random() < 0.5 else '')


def spelled(r):
    """A number in another of the spellings of C (in operations, fractions that all of its types hold; no minus with unsigned ones: that is another arithmetic)."""
    n = r.randint(1, 400)
    x = r.random()
    if x < 0.08:   # single precision, of which the double has more digits than were written
        return f'={n / r.choice([3, 7, 10, 1000]):.{r.randint(3, 12)}f}' + r.choice('fF')
    if x < 0.7:
        text = r.choice([f'0x{n:x}', f'0X{n:X}', f'0{n:o}', f'00{n:o}', f'0b{n:b}', str(n)])
        return '=' + text + r.choice(['', '', 'l', 'L', 'll', 'LL'])
    return f'={n}.{r.choice(["5", "25", "125", "0"])}' + r.choice('fFlL') if x < 0.9 else f'{n}' + r.choice('uU')


def check_numbers(texts, res: Result):
    """A number stays the same double: nothing is rounded away."""
    from mccode_antlr.common.expression import Expr
    rows = []
    forms = ['{0}', '-{0}', '({0})', 'fabs(-1.0 * {0})', 'pE < 0.5 ? 1.5 : {0}', 'fmax({0}, {0})']
    spelled = ['{0}', '{0} * 2', '3 * {0}', '{0} + 1', '2.5 / {0}', 'vec[{0} % 4]', 'q2 * {0}', '{0} / 4.0', '({0}) * nP', 'pL - {0}', '{0} > 3 ? 1.5 : {0}']
    for n, text in enumerate(texts):
        if text[0] == '=':
            form = spelled[n % len(spelled)]
            if text[-1] in 'fF' and 'x' not in text.lower() and float(text[1:-1]) * 8 % 1:   # operations of single precision are another arithmetic
                form = spelled[n % 2 and 4]
            source = (form if '%' not in form or '.' not in text else '{0}').format(text[1:])
        elif text[-1:].isdigit() or n % len(forms) in (0, 2):
            source = forms[n % len(forms)].format(text)
        else:
            source = text
        try:
            e = Expr.parse(source)
            again = Expr.parse(str(e))
        except Exception as ex:
            res.violate('number-error', f'valid number in {source!r} rejected: {short_tb(ex)}', dict(number=source))
            continue
        rows.append([(source, True), (str(e), True), (f'{e:p}', True), (str(e.simplify()), True), (str(again), True)])
    for row, vals in zip(rows, X.evaluate_texts(rows)):
        if isinstance(vals[0], str):
            res.unsure(f'generator wrote invalid C {row[0][0]!r}: {vals[0]}')
            continue
        res.case('number ' + row[0][0], True)
        res.count('numbers')
        for label, (t, _), v in list(zip(['', 'str', 'format p', 'simplify', 'reparsed'], row, vals))[1:]:
            if isinstance(v, str) or any(a != b for a, b in zip(vals[0], v)):
                res.violate(f'number:{label}', f'{row[0][0]!r} = {vals[0][:1]} but {label} prints {t!r} = {v[:1]}',
                            dict(number=row[0][0]))


def check_batch(items, res: Result):
    """items: (tree or None, text)."""
    from mccode_antlr.common.expression import Expr
    rows, meta = [], []
    for tree, text in items:
        try:
            e = Expr.parse(text)
            one = str(e)
            two = f'{e:p}'
        except Exception as ex:
            res.violate('parse-error', f'valid expression {text!r} rejected: {short_tb(ex)}', dict(text=text))
            continue
        try:
            again = str(Expr.parse(one))
        except Exception as ex:
            res.violate('reparse-error', f'{text!r} prints {one!r}, which is rejected: {short_tb(ex)}', dict(text=text))
            continue
        rows.append([(text, True), (one, True), (two, True), (again, True)])
        meta.append((tree, text))
    # the same texts as component parameters of an instrument whose parameters they may name
    try:
        vals = parse_in_instrument([t for _, t in meta])
    except Exception as ex:
        vals = None
        # find the culprit alone
        for _, t in meta:
            try:
                parse_in_instrument([t])
            except Exception as ex2:
                res.violate('instr-parse-error', f'component parameter {t!r} rejected: {short_tb(ex2)}', dict(text=t))
                break
        else:
            res.violate('instr-parse-error', f'instrument of valid expressions rejected: {short_tb(ex)}',
                        dict(texts=[t for _, t in meta]))
    if vals is not None:
        if len(vals) != len(meta):
            res.violate('lost-component', f'{len(meta)} components written, {len(vals)} parsed', dict(texts=[t for _, t in meta]))
            vals = None
    if vals is not None:
        for row, v in zip(rows, vals):
            # with prefix: parameter names only exist inside _instrument_var._parameters
            row.append((f'{v:p}', False))
            row.append((str(v), True))
    if not rows:
        return
    out = X.evaluate_texts(rows)
    labels = ['source', 'str(parse)', 'format p', 'reparsed', 'instrument, parameters prefixed', 'instrument, str']
    for (tree, text), row, vals in zip(meta, rows, out):
        src = vals[0]
        if isinstance(src, str):
            res.unsure(f'generator wrote invalid C {text!r}: {src}')
            continue
        nontrivial = X.all_finite(src) and (tree is None or bool(X.ops(tree)))
        res.case(text, nontrivial, sample=dict(source=text, printed=row[1][0], values=src))
        res.count('reparsed')
        if tree is not None:
            for o in X.ops(tree):
                res.count(f'op {o}')
            if X.names(tree) & set(X.PVARS + X.NPVARS):
                res.count('with_parameters')
        for label, (t, _), v in list(zip(labels, row, vals))[1:]:
            if not X.same(src, v):
                res.violate(f'value:{label}', f'{text!r} = {src} but {label} {t!r} = {v}', dict(text=text))


def check_strings(r, res):
    from mccode_antlr.common.expression import Expr
    pieces = ['abc', 'a b', 'x=1', 'file.dat', '', 'q\\"q', '\\n', 'tab\\t', '%d', "it's", 'α', '\\\\', 'end\\"', '\\"', '//', '/*']
    texts = []
    for _ in range(8):
        lits = [f'"{r.choice(pieces)}{r.choice(pieces)}"' for _ in range(r.choice([1, 1, 2, 3]))]
        texts.append(' '.join(lits))
    rows = []
    for t in texts:
        try:
            s = str(Expr.parse(t))
            u = str(Expr.parse(s))
        except Exception as ex:
            res.violate('string-parse-error', f'string {t!r} rejected: {short_tb(ex)}', dict(string=t))
            continue
        rows.append((t, s, u))
    src = '#include <stdio.h>\n#include <string.h>\nint main(void){\n'
    for n, (t, s, u) in enumerate(rows):
        src += f'printf("%d %d %d\\n", {n}, !strcmp({t}, {s}), !strcmp({t}, {u}));\n'
    from ..lib.cexpr import cc
    q, err = cc(src + 'return 0;}\n')
    if q is None:
        bad = [row for row in rows if cc('#include <stdio.h>\nint main(void){ puts(' + row[1] + '); return 0;}\n')[0] is None]
        if bad:
            res.violate('string-invalid', f'string literal {bad[0][0]!r} prints as invalid C {bad[0][1]!r}', dict(string=bad[0][0]))
        else:
            res.unsure('string oracle did not compile')
        return
    for line in q.stdout.splitlines():
        n, one, two = (int(x) for x in line.split())
        t, s, u = rows[n]
        res.case('str ' + t)
        res.count('strings')
        if not one or not two:
            res.violate('string-changed', f'string {t!r} became {s!r} then {u!r}', dict(string=t))


def run(desc, res: Result):
    r = rng('c01', desc['seed'], desc['n'])
    items = []
    for n in range(desc['per']):
        want = 'i' if n % 6 == 5 else 'd'
        t = X.gen(r, r.choice([1, 2, 2, 3, 3, 4, 5]), want)
        items.append((t, X.render(t, r, loose=r.choice([0, 0.1, 0.3]))))
    check_batch(items, res)
    check_strings(r, res)
    check_numbers([number(r) for _ in range(20)] + [spelled(r) for _ in range(16)], res)


def replay(case, res: Result):
    if 'text' in case:
        check_batch([(None, case['text'])], res)
    elif 'number' in case:
        check_numbers(['=' + case['number']], res)
    elif 'texts' in case:
        check_batch([(None, t) for t in case['texts']], res)
    else:
        run(case['_chunk'], res)


PROBES = {}
