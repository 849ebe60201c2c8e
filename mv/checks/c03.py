"""C03: which names an expression depends on, and which of them are instrument parameters, is exact."""
from __future__ import annotations
import re
from ..core import Result, rng, short_tb
from ..lib import cexpr as X

RULE = ('random expressions of known free names are parsed alone, and inside an instrument that declares some of these '
        'names as parameters; every name of a pool (present, absent, function and member names) is asked of the object; '
        'after parameter verification the emitted text must prefix exactly the declared names; non-trivial = at least '
        'one free name')
ASSUMPTIONS = ['names, not values: folding may drop a name only if its factor is a literal zero']
MINIMUM = {'quick': dict(evaluations=5000, distinct=3500, asked_present=6000, asked_absent=50000, prefixed=2500, in_instrument=1500),
           'thorough': dict(evaluations=60000, distinct=30000)}
POOL = X.DVARS + X.IVARS + X.PVARS + X.NPVARS + ['s', 'p', 'vec', 'arr']
NOT_NAMES = X.FUNC1 + X.FUNC2 + X.FUNC3 + ['zz', 'aa', 'pEE', 'ab', '1', '2.5', 'P', 'ec', 'x', 'y', 'z', 'x', 'z']
PREFIX = ['_instrument_var._parameters.', 'QQ_', '(instrument->_parameters).']


def chunks(tier, seed):
    n, per = (48, 120) if tier == 'quick' else (300, 300)
    return [dict(seed=seed, n=i, per=per) for i in range(n)]


def no_zero(n):
    """Trees without literal zero factors: folding must not drop names."""
    if n[0] == 'lit':
        return not (n[1] == 'i' and int(n[2]) == 0)
    return all(no_zero(x) for x in n[2:] if isinstance(x, tuple)) and \
        all(no_zero(y) for x in n[2:] if isinstance(x, list) for y in x)


_TOK = re.compile(r'[A-Za-z_]\w*')


def tokens(text):
    """identifiers of a C text that are not function names nor member names"""
    out = []
    for m in _TOK.finditer(text):
        rest = text[m.end():].lstrip()
        before = text[:m.start()].rstrip()
        if rest.startswith('('):
            continue
        if before.endswith('->') or (before.endswith('.') and not before[-2:-1].isdigit()):
            continue
        if before[-1:].isdigit() and text[m.start() - 1:m.start()].isdigit():
            continue
        if re.match(r'^[eE]$', m.group()[:1]) and re.search(r'[\d.]$', text[:m.start()]):
            continue
        out.append(m.group())
    return out


def run(desc, res: Result):
    from mccode_antlr.common.expression import Expr
    from .c01 import parse_in_instrument
    r = rng('c03', desc['seed'], desc['n'])
    keep = []
    for i in range(desc['per']):
        t = X.gen(r, r.choice([1, 2, 3, 4]), 'i' if i % 5 == 4 else 'd')
        if not no_zero(t):
            continue
        text = X.render(t, r)
        free = X.names(t)
        try:
            e = Expr.parse(text)
        except Exception as ex:
            res.violate('parse-error', f'{text!r}: {short_tb(ex)}', dict(text=text))
            continue
        # the source of truth is what was written; cancelled subexpressions (k-k) still mention their names
        printed = set(tokens(str(e)))
        if not printed <= free | {'s', 'p'}:
            res.violate('alien-name', f'{text!r} prints {e}: unexpected names {printed - free}', dict(text=text))
        res.case(text, bool(free), sample=dict(text=text, names=sorted(free)))
        for n in POOL:
            want = n in free
            for label, got in (('depends_on', e.depends_on(n)), ('simplify.depends_on', e.simplify().depends_on(n)),
                               ('copy.depends_on', e.copy().depends_on(n)), ('in', n in e)):
                res.count('asked_present' if want else 'asked_absent')
                if bool(got) != want and not (label.startswith('simplify') and not got):  # a constant branch may go
                    res.violate(f'names:{label}', f'{text!r} ({e}): {label}({n}) is {got}, the name is '
                                                  f'{"present" if want else "absent"}', dict(text=text))
        for n in r.sample(NOT_NAMES, 6):
            res.count('asked_absent')
            if e.depends_on(n):
                res.violate('names:not-a-name', f'{text!r}: depends on {n!r}, which is no free name of it', dict(text=text))
        # parameter identification
        pars = [n for n in POOL + ['x', 'y', 'z', 'sin', 'usr2'] if r.random() < 0.35]
        f = e.copy()
        f.verify_parameters(list(pars))
        if str(f) != str(e):
            res.violate('verify-changed-text', f'{text!r}: verifying parameters changed {e} to {f}', dict(text=text))
        pre = r.choice(PREFIX)
        spec = 'p' if pre == PREFIX[0] else f'prefix:{pre}'
        got = format(f, spec)
        want = prefix_text(str(f), set(pars), pre)
        res.count('prefixed')
        if got != want:
            res.violate('prefix', f'{text!r} with parameters {pars}: prefixed {got!r}, should be {want!r}', dict(text=text, pars=pars))
        keep.append((text, free))
    # inside an instrument: the declared parameters are found without being told
    vals = parse_in_instrument([t for t, _ in keep])
    declared = set(X.PVARS + X.NPVARS)
    for (text, free), v in zip(keep, vals):
        res.count('in_instrument')
        got = format(v, 'prefix:@@')
        want = prefix_text(str(v), declared, '@@')
        if got != want:
            res.violate('instrument-prefix', f'{text!r} in instrument: {got!r}, should be {want!r}', dict(text=text))
        for n in POOL:
            if bool(v.depends_on(n)) != (n in free):
                res.violate('instrument-names', f'{text!r} in instrument: depends_on({n}) is {v.depends_on(n)}', dict(text=text))


def prefix_text(text, pars, pre):
    out, last = [], 0
    good = set()
    for m in _TOK.finditer(text):
        rest = text[m.end():].lstrip()
        before = text[:m.start()]
        if rest.startswith('(') or before.endswith('->') or before.endswith('.'):
            continue
        if m.group() in pars and not re.search(r'[\w]$', before):
            out.append(text[last:m.start()] + pre)
            last = m.start()
    return ''.join(out) + text[last:]


PROBES = {}
