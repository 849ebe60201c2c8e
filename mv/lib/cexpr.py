"""Random C/McCode expression trees, their rendering as source text, and evaluation by a C compiler.

Tree nodes are tuples.  Types: 'd' (double), 'i' (C int), tracked so that the generator never writes an
int/int division (the package folds those as real divisions by design) and never overflows an int.
"""
from __future__ import annotations
import os, subprocess, tempfile
from pathlib import Path

DVARS = ['a', 'b', 'c', 'd', 'e', 'g']         # doubles
IVARS = ['i', 'j', 'k']                        # small positive ints
PVARS = ['pE', 'pL', 'q2']                     # instrument parameters, doubles
NPVARS = ['nP', 'mP']                          # instrument parameters, ints
FUNC1 = ['sin', 'cos', 'atan', 'tanh', 'fabs', 'floor', 'asinh', 'cbrt']
FUNC2 = ['fmax', 'fmin', 'hypot', 'usr2']
FUNC3 = ['usr3']
# binding strength in C, high binds tightly
PREC = {'?': 1, '||': 2, '&&': 3, '==': 4, '!=': 4, '<': 5, '>': 5, '<=': 5, '>=': 5, '<<': 6, '>>': 6,
        '+': 7, '-': 7, '*': 8, '/': 8, '%': 8}
UNARY = 9
ATOM = 10


def typ(n):
    return n[1]


def lit_d(r):
    """A double literal that is never a whole number (the package folds 1.0*i to i and 0.*x to 0, by design of its
    tests, which turns a double into an int)."""
    f = r.choice([lambda: f'{r.randint(0, 20)}.{r.randint(0, 999)}7', lambda: f'.{r.randint(1, 999)}',
                  lambda: f'{r.randint(1, 9)}.{r.randint(0, 99)}3e{r.choice(["", "+", "-"])}{r.randint(3, 6)}',
                  lambda: f'{r.randint(1, 9)}E-{r.randint(1, 5)}', lambda: f'{r.randint(0, 12)}.{r.choice(["5", "25", "50"])}'])
    return ('lit', 'd', f())


def lit_i(r):
    return ('lit', 'i', str(r.choice([0, 1, 1, 2, 3, 4, 5, 7, 10, r.randint(0, 99)])))


def strong(r, depth, params, logic):
    """A double that folding can never turn into an int, nor into zero: fit for a denominator."""
    x = r.random()
    if x < 0.35:
        return ('var', 'd', r.choice(DVARS))
    if x < 0.5 and params:
        return ('var', 'd', r.choice(PVARS))
    if x < 0.65:
        return lit_d(r)
    if x < 0.75:
        return ('field', 'd', r.choice(['s.x', 's.y', 'p->x', 'p->z']))
    if x < 0.85:
        return ('idx', 'd', 'vec', ('lit', 'i', str(r.randint(0, 3))))
    if x < 0.93:
        return ('call', 'd', 'usr2', [gen(r, depth - 1, '*', params, logic), lit_d(r)])
    return ('bin', 'd', r.choice('+-'), ('var', 'd', r.choice(DVARS)), lit_d(r))


def gen(r, depth, want='d', params=True, logic=True):
    """A random tree; want 'd', 'i' or '*' (either)."""
    t = r.choice('ddi') if want == '*' else want
    sub = lambda w='*', d=None: gen(r, depth - 1 if d is None else d, w, params, logic)
    if depth <= 0 or r.random() < 0.08:
        if t == 'd':
            x = r.random()
            if x < 0.45:
                return ('var', 'd', r.choice(DVARS))
            if x < 0.65 and params:
                return ('var', 'd', r.choice(PVARS))
            if x < 0.9:
                return lit_d(r)
            if x < 0.95:
                return ('field', 'd', r.choice(['s.x', 's.y', 'p->x', 'p->z']))
            return ('idx', 'd', r.choice(['vec', 'arr']), ('lit', 'i', str(r.randint(0, 3))))
        x = r.random()
        if x < 0.5:
            return ('var', 'i', r.choice(IVARS + (NPVARS if params else [])))
        return lit_i(r)
    x = r.random()
    if t == 'i':
        if x < 0.40:
            return ('bin', 'i', r.choice('+-*'), gen(r, min(depth - 1, 2), 'i', params, False),
                    gen(r, min(depth - 1, 1), 'i', params, False))
        if x < 0.52:
            return ('bin', 'i', '%', gen(r, min(depth - 1, 1), 'i', params, False), ('lit', 'i', str(r.randint(1, 9))))
        if x < 0.58:
            return ('bin', 'i', r.choice(['<<', '>>']), ('var', 'i', r.choice(IVARS)),
                    r.choice([('lit', 'i', str(r.randint(0, 3))),
                              ('bin', 'i', '+', ('lit', 'i', '1'), ('lit', 'i', str(r.randint(0, 2))))]))
        if x < 0.70:
            return ('un', 'i', r.choice('-+'), sub('i'))
        if not logic:
            return gen(r, 0, 'i', params, logic)
        if x < 0.85:
            return ('bin', 'i', r.choice(['<', '>', '<=', '>=', '==', '!=']), sub(), sub())
        if x < 0.95:
            return ('bin', 'i', r.choice(['&&', '||']), sub(), sub())
        return ('un', 'i', '!', sub())
    if x < 0.56:
        op = r.choice('++--**//')
        l, rr = sub(), sub()
        if op == '/':
            rr = strong(r, depth, params, logic)
        elif typ(l) == 'i' and typ(rr) == 'i':
            if r.random() < 0.5:
                l = sub('d')
            else:
                rr = sub('d')
        return ('bin', 'd', op, l, rr)
    if x < 0.68:
        return ('un', 'd', r.choice('---+'), sub('d'))
    if x < 0.78:
        return ('call', 'd', r.choice(FUNC1), [sub()])
    if x < 0.85:
        return ('call', 'd', r.choice(FUNC2), [sub(), sub()])
    if x < 0.88:
        return ('call', 'd', r.choice(FUNC3), [sub(), sub(), sub()])
    if x < 0.92:
        return ('idx', 'd', r.choice(['vec', 'arr']), ('bin', 'i', '%', ('var', 'i', r.choice(IVARS)), ('lit', 'i', '4')))
    if x < 0.97 and logic:
        return ('tern', 'd', sub('i'), sub('d'), sub())
    return ('paren', 'd', sub('d'))


def prec(n):
    k = n[0]
    if k == 'bin':
        return PREC[n[2]]
    if k == 'un':
        return UNARY
    if k == 'tern':
        return 1
    return ATOM


def render(n, r, loose=0.12):
    """C text for the tree, with only the parentheses C needs plus some redundant ones."""
    def sp():
        return r.choice(['', ' ', ' ']) if r else ' '

    def wrap(c, need):
        s = go(c)
        if need or (r and r.random() < loose):
            return f'({s})'
        return s

    def go(n):
        k = n[0]
        if k in ('lit', 'var', 'field'):
            return n[2]
        if k == 'paren':
            return f'({go(n[2])})'
        if k == 'idx':
            return f'{n[2]}[{go(n[3])}]'
        if k == 'call':
            return f'{n[2]}({("," + sp()).join(go(x) for x in n[3])})'
        if k == 'un':
            s = wrap(n[3], prec(n[3]) < UNARY)
            # never glue two signs into one token
            return n[2] + (' ' if s[:1] in '+-' and n[2] in '+-' else '') + s
        if k == 'tern':
            return f'{wrap(n[2], prec(n[2]) <= 1)}{sp()}?{sp()}{wrap(n[3], prec(n[3]) <= 1)}{sp()}:{sp()}{wrap(n[4], prec(n[4]) < 1)}'
        if k == 'bin':
            p = PREC[n[2]]
            l = wrap(n[3], prec(n[3]) < p)
            s = wrap(n[4], prec(n[4]) <= p)
            a, b = sp(), sp()
            if s[:1] in '+-' and n[2] in '+-':
                b = ' '
            if n[2] == '-' and s[:1] == '>':
                b = ' '
            return f'{l}{a}{n[2]}{b}{s}'
        raise ValueError(k)
    return go(n)


def names(n, out=None):
    """The identifiers the expression reads (not function names, not field names)."""
    out = set() if out is None else out
    k = n[0]
    if k == 'var':
        out.add(n[2])
    elif k == 'field':
        out.add('s' if '.' in n[2] else 'p')
    elif k == 'idx':
        out.add(n[2])
        names(n[3], out)
    elif k == 'call':
        for x in n[3]:
            names(x, out)
    else:
        for x in n[2:]:
            if isinstance(x, tuple):
                names(x, out)
    return out


def ops(n, out=None):
    out = set() if out is None else out
    if n[0] in ('bin', 'un'):
        out.add(('u' if n[0] == 'un' else '') + n[2])
    elif n[0] in ('tern', 'call', 'idx', 'field', 'paren'):
        out.add(n[0])
    for x in n[2:]:
        if isinstance(x, tuple):
            ops(x, out)
        elif isinstance(x, list):
            for y in x:
                ops(y, out)
    return out


def size(n):
    return 1 + sum(size(x) for x in n[2:] if isinstance(x, tuple)) + \
        sum(size(y) for x in n[2:] if isinstance(x, list) for y in x)


PRELUDE = r'''
#include <stdio.h>
#include <math.h>
#include <string.h>
#define PI 3.14159265358979323846
struct S { double x, y, z; };
static double usr2(double u, double v){ return u*0.50371 - v; }
static double usr3(double u, double v, double w){ return u + 2.*v - 3.*w; }
#define SETS 3
static const double DV[SETS][8] = {{1.37,-2.61,0.731,3.19,-0.457,5.03,1.713,2.29},
  {-0.83,1.91,-3.37,0.219,2.77,-1.13,0.617,-4.41},{12.3,7.7,1.01,-9.2,0.033,-0.71,-6.1,0.9}};
static const int IV[SETS][6] = {{3,5,2,7,4,1},{6,1,9,2,8,3},{1,8,4,5,3,6}};
static double a,b,c,d,e,g; static int i,j,k; static struct S s, *p = &s; static double vec[4], arr[4];
static struct { struct { double pE, pL, q2; int nP, mP; } _parameters; } _instrument_var;
static void setvars(int n){ const double *v=DV[n]; a=v[0];b=v[1];c=v[2];d=v[3];e=v[4];g=v[5];
  i=IV[n][0]; j=IV[n][1]; k=IV[n][2]; s.x=v[6]*1.1; s.y=v[7]-0.3; s.z=v[0]*v[7];
  for(int m=0;m<4;++m){vec[m]=v[m]+0.37*v[7-m]; arr[m]=v[m]*v[7-m]-1.9;}
  _instrument_var._parameters.pE=v[2]*1.7; _instrument_var._parameters.pL=v[3]+0.77;
  _instrument_var._parameters.q2=v[6]*v[0]; _instrument_var._parameters.nP=IV[n][3]; _instrument_var._parameters.mP=IV[n][4]; }
#define V(m) static double m
'''
# in "bare" text instrument parameters appear under their own names
BARE = ''.join(f'#define {v} (_instrument_var._parameters.{v})\n' for v in PVARS + NPVARS)
UNBARE = ''.join(f'#undef {v}\n' for v in PVARS + NPVARS)


class CError(Exception):
    def __init__(self, line, text):
        super().__init__(text)
        self.line = line


def cc(src: str, flags=(), timeout=240):
    d = tempfile.mkdtemp(prefix='cx')
    try:
        c = Path(d) / 'x.c'
        c.write_text(src)
        exe = Path(d) / 'x'
        p = subprocess.run(['gcc', '-w', '-O0', '-std=gnu11', *flags, str(c), '-o', str(exe), '-lm'],
                           capture_output=True, text=True, timeout=timeout)
        if p.returncode:
            return None, p.stderr
        q = subprocess.run([str(exe)], capture_output=True, text=True, timeout=timeout)
        return q, p.stderr
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def evaluate_texts(rows, prelude=PRELUDE, setvars='setvars'):
    """rows: list of lists of (text, bare) C expressions.  Returns, per row and text, a list of SETS values as
    floats, or the string 'error: ...' when that text is not valid C.  The compiler is the oracle."""
    flat = [(ri, ti, t, bare) for ri, row in enumerate(rows) for ti, (t, bare) in enumerate(row)]
    bad: dict[int, str] = {}
    for attempt in range(40):
        body = [prelude, 'int main(void){ for(int n=0;n<SETS;++n){ ' + setvars + '(n);\n']
        fns = []
        for x, (ri, ti, t, bare) in enumerate(flat):
            if x in bad:
                continue
            # one line per function, so that a compiler error names the text
            pre = BARE if bare else ''
            post = UNBARE if bare else ''
            fns.append(f'{pre}\n# {x + 1} "E"\nstatic double f{x}(void) {{ return (double)({t}); }}\n{post}\n')
            body.append(f'printf("{x} %.17g\\n", f{x}());\n')
        src = body[0] + ''.join(fns) + '# 1 "M"\n' + ''.join(body[1:]) + '} return 0; }\n'
        q, err = cc(src)
        if q is not None:
            break
        new = set()
        for line in err.splitlines():
            parts = line.split(':', 3)
            if parts[0] == 'E' and len(parts) > 3 and 'error' in line:
                try:
                    x = int(parts[1]) - 1
                except ValueError:
                    continue
                if 0 <= x < len(flat) and x not in bad:
                    new.add(x)
                    bad[x] = 'error: ' + parts[3][:200]
        if not new:
            raise RuntimeError('C oracle did not compile: ' + err[:2000])
    else:
        raise RuntimeError('C oracle: too many rounds')
    out = [[None] * len(row) for row in rows]
    for x, (ri, ti, t, bare) in enumerate(flat):
        out[ri][ti] = bad.get(x, [])
    for line in q.stdout.splitlines():
        x, v = line.split()
        ri, ti, *_ = flat[int(x)]
        out[ri][ti].append(float(v))
    return out


def same(x, y, rel=1e-11):
    if isinstance(x, str) or isinstance(y, str):
        return False
    if len(x) != len(y):
        return False
    for u, v in zip(x, y):
        if u == v or (u != u and v != v):
            continue
        if abs(u - v) <= rel * max(abs(u), abs(v), 1e-300):
            continue
        return False
    return True


def all_finite(x):
    import math
    return not isinstance(x, str) and all(math.isfinite(v) for v in x)
