"""Random blocks of C declarations with what they declare.

Every item of a block is a declaration (one or more variables), a prototype, a function definition, a type definition, or a comment
containing what looks like declarations.  A variable knows its name, whether it has an initial value, and how two values of it are to be
compared (bytes, text of a string, texts of strings).  What types and sizes are is not modelled: the C compiler is asked.
"""
from __future__ import annotations

PRELUDE = r'''
#include <stddef.h>
#include <string.h>
#define NA 3
#define NB (2+1)
#define WORDS "some, {words}"
#define SQ(x) ((x)*(x))
enum colour_e { red, green = 4, blue };
typedef enum colour_e colour_t;
struct pair_s { int first; int second; };
typedef struct pair_s pair_t;
typedef struct { double d[2]; } vec2_t;
typedef double real_t, *real_ptr;
typedef double tri_t[3];
typedef int (*op_t)(int, int);
static int add2(int a, int b) { return a + b; }
static int sub2(int a, int b) { return a - b; }
static int apply2(int (*f)(int, int), int b) { return f(b, 1); }
static double gpool[4] = {1.5, 2.5, 3.5, 4.5};
static int ipool[6] = {1, 2, 3, 4, 5, 6};
'''
INTS = ['int', 'long', 'short', 'unsigned', 'unsigned int', 'long long', 'unsigned long long', 'signed char', 'unsigned char', 'long int', 'unsigned long', 'size_t', 'short int']
REALS = ['double', 'float', 'real_t', 'double', 'double']
STEMS = ['a', 'x', 'size', 'n', 'data', 'table', 'v1', 'flag', 'init', 'p', 'of', 'name', 'values', 'intensity', 'doubled', 'structure', 'consts', 'charge', 'e1', 'typedefed', 'voided', 'extern1']


def words(r, commas=True):
    """a C string literal"""
    parts = ['a', 'bc', 'x y', '\\n', '\\"', "'", '\\\\', '\\x41', '\\101', '0']
    if commas:
        parts += [',', '{', '}', '[', ']', ';', '=', '(', ')', '//', '/*', '*/', 'int q;', '},{', '","'.replace('"', '\\"')]
    t = '"' + ''.join(r.choice(parts) for _ in range(r.randint(0, 5))) + '"'
    # a hexadecimal escape goes on for as long as there are digits
    for h in '0abc':
        t = t.replace('\\x41' + h, '\\x41 ' + h)
    if r.random() < .15:
        t += ' ' + words(r, commas)
    return t


def number(r):
    return r.choice([lambda: str(r.randint(0, 99)), lambda: f'-{r.randint(1, 50)}', lambda: f'{r.randint(0, 9)} + {r.randint(1, 9)}', lambda: f'(NA * {r.randint(1, 5)})',
                     lambda: 'SQ(3)', lambda: f'add2({r.randint(0, 9)}, {r.randint(0, 9)})', lambda: f"'{r.choice('abz[]{},;')}'", lambda: f'sizeof(double[{r.randint(1, 4)}])',
                     lambda: 'blue', lambda: '(1 ? 2 : 3)', lambda: f'apply2(add2, {r.randint(0, 5)})', lambda: f'ipool[{r.randint(0, 5)}]', lambda: '0x1F', lambda: '017', lambda: "'\\''",
                     lambda: f'(int) {r.randint(1, 9)}.7', lambda: 'sizeof(pair_t)', lambda: '12L', lambda: '~3', lambda: '(red, 7)'])()


def real(r):
    return r.choice([lambda: f'{r.randint(0, 99)}.{r.randint(0, 99)}', lambda: f'-.{r.randint(1, 99)}', lambda: f'{r.randint(1, 9)}e-{r.randint(1, 3)}', lambda: f'{r.randint(1, 9)}.5f', lambda: f'gpool[{r.randint(0, 3)}]',
                     lambda: f'gpool[{r.randint(0, 3)}] * {r.randint(1, 9)}.', lambda: number(r)])()


class Var:
    def __init__(self, name, kind='mem', init=None, sized=True, count=0, inline=False, const=False, array=False, pointer=False, size_of=None):
        self.name, self.kind, self.init, self.sized, self.inline, self.const, self.array, self.pointer, self.size_of = name, kind, init, sized, inline, const, array, pointer, size_of


class Block:
    def __init__(self, r, members=False, inits=True, prefix='', plain=False):
        """members: only what can be a member of a structure (no static or extern, functions, or type definitions); plain: without any name of a type, macro or variable"""
        self.plain = plain
        self.r, self.members, self.inits, self.prefix = r, members, inits, prefix
        self.vars, self.protos, self.types, self.texts, self.features = [], [], [], [], set()
        self.used = set()
        for _ in range(r.choice([1, 1, 2, 3, 4, 6])):
            self.item()
        self.text = self.join()

    def name(self):
        r = self.r
        while True:
            n = self.prefix + r.choice(STEMS) + r.choice(['', '', '', str(r.randint(0, 9)), '_' + r.choice(STEMS)])
            # names which contain one another are wanted
            if self.vars and r.random() < .25:
                n = r.choice(self.vars).name + r.choice(['_size', '2', '_', 'x'])
            if n not in self.used and n not in ('init', 'of'):
                self.used.add(n)
                return n

    def sp(self, need=False):
        r = self.r
        x = r.random()
        if x < .82:
            return ' ' if need else r.choice(['', '', ' '])
        return r.choice(['  ', '\n  ', '\t', ' /* int no1; */ ', ' // double no2[3];\n', '/* "no3 */ ', ' /* } */ '])

    def size(self):
        """text of an array size"""
        r = self.r
        x = r.random()
        if x < .55:
            return str(r.randint(1, 5))
        self.features.add('size-expression')
        c = ['NA', 'NB', 'NA*2', '2+1', '(2+1)*NB', 'sizeof(int)', 'blue', '0x3', '04', '3u', 'sizeof(double[2])/sizeof(double)', 'SQ(2)', 'NA > 2 ? 4 : 2', 'sizeof(int (*)[3])', '1<<2', 'sizeof("ab[")']
        if self.plain:
            c = [t for t in c if not any(x in t for x in ('NA', 'NB', 'SQ', 'blue'))]
        prior = [v for v in self.vars if v.array and v.size_of is None and v.sized]
        if prior and not self.members and x > .85:
            n = r.choice(prior).name
            return f'sizeof({n})/sizeof({n}[0])'
        return r.choice(c)

    def dims(self, base_count=None):
        r = self.r
        n = r.choice([1, 1, 1, 2, 2, 3])
        return [self.size() for _ in range(n)]

    def dims_text(self, d):
        return ''.join(f'[{x}]' if self.r.random() < .85 else f'[ {x} ]' for x in d)

    def base(self):
        """(text, kind) of a type"""
        r = self.r
        x = r.random() * (.68 if self.plain else 1)
        if x < .3:
            t = r.choice(INTS), 'int'
        elif x < .58:
            t = 'double' if self.plain else r.choice(REALS), 'real'
        elif x < .68:
            t = 'char', 'char'
        elif x < .8:
            t = r.choice(['struct pair_s', 'pair_t']), 'pair'
        elif x < .85:
            t = r.choice(['enum colour_e', 'colour_t']), 'int'
        elif x < .88:
            t = 'vec2_t', 'vec'
        elif x < .91:
            t = 'tri_t', 'tri'
        elif x < .94:
            t = 'real_ptr', 'rptr'
        elif x < .96:
            t = 'op_t', 'op'
        else:
            tag = self.name()
            self.features.add('inline-type')
            t = (f'struct {tag} {{int first; int second;}}' if r.random() < .5 else 'struct {int first, second;}' if r.random() < .5 else 'union {int first; float other;}'), 'inline'
        text, kind = t
        if r.random() < .15 and kind != 'inline':
            self.features.add('qualifier')
            q = 'volatile' if self.plain else r.choice(['const', 'volatile', 'const'])
            text = f'{q} {text}' if r.random() < .6 or kind in ('pair', 'vec') else f'{text} {q}'
            return text, kind, q
        return text, kind, ''

    def value(self, kind, r):
        if kind == 'int':
            return number(r)
        if kind == 'real':
            return real(r)
        if kind == 'char':
            return r.choice(["'a'", "','", "'{'", "'\\n'", "'\\''", "'\"'", '65', "';'"])
        if kind in ('pair', 'inline'):
            a, b = number(r), number(r)
            return r.choice([f'{{{a}, {b}}}', f'{{{a},{b},}}', f'{{{a}}}', f'{{.first = {a}}}'] + ([f'{{.second={b}, .first={a}}}'] if kind == 'pair' else [])) if kind == 'pair' else f'{{{a}}}'
        if kind == 'vec':
            return r.choice([f'{{{{{real(r)}, {real(r)}}}}}', f'{{ {{{real(r)}}} }}', f'{{.d = {{{real(r)}, 2}}}}'])
        if kind == 'tri':
            return f'{{{real(r)}, {real(r)}{r.choice(["", ","])}}}'
        if kind == 'rptr':
            return r.choice(['gpool', '&gpool[1]', 'gpool + 2', 'NULL', '0'])
        if kind == 'op':
            return r.choice(['add2', 'sub2', '&add2', 'NULL'])

    def listing(self, r, kind, sizes, value=None):
        """a brace list for an array with (at least) the numbers of elements in sizes"""
        value = value or (lambda: self.value(kind, r))
        n = sizes[0]
        k = n if r.random() < .6 else r.randint(1, n)
        if len(sizes) == 1:
            e = [value() for _ in range(k)]
        else:
            e = [self.listing(r, kind, sizes[1:], value) for _ in range(k)]
        return '{' + r.choice(['', ' ', '\n']) + r.choice([',', ', ', ' , ', ',\n']).join(e) + r.choice(['', '', '', ',', ' , ', ' ']) + '}'

    def value_of_size(self, text):
        return {'NA': 3, 'NB': 3, 'NA*2': 6, '2+1': 3, '(2+1)*NB': 9, 'sizeof(int)': 4, 'blue': 5, '0x3': 3, '04': 4, '3u': 3, 'sizeof(double[2])/sizeof(double)': 2, 'SQ(2)': 4, 'NA > 2 ? 4 : 2': 4,
                'sizeof(int (*)[3])': 8, '1<<2': 4, 'sizeof("ab[")': 4}.get(text) or (int(text) if text.isdigit() else None)

    def declarator(self, kind, q, first):
        """(text, Var)"""
        r = self.r
        with_init = self.inits and r.random() < .6
        x = r.random()
        n = self.name()
        eq = r.choice([' = ', '=', ' =', '= '])
        inline = kind == 'inline'
        if x < .34:
            v = Var(n, const=q == 'const', inline=inline, array=kind == 'tri')
            text = n if r.random() < .93 else f'({n})'
            if with_init:
                v.init = self.value(kind, r)
                if kind in ('int', 'real', 'char', 'rptr', 'op') and r.random() < .04:
                    v.init = f'{{{v.init}}}'
            if text[0] == '(':
                self.features.add('parenthesised')
        elif x < .44 and kind == 'char':
            self.features.add('string')
            v = Var(n, 'str', pointer=True)
            text = '*' + r.choice(['', ' ', '' if self.plain else 'const ']) + n
            if with_init:
                v.init = r.choice([words(r), words(r), 'WORDS', 'NULL'])
                if v.init == 'NULL':
                    v.kind = 'mem'
            else:
                v.kind = 'mem'
        elif x < .44:
            self.features.add('pointer')
            stars = r.choice(['*', '*', '**', '* *', '*' if self.plain else '*const ', '***'])
            v = Var(n, pointer=True, inline=inline, const='const' in stars)
            text = stars + r.choice(['', ' ']) + n
            if with_init:
                v.init = r.choice(['NULL', '0', '(void *) 0', '(void *) ipool', '(void*)&gpool[1]'])
        elif x < .62:
            d = self.dims()
            v = Var(n, array=True, inline=inline, const=q == 'const')
            text = n + self.dims_text(d)
            self.features.add(f'array{len(d)}')
            if with_init and kind not in ('op', 'inline'):
                sizes = [self.value_of_size(t) for t in d]
                if None not in sizes:
                    if kind == 'char' and len(d) == 1:
                        lit = words(r)
                        room = sizes[0]
                        v.init = lit if room > 40 else '"' + 'ab,;{'[:max(0, min(room - 1, r.randint(0, 5)))] + '"'
                        self.features.add('string')
                    elif kind == 'char':
                        v.init = self.listing(r, kind, sizes[:-1], lambda: '"' + 'x,}y'[:max(0, min(sizes[-1] - 1, r.randint(0, 4)))] + '"')
                        self.features.add('string')
                    elif len(d) > 1 and kind in ('int', 'real') and r.random() < .2:
                        total = 1
                        for s in sizes:
                            total *= s
                        v.init = self.listing(r, kind, [min(total, 7)])
                        self.features.add('flat')
                    elif len(d) == 1 and kind in ('int', 'real') and r.random() < .15:
                        i = r.randrange(sizes[0])
                        v.init = f'{{[{i}] = {self.value(kind, r)}}}'
                        self.features.add('designated')
                    else:
                        v.init = self.listing(r, kind, sizes)
                    self.features.add('array-init')
        elif x < .76 and self.inits and kind in ('int', 'real', 'char', 'pair'):
            # the size follows from the value
            self.features.add('unsized')
            v = Var(n, array=True, const=q == 'const')
            if kind == 'char' and r.random() < .7:
                text = f'{n}[]'
                v.init = r.choice([words(r), words(r), 'WORDS', '{' + words(r) + '}'])
            elif r.random() < .3:
                d = [self.size() for _ in range(r.choice([1, 1, 2]))]
                sizes = [self.value_of_size(t) for t in d]
                if None in sizes:
                    d, sizes = ['2'], [2]
                text = f'{n}[]' + self.dims_text(d)
                if kind == 'char':
                    v.init = self.listing(r, kind, [r.randint(1, 4)] + sizes[:-1], lambda: '"' + 'x,}y'[:max(0, min(sizes[-1] - 1, r.randint(0, 4)))] + '"')
                elif kind != 'pair' and r.random() < .3:
                    v.init = self.listing(r, kind, [r.randint(1, 7)])
                    self.features.add('flat')
                else:
                    v.init = self.listing(r, kind, [r.randint(1, 4)] + sizes)
            else:
                text = f'{n}[]' if r.random() < .8 else f'{n}[ ]'
                v.init = self.listing(r, kind, [r.randint(1, 6)])
        elif x < .84 and kind == 'char':
            self.features.add('strings')
            v = Var(n, 'strs', array=True, pointer=True)
            k = r.randint(1, 4)
            d = r.choice(['', str(k), '3']) if self.inits else str(k)
            text = f'*{n}[{d}]'
            if with_init or not d:
                e = [words(r) if r.random() < .9 else r.choice(['NULL', 'WORDS']) for _ in range(min(k, 3))]
                v.init = '{' + ', '.join(e) + r.choice(['', ',']) + '}'
            else:
                v.kind = 'mem'
        elif x < .84:
            self.features.add('pointer-array')
            v = Var(n, array=True, pointer=True, inline=inline)
            d = self.dims()
            text = '*' + n + self.dims_text(d)
            sizes = [self.value_of_size(t) for t in d]
            if with_init and None not in sizes:
                v.init = self.listing(r, kind, sizes, lambda: r.choice(['NULL', '0', '(void *) ipool']))
        elif x < .9 and kind in ('int', 'real'):
            self.features.add('pointer-to-array')
            v = Var(n, pointer=True)
            text = f'(*{n})' + self.dims_text(self.dims())
            if with_init:
                v.init = r.choice(['NULL', '(void *) gpool'])
        elif kind not in ('inline', 'tri'):
            self.features.add('function-pointer')
            args = r.choice(['void', '', 'int, int', 'int a, int b', 'double x, char *s', 'int (*f)(int, int), int b', 'double v[3]', 'const char *fmt, ...', 'double p, int *q' if self.plain else 'pair_t p, vec2_t *q', 'int (*)(int)', 'double (*g)(double (*)(double))'])
            v = Var(n, pointer=True)
            if r.random() < .3:
                v.array = True
                k = r.randint(1, 3)
                text = f'(*{n}[{k}])({args})'
                if with_init:
                    v.init = '{' + ', '.join(r.choice(['NULL', '(void *) add2', '(void *) sub2']) for _ in range(k)) + '}'
            else:
                text = f'({r.choice(["*", "* "])}{n})({args})'
                if with_init:
                    v.init = r.choice(['NULL', '(void *) add2', '(void *) sub2'])
        else:
            v = Var(n, inline=inline, const=q == 'const', array=kind == 'tri')
            text = n
        if v.init is not None:
            text += eq + v.init
            self.features.add('init')
        elif r.random() < .03:
            self.features.add('attribute')
            text += ' __attribute__((unused))'
        return text, v

    def item(self):
        r = self.r
        x = r.random()
        if x < .8 or self.members:
            base, kind, q = self.base()
            k = 1 if (kind == 'inline' and self.members) else r.choice([1, 1, 1, 2, 3])
            ds = []
            new = []
            for i in range(k):
                t, v = self.declarator(kind, q, not i)
                ds.append(t)
                new.append(v)
                self.vars.append(v)
            if k > 1:
                self.features.add('several')
            self.texts.append(base + (' ' if not ds[0].startswith('*') else self.sp()) + (',' + self.sp()).join(ds) + self.sp() + ';')
        elif x < .85:
            n = self.name()
            self.features.add('prototype')
            self.protos.append(n)
            self.texts.append(r.choice([f'int {n}(int a, double b[3]);', f'double {n}(void);', f'void {n}(pair_t *p, int (*f)(int));', f'double {n}(double x, double y);', f'char *{n}(const char *s);']))
        elif x < .93:
            n = self.name()
            self.features.add('function')
            self.texts.append(r.choice([f'int {n}(int a) {{ int local1 = a; double local2[3] = {{1, 2}}; return local1 + (int) local2[0]; }}',
                                        f'double {n}(double x) {{\n  static double hidden;\n  for (int i = 0; i < 3; i++) {{ double inner = x * i; hidden += inner; }}\n  return hidden;\n}}',
                                        f'void {n}(void) {{ }}', f'char *{n}(char *s) {{ char *t = s, c = *s; if (c) {{ int k = 1; t += k; }} return t; }}']))
        elif x < .98:
            n = self.name()
            self.features.add('typedef')
            self.types.append(n)
            m = None
            if r.random() < .2:
                m = self.name()
                self.types.append(m)
            self.texts.append({0: f'typedef double {n}', 1: f'typedef double *{n}', 2: f'typedef int {n}[4]', 3: f'typedef int (*{n})(int, double)', 4: f'typedef struct {{ int u; double w; }} {n}',
                               5: f'typedef unsigned long {n}', 6: f'typedef enum {{ A_{n}, B_{n} = 3 }} {n}', 7: f'typedef struct pair_s {n}'}[r.randrange(8)] + (f', *{m};' if m else ';'))
            if r.random() < .6:
                v = Var(self.name(), array=False)
                self.vars.append(v)
                self.texts.append(f'{n} {v.name};')
        else:
            n = self.name()
            self.features.add('type')
            self.texts.append(r.choice([f'struct {n} {{ int f1; double f2[3]; }};', f'enum {n} {{ E1_{n}, E2_{n} = 7 }};', f'union {n} {{ int f1; float f2; }};']))

    def join(self):
        r = self.r
        out = []
        for t in self.texts:
            if r.random() < .2:
                self.features.add('comment')
                out.append(r.choice(['/* int hidden_a; */', '// double hidden_b[3] = {1};', '/* "unbalanced */', '// it\'s', '/* multi\n double hidden_c;\n*/']) + '\n')
            out.append(t)
            out.append(r.choice(['\n', '\n', '\n  ', ' ', '\n\n', ' // int hidden_d;\n']))
        return ''.join(out)
