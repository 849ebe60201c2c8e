"""Random models of McCode component definitions and instruments, their source text, and what reading it must give.

A model is plain data (dicts, lists, strings), so it can be printed, replayed, and compared.
"""
from __future__ import annotations
import re
from . import cexpr as X

KEYWORDS = dict(ABSOLUTE=('ABSOLUTE', 'Absolute', 'absolute'), AT=('AT', 'At', 'at'), COMPONENT=('COMPONENT', 'Component', 'component'),
                RELATIVE=('RELATIVE', 'Relative', 'relative'), ROTATED=('ROTATED', 'Rotated', 'rotated'), PREVIOUS=('PREVIOUS', 'Previous', 'previous'),
                TRACE=('TRACE', 'Trace', 'trace'), EXTEND=('EXTEND', 'Extend', 'extend'), GROUP=('GROUP', 'Group', 'group'), SAVE=('SAVE', 'Save', 'save'),
                JUMP=('JUMP', 'Jump', 'jump'), WHEN=('WHEN', 'When', 'when'), NEXT=('NEXT', 'Next', 'next'), ITERATE=('ITERATE', 'Iterate', 'iterate'),
                MYSELF=('MYSELF', 'Myself', 'myself'), COPY=('COPY', 'Copy', 'copy'), SPLIT=('SPLIT', 'Split', 'split'),
                REMOVABLE=('REMOVABLE', 'removable'), CPU=('CPU', 'cpu'), NOACC=('NOACC', 'NoACC', 'NoAcc', 'noacc'), END=('END', 'End', 'end'),
                DEFINE=('DEFINE', 'Define', 'define'), INSTRUMENT=('INSTRUMENT', 'Instrument', 'instrument'),
                DECLARE=('DECLARE', 'Declare', 'declare'), USERVARS=('USERVARS', 'UserVars', 'uservars'),
                INITIALIZE=('INITIALIZE', 'INITIALISE', 'Initialize', 'initialise'), FINALLY=('FINALLY', 'Finally', 'finally'),
                SHARE=('SHARE', 'Share', 'share'), MCDISPLAY=('MCDISPLAY', 'DISPLAY', 'McDisplay', 'mcdisplay'),
                SETTING=('SETTING', 'Setting'), DEFINITION=('DEFINITION', 'Definition'), OUTPUT=('OUTPUT', 'Output', 'PRIVATE', 'Private'),
                PARAMETERS=('PARAMETERS', 'Parameters'), DEPENDENCY=('DEPENDENCY', 'Dependency', 'dependency'),
                METADATA=('METADATA', 'MetaData', 'metadata'), CATEGORY=('CATEGORY', 'Category'))

BLOCKS = ['double {u} = 1.0;', 'int {u}[3] = {{1, 2, 3}};', '/* a comment % with }} braces {{ */ {u} += 2;', 'printf("%s {u} %d%%\\n", "x", 3);',
          '// {u} line comment', 'if (a < b && c > d) {{ {u} = a ? b : c; }}', '#define {u} 3\n#undef {u}', 'char *{u} = "quote \\" and \\\\";',
          '{u} = \'"\';', 'α {u} ünïcode ∆', '%include "nothing-{u}"', 'while (0) {{\n\n\t{u}--;\n}}', 'MPI_MASTER( {u}(); )', '{u} = 1 % 2;']


def block(r, u, n=None):
    k = r.choice([1, 1, 2, 3]) if n is None else n
    if n is None and r.random() < 0.04:
        return r.choice([';', '{}', '\n;\n', 'x', '/**/'])
    parts = [r.choice(BLOCKS).format(u=f'{u}_{x}') for x in range(k)]
    s = r.choice(['', ' ', '\n', '\n  ', '\n\n'])
    for p in parts:
        s += p + r.choice(['\n', '\n  ', ' \n\n', '\n\t'])
    if r.random() < 0.2:
        s = s.strip()
    return s


def ident(r, stem, n):
    """identifiers, some of which begin or end like keywords"""
    x = r.random()
    if x < 0.6:
        return f'{stem}{n}'
    return r.choice(['NEXT_', 'PREVIOUS_', 'At_', 'copy_', 'END', 'MYSELF', '_', 'Trace', 'x_', 'splitter', 'int_', 'JUMP_1_', 'relative']) + f'{stem}{n}'


class Ink:
    """Writes tokens with random white space, comments and keyword spellings."""

    def __init__(self, r, plain=False):
        self.r, self.plain, self.parts = r, plain, []

    def ws(self, need=True):
        r = self.r
        if self.plain:
            return ' '
        x = r.random()
        if x < 0.72:
            return ' ' if need or x < 0.36 else ''
        if x < 0.85:
            return r.choice(['\n', '  ', '\t', '\n  ', ' \n\n'])
        if x < 0.93:
            return r.choice([' /* note */ ', '\n/* two\n lines: COMPONENT x = Arm() */\n', ' /**/ '])
        return r.choice([' // to the end\n', '\n// COMPONENT nothing = Arm() AT (0,0,0) ABSOLUTE\n'])

    def kw(self, k):
        self.put(self.r.choice(KEYWORDS[k]) if not self.plain and self.r.random() < 0.3 else k)

    def put(self, *toks):
        for t in toks:
            self.parts.append(self.ws() + t)

    def text(self):
        return ''.join(self.parts)


# ---------------------------------------------------------------- components

def similar(r, name, taken):
    """now and then a name which contains, begins like, or differs only in case from one that is taken"""
    if taken and r.random() < 0.3:
        t = r.choice(taken)
        for new in r.sample([t + '_w', t[:-1], 'x' + t, t + t, t.swapcase(), t[1:]], 6):
            if new not in taken and re.fullmatch(r'[A-Za-z_]\w*', new) and len(new) > 2 and new.upper() not in KEYWORDS:
                return new
    return name


def gen_par(r, n, kinds=None, expr_default=True, taken=()):
    kind = r.choice(kinds or ['bare', 'bare', 'double', 'double', 'int', 'string', 'char*', 'vector', 'double*', 'int*'])
    p = dict(kind=kind, name=similar(r, ident(r, r.choice(['w', 'par', 'Q']), n), taken), default=None)
    if r.random() < 0.7:
        p['default'] = par_default(r, kind)
    return p


def par_default(r, kind):
    if kind in ('bare', 'double'):
        return r.choice([number(r), number(r), '0', f'-{number(r)}', f'{number(r)}*{number(r)}', 'FLT_MAX', f'({number(r)}+{number(r)})/2.0'])
    if kind == 'int':
        return r.choice([str(r.randint(0, 50)), f'-{r.randint(1, 9)}', f'{r.randint(1, 9)}+{r.randint(1, 9)}', 'SOMEFLAG'])
    if kind in ('string', 'char*'):
        return r.choice(['NULL', '0', '""', string(r), string(r)])
    vals = [number(r) if kind != 'int*' else str(r.randint(0, 9)) for _ in range(r.choice([1, 2, 3, 4]))]
    return r.choice(['NULL', '0', 'some_array', '{' + ', '.join(vals) + '}', '{' + ','.join(vals) + '}'])


def number(r):
    return r.choice([str(r.randint(1, 99)), f'{r.randint(0, 9)}.{r.randint(1, 99)}', f'.{r.randint(1, 99)}', f'{r.randint(1, 9)}e-{r.randint(1, 9)}',
                     f'{r.randint(1, 9)}.', f'{r.randint(1, 9)}.5E+{r.randint(1, 5)}'])


def string(r):
    return '"' + r.choice(['file.dat', 'with space', 'a,b;c', 'x=1', 'q\\"q', 'path/to\\\\x', 'é', '%d %s', '', '// no', "it's", '/* not a comment */', 'a)b']) + '"'


SECTIONS = ['share', 'user', 'declare', 'initialize', 'trace', 'save', 'final', 'display']
SECTION_KW = dict(share='SHARE', user='USERVARS', declare='DECLARE', initialize='INITIALIZE', trace='TRACE', save='SAVE', final='FINALLY',
                  display='MCDISPLAY')


def gen_comp(r, name, earlier=(), simple=False):
    """earlier: component models this one may copy from"""
    m = dict(name=name, copy=None, noacc=r.random() < 0.12, category=None, define=[], setting=[], output=[], metadata=[], dependency=None, sections={})
    base = None
    if earlier and r.random() < 0.4:
        base = r.choice(earlier)
        m['copy'] = base['name']
    stem = re.sub(r'\W', '', name)
    if not base:
        for n in range(r.choice([0, 0, 0, 1, 2])):
            m['define'].append(gen_par(r, f'd{n}_{stem}', kinds=['bare', 'int', 'string', 'vector'], taken=names(m)))
        for n in range(r.choice([0, 1, 2, 3, 5])):
            m['setting'].append(gen_par(r, f'{n}_{stem}', taken=names(m)))
        for n in range(r.choice([0, 0, 0, 1, 2])):
            m['output'].append(dict(kind=r.choice(['bare', 'int']), name=f'o{n}_{stem}', default=None))
    elif r.random() < 0.5:
        for n in range(r.choice([1, 2])):
            m['setting'].append(gen_par(r, f'{n}_{stem}'))
    if r.random() < 0.3:
        m['category'] = r.choice(['optics', 'samples', '"user category"', '"contrib/union"'])
    for n in range(r.choice([0, 0, 0, 1, 2])):
        m['metadata'].append(gen_meta(r, f'{stem}_{n}'))
    if r.random() < 0.3:
        m['dependency'] = r.choice(['-lfoo', '-DX=1 -I@NEXUSFLAGS@', 'CMD(echo -lz)', ' -l' + stem + ' ', '-DMSG=\\"hi\\"', '-DQ=\\"'])
    for s in SECTIONS:
        x = r.random()
        if x < 0.45:
            m['sections'][s] = dict(text=block(r, f'{s}_{stem}'))
        elif x < 0.5:
            m['sections'][s] = dict(text=r.choice(['', '\n', '  \n ']))
        elif x < 0.7 and earlier and s != 'user':
            m['sections'][s] = dict(copy=r.choice(earlier)['name'], extend=block(r, f'x{s}_{stem}') if r.random() < 0.5 else None)
    return m


def names(m):
    return [p['name'] for p in m['define'] + m['setting']]


def gen_meta(r, n):
    name = r.choice([f'meta_{n}', f'"quoted_{n}"', f'"two words {n}"', f'"dotted.{n}"', f'"sl/ash-{n}"'])
    mime = r.choice(['"application/json"', '"text/plain"', 'plain', '"application/x-nexus; v=1"'])
    value = r.choice(['{"a": [1, 2, {"b": null}], "s": "x\\n"}', 'plain text', '\n  indented\n\ttabbed\n', 'quotes " and \\ back', 'é∆ %d %% %',
                      "C code; /* x */ // y\n'", '', '\\x41\\101', '??=', 'line1\r\nline2', '#line 3 "x"']) + r.choice(['', '\n', f' {n}'])
    return dict(mime=mime, name=name, value=value)


def unquote(s):
    return s[1:-1] if len(s) > 1 and s[0] == '"' and s[-1] == '"' else s


def write_pars(k, pars):
    k.put('(')
    for n, p in enumerate(pars):
        if n:
            k.put(',')
        if p['kind'] in ('double*', 'int*', 'char*'):
            k.put(p['kind'][:-1], '*')
        elif p['kind'] != 'bare':
            k.put(p['kind'])
        k.put(p['name'])
        if p['default'] is not None:
            k.put('=', p['default'])
    k.put(')')


def write_block(k, text):
    k.put('%{' + text + '%}')


def write_meta(k, metas):
    for md in metas:
        k.kw('METADATA')
        k.put(md['mime'], md['name'])
        write_block(k, md['value'])


def write_section(k, s, sec):
    k.kw(SECTION_KW[s])
    if 'copy' in sec:
        k.kw('COPY')
        k.put(sec['copy'])
        if sec['extend'] is not None:
            k.kw('EXTEND')
            write_block(k, sec['extend'])
    else:
        write_block(k, sec['text'])


def comp_text(m, r, plain=False):
    k = Ink(r, plain)
    k.kw('DEFINE'); k.kw('COMPONENT'); k.put(m['name'])
    if m['copy']:
        k.kw('COPY'); k.put(m['copy'])
    for which, key in (('define', 'DEFINITION'), ('setting', 'SETTING'), ('output', 'OUTPUT')):
        if m[which] or (not plain and r.random() < 0.15):
            k.kw(key); k.kw('PARAMETERS')
            write_pars(k, m[which])
    if m['category']:
        k.kw('CATEGORY'); k.put(m['category'])
    write_meta(k, m['metadata'])
    if m['dependency'] is not None:
        k.kw('DEPENDENCY'); k.put('"' + m['dependency'] + '"')
    if m['noacc']:
        k.kw('NOACC')
    for s in SECTIONS:
        if s in m['sections']:
            write_section(k, s, m['sections'][s])
    k.kw('END')
    return k.text() + ('' if plain or r.random() < 0.5 else '\n')


def resolve_comps(models):
    """What each definition amounts to: dict name -> resolved component"""
    out = {}
    for m in models:
        b = out.get(m['copy'])
        res = dict(name=m['name'], noacc=m['noacc'] or bool(b and b['noacc']), category=unquote(m['category']) if m['category'] else (b['category'] if b else None),
                   define=(b['define'] if b else []) + m['define'], setting=(b['setting'] if b else []) + m['setting'],
                   output=(b['output'] if b else []) + m['output'], sections={}, metadata=merge_meta(b['metadata'] if b else [], m['metadata']),
                   dependency=m['dependency'])
        for s in SECTIONS:
            own = m['sections'].get(s)
            have = list(b['sections'][s]) if b else []
            if own and 'copy' in own:
                # a section copied from a definition replaces the one that came with the whole definition
                new = list(out[own['copy']]['sections'][s]) + ([own['extend']] if own['extend'] is not None else [])
                have = new if s != 'share' else have + new
            elif own:
                have = have + [own['text']]
            res['sections'][s] = [t for t in have if t.strip()]
        out[m['name']] = res
    return out


def merge_meta(base, new):
    out = list(base)
    for m in new:
        out = [x for x in out if unquote(x['name']) != unquote(m['name'])] + [m]
    return out


# ---------------------------------------------------------------- instruments

PARAM_NAMES = X.PVARS + X.NPVARS


def gen_instr(r, comps, n_inst=None, features=None, name=None, first=0, sub=None):
    """comps: resolved components by name. Returns an instrument model."""
    f = dict(split=.15, when=.25, group=.2, extend=.25, jump=.2, removable=.08, cpu=.1, metadata=.12, copy=.25, special_name=.06, rotated=.5,
             odd_ref=.3, values='random', blocks=.5, dependency=.3, text_only=False)
    f.update(features or {})
    m = dict(name=name or ident(r, 'instr', r.randint(0, 99)), params=[], metadata=[], dependency=None, sections={}, instances=[], include=None)
    names = list(PARAM_NAMES)
    for p in names:
        if r.random() < 0.75:
            kind = 'int' if p in X.NPVARS else r.choice(['bare', 'double'])
            m['params'].append(dict(kind=kind, name=p, unit=unit(r), default=r.choice([None, number(r), f'-{number(r)}', f'{number(r)}*{number(r)}', '0'])
                                    if kind != 'int' else r.choice([None, str(r.randint(0, 99)), f'-{r.randint(1, 9)}', '2+3', '0'])))
    for n in range(r.choice([0, 0, 1, 2])):
        m['params'].append(dict(kind=r.choice(['string', 'char*']), name=f'str{n}', unit=unit(r), default=r.choice([None, 'NULL', '0', string(r), string(r)])))
    r.shuffle(m['params'])
    for n in range(r.choice([0, 0, 1, 2])):
        m['metadata'].append(gen_meta(r, f'instr_{n}'))
    if r.random() < f['dependency']:
        m['dependency'] = r.choice(['-lm', '-DA=1 -DB=2', '-I/usr/include', '-DMSG=\\"a b\\"'])
    for s in ('declare', 'user', 'initialize', 'save', 'final'):
        if r.random() < f['blocks']:
            m['sections'][s] = block(r, f'{s}_instr')
        elif r.random() < 0.1:
            m['sections'][s] = r.choice(['', ' \n'])
    for n in range(r.choice([0, 1, 2, 3, 4, 6, 9]) if n_inst is None else n_inst):
        m['instances'].append(gen_inst(r, m['instances'], comps, f, n + first))
    # jumps may go forward: choose their targets when all names are known
    written = [x['name'] for x in resolve_names(m['instances'])]
    for n, i in enumerate(m['instances']):
        if r.random() < f['jump']:
            for _ in range(r.choice([1, 1, 2])):
                x = r.random()
                if x < 0.4:
                    t = dict(form='name', to=r.choice(written))
                elif x < 0.6:
                    t = dict(form='MYSELF')
                elif x < 0.8:
                    t = dict(form='PREVIOUS', by=r.choice([None, 1, 2, 3]))
                else:
                    t = dict(form='NEXT', by=r.choice([None, 1, 2, 3]))
                t.update(iterate=r.random() < 0.5, cond=expr(r, 2, 'i', True))
                i['jumps'].append(t)
    return m


def unit(r):
    return r.choice([None, None, '"m"', '"AA^-1"', '"deg/s"', '""', '"a b"'])


def expr(r, depth=2, want='d', names=False):
    for _ in range(50):
        t = X.gen(r, r.choice(range(0 if not names else 1, depth + 1)), want)
        if names and not X.names(t):
            continue
        if r.random() < 0.3 and not names:
            t = X.gen(r, 0, want)
        return X.render(t, r)
    return 'a > 1'


def value_for(r, p, depth=3):
    k = p['kind']
    if k in ('bare', 'double'):
        return expr(r, depth, 'd')
    if k == 'int':
        return expr(r, depth, 'i')
    if k in ('string', 'char*'):
        return r.choice([string(r), string(r), 'str0', 'NULL', '"one" "two"'])
    n = r.choice([1, 2, 3, 5])
    return r.choice(['{' + ', '.join(number(r) if k != 'int*' else str(r.randint(0, 99)) for _ in range(n)) + '}', 'some_array', 'NULL',
                     '{' + ','.join(expr(r, 1, 'd' if k != 'int*' else 'i') for _ in range(n)) + '}'])


def gen_inst(r, before, comps, f, n):
    done = resolve_names(before)
    i = dict(name=similar(r, ident(r, r.choice(['arm', 'det', 'c']), n), [x['name'] for x in done]), nameform='plain', type=None, copy=None, params=[], split=None, when=None, at=None, at_ref=None,
             rot=None, rot_ref=None, group=None, extend=None, jumps=[], metadata=[], removable=r.random() < f['removable'], cpu=r.random() < f['cpu'])
    if r.random() < f['special_name']:
        i['nameform'] = r.choice(['COPYID', 'COPY', 'MYSELF'])
    if done and r.random() < f['copy']:
        x = r.random()
        back = r.randint(1, min(3, len(done)))
        i['copy'] = dict(form='name', to=r.choice(done)['name']) if x < 0.6 else dict(form='PREVIOUS', by=None if back == 1 and r.random() < .7 else back)
        i['type'] = type_of(before, i['copy'])
    else:
        i['type'] = r.choice(list(comps))
    c = comps[i['type']]
    pars = c['define'] + c['setting']
    for p in r.sample(pars, r.randint(0, len(pars))):
        i['params'].append([p['name'], value_for(r, p)])
    if i['params'] == [] and r.random() < 0.5:
        i['params'] = None  # parameter list omitted altogether
    if i['params'] and not i['copy'] and r.random() < .15:  # the first value of a parameter which is given again is kept
        again = r.choice([p for p in pars if p['name'] in dict(i['params'])])
        i['again'] = [again['name'], value_for(r, again)]
    i['at'] = [expr(r, 2) if r.random() < .5 else r.choice(['0', number(r), '-' + number(r)]) for _ in range(3)]
    i['at_ref'] = reference(r, done, f)
    if r.random() < f['rotated']:
        i['rot'] = [r.choice(['0', '0', number(r), '-' + number(r), '90', expr(r, 1)]) for _ in range(3)]
        i['rot_ref'] = reference(r, done, f)
    if r.random() < f['split']:
        i['split'] = r.choice(['', str(r.randint(2, 20)), expr(r, 1, 'i', True)])
    if r.random() < f['when']:
        i['when'] = not_constant(lambda: expr(r, 3, 'i', True))
    if r.random() < f['group']:
        i['group'] = r.choice(['grp', 'NEXT_group', 'grp2'])
    if r.random() < f['extend']:
        i['extend'] = block(r, f'extend_{n}')
    if r.random() < f['metadata']:
        i['metadata'] = [gen_meta(r, f'inst{n}_{k}') for k in range(r.choice([1, 2]))]
    return i


def reference(r, done, f):
    if not done or r.random() < 0.3:
        return dict(form=r.choice(['ABSOLUTE', 'ABSOLUTE', 'RELATIVE ABSOLUTE']))
    x = r.random()
    if x < 1 - f['odd_ref']:
        return dict(form='name', to=r.choice(done)['name'])
    back = r.randint(1, min(3, len(done)))
    return dict(form='PREVIOUS', by=None if back == 1 and r.random() < .7 else back)


def resolve_names(instances, offset=0):
    """instances with the names they really get"""
    out = []
    for n, i in enumerate(instances):
        nm = i['name']
        if i['nameform'] == 'COPYID':
            nm = f'{nm}_{n + 1}'
        elif i['nameform'] != 'plain':
            nm = f'Comp_{n + 1}'
        out.append(dict(i, name=nm))
    return out


def not_constant(make):
    """A condition the library does not fold to a constant (it refuses those, as documented in Instance.WHEN)"""
    from mccode_antlr.common import Expr
    for _ in range(20):
        t = make()
        try:
            if not Expr.parse(t).is_constant:
                return t
        except Exception:
            return t
    return 'some_id > 0'


def target(done, ref):
    """index of the referenced instance among the earlier ones, or None for absolute"""
    if ref['form'] in ('ABSOLUTE', 'RELATIVE ABSOLUTE'):
        return None
    if ref['form'] == 'PREVIOUS':
        return len(done) - (ref['by'] or 1)
    return [x['name'] for x in done].index(ref['to'])


def type_of(before, ref):
    done = resolve_names(before)
    return done[target(done, ref)]['type']


def write_ref(k, ref):
    if ref['form'] == 'ABSOLUTE':
        k.kw('ABSOLUTE')
        return
    k.kw('RELATIVE')
    if ref['form'] == 'RELATIVE ABSOLUTE':
        k.kw('ABSOLUTE')
    else:
        write_comp_ref(k, ref)


def write_comp_ref(k, ref, next_too=False):
    if ref['form'] == 'name':
        k.put(ref['to'])
    else:
        k.kw(ref['form'])
        if ref.get('by') is not None:
            k.put('(', str(ref['by']), ')')


def write_inst(k, i):
    if i['removable']:
        k.kw('REMOVABLE')
    if i['cpu']:
        k.kw('CPU')
    if i['split'] is not None:
        k.kw('SPLIT')
        if i['split']:
            k.put(i['split'])
    k.kw('COMPONENT')
    if i['nameform'] == 'plain':
        k.put(i['name'])
    elif i['nameform'] == 'COPYID':
        k.kw('COPY'); k.put('(', i['name'], ')')
    else:
        k.kw(i['nameform'])
    k.put('=')
    if i['copy']:
        k.kw('COPY'); k.put('(')
        write_comp_ref(k, i['copy'])
        k.put(')')
    else:
        k.put(i['type'])
    if i['params'] is not None:
        k.put('(')
        for n, (a, b) in enumerate(i['params'] + ([i['again']] if i.get('again') else [])):
            if n:
                k.put(',')
            k.put(a, '=', b)
        k.put(')')
    if i['when'] is not None:
        k.kw('WHEN'); k.put(i['when'])
    for kw, v, ref in (('AT', i['at'], i['at_ref']), ('ROTATED', i['rot'], i['rot_ref'])):
        if v is not None:
            k.kw(kw); k.put('(', v[0], ',', v[1], ',', v[2], ')')
            write_ref(k, ref)
    if i['group'] is not None:
        k.kw('GROUP'); k.put(i['group'])
    if i['extend'] is not None:
        k.kw('EXTEND'); write_block(k, i['extend'])
    for j in i['jumps']:
        k.kw('JUMP')
        if j['form'] == 'MYSELF':
            k.kw('MYSELF')
        else:
            write_comp_ref(k, j)
        k.kw('ITERATE' if j['iterate'] else 'WHEN'); k.put(j['cond'])
    write_meta(k, i['metadata'])


def instr_text(m, r, plain=False):
    k = Ink(r, plain)
    k.kw('DEFINE'); k.kw('INSTRUMENT'); k.put(m['name'], '(')
    for n, p in enumerate(m['params']):
        if n:
            k.put(',')
        if p['kind'] == 'char*':
            k.put('char', '*')
        elif p['kind'] != 'bare':
            k.put(p['kind'])
        k.put(p['name'])
        if p['unit'] is not None:
            k.put('/', p['unit'])
        if p['default'] is not None:
            k.put('=', p['default'])
    k.put(')')
    write_meta(k, m['metadata'])
    if m['dependency'] is not None:
        k.kw('DEPENDENCY'); k.put('"' + m['dependency'] + '"')
    for s in ('declare', 'user', 'initialize'):
        if s in m['sections']:
            k.kw(SECTION_KW[s]); write_block(k, m['sections'][s])
    k.kw('TRACE')
    for n, i in enumerate(m['instances']):
        if m['include'] and m['include']['at'] == n:
            k.put('%include', '"' + m['include']['path'] + '"')
        write_inst(k, i)
    for s in ('save', 'final'):
        if s in m['sections']:
            k.kw(SECTION_KW[s]); write_block(k, m['sections'][s])
    k.kw('END')
    return k.text()


def resolve_instr(m, comps):
    """Everything a reader of the instrument text must know, with copies, references and defaults worked out."""
    named = resolve_names(m['instances'])
    out = []
    for n, i in enumerate(named):
        x = dict(name=i['name'], type=i['type'], params=dict(i['params'] or []), at=i['at'], rot=i['rot'] or ['0', '0', '0'], split=i['split'],
                 when=i['when'], group=i['group'], extend=[i['extend']] if i['extend'] and i['extend'].strip() else [], removable=i['removable'],
                 cpu=i['cpu'] or comps[i['type']]['noacc'], metadata=merge_meta([], i['metadata']),
                 jumps=[dict(j) for j in i['jumps']])
        t = target(named[:n], i['at_ref'])
        x['at_ref'] = None if t is None else named[t]['name']
        t = target(named[:n], i['rot_ref'] if i['rot'] is not None else i['at_ref'])
        x['rot_ref'] = None if t is None else named[t]['name']
        if x['split'] == '':
            x['split'] = '10'
        if i['copy']:
            b = out[target(named[:n], i['copy'])]
            x['params'] = {**{k: v for k, v in b['params'].items() if k not in x['params']}, **x['params']}
            x['when'] = x['when'] if x['when'] is not None else b['when']
            x['group'] = x['group'] if x['group'] is not None else b['group']
            x['extend'] = x['extend'] or b['extend']
            x['jumps'] = x['jumps'] or [dict(j) for j in b['jumps']]
            x['metadata'] = merge_meta(b['metadata'], x['metadata'])
        out.append(x)
    return dict(m, instances=out)


def gen_merge(outer, inner, comps, at):
    """The instrument that `outer` is once `inner` (already resolved) is included before its instance `at`."""
    kept = [i for i in inner['instances'] if not i['removable']]
    named = resolve_names(outer['instances'])
    done, out, order = [], [], []
    for n, i in enumerate(named):
        if n == at:
            for x in kept:
                done.append(dict(name=x['name'], type=x['type']))
                out.append(x)
            order += inner['instances']
        order.append(i)
        x = dict(name=i['name'], type=i['type'], params=dict(i['params'] or []), at=i['at'], rot=i['rot'] or ['0', '0', '0'], split=i['split'],
                 when=i['when'], group=i['group'], extend=[i['extend']] if i['extend'] and i['extend'].strip() else [], removable=i['removable'],
                 cpu=i['cpu'] or comps[i['type']]['noacc'], metadata=merge_meta([], i['metadata']), jumps=[dict(j) for j in i['jumps']])
        t = target(done, i['at_ref'])
        x['at_ref'] = None if t is None else done[t]['name']
        t = target(done, i['rot_ref'] if i['rot'] is not None else i['at_ref'])
        x['rot_ref'] = None if t is None else done[t]['name']
        if x['split'] == '':
            x['split'] = '10'
        if i['copy']:
            b = out[target(done, i['copy'])]
            x['params'] = {**{k: v for k, v in b['params'].items() if k not in x['params']}, **x['params']}
            x['when'] = x['when'] if x['when'] is not None else b['when']
            x['group'] = x['group'] if x['group'] is not None else b['group']
            x['extend'] = x['extend'] or b['extend']
            x['jumps'] = x['jumps'] or [dict(j) for j in b['jumps']]
            x['metadata'] = merge_meta(b['metadata'], x['metadata'])
        done.append(dict(name=i['name'], type=i['type']))
        out.append(x)
    # declarations of the included file are added when it is met: after the outer ones written before TRACE, before those after it
    secs = {}
    for s in ('declare', 'user', 'initialize', 'save', 'final'):
        o, i = outer['sections'].get(s), inner['sections'].get(s)
        pair = [o, i] if s in ('declare', 'user', 'initialize') else [i, o]
        secs[s] = [t for t in pair if t is not None and t.strip()]
    have = {p['name'] for p in outer['params']}
    return dict(outer, instances=out, sections=secs, params=outer['params'] + [p for p in inner['params'] if p['name'] not in have],
                metadata=merge_meta(outer['metadata'], inner['metadata']), read_order=order)
