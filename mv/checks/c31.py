"""C31: shown as HTML, an instrument is the text that it is written as."""
from __future__ import annotations
import re
from html.parser import HTMLParser
from ..core import Result, rng, short_tb
from ..lib import imodel as M, iapi
from ..lib.snap import describe, differ
from .c04 import library, registry
from .c06 import body, norm

RULE = ('random instruments, read from text, assembled through the API or split, whose code, values, units, metadata and flags contain the characters and words of HTML, '
        'are shown as HTML (whole instrument, single instances and parameters); an HTML parser reads it, and the text it shows is compared with the text form and read '
        'back as an instrument; distinct = HTML texts, non-trivial = at least one character that HTML would take for markup')
ASSUMPTIONS = ['the html.parser of Python takes for markup what a browser takes for it', 'white space outside of code blocks is layout',
               'the leading comment (source file, registries) is compared for structure only']
MINIMUM = {'quick': dict(evaluations=700, distinct=600, hostile=400, instances=1500, read_back=500, pages=100, api=60, split=60),
           'thorough': dict(evaluations=12000, distinct=10000, instances=40000)}
TAGS = {'details', 'summary', 'b', 'span', 'code', 'var', 'ul', 'li', 'pre', 'a', 'em', 'br'}
HOSTILE = ['if (a<b && c>d) x&=y;', '/* </pre> */', 'printf("<b>bold</b> &amp; &lt;");', 'a<<=2; b>>=1;', '"</span>"', 'for(i=0;i<n;i++) p&=~q;', "char c='<';", '// <!-- not a comment',
           '#include <math.h>', '<script>alert(1)</script>', '&copy;&nbsp', 'x = y <z> w;', '<br>', '</ul>']


def chunks(tier, seed):
    n, per = (48, 18) if tier == 'quick' else (400, 50)
    return [dict(seed=seed, n=i, per=per) for i in range(n)]


class Shown(HTMLParser):
    """what a reader sees, and what is wrong with the markup"""
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.open, self.text, self.wrong, self.ids, self.header, self.after = [], [], [], [], [], None

    def handle_starttag(self, tag, attrs):
        self.after, before = None, self.after
        if tag not in TAGS:
            self.wrong.append(f'an element <{tag}>')
        for k, v in attrs:
            if (k == 'href') != (tag == 'a') or k not in ('class', 'id', 'data-id', 'style', 'href'):
                self.wrong.append(f'an attribute {k} of <{tag}>')
            if k == 'id':
                if v in self.ids:
                    self.wrong.append(f'the id {v} twice')
                self.ids.append(v)
        if tag == 'br':
            if before != 'pre':     # a block of code ends its line
                self.text.append('\n')
        else:
            self.open.append(tag)
            if tag in ('li', 'ul', 'details'):
                self.text.append('\n')

    def handle_endtag(self, tag):
        if not self.open or self.open[-1] != tag:
            self.wrong.append(f'</{tag}> closes {self.open[-1:]}')
        else:
            self.open.pop()
        self.after = tag
        if tag == 'details':
            self.header, self.text = self.text, []

    def handle_data(self, data):
        self.after = None
        self.text.append(data)

    def handle_comment(self, data):
        self.wrong.append(f'a comment {data!r}')

    handle_decl = handle_pi = unknown_decl = handle_comment


def shown(text):
    p = Shown()
    p.feed(text)
    p.close()
    if p.open:
        p.wrong.append(f'{p.open} not closed')
    return p


def squeezed(text):
    return re.sub(r'\s+', '', text)


def run(desc, res: Result):
    from mccode_antlr.loader.loader import parse_mccode_instr
    r = rng('c31', desc['seed'], desc['n'])
    raw, comps = library(r)
    reg = registry(raw, r)
    for n in range(desc['per']):
        model = M.gen_instr(r, comps)
        text = M.instr_text(model, r)
        try:
            instr = parse_mccode_instr(text, [reg])
        except Exception as ex:  # C04 decides this
            res.count('unparsed')
            continue
        how = 'parsed'
        if n % 4 == 1:
            how = 'api'
            try:
                instr = iapi.build(M.resolve_instr(model, comps), model['instances'], reg, r).instrument
            except Exception as ex:  # C25 decides this
                res.count('unbuilt')
                continue
        elif n % 4 == 2 and len(instr.components) > 1:
            how = 'split'
            try:
                instr = r.choice(instr.split(r.choice(instr.components).name))
            except Exception as ex:  # C17 decides this
                res.count('unsplit')
                continue
        try:
            spice(instr, r)
        except Exception as ex:
            res.violate('api', f'adding code to an instrument: {short_tb(ex)}', dict(text=text))
            continue
        res.count(how)
        check(instr, reg, res, how, dict(text=text, library=dict(reg.components)), r)


def spice(instr, r):
    """text of HTML where the user can write text"""
    from mccode_antlr.common import MetaData
    from mccode_antlr.common import Expr
    for section in (instr.DECLARE, instr.INITIALIZE, instr.SAVE, instr.FINALLY):
        if r.random() < .4:
            section(*r.sample(HOSTILE, r.randint(1, 2)))
    if r.random() < .3:
        instr.DEPENDENCY(r.choice(['-DA=a&b', '-I/usr/<x>', '-Da<b']))
    if r.random() < .4:
        instr.add_metadata(MetaData.from_instrument_tokens(instr.name, r.choice(['text/html', 'text']), r.choice(['page', 'm1']), r.choice(HOSTILE)))
    for c in r.sample(list(instr.components), min(3, len(instr.components))):
        x = r.random()
        if x < .4:
            c.EXTEND(*r.sample(HOSTILE, 1))
        elif x < .6:
            c.WHEN(r.choice(['1<2 && 3>2', 'p<b', '(1 << 2) > 3']))
        elif x < .7:
            c.add_metadata(MetaData.from_instance_tokens(c.name, 'text', 'note', r.choice(HOSTILE)))
        elif x < .8:
            c.SPLIT(Expr.parse('2 < 3 ? 4 : 5'))


def check(instr, reg, res, how, case, r):
    from mccode_antlr.common import HTMLWrapper
    from mccode_antlr.loader.loader import parse_mccode_instr
    res.count('instances', len(instr.components))
    text = str(instr)
    try:
        html = instr.to_string(HTMLWrapper(*r.choice([(), ('hider', 'hidden'), ('h1', 'h2')])))
    except Exception as ex:
        res.violate('failed', f'{how}: {short_tb(ex)}', case)
        return
    hostile = bool(re.search('[<>&]', body(text)))
    if hostile:
        res.count('hostile')
    res.case(re.sub(r'g-[-0-9a-f]{36}', '', html), hostile, sample=dict(how=how, html=html[:1500]))
    case = dict(case, html=html)
    page = shown(html)
    if page.wrong:
        res.violate('markup', f'{how}: the page has {page.wrong[:4]}\n{html}', case)
        return
    got = ''.join(page.text)
    a, b = squeezed(got), squeezed(body(text))
    if a != b:
        k = next((n for n, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        res.violate('text', f'{how}: shown {a[max(0, k - 60):k + 60]!r}, written {b[max(0, k - 60):k + 60]!r}', case)
        return
    if squeezed(''.join(page.header)) != squeezed(text[:text.index('*/')].replace('/*', '', 1)):
        h, t = squeezed(''.join(page.header)), squeezed(text[:text.index('*/')].replace('/*', '', 1))
        if h.replace('None', '') != t.replace('None', ''):
            res.violate('header', f'{how}: the header shown is {h!r}, written {t!r}', case)
            return
    if r.random() < .3:
        try:
            whole = instr._my_repr_html_()
            inner = whole[whole.index('<body>') + 6:whole.rindex('<script>')]
        except Exception as ex:
            res.violate('page', f'{how}: the page of a notebook: {short_tb(ex)}', case)
            return
        if squeezed(''.join(shown(inner).text)) != a or shown(inner).wrong:
            res.violate('page', f'{how}: the page of a notebook shows another text\n{whole}', case)
            return
        res.count('pages')
    for thing in [*instr.parameters, *r.sample(list(instr.components), min(2, len(instr.components)))]:
        one = shown(thing.to_string(HTMLWrapper()))
        if one.wrong or squeezed(''.join(one.text)) != squeezed(str(thing)):
            res.violate('part', f'{how}: {type(thing).__name__} {str(thing)!r} is shown as {"".join(one.text)!r} {one.wrong}', case)
            return
        res.count('parts')
    try:
        again = parse_mccode_instr(got, [reg])
        once = parse_mccode_instr(text, [reg])
    except Exception as ex:
        try:
            parse_mccode_instr(text, [reg])
        except Exception:       # C06 decides this
            res.count('unreadable')
            return
        res.violate('unreadable', f'{how}: the text shown can not be read: {short_tb(ex)}\n{got}', case)
        return
    d = differ(norm(describe(once)), norm(describe(again)))
    if d:
        res.violate('changed', f'{how}: written / shown {d}\n{got}', case)
        return
    res.count('read_back')


PROBES = {}
