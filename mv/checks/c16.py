"""C16: included C code appears once, in dependency order."""
import re
from ..core import Result, rng
from ..lib import progcheck as P

RULE = ('random include graphs over up to four libraries (headers whose types are built from the types of the libraries they include, further textual includes, names with dashes) asked for from SHARE and any other section of '
        'several components (some of the libraries are in the standard C library only, others there too with another content), COPYs of them and the instrument DECLARE, in any order; the program is compiled (a repeated or misplaced definition is an error), its components call every library and SHARE function and log the '
        'results, and the definitions present in the text are counted: one for every library reached, none for others; distinct = programs, non-trivial = at least two libraries reached')
ASSUMPTIONS = ['a component and its COPY each emit the SHARE text they have in common (as upstream), so it protects itself with #ifndef']
MINIMUM = {'quick': dict(evaluations=240, with_libc=60, distinct=140, libraries=350, library_calls=600), 'thorough': dict(evaluations=6000, distinct=3500, libraries=9000)}
EMPHASIS = dict(include=1., n_comp=(2, 5), n_inst=(2, 6), metadata=0, rotated=.1, split=.02, jump=.02, group=.05, vector=.1, string=.1, sections=.7)
chunks = P.chunks_of((44, 7), (320, 30))
ASKED = re.compile(r'^\s*%include\s*"([^"\n]+)"\s*$', re.M)


def reached(p):
    texts = [p.model['sections'].get('declare', ''), *p.model['sections'].values()]
    for x in p.want['instances']:
        for blocks in p.comps[x['type']]['sections'].values():
            texts += list(blocks)
        texts += list(x['extend'])
    todo = [n for t in texts for n in ASKED.findall(t if isinstance(t, str) else t['text'])]
    out = set()
    while todo:
        n = todo.pop()
        if n in p.libs and n not in out:
            out.add(n)
            todo += p.libs[n]['needs'] + p.libs[n]['late']
    return out


def definitions(p, instr, c, seen, res):
    need = reached(p)
    res.count('libraries', len(need))
    res.count('library_calls', sum(e[0][0] == 'call' for e in seen.sections))
    at = {}
    for n, lib in p.libs.items():
        h, d = f'struct {lib["fn"]}_t {{', f'double {lib["fn"]}(double v) {{'
        for what, k in (('header', c.count(h)), ('source', c.count(d))):
            if k != (n in need):
                yield 'included', f'the {what} of library {n} is in the program {k} times; {"reached" if n in need else "not reached"} by its includes'
        at[n] = c.find(h)
    for n in need:
        for m in p.libs[n]['needs']:
            if at[m] > at[n]:
                yield 'included', f'library {n} includes {m}, which comes after it'
    for left in ASKED.finditer(c):
        yield 'included', 'an %include directive is left in the program: ' + left.group(0)[:80]


def run(desc, res: Result):
    for n in range(desc['per']):
        P.one('C16', rng('c16', desc['seed'], desc['n'], n), res, {'included'}, EMPHASIS, modes=dict(plain=1), libc=True, extra=definitions, how=['parsed', 'parsed', 'again', 'copy'],
              nontrivial=lambda p, fs, seen: len(reached(p)) > 1)
