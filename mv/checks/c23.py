"""C23: metadata reaches the user byte for byte."""
from ..core import Result, rng
from ..lib import progcheck as P, imodel as M

RULE = ('random instruments with metadata on component definitions (and their COPYs), instances and the instrument, with hostile texts, names and types (quotes, backslashes, trigraph-like, non-ASCII and control characters, '
        'formatting directives, CRLF), also stated again on an instance; what Instr.collect_metadata returns, and the metadata table the generated program dumps as bytes, are compared with what was written; '
        'distinct = programs, non-trivial = at least one metadata entry')
ASSUMPTIONS = ['a name with a space may be held inside quotes (the run time needs them)', 'metadata of a component definition appears once for each of its instances',
               'the source of metadata of a definition may be any of the definitions it was copied through', 'NUL can not be in a C string, and %} ends a block']
MINIMUM = {'quick': dict(evaluations=240, distinct=200, entries=600, replaced=20), 'thorough': dict(evaluations=6000, distinct=5000, entries=15000)}
EMPHASIS = dict(metadata=1., rotated=.1, split=.02, jump=.02, group=.05, vector=.1, string=.1, sections=.2, include=.02, uservars=.1, declare=.2, extend=.1, when=.1, n_inst=(2, 6), comp_copy=.4, copy=.4)
chunks = P.chunks_of((44, 7), (320, 30))


def hostile(r):
    out = ''.join(r.choice(['a', '"', '\\', '\\n', '%', '%%s', '?', '??/', '\t', '\n', '\r', 'é', '€', '\U0001d11e', '\x01', '\x1f', '\x7f', '0', '7', 'f', '{', '}', '#', "'", '/*', '*/', '//', ' ', '\ufeff', '\u2028', '$', '@', '%{'])
                  for _ in range(r.choice([0, 1, 3, 12, 60])))
    return r.choice(['', '', '', '%{']) + out.replace('%}', '% }')


def expected(p):
    """rows (allowed sources, name, mime, value), in order"""
    byname = {m['name']: m for m in p.raw}

    def sources(t):
        out = {t}
        while byname.get(t) and byname[t]['copy']:
            t = byname[t]['copy']
            out.add(t)
        return out
    rows = []
    for x in p.want['instances']:
        own = {M.unquote(m['name']): m for m in x['metadata']}
        for m in p.comps[x['type']]['metadata']:
            if M.unquote(m['name']) not in own:
                rows.append((sources(x['type']), m))
        rows += [({x['name']}, m) for m in x['metadata']]
    rows += [({p.want.get('name', p.model['name'])}, m) for m in p.want['metadata']]
    return [(s, M.unquote(m['name']), M.unquote(m['mime']), m['value']) for s, m in rows]


def match(what, want, got):
    if len(want) != len(got):
        yield 'metadata', f'{what}: {len(want)} entries expected, {len(got)} found: {[w[1] for w in want]} / {[g[1] for g in got]}'
        return
    left = list(got)
    for s, name, mime, value in want:
        for g in left:
            if g[0] in s and M.unquote(g[1]) == name and g[2] == mime and g[3] == value:
                left.remove(g)
                break
        else:
            near = [g for g in left if M.unquote(g[1]) == name] or left[:1]
            yield 'metadata', f'{what}: {name!r} of {sorted(s)} as {mime!r} with {value!r} not found; closest {near[:1]}'
            return


def compare(p, instr, c, seen, res):
    want = expected(p)
    res.count('entries', len(want))
    for x in p.want['instances']:
        names = {M.unquote(m['name']) for m in p.comps[x['type']]['metadata']}
        res.count('replaced', sum(M.unquote(m['name']) in names for m in x['metadata']))
    yield from match('Instr.collect_metadata', want, [(m.source.name, m.name, m.mimetype, m.value) for m in instr.collect_metadata()])
    yield from match('the program', want, [(m['source'], m['name'], m['type'], m['value']) for m in seen.meta])
    if seen.nmeta != len(seen.meta):
        yield 'metadata', f'num_metadata is {seen.nmeta}, {len(seen.meta)} entries'


def run(desc, res: Result):
    original = M.gen_meta

    def gen_meta(r, n):
        m = original(r, n)
        x = r.random()
        if x < .5:
            m['value'] = hostile(r)
        if x < .3:
            m['name'] = '"' + r.choice(['quo\\"te', 'back\\\\slash', 'é∆', 'a%sb', 'two  spaces', "it's", '?\\?=']) + f' {n}' * r.randint(0, 1) + f'_{n}"'
        elif x < .4:
            m['name'] = r.choice([f'"\\"lead_{n}"', f'"trail_{n}\\""', f'"\\"both_{n}\\""', f'"\\"two words_{n}\\""', f"\"'single_{n}'\""])
        if r.random() < .2:
            m['mime'] = r.choice(['"te\\"xt/plain"', '"text/plain; charset=\\\\x"', '"application/é"', '"%d"'])
        return m
    M.gen_meta = gen_meta
    try:
        for n in range(desc['per']):
            P.one('C23', rng('c23', desc['seed'], desc['n'], n), res, {'metadata'}, EMPHASIS, modes=dict(plain=1), extra=compare, how=['parsed', 'parsed', 'parsed', 'copy', 'reread'],
                  nontrivial=lambda p, fs, seen: bool(seen.meta))
    finally:
        M.gen_meta = original
