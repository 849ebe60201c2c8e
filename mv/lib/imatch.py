"""Compare parsed components and instruments with their models.  Every function yields (mechanism, message)."""
from __future__ import annotations
from functools import lru_cache
from .imodel import SECTIONS, unquote, merge_meta


@lru_cache(maxsize=200000)
def canon(text: str) -> str:
    """How the library prints an expression: what C01 establishes to keep the value."""
    from mccode_antlr.common import Expr
    text = text.strip()
    if text.startswith('{') and text.endswith('}'):
        return '{' + ','.join(canon(x) for x in split_list(text[1:-1])) + '}'
    if text == 'NULL':
        return 'NULL'
    return str(Expr.parse(text))


def split_list(s):
    out, depth, cur, quoted, last = [], 0, '', False, ''
    for ch in s:
        if ch == '"' and last != '\\':
            quoted = not quoted
        if not quoted:
            if ch in '([{':
                depth += 1
            elif ch in ')]}':
                depth -= 1
            elif ch == ',' and depth == 0:
                out.append(cur.strip())
                cur = ''
                last = ch
                continue
        cur += ch
        last = ch
    out.append(cur.strip())
    return out


def printed(value) -> str:
    from mccode_antlr.common import Expr
    if value is None:
        return 'None'
    s = str(value)
    if s.startswith('{') or s.startswith('['):
        v = value.expr[0].value if isinstance(value, Expr) else value
        if isinstance(v, (list, tuple)):
            return '{' + ','.join(str(x) for x in v) + '}'
        return '{' + ','.join(split_list(s[1:-1])) + '}'
    return s


def number_of(text):
    """value of a constant expression text, or None"""
    try:
        return float(eval(text, {'__builtins__': {}}))
    except Exception:
        return None


def same_value(value, text, typ=None):
    """does a parsed expression mean `text`?"""
    want, got = canon(text), printed(value)
    if want == got:
        return True
    a, b = number_of(want), number_of(got)
    if a is not None and b is not None:
        return abs(a - b) <= 1e-14 * max(abs(a), abs(b))
    if want.startswith('{') and got.startswith('{'):
        x, y = split_list(want[1:-1]), split_list(got[1:-1])
        return len(x) == len(y) and all(p == q or canon(p) == canon(q) or (number_of(p) is not None and number_of(p) == number_of(q)) for p, q in zip(x, y))
    return False


def has_value(value):
    return value is not None and (value.is_op or value.expr[0].value is not None)


def match_default(where, value, par):
    """the default of a declared parameter"""
    from mccode_antlr.common import DataType
    kind, text = par['kind'], par['default']
    types = dict(bare=DataType.float, double=DataType.float, int=DataType.int, vector=DataType.float)
    types.update({'string': DataType.str, 'char*': DataType.str, 'double*': DataType.float, 'int*': DataType.int})
    if value.data_type != types[kind]:
        yield 'parameter-type', f'{where} {par["name"]}: written {kind}, read {value.data_type}'
    vec = kind in ('vector', 'double*', 'int*')
    if bool(value.is_vector) != vec:
        yield 'parameter-shape', f'{where} {par["name"]}: written {kind}, read vector={value.is_vector}'
    if text is None:
        if has_value(value):
            yield 'parameter-default', f'{where} {par["name"]}: no default written, read {value}'
        return
    if kind in ('string', 'char*') and text == '0':
        text = 'NULL'
    if vec and text == '0':
        text = 'NULL'
    if not has_value(value):
        yield 'parameter-default', f'{where} {par["name"]}: default {text} written, none read'
    elif kind in ('string', 'char*') and text != 'NULL':
        if printed(value) != text:
            yield 'parameter-default', f'{where} {par["name"]}: default {text} written, {value} read'
    elif not same_value(value, text):
        yield 'parameter-default', f'{where} {par["name"]}: default {text} written, {printed(value)} read'


def match_blocks(where, got, want):
    g = [x.source for x in got]
    if g != list(want):
        yield 'section', f'{where}: written {list(want)!r}, read {g!r}'


def match_lines(where, blocks, texts):
    """the line kept with a block is the one it starts on, in one of the texts"""
    for b in blocks:
        written, lines = '%{' + b.source + '%}', set()
        for text in texts:
            i = text.find(written)
            while i >= 0:
                lines.add(text.count('\n', 0, i) + 1)
                i = text.find(written, i + 1)
        if lines and b.line not in lines:
            yield 'section-line', f'{where}: a block which starts on line {sorted(lines)} is said to be on line {b.line}: {b.source[:200]!r}'


def match_meta(where, got, want, kind, source, exact_source=True):
    g = [(unquote(x.name), x.mimetype, x.value) for x in got]
    w = [(unquote(x['name']), unquote(x['mime']), x['value']) for x in want]
    if g != w:
        yield 'metadata', f'{where}: written {w!r}, read {g!r}'
    elif exact_source:
        for x in got:
            if x.source.type_name != kind or x.source.name != source:
                yield 'metadata-source', f'{where}: metadata {x.name} has source {x.source.type_name} {x.source.name}, not {kind} {source}'


def match_comp(c, m, raw=None):
    """c: parsed Comp, m: resolved model"""
    w = f'component {m["name"]}'
    if c.name != m['name']:
        yield 'comp-name', f'{w}: read as {c.name}'
    for which in ('define', 'setting', 'output'):
        got, want = getattr(c, which), m[which]
        if [p.name for p in got] != [p['name'] for p in want]:
            yield 'comp-parameters', f'{w}: {which} parameters {[p["name"] for p in want]} read as {[p.name for p in got]}'
            continue
        for p, q in zip(got, want):
            yield from match_default(f'{w} {which}', p.value, q)
    if m['category'] is not None and c.category != m['category']:
        yield 'comp-category', f'{w}: category {m["category"]} read as {c.category}'
    if c.acc == m['noacc']:
        yield 'comp-noacc', f'{w}: NOACC {m["noacc"]} read as acc={c.acc}'
    for s in SECTIONS:
        yield from match_blocks(f'{w} {s}', getattr(c, s), m['sections'][s])
    yield from match_meta(w, c.metadata, m['metadata'], 'Component', m['name'], exact_source=False)


def norm_unit(u):
    return u


def match_instr(instr, m, comps, exact_text=True, check_flags=True, joined=False):
    """instr: parsed Instr, m: resolved instrument model (resolve_instr), comps: resolved component models"""
    w = f'instrument {m["name"]}'
    if instr.name != m['name']:
        yield 'instr-name', f'{w}: read as {instr.name}'
    if [p.name for p in instr.parameters] != [p['name'] for p in m['params']]:
        yield 'instr-parameters', f'{w}: parameters {[p["name"] for p in m["params"]]} read as {[p.name for p in instr.parameters]}'
    else:
        for p, q in zip(instr.parameters, m['params']):
            if unquote(p.unit or '') != unquote(q['unit'] or ''):
                yield 'parameter-unit', f'{w} {q["name"]}: unit {q["unit"]} read as {p.unit}'
            yield from match_default(w, p.value, q)
    for s in ('declare', 'user', 'initialize', 'save', 'final'):
        want = m['sections'].get(s, [])
        want = [want] if isinstance(want, str) else want
        if joined:
            if [t for x in getattr(instr, s) for t in x.source.split('\n') if t.strip()] != [t for x in want for t in x.split('\n') if t.strip()]:
                yield 'section', f'{w} {s}: stated {want!r}, held {[x.source for x in getattr(instr, s)]!r}'
        else:
            yield from match_blocks(f'{w} {s}', getattr(instr, s), [t for t in want if t.strip()])
    yield from match_meta(w, instr.metadata, merge_meta([], m['metadata']), 'Instrument', m['name'])
    got = [i.name for i in instr.components]
    if got != [i['name'] for i in m['instances']]:
        yield 'instances', f'{w}: instances {[i["name"] for i in m["instances"]]} read as {got}'
        return
    groups = {}
    for n, (g, x) in enumerate(zip(instr.components, m['instances'])):
        yield from match_inst(g, x, comps, instr, joined)
        if x['group']:
            groups.setdefault(x['group'], []).append(n)
    g = {k: list(v.ids) for k, v in instr.groups.items()}
    if g != groups or list(g) != list(groups):
        yield 'groups', f'{w}: groups {groups} read as {g}'
    else:
        for k, v in instr.groups.items():
            if v.members and [y.name for y in v.members] != [m['instances'][n]['name'] for n in groups[k]]:
                yield 'groups', f'{w}: group {k} has members {[y.name for y in v.members]}'
            if v.index != list(groups).index(k):
                yield 'groups', f'{w}: group {k} has index {v.index}'
    if check_flags:
        flags = ([m['dependency']] if m['dependency'] is not None else [])
        want = flags + [d for d in m.get('comp_flags', [])]
        if sorted(instr.flags) != sorted(set(want)):
            yield 'flags', f'{w}: dependencies {sorted(want)} read as {sorted(instr.flags)}'


def match_inst(g, x, comps, instr, joined=False):
    w = f'instance {x["name"]}'
    if g.type.name != x['type']:
        yield 'inst-type', f'{w}: type {x["type"]} read as {g.type.name}'
    got = {}
    for p in g.parameters:
        if p.name in got:
            yield 'inst-parameters', f'{w}: parameter {p.name} appears twice'
        got[p.name] = p.value
    if set(got) != set(x['params']):
        yield 'inst-parameters', f'{w}: parameters {sorted(x["params"])} read as {sorted(got)}'
    for k, text in x['params'].items():
        if k in got and not same_value(got[k], text):
            yield 'inst-value', f'{w}: {k}={text!r} read as {printed(got[k])!r}'
    for kw, (vec, ref), want, wref in (('AT', g.at_relative, x['at'], x['at_ref']), ('ROTATED', g.rotate_relative, x['rot'], x['rot_ref'])):
        vals = [vec.x, vec.y, vec.z] if hasattr(vec, 'x') else list(vec)
        for a, b in zip(vals, want):
            if not same_value(a, b):
                yield f'inst-{kw}', f'{w}: {kw} {want} read as {[printed(v) for v in vals]}'
                break
        if (ref.name if ref is not None else None) != wref:
            yield f'inst-{kw}-reference', f'{w}: {kw} relative to {wref}, read as {ref.name if ref is not None else None}'
        if ref is not None and ref.name in [c.name for c in instr.components] and not any(c is ref for c in instr.components) \
                and repr(instr.get_component(ref.name)) != repr(ref):
            yield f'inst-{kw}-reference', f'{w}: {kw} reference {ref.name} is not an instance of this instrument'
    for kw in ('split', 'when'):
        a, b = getattr(g, kw), x[kw]
        if (a is None) != (b is None) or (a is not None and not same_value(a, b)):
            yield f'inst-{kw}', f'{w}: {kw} {b!r} read as {None if a is None else str(a)!r}'
    if (g.group or None) != x['group']:
        yield 'inst-group', f'{w}: group {x["group"]} read as {g.group}'
    if bool(g.removable) != x['removable']:
        yield 'inst-removable', f'{w}: removable {x["removable"]} read as {g.removable}'
    if bool(g.cpu) != bool(x['cpu']):
        yield 'inst-cpu', f'{w}: cpu {x["cpu"]} read as {g.cpu}'
    if not joined or '\n'.join(b.source for b in g.extend) != '\n'.join(x['extend'] or []):
        yield from match_blocks(f'{w} extend', g.extend, x['extend'])
    if len(g.jump) != len(x['jumps']):
        yield 'inst-jump', f'{w}: {len(x["jumps"])} jumps written, {len(g.jump)} read'
    for a, b in zip(g.jump, x['jumps']):
        rel = dict(name=0, MYSELF=0, PREVIOUS=-(b.get('by') or 1), NEXT=b.get('by') or 1)[b['form']]
        name_ok = a.target == b['to'] if b['form'] == 'name' else a.target.upper().startswith(b['form'])
        if a.relative_target != rel or not name_ok or a.iterate != b['iterate'] or not same_value(a.condition, b['cond']):
            yield 'inst-jump', f'{w}: jump {b} read as {a}'
    yield from match_meta(w, g.metadata, x['metadata'], 'Instance', x['name'], exact_source=False)
