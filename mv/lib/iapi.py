"""Build an instrument from its (resolved) model through the API, call by call."""
from __future__ import annotations


class Said:
    """an object whose calls are written down"""

    def __init__(self, name, of, calls):
        self._name, self._of, self._calls = name, of, calls

    def __getattr__(self, what):
        f = getattr(self._of, what)

        def call(*args, **kwargs):
            self._calls.append(f'{self._name}.{what}(' + ', '.join([show(a) for a in args] + [f'{k}={show(v)}' for k, v in kwargs.items()]) + ')')
            return f(*args, **kwargs)
        return call


def show(v):
    if isinstance(v, (list, tuple)):
        return ('[%s]' if isinstance(v, list) else '(%s)') % ', '.join(map(show, v))
    if isinstance(v, dict):
        return '{' + ', '.join(f'{k!r}: {show(x)}' for k, x in v.items()) + '}'
    if isinstance(v, (int, float, str)) or v is None:
        return repr(v)
    return f'{type(v).__name__}<{getattr(v, "name", None) or v}>'


def build(m, raw_instances, reg, r=None, name=None, calls=None, pieces=False):
    """m: resolved model.  Uses every documented way of stating a thing, chosen at random with r.
    pieces: sections may be stated line by line, arrays through declare_array"""
    import random
    from mccode_antlr.assembler import Assembler
    from mccode_antlr.common import Expr, MetaData, InstrumentParameter
    from mccode_antlr.instr.jump import Jump
    r = r or random.Random(0)
    calls = [] if calls is None else calls
    real = Assembler(name or m['name'], registries=reg if isinstance(reg, list) else [reg])
    a = Said('a', real, calls)
    instr = Said('a.instrument', real.instrument, calls)
    for p in m['params']:
        parameter(p, a, r)
    for md in m['metadata']:
        if r.random() < .5:
            a.metadata(unq(md['name']), unq(md['mime']), md['value'], *([m['name']] if r.random() < .5 else []))
        else:
            instr.add_metadata(MetaData.from_instrument_tokens(m['name'], unq(md['mime']), unq(md['name']), md['value']))
    if m['dependency'] is not None:
        instr.DEPENDENCY(m['dependency'])
    for s, f in (('declare', a.declare), ('user', a.user_vars), ('initialize', a.initialize), ('save', a.save), ('final', a.final)):
        t = m['sections'].get(s)
        if t is None:
            continue
        if pieces and s in ('declare', 'user') and r.random() < .5 and t.strip():
            for line in t.split('\n'):
                if not line.strip():
                    continue
                dims = line.split('[]', 1)
                if s == 'declare' and len(dims) == 2 and r.random() < .8:
                    typ, nm = dims[0].split()
                    a.declare_array(typ, nm, [eval(x) for x in dims[1][dims[1].index('{') + 1:dims[1].index('}')].split(',')])
                elif s == 'user' and line.strip() and r.random() < .6:
                    a.ensure_user_var(line)
                    if r.random() < .5:
                        a.ensure_user_var(line)
                else:
                    f(line)
        else:
            f(t, **(dict(source='<string>', line=1) if r.random() < .7 else {}))
            if pieces and s == 'user' and r.random() < .5:
                # what is already there is not declared again
                again = [line for line in t.split('\n') if line.strip()]
                for line in r.sample(again, r.randint(0, len(again))):
                    a.ensure_user_var(line)
    names = [p['name'] for p in m['params']]

    def ex(t):
        e = Expr.parse(t)
        if r.random() < .5:
            e.verify_parameters(names)
        return e
    for x in m['instances']:
        at = tuple(one(v, r) for v in x['at'])
        rot = tuple(one(v, r) for v in x['rot'])
        if r.random() < .3:
            at, rot = list(at), list(rot)
        ref = (lambda n, no: r.choice(['ABSOLUTE', 'absolute', *no]) if n is None else r.choice([n, real.instrument.get_component(n)]))
        kw, late = {}, []
        for k in ('split', 'when'):
            if x[k] is not None:
                if r.random() < .5:
                    kw[k] = ex(x[k])
                else:
                    late.append((k.upper(), r.choice([x[k], ex(x[k])])))
        if x['group'] is not None:
            if r.random() < .5:
                kw['group'] = x['group']
            else:
                late.append(('GROUP', x['group']))
        for k in ('removable', 'cpu'):
            if x[k] and r.random() < .5:
                kw[k] = True
            elif x[k]:
                late.append((k.upper(),))
        at_arg = r.choice([tuple, list])((at, ref(x['at_ref'], [None])))
        rot_arg = r.choice([tuple, list])((rot, ref(x['rot_ref'], [None] if x['at_ref'] is None else [])))
        if x['at_ref'] is None and r.random() < .3:
            at_arg = at
            if x['at'] == ['0', '0', '0'] and r.random() < .5:
                at_arg = None
        if x['rot_ref'] is None and x['at_ref'] is None and r.random() < .3:
            rot_arg = rot
        if x['rot_ref'] == x['at_ref'] and x['rot'] == ['0', '0', '0'] and r.random() < .4:
            rot_arg = None
        pars = {k: one(v, r, string_ok=True) for k, v in x['params'].items()}
        how = r.choice(['now', 'set', 'each']) if pars else 'now'
        if at_arg is not None or r.random() < .5:
            kw['at'] = at_arg
        if rot_arg is not None or r.random() < .5:
            kw['rotate'] = rot_arg
        if how == 'now':
            kw['parameters'] = pars
        inst = a.component(x['name'], x['type'], **kw)
        i = Said(x['name'], inst, calls)
        if how == 'set':
            i.set_parameters(**pars)
        elif how == 'each':
            for k, v in pars.items():
                i.set_parameter(k, v)
        r.shuffle(late)
        for what, *args in late:
            getattr(i, what)(*args)
        if x['extend']:
            said = x['extend']
            if pieces and r.random() < .5:
                said = [b for text in said for b in parts(text, r)]
            i.EXTEND(*said)
        js = []
        for j in x['jumps']:
            by = dict(name=0, MYSELF=0, PREVIOUS=-(j.get('by') or 1), NEXT=j.get('by') or 1)[j['form']]
            target = j['to'] if j['form'] == 'name' else (j['form'] if j.get('by') in (None, 1) else f'{j["form"]}_{j["by"]}')
            js.append(Jump(target, by, j['iterate'], ex(j['cond'])))
        if js:
            i.JUMP(*js)
        for md in x['metadata']:
            i.add_metadata(MetaData.from_instance_tokens(x['name'], unq(md['mime']), unq(md['name']), md['value']))
    return real


def parts(text, r):
    """the same text in a few pieces, each of some lines"""
    out = ['']
    for n, line in enumerate(text.split('\n')):
        if n and out[-1].strip() and r.random() < .4:
            out.append(line)
        else:
            out[-1] += ('\n' if n else '') + line
    if len(out) > 1 and not out[-1].strip():
        last = out.pop()
        out[-1] += '\n' + last
    return out


def parameter(p, a, r):
    from mccode_antlr.common import Expr, InstrumentParameter
    text = {'char*': 'string ', 'bare': ''}.get(p['kind'], p['kind'] + ' ') + p['name']
    if p['unit'] is not None:
        text += ' / ' + p['unit']
    if p['default'] is not None:
        text += ' = ' + p['default']
    how = r.random()
    if how < .3 and p['default'] is not None and p['kind'] in ('int', 'double', 'bare'):
        # as a pair; the type is that of the value
        v = plain(p['default'])
        if v is not None and isinstance(v, int) == (p['kind'] == 'int') and not (isinstance(v, float) and v.is_integer()):
            unit = unq(p['unit']) if p['unit'] is not None else ''
            if p['unit'] is None or p['unit'][:1] == '"':
                v = r.choice([v, Expr.best(v)])
                forms = [(v, unit), [v, unit], dict(value=v, unit=unit)] + ([v] * 3 if p['unit'] is None else [])
                return a.parameters(**{p['name']: r.choice(forms)})
    if how < .45:
        return a.parameters(InstrumentParameter.parse(text))
    if how < .6:
        a.parameter(InstrumentParameter.parse(text))
        return a.parameter(text, ignore_repeated=True)
    r.choice([a.parameter, a.parameters])(text)


def plain(text):
    for t in (int, float):
        try:
            return t(text)
        except ValueError:
            pass
    return None


def unq(s):
    return s[1:-1] if len(s) > 1 and s[0] == '"' and s[-1] == '"' else s


def one(text, r, string_ok=True):
    """a value as an API user would give it: number, string or expression"""
    from mccode_antlr.common import Expr
    v = plain(text)
    if v is not None:
        return r.choice([v, Expr.parse(text)])
    if text[:1] == '{':
        v = [plain(x) for x in text[1:-1].split(',')]
        return v if None not in v and r.random() < .5 else text
    if r.random() < .5:
        return text
    return Expr.parse(text)
