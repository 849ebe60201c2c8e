"""C14: C declarations in DECLARE and USERVARS are understood as C does."""
import re, subprocess, tempfile
from pathlib import Path
from ..core import Result, rng, short_tb
from ..lib import cdecl as D, progrun as R

RULE = ('random blocks of C declarations (base types, qualifiers, structures, enumerations, type names; pointers, arrays with every kind of size, pointers to arrays and functions, several declarators; numbers, strings and nested lists as '
        'initial values; prototypes, functions, type definitions and comments between them) are read by the library; names and their order are compared with what was written, and every extracted declaration is compiled beside the '
        'original block, where size, type compatibility and the bytes of its value are compared; then blocks as DECLARE and USERVARS of components and instruments of generated programs, which compare each member with the original '
        'declaration at run time; then histories of Assembler.ensure_user_var; distinct = blocks, non-trivial = at least one variable that is no plain number')
ASSUMPTIONS = ['prototypes are reported as declarations whose name contains their parameter list (a test of the repository expects this); such entries are not variables',
               'members of the structure of a component cannot be static, extern, functions or type definitions, and initial values do not use other variables of the same block']
MINIMUM = {'quick': dict(evaluations=2200, distinct=1500, variables=5000, bytes_compared=1800, types_compared=3800, members=900, uservar_fields=200, ensured=800),
           'thorough': dict(evaluations=40000, distinct=25000, variables=90000)}
CHECK = r'''
#include <stdio.h>
#define TYPES(a, b) __builtin_types_compatible_p(__typeof__(a), __typeof__(b))
static int same_text(const char *a, const char *b) { return a == b || (a && b && !strcmp(a, b)); }
'''


def chunks(tier, seed):
    n = (30, 16) if tier == 'quick' else (200, 80)
    out = [dict(kind='blocks', seed=seed, n=i, per=80 if tier == 'quick' else 160) for i in range(n[0])]
    out += [dict(kind='program', seed=seed, n=i, per=4 if tier == 'quick' else 10) for i in range(n[1] * 2)]
    out += [dict(kind='ensure', seed=seed, n=i, per=140 if tier == 'quick' else 600) for i in range(8)]
    return out


def read(text):
    from mccode_antlr.translators.c_listener import extract_c_declared_variables_and_defined_types
    return extract_c_declared_variables_and_defined_types(text)


def difference(v, a, b, array_of=None):
    """C expression: do the objects a and b hold the same value?"""
    if v.kind == 'str':
        return f'same_text({a}, {b})'
    if v.kind == 'strs':
        return f'({{ int s = sizeof({a}) == sizeof({b}); for (size_t k = 0; s && k < sizeof({a})/sizeof(char *); k++) s = same_text(({a})[k], ({b})[k]); s; }})'
    return f'(sizeof({a}) == sizeof({b}) && !memcmp((void *) &{a}, (void *) &{b}, sizeof({a})))'


def names_of(b, got):
    """(names of variables, names of functions)"""
    variables = [d for d in got if '(' not in d.name]
    return variables, [d.name.split('(')[0].strip() for d in got if '(' in d.name]


def block_source(i, b, variables):
    lines = [f'static void block_{i}(void) {{', b.text, '']
    for k, (v, d) in enumerate(zip(b.vars, variables)):
        member = d.as_struct_member()
        init = f' = {d.init}' if d.init is not None else ''
        value = difference(v, v.name, '(*q_was)') if v.init is not None else '-1'
        same_type = '-1' if v.inline else f'TYPES({v.name}, *q_was)'
        lines.append(f'  {{ __typeof__({v.name}) *q_was = (void *) &{v.name}; size_t q_size = sizeof({v.name}); {{ {member}{init}; printf("{i} {k} %d %d %d\\n", sizeof({v.name}) == q_size, {same_type}, {value}); }} }}')
    return '\n'.join(lines + ['}', ''])


def run_c(text, where, flags=()):
    src = where / 'b.c'
    src.write_text(text)
    q = subprocess.run(['gcc', '-std=gnu11', '-O0', '-w', *flags, str(src), '-o', str(where / 'b')], capture_output=True, text=True, timeout=240)
    if q.returncode:
        return None, '\n'.join(x for x in q.stderr.splitlines() if 'error' in x)[:800]
    q = subprocess.run([str(where / 'b')], capture_output=True, text=True, timeout=60, errors='replace')
    return (q.stdout, '') if q.returncode == 0 else (None, f'exit code {q.returncode}')


def main_of(parts):
    return 'int main(void) {\n' + ''.join(f'  block_{i}();\n' for i in parts) + '  return 0;\n}\n'


def blocks(desc, res):
    todo = {}
    for n in range(desc['per']):
        r = rng('c14', desc['seed'], desc['n'], n)
        b = D.Block(r)
        for f in b.features:
            res.count('with_' + f)
        res.count('variables', len(b.vars))
        case = dict(block=b.text)
        try:
            got, types = read(b.text)
        except Exception as ex:
            res.violate('raises:' + type(ex).__name__, f'reading {b.text!r}: {short_tb(ex, 4)}', case)
            continue
        res.case(b.text, any(v.array or v.pointer or v.kind != 'mem' or v.inline for v in b.vars), sample=dict(block=b.text, read=[str(x) for x in got]))
        variables, functions = names_of(b, got)
        if [d.name for d in variables] != [v.name for v in b.vars]:
            res.violate('names', f'variables {[d.name for d in variables]}, not {[v.name for v in b.vars]}, in {b.text!r}', case)
            continue
        if functions != b.protos:
            res.violate('prototypes', f'function declarations {functions}, not {b.protos}, in {b.text!r}', case)
        if list(types) != b.types:
            res.violate('types', f'defined types {types}, not {b.types}, in {b.text!r}', case)
        for v, d in zip(b.vars, variables):
            if (d.init is not None) != (v.init is not None):
                res.violate('init', f'initial value of {v.name} is {d.init!r}, not {v.init!r}, in {b.text!r}', case)
                break
        else:
            todo[n] = b, variables, case
        # every copy, for an instance of a component, is the same but for its name
        for d in variables:
            try:
                c = d.copy(suffix='7')
                wanted, again = d.as_struct_member(), c.as_struct_member()
            except Exception as ex:
                res.violate('copy-raises', f'{d!r}: {short_tb(ex)}', case)
                continue
            if c.name != d.name + '_7' or c == d:
                res.violate('copy', f'copy with suffix 7 of {d!r} is {c!r}', case)
    with tempfile.TemporaryDirectory() as t:
        t = Path(t)
        try:
            sources = {n: block_source(n, b, variables) for n, (b, variables, case) in todo.items()}
        except Exception:
            sources = {}
            for n, (b, variables, case) in todo.items():
                try:
                    sources[n] = block_source(n, b, variables)
                except Exception as ex:
                    res.violate('member-raises:' + type(ex).__name__, f'{b.text!r}: {short_tb(ex, 4)}', case)
        out, err = run_c(D.PRELUDE + CHECK + '\n'.join(sources.values()) + main_of(sources), t)
        if out is None:
            outs = []
            for n, s in sources.items():
                one, err = run_c(D.PRELUDE + CHECK + s + main_of([n]), t)
                if one is None:
                    b, variables, case = todo[n]
                    fine, why = run_c(D.PRELUDE + f'static void block_{n}(void) {{\n{b.text}\n}}\n' + main_of([n]), t)
                    if fine is None:
                        raise RuntimeError(f'generated block is not C: {why}\n{b.text}')
                    res.violate('not-c', f'what was read is not what C accepts: {err}\n{b.text}\nread: {[x.as_struct_member() + " = " + str(x.init) for x in variables]}', case)
                    continue
                outs.append(one)
            out = ''.join(outs)
    for line in out.splitlines():
        n, k, size, typ, value = [int(x) for x in line.split()]
        b, variables, case = todo[n]
        v, d = b.vars[k], variables[k]
        told = f'{v.name} in {b.text!r}, read as {d.as_struct_member()!r} = {d.init!r}'
        res.count('sizes_compared')
        if not size:
            res.violate('size', 'size of ' + told, case)
            continue
        if typ >= 0:
            res.count('types_compared')
            if not typ:
                res.violate('type', 'type of ' + told, case)
        if value >= 0:
            res.count('bytes_compared')
            if not value:
                res.violate('value', 'value of ' + told, case)


# ---------------------------------------------------------------- whole programs

class P:
    """what progrun.execute wants to know"""
    args, nrays, mcdisplay, saves = {}, 1, False, 0


def program(desc, res):
    for n in range(desc['per']):
        r = rng('c14p', desc['seed'], desc['n'], n)
        comps, chosen = {}, []
        fields = []   # (field name, block, original name)
        share = []
        libs = ''
        checks = 0
        prelude = D.PRELUDE.replace('#include <stddef.h>\n#include <string.h>\n', '')
        iu = D.Block(r, members=True, inits=False, prefix='iu_', plain=True) if r.random() < .7 else None
        for c in range(r.choice([1, 1, 2, 3])):
            b = D.Block(r, members=True, prefix=f'c{c}')
            u = D.Block(r, members=True, inits=False, prefix=f'u{c}_', plain=True) if r.random() < .6 else None
            chosen.append((f'Kind{c}', b, u))
        insts = []
        for k in range(r.randint(1, 4)):
            insts.append((f'i{k}', r.choice(chosen)))
        everything = [b for _, b, _ in chosen] + [u for *_, u in chosen if u] + ([iu] if iu else [])
        for k, b in enumerate(everything):
            b.index = k
        def original(b, v, text):
            return f'static int c14_{b.index}_{v.name}(void *q_arg, size_t q_size) {{ {b.text}\n {text} }}\n'
        shared = CHECK.replace('#include <stdio.h>\n', '')
        for b in everything:
            for v in b.vars:
                zero = r'({ int z = 1; for (size_t k = 0; k < q_size; k++) z = z && !((char *) q_arg)[k]; z; })'
                same = difference(v, v.name, '(*q_now)') if v.init is not None else zero
                shared += original(b, v, f'__typeof__({v.name}) *q_now = q_arg; return (q_size == sizeof({v.name})) + 2 * (q_size == sizeof({v.name}) && {same});')
        for name, b, u in chosen:
            code = ''.join(f'printf("C14 %s {b.index} {v.name} %d\\n", NAME_CURRENT_COMP, c14_{b.index}_{v.name}((void *) &{v.name}, sizeof({v.name})));\n' for v in b.vars)
            comps[name] = (f'DEFINE COMPONENT {name}\nSETTING PARAMETERS (int dummy=0)\n' + f'SHARE %{{\n#ifndef C14_SHARED\n#define C14_SHARED\n{prelude}\n{shared}\n#endif\n%}}\n'
                           + (f'USERVARS %{{\n{u.text}\n%}}\n' if u else '') + f'DECLARE %{{\n{b.text}\n%}}\nINITIALIZE %{{\n{code}%}}\nTRACE %{{\n%}}\nEND\n')
        body = ''
        for k, (name, (kind, b, u)) in enumerate(insts):
            code = ''
            if iu:
                code += ''.join(f'printf("C14 {name} {iu.index} {v.name} %d\\n", c14_{iu.index}_{v.name}((void *) &{v.name}, sizeof({v.name})));\n' for v in iu.vars)
            if u:
                code += ''.join(f'printf("C14 {name} {u.index} {v.name} %d\\n", c14_{u.index}_{v.name}((void *) &{v.name}_{k + 1}, sizeof({v.name}_{k + 1})));\n' for v in u.vars)
            body += f'COMPONENT {name} = {kind}() AT (0,0,{k}) ABSOLUTE\n' + (f'EXTEND %{{\n{code}%}}\n' if code else '')
        instr = f'DEFINE INSTRUMENT c14()\n' + (f'USERVARS %{{\n{iu.text}\n%}}\n' if iu else '') + f'TRACE\n{body}END\n'
        case = dict(instr=instr, comps=comps)
        text = '\n'.join(list(comps.values()) + [instr])
        try:
            out = execute(instr, comps)
        except R.Broken as ex:
            res.violate(ex.mech + (':' + re.sub(r'[^a-z ]+', '', (str(ex) + '\n\n').split('\n')[1].split('error: ')[-1])[:60] if ex.mech == 'not-c' else ''), f'{ex}\n{text}', case)
            continue
        res.case(text, True, sample=dict(instr=instr, output=out[-400:]))
        seen = {}
        for line in out.splitlines():
            if line.startswith('C14 '):
                _, name, index, var, what = line.split()
                seen[name, int(index), var] = int(what)
        for name, (kind, b, u) in insts:
            for blk, label in ((b, 'member'), (u, 'uservar'), (iu, 'uservar')):
                for v in (blk.vars if blk else ()):
                    got = seen.get((name, blk.index, v.name))
                    res.count('members' if label == 'member' else 'uservar_fields')
                    told = f'{label} {v.name} of {name}, declared in {blk.text!r}'
                    if got is None:
                        res.violate(label + '-unseen', told + ': the program did not report it', case)
                    elif not got & 1:
                        res.violate(label + '-size', told + ': not of the size C gives it', case)
                    elif label == 'member' and not got & 2:
                        res.violate(label + '-value', told + ': has another value than C gives it', case)


def execute(instr, comps):
    from mccode_antlr.loader.loader import parse_mccode_instr
    from mccode_antlr.reader.registry import InMemoryRegistry
    mem = InMemoryRegistry('mem')
    for k, v in comps.items():
        mem.add_comp(k, v)
    try:
        parsed = parse_mccode_instr(instr, [mem, R.runtime_registry()], '<string>')
    except Exception as ex:
        raise R.Broken('rejected:' + type(ex).__name__, short_tb(ex, 4)) from ex
    text = R.translate(parsed)
    with tempfile.TemporaryDirectory() as t:
        exe = R.build(text, Path(t))
        q = subprocess.run([str(exe), '-n', '1'], capture_output=True, text=True, timeout=60, cwd=t, errors='replace')
    return q.stdout


# ---------------------------------------------------------------- Assembler.ensure_user_var

def ensure(desc, res):
    from mccode_antlr.assembler import Assembler
    import contextlib, io
    for n in range(desc['per']):
        r = rng('c14e', desc['seed'], desc['n'], n)
        a = Assembler('e', registries=[])
        have, told = {}, []
        for _ in range(r.randint(1, 8)):
            b = D.Block(r, members=True, inits=False, prefix=r.choice(['', '', 'u_']))
            if len(b.vars) != 1 or b.vars[0].inline:
                continue
            v, text = b.vars[0], b.text
            if have and r.random() < .4:
                text, v = r.choice(list(have.values()))
                if r.random() < .4:
                    v = D.Var(v.name)
                    text = f'{r.choice(["double", "int", "float"])} {v.name};'
            told.append(text)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    (a.ensure_user_var if have.get(v.name) or r.random() < .8 else a.user_vars)(text)
            except Exception as ex:
                res.violate('ensure-raises:' + type(ex).__name__, f'{told}: {short_tb(ex, 4)}', dict(texts=told))
                break
            have.setdefault(v.name, (text, v))
            res.count('ensured')
        else:
            got = [x.source.strip() for x in a.instrument.user]
            want = [t.strip() for t, _ in have.values()]
            res.case(str(told), len(told) > 1)
            if got != want:
                res.violate('ensure', f'after ensuring {told} in order the variables are {got}, not {want}', dict(texts=told))


def run(desc, res: Result):
    globals()[desc['kind']](desc, res)
