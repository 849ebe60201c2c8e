"""Random instruments whose execution is fully predicted.

A program is an instrument and its components (in the format of imodel) written with code whose effect is known: every section
consists of operations which exist twice, as C text and as a step of the reference interpreter below.  The C side runs inside the
program generated by the library on top of the event-logging run-time stand-in (mv/runtime); the interpreter predicts the log from
the model alone.
"""
from __future__ import annotations
import copy, hashlib, math, re
from . import cexpr as X, imodel as M

NEUTRON = ['x', 'y', 'z', 'vx', 'vy', 'vz', 'sx', 'sy', 'sz', 't', 'p']
XRAY = ['x', 'y', 'z', 'kx', 'ky', 'kz', 'Ex', 'Ey', 'Ez', 't', 'p']
FULL = dict(split=.12, when=.3, group=.35, extend=.4, jump=.25, rotated=.6, copy=.2, comp_copy=.3, include=.3, metadata=.3, uservars=.8,
            define=.25, declare=.7, vector=.3, string=.5, n_comp=(2, 5), n_inst=(2, 9), special_name=.05, skip=.25, cpu=.1, sections=.6,
            init_changes=.6, backjump=.5, jumpcopy=.8, ownuv=1, asks=.1)


# ---------------------------------------------------------------- expressions

def ex(r, depth, want, d, i, logic=False):
    """an expression tree over the double names d and int names i"""
    sub = lambda w: ex(r, depth - 1, w, d, i, logic)
    if depth <= 0 or r.random() < .15:
        names = d if want == 'd' else i
        if names and r.random() < .6:
            return ('var', want, r.choice(names))
        if want == 'd':
            return ('lit', 'd', r.choice([f'{r.randint(0, 9)}.{r.randint(0, 99)}7', f'.{r.randint(1, 99)}3', f'{r.randint(1, 9)}.5e-{r.randint(1, 2)}',
                                          f'{r.randint(1, 60)}.25']))
        return ('lit', 'i', str(r.randint(0, 9)))
    x = r.random()
    if want == 'd':
        if x < .5:
            return ('bin', 'd', r.choice('+-*'), sub('d'), sub('d' if r.random() < .7 else 'i'))
        if x < .62:
            return ('bin', 'd', '/', sub('d'), ('lit', 'd', f'{r.randint(1, 9)}.{r.randint(0, 9)}3'))
        if x < .75:
            return ('un', 'd', '-', sub('d'))
        if x < .85:
            return ('call', 'd', r.choice(['fabs', 'floor', 'ceil']), [sub('d')])
        if x < .95 or not (d and i):
            return ('call', 'd', r.choice(['gf', 'fmax', 'fmin']), [sub('d'), sub('d')])
        return ('paren', 'd', sub('d'))
    if logic and x < .45:
        w = r.choice('id')
        return ('bin', 'i', r.choice(['<', '>', '<=', '>=']) if w == 'd' else r.choice(['<', '>', '==', '!=', '<=', '>=']), sub(w), sub(w))
    if logic and x < .62:
        return ('bin', 'i', r.choice(['&&', '||']), sub('i'), sub('i'))
    if logic and x < .7:
        return ('un', 'i', '!', sub('i'))
    if x < .82:
        return ('bin', 'i', r.choice('+-'), sub('i'), sub('i'))
    if x < .9:
        return ('bin', 'i', '*', ex(r, 0, 'i', d, i), ('lit', 'i', str(r.randint(1, 4))))
    if x < .96:
        return ('bin', 'i', '%', ex(r, 0, 'i', d, i), ('lit', 'i', str(r.randint(2, 9))))
    return ('un', 'i', '-', sub('i'))


def ev(n, env):
    k = n[0]
    if k == 'lit':
        return float(n[2]) if n[1] == 'd' else int(n[2])
    if k == 'var':
        return env[n[2]]
    if k == 'paren':
        return ev(n[2], env)
    if k == 'setpos':
        return env['distance at setpos'](n[2], n[3])
    if k == 'un':
        v = ev(n[3], env)
        return -v if n[2] == '-' else (v if n[2] == '+' else int(not v))
    if k == 'call':
        a = [ev(x, env) for x in n[3]]
        return float({'fabs': lambda u: abs(u), 'floor': lambda u: math.floor(u), 'ceil': lambda u: math.ceil(u), 'gf': lambda u, v: u * 0.5 - v,
                      'fmax': max, 'fmin': min}[n[2]](*a))
    a = ev(n[3], env)
    o = n[2]
    if o == '&&':
        return int(bool(a) and bool(ev(n[4], env)))
    if o == '||':
        return int(bool(a) or bool(ev(n[4], env)))
    b = ev(n[4], env)
    if o == '%':
        return int(math.fmod(a, b))
    if o == '/':
        return a / b
    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<': lambda: int(a < b), '>': lambda: int(a > b), '<=': lambda: int(a <= b),
            '>=': lambda: int(a >= b), '==': lambda: int(a == b), '!=': lambda: int(a != b)}[o]()


def has_var(n):
    return bool(X.names(n))


def cstr(s):
    """C string literal of text without control characters other than newline and tab"""
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t') + '"'


# ---------------------------------------------------------------- component code: operations and their C text

def op_c(o, w):
    """w: what the writer must know: flavour, instrument uservars, names to log"""
    k = o[0]
    if k == 'sec':      # log a section with parameters and state
        _, kind, tag, pars, state = o
        out = f'mv_log("sec {kind} {tag} %s %ld", _comp->_name, _comp->_index);'
        for p in pars:
            out += log_par(p)
        for s in state:
            out += log_par(s, 's_')
        return out + ' mv_end();'
    if k == 'set':
        return f'{o[1]} = {o[2]};'
    if k == 'copy':     # text into a char array
        return f'strncpy({o[1]}, {cstr(o[2])}, sizeof({o[1]}) - 1);'
    if k == 'alloc':
        return f'{o[1]} = calloc(4, sizeof(double)); {o[1]}[2] = {o[2]};'
    if k == 'free':
        return f'free({o[1]}); {o[1]} = NULL;'
    if k == 'trace':
        out = 'mv_trace(_comp->_name, _comp->_index, _particle, _comp->_position_absolute, _comp->_rotation_absolute);'
        out += f' mv_log(" tag={o[1]}");'
        for n, (name, typ) in enumerate(w['uservars']):
            if typ == 'double':
                out += f' {{ int s_ = 7; double v_ = particle_getvar(_particle, "{name}", &s_); mv_num("u_{name}", v_); if (s_) mv_int("bad_{name}", s_); ' \
                       f'v_ = particle_getuservar_byid(_particle, {n}, &s_); mv_num("id_{name}", v_); if (s_) mv_int("badid_{name}", s_); }}'
            elif typ == 'int':
                out += f' {{ int s_ = 7; int *v_ = (int *) particle_getvar_void(_particle, "{name}", &s_); if (v_) mv_int("u_{name}", *v_); if (s_) mv_int("bad_{name}", s_); }}'
        for name, typ in o[2]:
            out += f' {{ char n_[64]; int s_ = 7; sprintf(n_, "{name}_%ld", _comp->_index); void *v_ = particle_getvar_void(_particle, n_, &s_); '
            out += (f'if (v_) mv_num("c_{name}", *(double *) v_);' if typ == 'double' else f'if (v_) mv_int("c_{name}", *(int *) v_);') + \
                   f' if (s_) mv_int("bad_{name}", s_); if (v_ != _get_particle_var(n_, _particle)) mv_int("differs_{name}", 1); }}'
        out += ' { int s_ = 7; particle_getvar(_particle, "no_such_variable", &s_); mv_int("unknown", s_); s_ = 7; ' \
               'void *v_ = particle_getvar_void(_particle, "no_such_variable", &s_); mv_int("unknownv", s_ + 10 * (v_ != NULL)); ' \
               'double d_ = 0; mv_int("unknowns", particle_setvar_void(_particle, "no_such_variable", &d_)); }'
        return out + ' mv_end();'
    if k == 'inc':
        return f'{o[1]} += {o[2]};'
    if k == 'uvset':    # instrument uservar through its accessor
        _, name, typ, by = o
        if typ == 'double':
            return f'{{ int s_; double v_ = particle_getvar(_particle, "{name}", &s_) + {by}; if (particle_setvar_void(_particle, "{name}", &v_)) mv_log("setfail\\n"); }}'
        return f'{{ int s_; int v_ = *(int *) particle_getvar_void(_particle, "{name}", &s_) + {by}; if (particle_setvar_void(_particle, "{name}", &v_)) mv_log("setfail\\n"); }}'
    if k == 'cuset':
        _, name, typ, by = o
        t = 'double' if typ == 'double' else 'int'
        return f'{{ char n_[64]; int s_; sprintf(n_, "{name}_%ld", _comp->_index); {t} v_ = *({t} *) particle_getvar_void(_particle, n_, &s_) + {by}; ' \
               f'if (particle_setvar_void(_particle, n_, &v_)) mv_log("setfail\\n"); }}'
    if k == 'arr':     # set whole, then its first element only; the variable after it stays
        _, name, typ = o
        point = typ.endswith('*')
        values = '_comp->_name, "two", "three"' if point else '_comp->_index, _particle->_uid, 2.5'
        first = '"first"' if point else '_comp->_index + 1'
        return (f'{{ int s_ = 7; {typ} *a_ = ({typ} *) particle_getvar_void(_particle, "{name}", &s_); {typ} b_[3] = {{ {values} }}; {typ} c_ = {first}; double v_[3]; '
                f'int *g_ = (int *) particle_getvar_void(_particle, "{name}_after", &s_); *g_ = 77; '
                f'if (particle_setvar_void_array(_particle, "{name}", b_, 3)) mv_log("setfail\\n"); int same_ = !memcmp(a_, b_, sizeof b_); '
                f'if (particle_setvar_void_array(_particle, "{name}", &c_, 1)) mv_log("setfail\\n"); b_[0] = c_; same_ += !memcmp(a_, b_, sizeof b_); '
                + ('v_[0] = _comp->_index + 1; v_[1] = _particle->_uid; v_[2] = 2.5; ' if point else 'for (int i_ = 0; i_ < 3; ++i_) v_[i_] = (double) a_[i_]; ') +
                f'mv_log("arr %s", _comp->_name); mv_int("same", same_); mv_int("after", *g_); mv_vec("a", v_, 3); mv_end(); }}')
    if k == 'act':
        v = 'v' if w['neutron'] else 'k'
        s = 's' if w['neutron'] else 'E'
        arg = f'x, y, z, {v}x, {v}y, {v}z, t, {s}x, {s}y, {s}z, p'
        rest = 'RESTORE_NEUTRON' if w['neutron'] else 'RESTORE_XRAY'
        return (f'switch (mv_action("{o[1]}", _comp->_index, _particle)) {{ '
                f"case 'm': x += 0.25*{v}x; z += 0.5*{v}z; t += 0.125; break; "
                f"case 's': SCATTER; {v}x = 0.01 - {v}x; {s}y += 0.5; p *= 0.75; break; "
                f"case 'a': ABSORB; break; case 'S': SCATTER; ABSORB; break; "
                f"case 'r': x += 1; t += 1; p *= 3; {v}y -= 2; {s}z += 1; {rest}(INDEX_CURRENT_COMP, {arg}); break; "
                f"case 'R': SCATTER; y += 1; {rest}(INDEX_CURRENT_COMP, {arg}); break; "
                f"case 'n': {v}y = NAN; break; case 'i': {v}z = -INFINITY; break; default: break; }}")
    if k == 'call':     # a function of a library or SHARE section
        return f'mv_log("call %s", _comp->_name); mv_num("{o[1]}", {o[1]}({o[2]})); mv_end();'
    if k == 'show':
        return f'line(0,0,0,1,1,1); circle("xy", 0, 0, 0, {o[1]}); multiline(2, 0., 0., 0., 1., 1., 1.);'
    # instrument level and EXTEND
    if k == 'extend':
        out = f'mv_log("extend %s %lld", _comp->_name, _particle->_uid); mv_int("S", SCATTERED);'
        for name, typ in o[1]:
            out += f' mv_num("u_{name}", {name});' if typ == 'double' else f' mv_int("u_{name}", {name});'
        return out + ' mv_end();'
    if k == 'ifscat':
        return f'if (SCATTERED) {o[1]} += {o[2]};'
    if k == 'absorbif':
        return f'if ({o[1]} % {o[2]} == {o[3]}) ABSORB;'
    if k == 'scatterif':
        return f'if ({o[1]} % {o[2]} == {o[3]}) SCATTER;'
    if k == 'restoreif':
        v, s, rest = ('v', 's', 'RESTORE_NEUTRON') if w['neutron'] else ('k', 'E', 'RESTORE_XRAY')
        return f'if ({o[1]} % {o[2]} == {o[3]}) {{ p *= 2; {rest}(INDEX_CURRENT_COMP, x, y, z, {v}x, {v}y, {v}z, t, {s}x, {s}y, {s}z, p); }}'
    raise ValueError(k)


def log_par(p, pre=''):
    n, t = p
    if t == 'double':
        return f' mv_num("{pre}{n}", {n});'
    if t == 'int':
        return f' mv_int("{pre}{n}", {n});'
    if t == 'string':
        return f' mv_str("{pre}{n}", {n});'
    if t.startswith('vector'):
        return f' mv_vec("{pre}{n}", {n}, {t[6:]});'
    if t == 'ptr':
        return f' if ({n}) mv_num("{pre}{n}", {n}[2]); else mv_str("{pre}{n}", NULL);'
    raise ValueError(t)


def write_ops(r, ops, w):
    """ops as C text in random layout; an own scope, since copied sections follow each other in one function"""
    out = []
    for o in ops:
        out.append(op_c(o, w))
    sep = r.choice(['\n', '\n  ', '\n    '])
    extra = r.choice(['', '', '\n/* a comment: } { "%s" */', '\n// until the end of the line }', '\n;'])
    return '\n{' + sep + sep.join(out) + extra + '\n}\n'


# ---------------------------------------------------------------- generation

class Prog:
    """model (imodel format), component models, library files, and everything needed to predict an execution"""


def gen(r, features=None, neutron=True):
    for _ in range(5000):
        p = gen_once(r, {**FULL, **(features or {})}, neutron)
        if p is not None:
            return p
    raise RuntimeError('no valid program found')


PAR_NAMES = ['Ei', 'lambda', 'two_theta', 'A3', 'nu', 'L1', 'Emin', 'Emin_w', 'mode', 'order', 'E', 'Lm']
SET_NAMES = ['xwidth', 'yheight', 'radius', 'Ei', 'lambda', 'nu', 'order', 'xwidth2', 'w', 'radius_in', 'thickness', 'E0', 'q', 'n_x', 'mosaic']


def gen_once(r, f, neutron):
    p = Prog()
    p.neutron, p.f = neutron, f
    p.trees, p.ops = {}, {}
    p.asked, p.asks = set(), {}
    p.strings = {}
    # instrument parameters
    names = r.sample(PAR_NAMES, r.randint(1, 6))
    params, kinds = [], {}
    for n in names:
        kind = r.choice(['bare', 'double', 'double', 'int', 'int', 'string', 'char*']) if r.random() < .9 else 'string'
        kinds[n] = 'i' if kind == 'int' else ('s' if kind in ('string', 'char*') else 'd')
        if kinds[n] == 'd':
            default = r.choice([None, f'{r.randint(0, 9)}.{r.randint(0, 99)}5', f'-{r.randint(1, 9)}.5', f'{r.randint(1, 40)}', '1.25e-2', f'{r.randint(1, 9)}*2.5'])
        elif kinds[n] == 'i':
            default = r.choice([None, str(r.randint(0, 9)), f'-{r.randint(1, 9)}', '2+3'])
        else:
            default = r.choice([None, '"plain"', '"with space"', '"file.dat"', '"a\\\\b"', '"é"'])
        params.append(dict(kind=kind, name=n, unit=r.choice([None, '"meV"', '"AA^-1"', '""']), default=default))
    p.kinds = kinds
    # instrument variables
    p.gd = [f'g{n}' for n in range(r.randint(1, 3))]
    p.gi = [f'gn{n}' for n in range(r.randint(1, 2))]
    p.gs = ['gs0'] if r.random() < .6 else []
    p.ginit = {**{g: float(f'{r.randint(0, 9)}.{r.randint(0, 99)}5') for g in p.gd}, **{g: r.randint(0, 9) for g in p.gi}}
    for g in p.gs:
        p.ginit[g] = r.choice(['from declare', 'x"y', ''])
    p.gvec = [r.randint(0, 9) + .5 for _ in range(3)]
    d = [n for n in names if kinds[n] == 'd'] + p.gd
    i = [n for n in names if kinds[n] == 'i'] + p.gi
    p.dnames, p.inames = d, i
    p.snames = [n for n in names if kinds[n] == 's'] + p.gs
    # user variables: name, type; order matters
    p.uservars = []
    if r.random() < f['uservars']:
        p.uservars = [('uvd', 'double'), ('uvi', 'int'), ('flag', 'int'), ('uvd2', 'double'), ('fl', 'double')][:r.randint(2, 5)]
        r.shuffle(p.uservars)
    p.arr = ('uva', r.choice(['double', 'double', 'int', 'float', 'short', 'long long', 'char *', 'unsigned char'])) if p.uservars and r.random() < .4 else None
    p.jumpvars = []
    w = dict(neutron=neutron, uservars=p.uservars)
    p.w = w
    # libraries
    p.libs = gen_libs(r, f)
    # component types
    raw = []
    p.types = {}
    for n in range(r.randint(*f['n_comp'])):
        raw.append(gen_type(r, p, f, n, raw))
    p.raw = raw
    flags = ['-DINSTR', '-lm', '-I/x/*/include', '-DA=\\"*/\\"', '-I/* -DB', '-DC=1//2', '-DD=?\?/']
    if r.random() < f.get('dependency', 0):
        raw[-1]['dependency'] = r.choice(flags)
        model_flags = r.choice(flags)
    else:
        model_flags = None
    comps = M.resolve_comps(raw)
    p.comps = comps
    model = dict(name=r.choice(['Test', 'my_instr', 'b2', 'Instr_X']), params=params, metadata=[], dependency=model_flags, sections={}, instances=[], include=None)
    if r.random() < f['metadata']:
        model['metadata'] = [M.gen_meta(r, f'instr_{n}') for n in range(r.choice([1, 2]))]
    gen_instances(r, p, f, model)
    gen_instrument_sections(r, p, f, model)
    p.model = model
    try:
        p.want = M.resolve_instr(model, comps)
    except Exception:
        return None
    if not sound(p):
        return None
    # values given on the command line
    p.args = {}
    for q in params:
        if q['default'] is None or r.random() < .5:
            k = kinds[q['name']]
            p.args[q['name']] = (r.choice([f'{r.randint(-9, 9)}.{r.randint(0, 99)}5', '1.5e-3', str(r.randint(1, 9))]) if k == 'd' else str(r.randint(-3, 9)) if k == 'i'
                                 else r.choice(['given', 'two words', 'a=b', 'é"', 'C:\\x', '%d']) if r.random() < .93 else 'long ' * r.randint(220, 3000))
    p.nrays = r.choice([1, 2, 3, 5])
    p.mcdisplay = r.random() < .5
    p.saves = r.choice([0, 0, 1, 2])
    p.seed = int(hashlib.sha256(repr(p.args).encode()).hexdigest()[:8], 16)
    return p


def gen_libs(r, f):
    """library name -> (header text, source text), with the functions they define and what they return: value = 2*v + code"""
    libs, code = {}, 1
    if r.random() < f['include']:
        names = [f'mv_lib{c}' for c in 'abcd'][:r.randint(1, 4)]
        if r.random() < .4:
            names = [n.replace('mv_lib', 'mv-lib') for n in names]
        for n, name in enumerate(names):
            needs = [x for x in names[:n] if r.random() < .5]
            extra = f'mv_extra_{n}.h' if r.random() < .3 else None
            fn = name.replace('-', '_') + '_f'
            h = ''.join(f'%include "{x}"\n' for x in needs)
            inner = r.choice(names[:n]) if extra and n and r.random() < .5 else None  # the textual include asks for a library
            if inner and inner not in needs:
                needs.append(inner)
            if extra:
                h += f'%include "{extra}"\n'
            # each header needs what it includes: its type is built from theirs
            h += f'struct {fn}_t {{ ' + ' '.join(f'struct {x.replace("-", "_")}_f_t m_{k};' for k, x in enumerate(needs)) + ' double own; };\n'
            if extra:
                h += f'static double {fn}_e(void) {{ return mv_extra_{n}_v; }}\n'
            h += f'double {fn}(double v);\n'
            c = f'double {fn}(double v) {{ struct {fn}_t t_; t_.own = v; return 2*t_.own + {code}' + ''.join(f' + 0*{x.replace("-", "_")}_f(v)' for x in needs) \
                + (f' + 0*{fn}_e()' if extra else '') + '; }\n'
            late = [x for x in names[:n] if r.random() < .25]  # what only the source file asks for
            c = ''.join(f'%include "{x}"\n' for x in late) + ''.join(f'struct {x.replace("-", "_")}_f_t {fn}_l{k};\n' for k, x in enumerate(late)) + c
            e = f'static double mv_extra_{n}_v = 1;\n' if extra else None
            if inner:
                e = f'%include "{inner}"\n{e}'
            libs[name] = dict(h=h, c=c, fn=fn, code=code, needs=needs, late=late, extra=(extra, e) if extra else None)
            code += 1
    return libs


def gen_type(r, p, f, n, earlier):
    name = f'Type{n}' if r.random() < .7 else r.choice([f'Monitor_{n}d', f'Arm{n}', f'Type{n}_long'])
    m = dict(name=name, copy=None, noacc=r.random() < .1, category=None, define=[], setting=[], output=[], metadata=[], dependency=None, sections={})
    t = dict(setting=[], declare=[], user=[], alloc=None)
    base = None
    if earlier and r.random() < f['comp_copy']:
        base = r.choice(earlier)
        m['copy'] = base['name']
        b = p.types[base['name']]
        t['setting'], t['declare'], t['user'], t['alloc'] = list(b['setting']), list(b['declare']), list(b['user']), b['alloc']
    taken = [x[0] for x in t['setting']] + [x[0] for x in t['declare']]
    for _ in range(r.choice([0, 1, 2, 3, 4]) if not base else r.choice([0, 1])):
        nm = r.choice(SET_NAMES)
        if nm in taken:
            continue
        taken.append(nm)
        x = r.random()
        if x < .45:
            kind, typ = r.choice(['bare', 'double']), 'double'
            default = r.choice([None, f'{r.randint(0, 9)}.{r.randint(0, 99)}5', f'-{r.randint(1, 9)}', '1e-3', f'{r.randint(1, 9)}*0.5'])
        elif x < .65:
            kind, typ = 'int', 'int'
            default = r.choice([None, str(r.randint(0, 9)), f'-{r.randint(1, 9)}', '1+2'])
        elif x < .65 + .35 * f['string'] or r.random() > f['vector']:
            kind, typ = r.choice(['string', 'char*']), 'string'
            default = r.choice([None, 'NULL', '""', '"x.dat"', '"two words"', '"q\\"q"', '0', '"ü"'])
        else:
            k = r.choice([1, 2, 3, 5])
            kind, typ = r.choice(['vector', 'double*', 'vector']), f'vector{k}'
            default = r.choice([None, '{' + ', '.join(f'{r.randint(0, 9)}.5' for _ in range(k)) + '}', 'NULL'])
        q = dict(kind=kind, name=nm, default=default)
        if r.random() < f['define'] and typ in ('double', 'int') and kind != 'double' and not base:
            m['define'].append(q)
        else:
            m['setting'].append(q)
        t['setting'].append((nm, typ, default))
    dbl = [x[0] for x in t['setting'] if x[1] == 'double']
    ints = [x[0] for x in t['setting'] if x[1] == 'int']
    if r.random() < f['declare']:
        text = ''
        for _ in range(r.randint(1, 4)):
            nm = f'st{n}_{len(t["declare"])}'
            x = r.random()
            if x < .25:
                v = r.choice([None, f'{r.randint(0, 9)}.25', f'-{r.randint(1, 9)}.5'])
                own_type = f'{name}_real' if r.random() < .3 else 'double'
                if own_type != 'double':
                    m['typedef'] = own_type
                text += f'{own_type} {nm}{" = " + v if v else ""};\n'
                t['declare'].append((nm, 'double', float(v) if v else 0.))
            elif x < .5:
                v = r.choice([None, str(r.randint(1, 9)), f'-{r.randint(1, 9)}'])
                text += f'  int {nm}{"=" + v if v else ""} ;\n'
                t['declare'].append((nm, 'int', int(v) if v else 0))
            elif x < .65:
                v = [r.randint(-9, 9) + .5 for _ in range(3)] if r.random() < .6 else None
                text += f'double {nm}[3]{" = {" + ", ".join(map(str, v)) + "}" if v else ""};\n'
                t['declare'].append((nm, 'vector3', v or [0., 0., 0.]))
            elif x < .78:
                text += f'/* text */ char {nm}[16];\n'
                t['declare'].append((nm, 'string', ''))
            elif x < .9:
                nm2 = nm + 'b'
                text += f'int {nm} = 4, {nm2};\n'
                t['declare'] += [(nm, 'int', 4), (nm2, 'int', 0)]
            elif t['alloc'] is None:
                text += f'double *{nm};\n'
                t['declare'].append((nm, 'ptr', None))
                t['alloc'] = nm
        if text:
            m['sections']['declare'] = dict(text='\n' + text)
    w = p.w
    pars = [(a, b) for a, b, _ in t['setting']]
    state = [(a, b) for a, b, _ in t['declare']]
    own = {a for a, b, _ in p.types[base['name']]['declare']} if base else set()
    if r.random() < f['uservars'] * .4 and not base:
        t['user'] = [('cu', 'double'), ('ci', 'int')][:r.randint(1, 2)]
        m['sections']['user'] = dict(text='\n' + '\n'.join(f'{b} {a};' for a, b in t['user']) + '\n')
    tag = name

    def section(s, ops):
        text = write_ops(r, ops, w)
        if p.libs and r.random() < .12:  # a library may be asked for anywhere
            text = f'\n%include "{r.choice(list(p.libs))}"\n' + text
        p.ops[text] = ops
        m['sections'][s] = dict(text=text)

    share = ''
    calls = []
    if p.libs and r.random() < .6:
        for lib in r.sample(list(p.libs), r.randint(1, len(p.libs))):
            share += r.choice(['', '  ']) + f'%include "{lib}"\n'
            calls.append((p.libs[lib]['fn'], p.libs[lib]['code']))
    if m.pop('typedef', None):
        share += f'#ifndef TYPES_{name}\n#define TYPES_{name}\ntypedef double {name}_real;\n#endif\n'
    if r.random() < .3:
        # (a COPY repeats the SHARE of its origin, so such code has to protect itself against repetition)
        share += (f'#ifndef SHARED_{name}\n#define SHARED_{name}\n'
                  f'double share_{name}(double v) {{ return 2*v + {50 + n}; }}\n#endif\n')
        calls.append((f'share_{name}', 50 + n))
    if share:
        m['sections']['share'] = dict(text='\n' + share)
    if r.random() < f['sections'] or (t['alloc'] and not base):
        ops = [('sec', 'init', tag, pars, state)]
        for a, b, _ in t['declare']:
            if a in own:
                continue
            if b == 'double':
                e = ex(r, 1, 'd', dbl, ints)
                ops.append(('set', a, X.render(e, None), e))
            elif b == 'int':
                e = ex(r, 1, 'i', dbl, ints)
                ops.append(('set', a, X.render(e, None), e))
            elif b == 'string':
                ops.append(('copy', a, r.choice(['hello', 'set "in" init'])))
            elif b == 'ptr':
                e = ex(r, 1, 'd', dbl, ints)
                ops.append(('alloc', a, X.render(e, None), e))
        if r.random() < .5:
            ops.append(('sec', 'init2', tag, [], state))
        for fn, code in calls:
            ops.append(('call', fn, '1.5', code))
        section('initialize', ops)
    if r.random() > f['skip']:
        ops = [('trace', tag, t['user'])]
        for a, b, _ in t['declare']:
            if b in ('double', 'int') and r.random() < .7:
                ops.append(('inc', a, '1'))
        for a, b in p.uservars:
            if r.random() < .3:
                ops.append(('uvset', a, b, r.choice(['1', '2', '3']) if b == 'int' else '1.5'))
        for a, b in t['user']:
            if r.random() < .6:
                ops.append(('cuset', a, b, '1'))
        if p.arr and r.random() < .5:
            ops.append(('arr', *p.arr))
        ops.append(('act', ''.join(r.choice(f.get('actions', 'pppmmmmsssarRSun')) for _ in range(r.randint(3, 12)))))
        if state and r.random() < .3:
            ops.append(('sec', 'trace', tag, pars[:2], state))
        section('trace', ops)
    if r.random() < f['sections']:
        section('save', [('sec', 'save', tag, pars, state)] + [('inc', a, '100') for a, b, _ in t['declare'] if b == 'int'])
    if r.random() < f['sections'] or (t['alloc'] and not base):
        section('final', [('sec', 'final', tag, pars, state)] + ([('free', t['alloc'])] if t['alloc'] and not (base and p.types[base['name']]['alloc']) else []))
    if r.random() < f['sections']:
        section('display', [('sec', 'display', tag, pars, state), ('show', '0.5')])
    if r.random() < f['metadata']:
        m['metadata'] = [M.gen_meta(r, f'{name}_{k}') for k in range(r.choice([1, 2]))]
    p.types[name] = t
    return m


def gen_instances(r, p, f, model):
    comps, types = p.comps, p.types
    n = r.randint(*f['n_inst'])
    k = 0
    group = None
    cond_d = p.dnames + ['t'] + [a for a, b in p.uservars if b == 'double'] + (['p', 'vz'] if p.neutron else ['p', 'kz'])
    cond_i = p.inames + [a for a, b in p.uservars if b == 'int'] * 2
    for k in range(n):
        done = M.resolve_names(model['instances'])
        i = dict(name=M.similar(r, M.ident(r, r.choice(['arm', 'det', 'c']), k), [x['name'] for x in done]), nameform='plain', type=None, copy=None, params=[],
                 split=None, when=None, at=None, at_ref=None, rot=None, rot_ref=None, group=None, extend=None, jumps=[], metadata=[],
                 removable=r.random() < .1, cpu=r.random() < f['cpu'])
        if r.random() < f['special_name']:
            i['nameform'] = r.choice(['COPYID', 'COPY', 'MYSELF'])
        src = None
        if done and r.random() < f['copy']:
            src = r.choice(done)
            i['copy'] = dict(form='name', to=src['name'])
            i['type'] = src['type']
            if r.random() < .3 and src is done[-1]:
                i['copy'] = dict(form='PREVIOUS', by=None)
        else:
            i['type'] = r.choice(list(comps))
        t = types[i['type']]
        for nm, typ, default in t['setting']:
            if r.random() < .65 or (default is None and not (src and r.random() < .5)):
                i['params'].append([nm, gen_value(r, p, typ)])
        r.shuffle(i['params'])
        if not i['params'] and r.random() < .5:
            i['params'] = None
        i['at'] = [coordinate(r, p, 5, done) for _ in range(3)]
        i['at_ref'] = M.reference(r, done, dict(odd_ref=.3))
        if r.random() < f['rotated']:
            i['rot'] = [coordinate(r, p, 90) for _ in range(3)]
            i['rot_ref'] = M.reference(r, done, dict(odd_ref=.3))
        if group:
            i['group'] = group
            if r.random() < .4:
                group = None
        elif r.random() < f['group']:
            used = {x['group'] for x in model['instances']}
            free = [g for g in ('grp', 'NEXT_group', 'grp2') if g not in used]
            if free:
                i['group'] = group = r.choice(free)
        if r.random() < f['when']:
            e = ex(r, 2, 'i', cond_d, cond_i, True)
            if has_var(e):
                i['when'] = p_text(r, p, e)
        if r.random() < f['split']:
            if r.random() < .55:
                i['split'] = str(r.randint(2, 4)) if r.random() < .9 else ''
            elif r.random() < .4:
                i['split'] = p_text(r, p, ('next',))  # another number each time it is asked for
            else:
                v = r.choice(p.inames)
                e = ('bin', 'i', '+', ('bin', 'i', '%', ('paren', 'i', ('bin', 'i', '*', ('var', 'i', v), ('var', 'i', v))), ('lit', 'i', '3')), ('lit', 'i', '1'))
                i['split'] = p_text(r, p, e)
        if r.random() < f['extend']:
            i['extend'] = gen_extend(r, p, own=[(f'{a}_{k + 1}', b) for a, b in types[i['type']]['user'] if f['ownuv']])
        if r.random() < f['metadata'] * .5:
            i['metadata'] = [M.gen_meta(r, f'inst{k}_{q}') for q in range(r.choice([1, 2]))]
            if comps[i['type']]['metadata'] and r.random() < .5:
                i['metadata'][0]['name'] = r.choice(comps[i['type']]['metadata'])['name']
        model['instances'].append(i)
    # jumps
    written = [x['name'] for x in M.resolve_names(model['instances'])]
    for k, i in enumerate(model['instances']):
        if r.random() < f['jump']:
            x = r.random()
            if x < .4:
                j = dict(form='name', to=r.choice(written))
            elif x < .55:
                j = dict(form='MYSELF')
            elif x < .78:
                j = dict(form='PREVIOUS', by=r.choice([None, 1, 2, 3]))
            else:
                j = dict(form='NEXT', by=r.choice([None, 1, 2, 3]))
            if r.random() < .5:
                e = ('lit', 'i', str(r.randint(0, 4)))
                if r.random() < .3:
                    v = r.choice(p.inames)
                    e = ('bin', 'i', '%', ('paren', 'i', ('bin', 'i', '*', ('var', 'i', v), ('var', 'i', v))), ('lit', 'i', '4'))
                j.update(iterate=True, cond=p_text(r, p, e))
            else:
                v = f'jv{k}'
                p.jumpvars.append(v)
                e = ('bin', 'i', r.choice(['<', '<=']), ('var', 'i', v), ('lit', 'i', str(r.randint(0, 3))))
                if r.random() < .5:
                    c = ex(r, 1, 'i', cond_d, cond_i, True)
                    e = ('bin', 'i', '&&', e, c if c[0] != 'tern' else ('paren', 'i', c))
                j.update(iterate=False, cond=p_text(r, p, e))
                i['extend'] = gen_extend(r, p, inc=v, own=[(f'{a}_{k + 1}', b) for a, b in types[i['type']]['user'] if f['ownuv']])
                i['when'] = None
            i['jumps'].append(j)
            if j.get('iterate') and not comps[i['type']]['sections']['trace'] and r.random() < .7:
                i['extend'] = None
    # loops inside of loops: the inner ones start again from the beginning
    inst = model['instances']
    if n > 3 and r.random() < f.get('nest', 0):
        p.nested = True
        o, t, b, u = sorted(r.choices(range(n - 1), k=3)) + [0]
        u = r.randint(b + 1, n - 1)
        for i in inst:
            i['split'] = None
        for k in {o, t, b, u}:
            inst[k]['group'] = None
        own = lambda k: [(f'{x}_{k + 1}', y) for x, y in types[inst[k]['type']]['user'] if f['ownuv']]
        inst[b].update(when=None, jumps=[dict(form='name', to=written[t], iterate=True, cond=p_text(r, p, ('lit', 'i', str(r.randint(2, 4)))))])
        if r.random() < .4:
            inst[u].update(when=None, jumps=[dict(form='name', to=written[o], iterate=True, cond=p_text(r, p, ('lit', 'i', str(r.randint(2, 3)))))])
        else:
            v = f'jv{n}'
            p.jumpvars.append(v)
            inst[u].update(when=None, jumps=[dict(form='name', to=written[o], iterate=False, cond=p_text(r, p, ('bin', 'i', '<', ('var', 'i', v), ('lit', 'i', str(r.randint(1, 2))))))],
                           extend=gen_extend(r, p, inc=v, own=own(u)))
    # a copy of an instance with a relative jump has its own target
    inst = model['instances']
    relative = [a for a, i in enumerate(inst) if any(j['form'] != 'name' for j in i['jumps'])]
    copied = {M.target(written_so_far(inst, b), i['copy']) for b, i in enumerate(inst) if i['copy']}
    pairs = [(a, b) for a in relative for b in range(a + 1, n) if b not in copied]
    if pairs and r.random() < f['jumpcopy']:
        a, b = r.choice(pairs)
        inst[b].update(copy=dict(form='name', to=written[a]), type=inst[a]['type'], params=None, extend=None, jumps=[])


def written_so_far(instances, n):
    return M.resolve_names(instances[:n])


def p_text(r, p, e):
    t = {'gsf': 'gsf()', 'gvec': 'gvec', 'gvecf': 'gvecf()', 'gvecs': 'gvecs.data', 'next': 'gnext()'}.get(e[0]) or X.render(e, r)
    p.trees[t] = e
    return t


def coordinate(r, p, size, done=()):
    x = r.random()
    if len(done) > 1 and r.random() < p.f['asks']:
        # how far two earlier components are from each other
        a, b = r.choice(done)['name'], r.choice(done)['name']
        p.asked |= {a, b}
        e = ('setpos', 'd', a, b)
        t = f'setpos_getdistance("{a}",{r.choice(["", " "])}"{b}")'
        if r.random() < .4:
            k = r.choice(['2', '.5', '1.25'])
            e, t = ('bin', 'd', '*', ('lit', 'd', k), e), f'{k} * {t}'
        p.trees[t] = e
        return t
    if x < .3:
        e = ('lit', 'd', '0')
    elif x < .6:
        e = ('lit', 'd', r.choice([str(r.randint(1, size)), f'{r.randint(0, size)}.5', f'.{r.randint(1, 99)}']))
        if r.random() < .3:
            e = ('un', 'd', '-', e)
    else:
        e = ex(r, r.choice([0, 1, 2]), 'd', p.dnames, p.inames)
    return p_text(r, p, e)


STRINGS = ['file.dat', 'with space', 'a,b;c', 'x=1', 'q"q', 'back\\slash', 'é∆', '%d %s', '', '// no', "it's", '/* no */', 'a)b', 'tab\there', 'two\nlines', 'NULL', '0', 'x' * 300]


def gen_value(r, p, typ):
    if typ == 'double':
        e = ex(r, r.choice([0, 0, 1, 2, 3]), r.choice('dddi'), p.dnames, p.inames)
        return p_text(r, p, e)
    if typ == 'int':
        return p_text(r, p, ex(r, r.choice([0, 0, 1, 2]), 'i', p.dnames, p.inames))
    if typ == 'string':
        x = r.random()
        if x < .4 and p.snames:
            return p_text(r, p, ('var', 's', r.choice(p.snames)))
        if x < .5:
            return p_text(r, p, ('gsf',))
        s = r.choice(STRINGS)
        t = cstr(s)
        p.strings[t] = s
        return t
    n = int(typ[6:])
    if n <= 3 and r.random() < .25:
        return p_text(r, p, (r.choice(['gvec', 'gvec', 'gvecf', 'gvecs']),))
    es = [ex(r, r.choice([0, 0, 1]), 'd', p.dnames, p.inames) for _ in range(n)]
    t = '{' + r.choice([', ', ',']).join(X.render(e, r) for e in es) + '}'
    p.trees[t] = ('vector', es)
    return t


def gen_extend(r, p, inc=None, own=()):
    ops = [('extend', [*p.uservars, *own])]
    ops += [('inc', a, '1' if b == 'int' else '2.5') for a, b in own if r.random() < .6]
    ds = [a for a, b in p.uservars if b == 'double']
    is_ = [a for a, b in p.uservars if b == 'int']
    if inc:
        ops.append(('inc', inc, '1'))
    if ds and r.random() < .6:
        ops.append(('ifscat', r.choice(ds), '1.25'))
    if is_ and r.random() < .6:
        ops.append(('ifscat', r.choice(is_), '1'))
    if is_ and r.random() < .4:
        ops.append(('inc', r.choice(is_), r.choice(['1', '2'])))
    if is_ and r.random() < .3:
        ops.append(('scatterif', r.choice(is_), 3, r.randint(0, 2)))
    if is_ and r.random() < .2:
        ops.append(('absorbif', r.choice(is_), 7, r.randint(0, 6)))
    if is_ and r.random() < .25:
        ops.append(('restoreif', r.choice(is_), 3, r.randint(0, 2)))
    text = write_ops(r, ops, p.w)
    p.ops[text] = ops
    return text


def gen_instrument_sections(r, p, f, model):
    pk = [(n, {'d': 'double', 'i': 'int', 's': 'string'}[k]) for n, k in p.kinds.items()]
    gl = [(g, 'double') for g in p.gd] + [(g, 'int') for g in p.gi] + [(g, 'string') for g in p.gs]
    names = [g for g in p.gd + p.gi]
    text = ''
    for g in p.gd:
        text += f'double {g} = {p.ginit[g]};\n'
    for g in p.gi:
        text += f'int {g} = {p.ginit[g]};\n'
    for g in p.gs:
        text += f'char *{g} = {cstr(p.ginit[g])};\n'
    text += f'double gvec[3] = {{{", ".join(map(str, p.gvec))}}};\ndouble gf(double u, double v) {{ return u*0.5 - v; }}\nchar *gsf(void) {{ return "from a function"; }}\ndouble *gvecf(void) {{ return gvec; }}\nstruct {{ int n; double data[3]; }} gvecs = {{3, {{{", ".join(map(str, p.gvec))}}}}};\n'
    text += 'int gnext(void) { static int many = 0; return 2 + many++ % 3; }\n'
    if p.libs and r.random() < .4:
        text = f'%include "{r.choice(list(p.libs))}"\n' + text
    model['sections']['declare'] = '\n' + text
    if p.uservars or p.jumpvars:
        lines = [f'{b} {a};' for a, b in p.uservars] + ([f'{p.arr[1]} {p.arr[0]}[3];', f'int {p.arr[0]}_after;'] if p.arr else []) + [f'int {v};' for v in p.jumpvars]
        model['sections']['user'] = '\n' + '\n'.join(lines) + '\n'
    log = lambda kind: f'mv_log("instrument {kind}");' + ''.join(log_par(x) for x in pk + gl) + ' mv_end();\n'
    p.init = []
    if r.random() < f['init_changes'] or r.random() < .5:
        text = '\n' + log('initialize')
        if r.random() < f['init_changes']:
            for _ in range(r.randint(1, 3)):
                w = r.choice('di')
                tgt = r.choice(p.dnames if w == 'd' else p.inames)
                e = ex(r, 2, w, p.dnames, p.inames)
                if w == 'i':
                    e = ('bin', 'i', '%', ('paren', 'i', e), ('lit', 'i', '50'))
                text += f'  {tgt} = {X.render(e, None)};\n'
                p.init.append((tgt, e))
        model['sections']['initialize'] = text
    names = [x['name'] for x in M.resolve_names(model['instances'])]

    def ask(kind):
        """where components are, by name"""
        if not f['asks'] or r.random() < .5:
            return ''
        idx = r.sample(names, r.randint(0, min(3, len(names)))) + r.choice([[], ['no_such_component', names[0] + '_']])
        far = [r.choices(names, k=2) for _ in range(r.randint(0, 2))]
        p.asked |= {x for a in far for x in a}
        p.asks[kind] = idx, far
        return ''.join(f' mv_int("n:{x}", _getcomp_index("{x}"));' for x in idx) + ''.join(f' mv_num("d:{a}:{b}", getdistance("{a}", "{b}"));' for a, b in far)
    if r.random() < .5:
        model['sections']['save'] = '\n' + log('save').replace(' mv_end();', ask('save') + ' mv_end();')
    if r.random() < .5:
        model['sections']['final'] = log('finally').replace(' mv_end();', ask('finally') + ' mv_end();')
    p.pk, p.gl = pk, gl


def sound(p):
    """the exclusions listed in DESIGN.md, on the resolved instrument"""
    inst = p.want['instances']
    if len({x['name'] for x in inst}) != len(inst):
        return False
    index = {x['name']: n for n, x in enumerate(inst)}
    if p.asked - set(index):
        return False
    groups = {}
    for n, x in enumerate(inst):
        if x['group'] is not None:
            groups.setdefault(x['group'], []).append(n)
    p.groups = groups
    for g, ids in groups.items():
        if ids != list(range(ids[0], ids[-1] + 1)):
            return False
        for n in ids:
            if inst[n]['jumps'] or (n != ids[0] and inst[n]['split'] is not None):
                return False
    inner = {n for ids in groups.values() for n in ids[1:]}
    splits = [n for n, x in enumerate(inst) if x['split'] is not None]
    seen = set()
    for n, x in enumerate(inst):
        for nm, typ, default in p.types[x['type']]['setting']:
            if default is None and nm not in x['params']:
                return False
        for j in x['jumps']:
            t = jump_target(j, n, index)
            if not 0 <= t < len(inst) or t in inner:
                return False
            if t <= n and splits:
                return False
            if any(n < s < t for s in splits):
                return False
            if t <= n and not j['iterate']:
                v = re.match(r'\(*\s*\(*(jv\d+)', j['cond'])
                if x['when'] is not None or not v or not any(f'{v.group(1)} += 1' in e for e in x['extend']):
                    return False
            if not j['iterate'] and (j['cond'] in seen and t <= n):
                return False
            seen.add(j['cond'])
            j['index'] = t
    return len(splits) <= 3


def jump_target(j, n, index):
    if j['form'] == 'MYSELF':
        return n
    if j['form'] == 'name':
        return index[j['to']]
    by = 1 if j['by'] is None else j['by']
    return n - by if j['form'] == 'PREVIOUS' else n + by


# ---------------------------------------------------------------- what an execution must show

class Runaway(Exception):
    pass


class Dead(Exception):
    """the ray was absorbed inside component code"""


def run_start(n, k):
    v = n * 37 + k * 11
    return (v % 23 - 11) * 0.137 + k * 0.01


def rot_set(x, y, z):
    if x == 0 and y == 0 and z == 0:
        return [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]
    cx, sx, cy, sy, cz, sz = math.cos(x), math.sin(x), math.cos(y), math.sin(y), math.cos(z), math.sin(z)
    return [[cy * cz, sx * sy * cz + cx * sz, sx * sz - cx * sy * cz], [-cy * sz, cx * cz - sx * sy * sz, sx * cz + cx * sy * sz], [sy, -sx * cy, cx * cy]]


def mat(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def tr(a):
    return [[a[j][i] for j in range(3)] for i in range(3)]


def app(a, v):
    return [sum(a[i][k] * v[k] for k in range(3)) for i in range(3)]


def c_number(text, kind):
    if kind == 'd':
        return float(eval(text, {}))
    return int(eval(text, {}))


class Sim:
    """Predicts the log of a program. Events are (id tuple, {field: value})."""

    def __init__(self, p, args=None, nrays=None, display=None, saves=None, funnel=False, nosplit=False):
        self.p, self.funnel, self.nosplit = p, funnel, nosplit
        self.args = p.args if args is None else args
        self.nrays = p.nrays if nrays is None else nrays
        self.display = p.mcdisplay if display is None else display
        self.saves = p.saves if saves is None else saves
        self.rays, self.sections, self.places = {}, [], []
        self.steps = 0
        self.many = 0
        self.inst = p.want['instances']
        self.run()

    def run(self):
        p = self.p
        env = dict(p.ginit)
        for q in p.model['params']:
            k = p.kinds[q['name']]
            v = self.args.get(q['name'])
            if v is None:
                t = q['default']
                env[q['name']] = unc(t) if k == 's' else c_number(t, k)
            else:
                env[q['name']] = v if k == 's' else (float(v) if k == 'd' else int(v))
        self.env = env
        self.instrument('initialize')
        for t, e in p.init:
            env[t] = ev(e, env)
        # placements and values
        self.state, index = [], {}
        env['distance at setpos'] = lambda a, b: math.dist(self.state[index[a]]['P'], self.state[index[b]]['P'])
        for n, x in enumerate(self.inst):
            index[x['name']] = n
            a = [math.radians(ev(p.trees[t], env)) if t in p.trees else math.radians(float(t)) for t in x['rot']]
            v = [float(ev(p.trees[t], env)) for t in x['at']]
            R = rot_set(*a)
            if x['rot_ref'] is not None and 'fixed_rot' not in x:
                R = mat(R, self.state[index[x['rot_ref']]]['R'])
            if x['at_ref'] is not None and 'fixed_at' not in x:
                b = self.state[index[x['at_ref']]]
                v = [s + d for s, d in zip(b['P'], app(tr(b['R']), v))]
            # a component can be placed where another execution has it instead
            v, R = x.get('fixed_at') or v, x.get('fixed_rot') or R
            self.state.append(dict(R=R, P=v, vars=self.values(x)))
            self.places.append((('place', x['name']), dict(pos=v, rot=sum(R, []))))
        for n, x in enumerate(self.inst):
            self.section(n, 'initialize')
        if self.display:
            for n, x in enumerate(self.inst):
                self.section(n, 'display')
        self.sections.append((('rays',), {}))
        self.trace_all()
        for _ in range(self.saves):
            self.sections.append((('save-requested',), {}))
            self.save()
        self.sections.append((('finish',), {}))
        self.save()
        self.instrument('finally')
        for n, x in enumerate(self.inst):
            self.section(n, 'final')
        self.sections.append((('exit',), {}))

    def save(self):
        self.instrument('save')
        for n, x in enumerate(self.inst):
            self.section(n, 'save')

    def instrument(self, kind):
        p = self.p
        if {'initialize': 'initialize', 'save': 'save', 'finally': 'final'}[kind] in p.model['sections']:
            said = {a: self.env[a] for a, b in p.pk + p.gl}
            idx, far = p.asks.get(kind, ((), ()))
            names = [x['name'] for x in self.inst]
            said.update({f'n:{x}': names.index(x) + 1 if x in names else -1 for x in idx})
            said.update({f'd:{a}:{b}': math.dist(self.state[names.index(a)]['P'], self.state[names.index(b)]['P']) for a, b in far})
            self.sections.append((('instrument', kind), said))

    def value(self, text, typ):
        p = self.p
        if typ == 'string':
            if text in p.trees:
                e = p.trees[text]
                return 'from a function' if e[0] == 'gsf' else self.env[e[2]]
            return p.strings[text]
        e = p.trees[text]
        if typ.startswith('vector'):
            return list(p.gvec)[:int(typ[6:])] if e[0] in ('gvec', 'gvecf', 'gvecs') else [float(ev(x, self.env)) for x in e[1]]
        v = ev(e, self.env)
        return float(v) if typ == 'double' else v

    def values(self, x):
        out = {}
        for nm, typ, default in self.p.types[x['type']]['setting']:
            if nm in x['params']:
                out[nm] = self.value(x['params'][nm], typ)
            elif typ == 'string':
                out[nm] = '' if default in ('NULL', '0') else unc(default)
            elif typ.startswith('vector'):
                out[nm] = None if default == 'NULL' else [float(v) for v in default.strip('{}').split(',')]
            else:
                out[nm] = c_number(default, 'd' if typ == 'double' else 'i')
        for nm, typ, init in self.p.types[x['type']]['declare']:
            out[nm] = copy.copy(init)
        return out

    def section(self, n, which):
        for text in self.p.comps[self.inst[n]['type']]['sections'][which]:
            self.do(n, self.p.ops[text], None)

    def snapshot(self, n, pars):
        v = self.state[n]['vars']
        out = {}
        for a, b in pars:
            out[a] = copy.copy(v[a])
        return out

    def do(self, n, ops, ray):
        """component code; raises Dead when the ray is absorbed"""
        x, s = self.inst[n], self.state[n]
        v = s['vars']
        for o in ops:
            self.steps += 1
            if self.steps > 20000:
                raise Runaway()
            k = o[0]
            if k == 'sec':
                e = (('sec', o[1], o[2], x['name'], n + 1), {**{'p:' + a: b for a, b in self.snapshot(n, o[3]).items()},
                                                           **{'s:' + a: b for a, b in self.snapshot(n, o[4]).items()}})
                (self.sections if ray is None else self.rays[ray['uid']]).append(e)
            elif k == 'set':
                v[o[1]] = ev(o[3], v)
                if isinstance(v[o[1]], int) and dict((a, b) for a, b, _ in self.p.types[x['type']]['declare'])[o[1]] == 'double':
                    v[o[1]] = float(v[o[1]])
            elif k == 'copy':
                v[o[1]] = o[2][:15]
            elif k == 'alloc':
                v[o[1]] = float(ev(o[3], v))
            elif k == 'free':
                v[o[1]] = None
            elif k == 'call':
                self.sections.append((('call', x['name'], o[1]), {'value': 2 * float(o[2]) + o[3]}))
            elif k == 'show':
                pass
            elif k == 'inc':
                t = v if ray is None or o[1] in v else ray['u']
                t[o[1]] += int(o[2]) if isinstance(t[o[1]], int) else float(o[2])
            elif k == 'trace':
                f = {'C': ray['c'][:9] + [ray['t']], 'w': ray['p'], 'pos': s['P'], 'rot': sum(s['R'], []), 'extra': 7. if self.p.neutron else 0., 'rand': self.draw(ray)}
                for a, b in self.p.uservars:
                    f['u:' + a] = ray['u'][a]
                    if b == 'double':
                        f['id:' + a] = ray['u'][a]
                for a, b in o[2]:
                    f['c:' + a] = ray['u'][f'{a}_{n + 1}']
                f['unknown'] = (1, 1, 1)
                self.rays[ray['uid']].append((('trace', x['name'], n + 1, ray['uid'], o[1]), f))
            elif k == 'uvset':
                ray['u'][o[1]] += int(o[3]) if o[2] == 'int' else float(o[3])
            elif k == 'cuset':
                ray['u'][f'{o[1]}_{n + 1}'] += int(o[3]) if o[2] == 'int' else float(o[3])
            elif k == 'arr':
                self.rays[ray['uid']].append((('arr', x['name']), {'u:a': [float(n + 2), float(ray['uid']), 2.5 if self.p.arr[1] in ('double', 'float', 'char *') else 2.], 'u:same': 2, 'u:after': 77}))
            elif k == 'act':
                self.act(o[1], n, ray)
            elif k == 'extend':
                self.rays[ray['uid']].append((('extend', x['name'], ray['uid']), {'S': ray['scattered'], **{'u:' + a: ray['u'][a] for a, b in o[1]}}))
            elif k == 'ifscat':
                if ray['scattered']:
                    ray['u'][o[1]] += int(o[2]) if isinstance(ray['u'][o[1]], int) else float(o[2])
            elif k == 'absorbif':
                if math.fmod(ray['u'][o[1]], o[2]) == o[3]:
                    raise Dead()
            elif k == 'scatterif':
                if math.fmod(ray['u'][o[1]], o[2]) == o[3]:
                    ray['scattered'] += 1
            elif k == 'restoreif':
                if math.fmod(ray['u'][o[1]], o[2]) == o[3]:
                    ray['p'] *= 2
                    ray['restore'] = True
            else:
                raise ValueError(k)

    def act(self, table, n, ray):
        M64 = (1 << 64) - 1
        h = (ray['uid'] * 2654435761 + (n + 1) * 40503 + self.calls.get(ray['uid'], 0) * 69069) & M64
        h ^= h >> 7
        h = (h * 2246822519) & M64
        h ^= h >> 11
        h &= 0xffffff
        self.calls[ray['uid']] = self.calls.get(ray['uid'], 0) + 1
        a = table[h % len(table)]
        c = ray['c']
        if a == 'm':
            c[0] += .25 * c[3]
            c[2] += .5 * c[5]
            ray['t'] += .125
        elif a == 's':
            ray['scattered'] += 1
            c[3] = .01 - c[3]
            c[7] += .5
            ray['p'] *= .75
        elif a == 'a':
            raise Dead()
        elif a == 'S':
            ray['scattered'] += 1
            raise Dead()
        elif a == 'r':
            c[0] += 1
            ray['t'] += 1
            ray['p'] *= 3
            c[4] -= 2
            c[8] += 1
            ray['restore'] = True
        elif a == 'R':
            ray['scattered'] += 1
            c[1] += 1
            ray['restore'] = True
        elif a == 'n':
            c[4] = math.nan
        elif a == 'i':
            c[5] = -math.inf

    # ---- the journey of one ray

    def fresh(self, n):
        u = {}
        for a, b in self.p.uservars:
            u[a] = 0. if b == 'double' else 0
        for v in self.p.jumpvars:
            u[v] = 0
        for k, x in enumerate(self.inst):
            for a, b in self.p.types[x['type']]['user']:
                u[f'{a}_{k + 1}'] = 0. if b == 'double' else 0
        c = [run_start(n, k) for k in range(9)]
        c[5] += 1
        return dict(uid=n, c=c, t=0., p=1., u=u, scattered=0, dead=False, restore=False, frame=None, loops={}, rs=[(n + 1) * (self.p.seed + 1) * 2654435761 % 2 ** 64])

    def draw(self, ray):
        """the next random number of the ray, which its copies continue"""
        s = ray['rs']
        s[0] = (s[0] * 6364136223846793005 + 1442695040888963407) % 2 ** 64
        return s[0] >> 16 & 0xffffff

    def trace_all(self):
        self.calls = {}
        self.codeless = {x['name'] for x in self.inst if not any(self.p.ops[t] for t in [*self.p.comps[x['type']]['sections']['trace'], *x['extend']])}
        order = []
        for n in range(self.nrays):
            self.rays[n] = []
            self.journey(self.fresh(n), 0)

    def clone(self, ray):
        y = dict(ray)
        y['c'], y['u'], y['loops'] = list(ray['c']), dict(ray['u']), dict(ray['loops'])
        return y

    def enter(self, ray, n):
        """coordinates of component n"""
        s = self.state[n]
        R0, P0 = ray['frame'] or ([[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]], [0., 0., 0.])
        c = ray['c']
        R = mat(s['R'], tr(R0))
        glob = [a + b for a, b in zip(P0, app(tr(R0), c[:3]))]
        c[:3] = app(s['R'], [a - b for a, b in zip(glob, s['P'])])
        c[3:6] = app(R, c[3:6])
        c[6:9] = app(R, c[6:9])
        ray['frame'] = (s['R'], s['P'])

    def visible(self, ray):
        p = self.p
        e = dict(self.env)
        e.update(ray['u'])
        c = ray['c']
        v = 'v' if p.neutron else 'k'
        e.update(x=c[0], y=c[1], z=c[2], t=ray['t'], p=ray['p'], **{v + 'z': c[5], v + 'x': c[3]})
        return e

    def component(self, ray, n, saved):
        """one passage through component n, already in its coordinates"""
        x = self.inst[n]
        comp = self.p.comps[x['type']]
        ray['scattered'], ray['restore'] = 0, False
        if not comp['sections']['trace'] and not x['extend']:
            return
        if x['name'] not in self.codeless:
            self.rays[ray['uid']].append((('told', x['name'], ray['uid']), {'C': ray['c'][:9] + [ray['t']], 'w': ray['p']}))
        if x['when'] is not None and not ev(self.p.trees[x['when']], self.visible(ray)):
            return
        try:
            for text in comp['sections']['trace']:
                self.do(n, self.p.ops[text], ray)
            if not all(map(math.isfinite, ray['c'][:6] + [ray['t'], ray['p']])):
                raise Dead()
            for text in x['extend']:
                self.do(n, self.p.ops[text], ray)
        except Dead:
            ray['dead'] = True
        if ray['restore']:
            self.restore(ray, saved)

    def restore(self, ray, saved):
        ray['c'], ray['t'], ray['p'] = list(saved['c']), saved['t'], saved['p']
        ray['dead'] = ray['restore'] = False

    def journey(self, ray, i, jumped=False, split=True):
        N = len(self.inst)
        saved = None
        while i < N and not ray['dead']:
            self.steps += 1
            if self.steps > 20000:
                raise Runaway()
            x = self.inst[i]
            if x['split'] is not None and split and not self.nosplit:
                if self.p.trees.get(x['split']) == ('next',):
                    count = 2 + self.many % 3
                    self.many += 1
                else:
                    count = int(ev(self.p.trees[x['split']], self.visible(ray)) if x['split'] in self.p.trees else int(x['split']))
                for _ in range(count):
                    y = self.clone(ray)
                    y['p'] /= count
                    self.journey(y, i, jumped, False)
                return
            split = True
            if jumped:
                ray['frame'] = (self.state[i]['R'], self.state[i]['P'])
            else:
                self.enter(ray, i)
            jumped = False
            ids = self.p.groups.get(x['group']) if x['group'] is not None else None
            if ids is None or ids[0] == i:
                saved = self.clone(ray)
            else:
                self.enter(saved, i)
            self.component(ray, i, saved)
            nxt = i + 1
            for j in ([] if self.funnel else x['jumps']):
                if j['iterate']:
                    k = (i, j['index'])
                    ray['loops'][k] = ray['loops'].get(k, 0) + 1
                    if ray['loops'][k] < ev(self.p.trees[j['cond']], self.visible(ray)):
                        nxt, jumped = j['index'], True
                    else:
                        ray['loops'][k] = 0
                elif ev(self.p.trees[j['cond']], self.visible(ray)):
                    nxt, jumped = j['index'], True
            if ids is not None:
                if ray['scattered']:
                    nxt = ids[-1] + 1
                elif i == ids[-1]:
                    ray['dead'] = True
                else:
                    self.restore(ray, saved)
            i = nxt


def unc(t):
    return M.unquote(t).replace('\\"', '"').replace('\\\\', '\\')
