"""C24: translation to C is deterministic and repeatable."""
import difflib, json, os, re, shutil, subprocess, sys, tempfile
from pathlib import Path
from ..core import Result, rng
from ..lib import imodel as M, prog as G, progrun as R

RULE = ('batches of random programs (libraries, groups, user variables, metadata, dependencies, CPU instances, splits, jumps) are parsed and translated in several processes with different hash seeds, each in its own order with repeats: just parsed, '
        'the same object again, its copy, after its text, flags and metadata were asked for, after translation for the other flavour, re-read from its own text, and through a translator that is used again or saves to a file. Generated C (without the Date line; line directives only where the text differs), instrument text and '
        'flags have to be the same text for all of them; distinct = programs, non-trivial = compared over at least two hash seeds')
ASSUMPTIONS = ['the Date line of the header is the time of translation', 'positions in #line directives are those of the text that was parsed']
MINIMUM = {'quick': dict(evaluations=90, distinct=90, translations=900, pairs=800, seeds=60, reread=50, copies=80), 'thorough': dict(evaluations=2500, distinct=2500, translations=30000)}
HOWS = ['parsed', 'parsed', 'same', 'same', 'copy', 'copy-first', 'asked', 'other-flavour', 'reread', 'twice', 'saved', 'translated-saved', 'asked-twice', 'defaults']
EMPHASIS = dict(include=.6, n_comp=(2, 5), n_inst=(2, 7), metadata=.5, group=.4, jump=.3)


def chunks(tier, seed):
    n, per, kids, jobs = (16, 7, 4, 20) if tier == 'quick' else (150, 18, 6, 40)
    return [dict(seed=seed, n=i, per=per, kids=kids, jobs=jobs) for i in range(n)]


def normal(c, reread):
    c = re.sub(r'^\s*\* Date: .*$', ' * Date:', c, flags=re.M)
    return re.sub(r'\[<string>:\d+\]', '[<string>]', re.sub(r'^\s*#line .*$', '#line', c, flags=re.M)) if reread else c


def first_difference(a, b):
    return '\n'.join(list(difflib.unified_diff(a.splitlines(), b.splitlines(), lineterm='', n=1))[:14])


def program(r, d):
    neutron = r.random() < .7
    p = G.gen(r, EMPHASIS, neutron)
    for k, m in enumerate(p.raw):
        if r.random() < .5:
            m['dependency'] = r.choice([f'-DA{k}', f'-DA{k} -lm', '-lm', f'-DA{k}=ENV(HOME)', '@NEXUSFLAGS@', f'-I{k} -L/x'])
    if r.random() < .4:
        p.model['dependency'] = r.choice(['-DINSTR', '-lm', '-DINSTR=1 -DTWO', '@GSLFLAGS@'])
    for x in p.model['instances']:
        if r.random() < .05:
            x['cpu'] = True
    tx = R.Texts(p, r)
    home = d / f'p{len(list(d.iterdir()))}'
    shutil.move(tx.dir, home)
    cfg = dict(portable=r.random() < .3, enable_trace=r.random() < .8, default_main=r.random() < .9)
    return dict(instr=tx.instr, comps=tx.comps, dir=str(home), neutron=neutron, config=cfg)


def run(desc, res: Result):
    r = rng('c24', desc['seed'], desc['n'])
    d = Path(tempfile.mkdtemp(prefix='again'))
    try:
        programs = [program(r, d) for _ in range(desc['per'])]
        seeds = ['0'] + [str(r.randrange(1, 2 ** 32 - 1)) for _ in range(desc['kids'] - 1)]
        kids = []
        for k, s in enumerate(seeds):
            jobs = [[r.randrange(len(programs)), r.choice(HOWS)] for _ in range(desc['jobs'] - len(programs))]
            jobs += [[i, r.choice(HOWS)] for i in range(len(programs))]   # every program in every process
            r.shuffle(jobs)
            spec, out = d / f'spec{k}.json', d / f'out{k}.json'
            spec.write_text(json.dumps(dict(dir=str(d), programs=programs, jobs=jobs)))
            p = subprocess.run([sys.executable, '-B', '-m', 'mv.lib.again', str(spec), str(out)], env=dict(os.environ, PYTHONHASHSEED=s), capture_output=True, text=True, timeout=280)
            if p.returncode or not out.exists():
                res.unsure(f'process failed: {p.stderr[-400:]}')
                continue
            res.count('seeds')
            kids.append((s, json.loads(out.read_text())))
        for i, q in enumerate(programs):
            ref = None
            used = set()
            for s, recs in kids:
                for n, x in enumerate(recs):
                    if x['i'] != i:
                        continue
                    res.count('translations')
                    how = x['how']
                    before = [y['how'] for y in recs[:n] if y['i'] == i]
                    me = f'{how} (hash seed {s}, earlier in this process: {before})'
                    case = dict(instr=q['instr'], comps=q['comps'], config=q['config'], neutron=q['neutron'], libs={f.name: f.read_text() for f in Path(q['dir']).glob('*.[ch]')})
                    if 'error' in x:
                        res.violate('error:' + how, f'{me}: {x["error"]}\n{q["instr"]}', case)
                        continue
                    if how == 'reread':
                        res.count('reread')
                    if how.startswith('copy'):
                        res.count('copies')
                    used.add(s)
                    if ref is None or (ref[0]['how'] == 'reread' and how != 'reread'):
                        if ref is not None:
                            x, ref, me, old = ref[0], (x, me), ref[1], None
                        else:
                            ref = (x, me)
                            continue
                    y, you = ref
                    res.count('pairs')
                    for what in ('c', 'text', 'flags'):
                        a, b = x[what], y[what]
                        if what == 'flags':
                            a, b = '\n'.join(a), '\n'.join(b)
                            if 'reread' in (x['how'], y['how']):
                                a, b = '\n'.join(a.split()), '\n'.join(b.split())
                        elif what == 'c':
                            rr = 'reread' in (x['how'], y['how'])
                            a, b = normal(a, rr), normal(b, rr)
                        if a != b:
                            cause = x['how'] if x['how'] not in ('parsed', 'same') else y['how'] if y['how'] not in ('parsed', 'same') else 'process'
                            res.violate(f'{what}:{cause}', f'the {dict(c="generated C", text="instrument text", flags="flags")[what]} differ between {me} and {you}:\n{first_difference(b, a)}', case)
                            break
            res.case(q['instr'] + ''.join(q['comps'].values()), len(used) > 1, dict(instr=q['instr'][:1500]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
