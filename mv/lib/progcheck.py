"""The checks which run generated programs: one workload, each check with its own emphasis and the aspects of the log it decides."""
from __future__ import annotations
from ..core import Result, rng
from . import imodel as M, prog as G, progrun as R

GROUPS = {'coordinates', 'placement', 'sequence', 'weight', 'scattered', 'parameters', 'table', 'declared', 'order', 'uservars', 'state', 'included', 'memory', 'crash'}
MODES = dict(plain=dict(), nosplit=dict(flags=['-DNOSPLIT'], sim=dict(nosplit=True)),
             nexus=dict(flags=['-DUSE_NEXUS', '-DMV_NEXUS']), funnel=dict(flags=['-DFUNNEL', '-DNOSPLIT'], sim=dict(nosplit=True, funnel=True)))


def features_of(p):
    """which modifiers a program uses"""
    out = set()
    if getattr(p, 'nested', False):
        out.add('nested-loops')
    for x in p.want['instances']:
        for k in ('split', 'when', 'group', 'rot'):
            if x[k] is not None:
                out.add(k)
        if x['extend']:
            out.add('extend')
        for j in x['jumps']:
            out.add('iterate' if j['iterate'] else 'jump')
        if x['at_ref'] is not None:
            out.add('relative')
        if not p.comps[x['type']]['sections']['trace']:
            out.add('no-trace')
        if x['params']:
            out.add('parameters')
        if p.types[x['type']]['user']:
            out.add('component-uservars')
        if p.comps[x['type']]['metadata'] or x['metadata']:
            out.add('metadata')
    for i, x in zip(p.model['instances'], p.want['instances']):
        if i['copy'] and not i['jumps'] and any(j['form'] != 'name' for j in x['jumps']):
            out.add('copied-relative-jump')
        if p.trees.get(x['split']) == ('next',):
            out.add('counted-split')
        if any(o[0] == 'restoreif' for e in x['extend'] for o in p.ops.get(e, [])):
            out.add('extend-restore')
    if any(p.asks.values()):
        out.add('asked-places')
    if any('setpos_getdistance' in t for x in p.want['instances'] for t in x['at']):
        out.add('distance-placed')
    if p.uservars:
        out.add('uservars')
    if p.libs:
        out.add('libraries')
    if p.mcdisplay:
        out.add('display')
    if p.want['metadata']:
        out.add('metadata')
    return out


def chunks_of(quick, thorough):
    def chunks(tier, seed):
        n, per = quick if tier == 'quick' else thorough
        return [dict(seed=seed, n=i, per=per) for i in range(n)]
    return chunks


def one(pid, r, res: Result, aspects, emphasis, san=0., modes=dict(plain=1), extra=None, flavours=.8, nontrivial=None, only=None, how=None, libc=False):
    """generate, predict, translate, compile, run and judge one program"""
    f = dict(emphasis or {})
    neutron = r.random() < flavours
    mode = r.choices(list(modes), list(modes.values()))[0]
    how_ = r.choice(how) if how else 'parsed'
    p = G.gen(r, f, neutron)
    try:
        sim = G.Sim(p, **MODES[mode].get('sim', {}))
    except G.Runaway:
        res.count('runaway')
        return
    sanitize = r.random() < san
    p.flags = MODES[mode].get('flags', ())
    compiler = 'clang' if r.random() < .25 else 'gcc'
    tx = R.Texts(p, r)
    if libc and r.random() < .4:
        tx.use_libc(r)
        res.count('with_libc')
    case = dict(mode=mode, neutron=neutron, args=p.args, rays=p.nrays, sanitize=sanitize, compiler=compiler, how=how_)
    try:
        instr = tx.parse()
        if how_ == 'copy':
            instr = instr.copy()
        elif how_ == 'again':
            with tx.standard():
                R.translate(instr, neutron)
        elif how_ == 'reread':
            tx.instr = text_of(instr)
            instr = tx.parse()
        with tx.standard():
            c = R.translate(instr, neutron)
        exe = R.build(c, tx.dir, flags=MODES[mode].get('flags', ()), san=sanitize, compiler=compiler)
        rc, log, out, err = R.execute(exe, tx.dir, p)
        found, seen = R.judge(p, sim, log, rc, err)
        if extra:
            found = list(found) + list(extra(p, instr, c, seen, res))
    except R.Broken as ex:
        if how_ == 'reread' and ex.mech.startswith('rejected'):  # C06 decides this
            res.count('not_reread')
            return
        case['texts'] = tx.all()
        res.case(case['texts'], sample=None)
        res.violate(ex.mech, f'{ex}', case)
        return
    finally:
        tx.close()
    fs = features_of(p)
    key = tx.instr + ''.join(tx.comps.values())
    res.case(key, nontrivial(p, fs, seen) if nontrivial else True, sample=dict(instr=tx.instr[:1500], rays=p.nrays, events=sum(map(len, seen.rays.values()))))
    res.count('programs_' + mode)
    res.count('programs_' + ('mcstas' if neutron else 'mcxtrace'))
    if how:
        res.count('how_' + how_)
    if sanitize:
        res.count('programs_sanitized')
    for k in fs:
        res.count('with_' + k)
    res.count('rays', len(seen.rays))
    res.count('ray_events', sum(map(len, seen.rays.values())))
    res.count('section_events', len(seen.sections))
    res.count('placements', len(seen.places))
    mine = [(a, m) for a, m in found if a in aspects]
    if found and not mine:
        res.count('differences_decided_by_other_checks')
    if mine:
        case['texts'] = tx.all()
        case['log'] = log[:6000]
        for a, m in mine[:3]:
            res.violate(a, m, case)


def text_of(instr):
    import io
    out = io.StringIO()
    instr.to_file(out)
    return out.getvalue()
