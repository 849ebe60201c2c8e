"""Run one check: distribute its work over processes, collect observations, decide, write evidence."""
from __future__ import annotations
import argparse, importlib, json, multiprocessing as mp, os, signal, sys, time, traceback
from pathlib import Path
from .core import Result, short_tb

HERE = Path(__file__).resolve().parent.parent
REPO = Path(os.environ['MV_REPO'])


class ChunkTimeout(BaseException):
    pass


def _alarm(sig, frame):
    raise ChunkTimeout()


def _work(args):
    mod, desc, limit = args
    m = importlib.import_module(mod)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    res = Result()
    try:
        m.run(desc, res)
    except ChunkTimeout:
        res.unsure(f'chunk {desc} exceeded its {limit} s watchdog')
    except BaseException as ex:  # an error of the check itself is never a verdict
        res.unsure(f'harness error in chunk {desc}: {short_tb(ex, 6)}')
        res.counters['harness_errors'] = res.counters.get('harness_errors', 0) + 1
    finally:
        signal.alarm(0)
    for v in res.violations:
        if isinstance(v['case'], dict):
            v['case'].setdefault('_chunk', desc)
    return res


def known_findings(prop):
    out = {}
    f = HERE / 'known_findings.txt'
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith('finding:'):
                parts = line.split(None, 3)
                p, k = parts[1].split('=', 1)[1], parts[2].split('=', 1)[1]
                if p == prop:
                    out[k] = parts[3] if len(parts) > 3 else ''
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    modname = f'mv.checks.{a.prop.lower()}'
    mod = importlib.import_module(modname)
    import mccode_antlr
    if not Path(mccode_antlr.__file__).resolve().is_relative_to(REPO.resolve()):
        print(f'ERROR: mccode_antlr imported from {mccode_antlr.__file__}, not {REPO}', file=sys.stderr)
        return 4
    from .core import quiet_logs
    quiet_logs()
    if a.replay:
        case = json.loads(Path(a.replay).read_text())
        res = Result()
        case = case['case']
        if 'probe' in case:
            msg = mod.PROBES[case['probe']]()
            if msg:
                res.violate('probe:' + case['probe'], msg, case)
        elif hasattr(mod, 'replay'):
            mod.replay(case, res)
        else:  # rerun the whole chunk of work that showed it
            mod.run(case['_chunk'], res)
        for v in res.violations:
            print('REPRODUCED', v['mech'], v['msg'])
        print('violations on replay:', len(res.violations))
        return 1 if res.violations else 0

    total = Result()
    cap = getattr(mod, 'CAP', {}).get(tier, 500 if tier == 'quick' else 6 * 3600)
    limit = getattr(mod, 'CHUNK_LIMIT', {}).get(tier, 300 if tier == 'quick' else 1800)
    if hasattr(mod, 'prepare'):
        mod.prepare(tier)
    chunks = list(mod.chunks(tier, a.seed))
    if a.scale != 1.0:
        chunks = chunks[:max(1, int(len(chunks) * a.scale))]
    ctx = mp.get_context('fork')
    done = 0
    # never terminated: Pool.terminate can wait forever for a lock that a worker held when it was ended (see leave)
    pool = ctx.Pool(a.jobs, maxtasksperchild=getattr(mod, 'MAXTASKS', None))
    it = pool.imap_unordered(_work, [(modname, c, limit) for c in chunks])
    while done < len(chunks):
        left = cap - (time.time() - t0)
        if left <= 0:
            total.count('chunks_not_run_in_time', len(chunks) - done)
            break
        try:
            total.merge(it.next(timeout=left))
            done += 1
        except mp.TimeoutError:
            continue
        except StopIteration:
            break
        if len(total.violations) >= 200:
            break
    known = known_findings(a.prop)
    found = []
    for key, probe in getattr(mod, 'PROBES', {}).items():
        try:
            msg = probe()
        except BaseException as ex:
            msg = f'probe error: {short_tb(ex)}'
        total.count('probes_run')
        if msg:
            if key in known:
                found.append((key, known[key], msg))
            else:
                total.violations.append(dict(mech='probe:' + key, msg=msg, case=dict(probe=key)))
    samples = []
    for s in total.samples:
        if s not in samples:
            samples.append(s)
        if len(samples) >= 12:
            break
    wall = time.time() - t0
    coverage = dict(evaluations=total.evaluations, distinct_nontrivial=len(total.distinct), rule=mod.RULE,
                    samples=samples or ['(none)'], chunks=done, counters=dict(sorted(total.counters.items())))
    if total.inconclusive:
        coverage['inconclusive'] = total.inconclusive[:10]
    ev = dict(property=a.prop, tier=tier, seed=a.seed, level=getattr(mod, 'LEVEL', 'exploration'), coverage=coverage,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=len(total.violations))
    evdir = HERE / 'evidence'
    evdir.mkdir(exist_ok=True)
    (evdir / f'{a.prop}.json').write_text(json.dumps(ev, indent=1, default=str) + '\n')
    for key, what, msg in found:
        print(f'KNOWN-FINDING: property={a.prop} {key}: {what}')
    print(f'{a.prop} tier={tier} seed={a.seed}: {total.evaluations} evaluations, {len(total.distinct)} distinct, '
          f'{done}/{len(chunks)} chunks, {wall:.1f} s')
    for k, v in sorted(total.counters.items()):
        print(f'  {k} = {v}')
    if total.violations:
        seen = set()
        n = 0
        for v in total.violations:
            if v['mech'] in seen:
                continue
            seen.add(v['mech'])
            rp = evdir / 'replay'
            rp.mkdir(exist_ok=True)
            f = rp / f'{a.prop}-{n}.json'
            f.write_text(json.dumps(v, indent=1, default=str) + '\n')
            print(f'VIOLATION property={a.prop} replay={f.relative_to(HERE)}')
            print(f'  {v["mech"]}: {v["msg"]}')
            n += 1
            if n >= 8:
                break
        print(f'{len(total.violations)} violations, {len(seen)} distinct mechanisms')
        return 1
    problems = []
    if total.counters.get('harness_errors'):
        problems.append('errors of the harness itself')
    need = mod.MINIMUM[tier] if isinstance(getattr(mod, 'MINIMUM', {}).get(tier), dict) else {}
    for k, v in need.items():
        have = {'evaluations': total.evaluations, 'distinct': len(total.distinct)}.get(k, total.counters.get(k, 0))
        if have < v * (a.scale if a.scale < 1 else 1):
            problems.append(f'{k}: observed {have}, needs {v}')
    if len(total.inconclusive) > max(2, 0.02 * max(1, done)):
        problems.append(f'{len(total.inconclusive)} inconclusive runs')
    if problems:
        print('INCONCLUSIVE: ' + '; '.join(problems))
        for m in total.inconclusive[:5]:
            print('   ', m)
        return 2
    for m in total.inconclusive[:5]:
        print('  (inconclusive, tolerated)', m)
    return 0


def leave(rc):
    """end at once, with every worker: nothing waits for a lock"""
    sys.stdout.flush()
    sys.stderr.flush()
    for _ in range(2):
        for child in mp.active_children():
            try:
                os.kill(child.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
    os._exit(rc if isinstance(rc, int) else 4)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit as ex:
        rc = ex.code
    except BaseException:
        traceback.print_exc()
        rc = 4
    leave(rc)
