#!/usr/bin/env python3
"""Mutation sweep: try single small changes of the code in scratch copies, and say which checks notice.

usage: tools/mutate.py FILE.py [ID ...]     FILE.py defines M = [(id, path under src/mccode_antlr, old, new, 'Cxx Cyy')]
Everything happens in copies of /repo and /verif in a scratch directory; results are appended to FILE.log
"""
import sys, os, subprocess, tempfile, shutil, json, runpy
from pathlib import Path
from concurrent.futures import ThreadPoolExecutor

STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def one(args):
    root, (mid, path, old, new, props) = args
    d = Path(root) / mid
    (d / 'verif').mkdir(parents=True)
    subprocess.run(['cp', '-a', os.environ.get('MUT_REPO', '/repo'), str(d / 'repo')], check=True)
    for n in ('bin', 'mv', 'known_findings.txt'):
        subprocess.run(['cp', '-a', f'{Path(__file__).resolve().parents[1]}/{n}', str(d / 'verif')], check=True)
    try:
        f = d / 'repo/src/mccode_antlr' / path
        text = f.read_text()
        if isinstance(old, tuple):  # (start, end, text, line): offsets in bytes
            b = text.encode()
            if b[old[0]:old[1]].decode() != old[2]:
                return mid, 'BAD OFFSETS'
            f.write_bytes(b[:old[0]] + new.encode() + b[old[1]:])
            mid += f' {path}:{old[3]} {old[2]!r} -> {new!r}'
        elif text.count(old) != 1:
            return mid, f'BAD PATTERN ({text.count(old)} matches)'
        else:
            f.write_text(text.replace(old, new))
        env = dict(os.environ)
        r = subprocess.run(['bash', '-c', f'. /opt/vp/env.sh; cd {d}/repo; export PYTHONPATH={d}/repo/src; python -m pytest -q '
                            f'-p no:cacheprovider --timeout=300 --continue-on-collection-errors --ignore=tests/test_registry.py '
                            f'-o junit_family=xunit2 --junitxml={d}/junit.xml tests; python3 /opt/vp/results.py {d}/o.json junit:{d}/junit.xml'],
                           capture_output=True, text=True, errors='replace', env=env)
        lost = STABLE - set(json.load(open(d / 'o.json'))['passed'])
        if lost:
            return mid, f'stable tests notice: {sorted(lost)[:2]}'
        out = []
        for p in props.split():
            env = dict(os.environ, MV_REPO=str(d / 'repo'), VERIF_SEED='1', VERIF_TIER='quick')
            r = subprocess.run([str(d / 'verif/bin/check'), p], capture_output=True, text=True, errors='replace', env=env, timeout=1500)
            first = ''
            for q in sorted((d / 'verif/evidence/replay').glob(f'{p}-*.json')):
                j = json.loads(q.read_text())
                first = f"[{j['mech']}] {str(j['msg'])[:150]!r}"
                break
            out.append(f'{p}={ {0: "MISSED", 1: "caught"}.get(r.returncode, f"rc {r.returncode} " + r.stderr[-300:] + r.stdout[-300:]) } {first}')
            if r.returncode == 1:
                break
        return mid, ' ; '.join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    src = Path(sys.argv[1])
    muts = [m for m in runpy.run_path(str(src))['M'] if len(sys.argv) == 2 or m[0] in sys.argv[2:]]
    root = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    os.chmod(root, 0o755)  # for checks which give up their privileges
    try:
        with ThreadPoolExecutor(int(os.environ.get('JOBS', 2))) as ex, open(src.with_suffix('.log'), 'a') as log:
            for mid, text in ex.map(one, [(root, m) for m in muts]):
                line = f'{mid}: {text}'
                print(line, flush=True)
                print(line, file=log, flush=True)
    finally:
        shutil.rmtree(root, ignore_errors=True)


main()
