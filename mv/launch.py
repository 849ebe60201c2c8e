"""Prepare the offline environment in a scratch directory, run mv.main in it, clean up.

Importing mccode_antlr.reader wants a McCode git tag list and three registry files.  The project's
own configuration variables are pointed at an empty local git repository and empty file lists, all
inside one scratch directory that is removed when the run ends.
"""
import os, shutil, signal, subprocess, sys, tempfile
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent


def offline_env(root: Path) -> dict:
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(('MCCODEANTLR_', 'XDG_', 'MCSTAS', 'MCXTRACE', 'GIT_'))}
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', GIT_TERMINAL_PROMPT='0', PIP_NO_INDEX='1',
               LC_ALL='C.UTF-8', HOME=str(root / 'home'), TMPDIR=str(root / 'tmp'),
               XDG_CACHE_HOME=str(root / 'cache'), XDG_CONFIG_HOME=str(root / 'config'),
               MCCODEANTLR_MCCODE_POOCH__REGISTRY=str(root / 'empty.git'),
               MCCODEANTLR_MCCODE_POOCH__TAG='v0.0.0', MV_SCRATCH=str(root))
    env['PATH'] = '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    repo = os.environ.get('MV_REPO', '/repo')
    env['MV_REPO'] = repo
    env['PYTHONPATH'] = f'{repo}/src:{HERE}'
    for d in ('home', 'tmp', 'config'):
        (root / d).mkdir()
    g = root / 'empty.git'
    quiet = dict(check=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    subprocess.run(['git', 'init', '-q', '--bare', '-b', 'main', str(g)], **quiet)
    tree = subprocess.run(['git', '-C', str(g), 'mktree'], input='', **quiet).stdout.strip()
    commit = subprocess.run(['git', '-C', str(g), '-c', 'user.name=offline', '-c', 'user.email=offline@localhost',
                             'commit-tree', tree, '-m', 'empty'], **quiet).stdout.strip()
    subprocess.run(['git', '-C', str(g), 'tag', 'v0.0.0', commit], **quiet)
    for n in ('mcstas', 'mcxtrace', 'libc'):
        d = root / 'cache' / 'mccode_antlr' / n / 'v0.0.0'
        d.mkdir(parents=True)
        (d / f'{n}-registry.txt').write_text('')
    return env


def ended(*_):
    raise KeyboardInterrupt


def main():
    signal.signal(signal.SIGTERM, ended)
    root = Path(tempfile.mkdtemp(prefix='mv-'))
    try:
        env = offline_env(root)
        p = subprocess.Popen([sys.executable, '-B', '-m', 'mv.main', *sys.argv[1:]], cwd=HERE, env=env, start_new_session=True)
        try:
            rc = p.wait()
        except KeyboardInterrupt:
            p.terminate()
            rc = p.wait()
        finally:  # whatever the workers started
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
    finally:
        shutil.rmtree(root, ignore_errors=True)
    # only 0 and 1 are verdicts; anything else is an error of the check
    sys.exit(rc if rc in (0, 1) else 3)


if __name__ == '__main__':
    main()
