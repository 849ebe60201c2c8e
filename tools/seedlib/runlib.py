"""Translate, compile against the run-time files beside this file, and run."""
import contextlib, io, os, subprocess
from pathlib import Path
HERE = Path(__file__).resolve().parent


def translator(instr_text, comps, files=None):
    from mccode_antlr.reader.registry import InMemoryRegistry, LocalRegistry
    from mccode_antlr.loader.loader import parse_mccode_instr
    from mccode_antlr.translators.c import CTargetVisitor
    from mccode_antlr.translators.target import MCSTAS_GENERATOR
    reg = InMemoryRegistry('demo')
    for k, v in comps.items():
        reg.add_comp(k, v)
    libs = Path(os.environ['DEMO_SCRATCH']) / 'libs'
    libs.mkdir(exist_ok=True)
    for k, v in (files or {}).items():
        (libs / k).write_text(v)
    with contextlib.redirect_stdout(io.StringIO()):
        instr = parse_mccode_instr(instr_text, [reg, LocalRegistry('libs', str(libs)), LocalRegistry('runtime', str(HERE / 'runtime'))], '<string>')
        v = CTargetVisitor(instr, generate=MCSTAS_GENERATOR, verbose=False,
                           config=dict(default_main=True, enable_trace=True, portable=False, include_runtime=True, embed_instrument_file=False, verbose=False, output='x.c', flavor='mcstas'))
    return v


def translate(v):
    with contextlib.redirect_stdout(io.StringIO()):
        v.translate()
    return v.contents()


def run(instr_text, comps, args=(), n=1, files=None):
    d = Path(os.environ['DEMO_SCRATCH'])
    (d / 'x.c').write_text(translate(translator(instr_text, comps, files)))
    subprocess.run(['gcc', '-std=gnu11', '-O0', '-w', str(d / 'x.c'), '-o', str(d / 'x'), '-lm'], check=True)
    env = dict(os.environ, MV_LOG=str(d / 'log'))
    out = subprocess.run([str(d / 'x'), '-n', str(n), *args], cwd=d, env=env, capture_output=True, text=True, check=True).stdout
    return [x for x in out.splitlines() if x.startswith('demo')]
