"""A process that parses and translates instruments in a given order; run by the check of C24 under several hash seeds."""
from __future__ import annotations
import contextlib, io, json, os, re, sys, traceback
from pathlib import Path


def work(spec):
    from mccode_antlr.loader.loader import parse_mccode_instr
    from mccode_antlr.reader.registry import InMemoryRegistry, LocalRegistry
    from . import progrun as R
    from ..core import quiet_logs, short_tb
    quiet_logs()
    where = Path(spec['dir'])
    kept, out = {}, []

    def parse(i, text):
        q = spec['programs'][i]
        mem = InMemoryRegistry('mem')
        for k, v in q['comps'].items():
            mem.add_comp(k, v)
        return parse_mccode_instr(text, [mem, LocalRegistry('mv-libs', q['dir'], 20), R.runtime_registry()], '<string>')

    def text(instr):
        o = io.StringIO()
        instr.to_file(o)
        return o.getvalue()

    def twice(v):
        v.translate()
        v.translate()
        return v.contents()

    def saved(v):
        f = where / f'saved-{os.getpid()}.c'
        v.save(f)
        return f.read_text()

    def translated_saved(v):
        f = where / f'saved-{os.getpid()}.c'
        v.translate()
        v.save(f, close=False)
        said = v.contents()
        if said != f.read_text():
            raise RuntimeError('what is saved is not what the translator contains')
        return said

    def asked_twice(v):
        first = v.contents()
        if again(first) != again(v.contents()):
            raise RuntimeError('asked twice for its contents, a translator gives different answers')
        v.translate()
        v.translate(reprocess=False)
        if again(first) != again(v.contents()):
            raise RuntimeError('asked a third time for its contents, a translator gives a different answer')
        return first

    def again(c):
        return re.sub(r'^\s*\* Date: .*$', '', c, flags=re.M)

    def without_names(c):
        return re.sub(r'^\s*\* File: .*$', '', c, flags=re.M).replace('when running None', 'when running mcstas')

    asks = {'twice': twice, 'saved': saved, 'translated-saved': translated_saved, 'asked-twice': asked_twice}
    for i, how in spec['jobs']:
        q = spec['programs'][i]
        rec = dict(i=i, how=how)
        try:
            if i not in kept or how == 'parsed':
                kept[i] = parse(i, q['instr'])
            instr = kept[i]
            if how == 'copy':
                instr = instr.copy()
            elif how == 'copy-first':
                other = instr.copy()
                R.translate(other, not q['neutron'], q['config'])
            elif how == 'asked':
                text(instr), instr.decoded_flags(), instr.collect_metadata(), instr.check_instrument_parameters(), repr(instr)
                for c in instr.components:
                    str(c), repr(c)
            elif how == 'other-flavour':
                R.translate(instr, not q['neutron'], q['config'])
            elif how == 'defaults':   # a translator to which nothing else is said
                from mccode_antlr.translators.c import CTargetVisitor
                from mccode_antlr.translators.target import MCXTRACE_GENERATOR
                with contextlib.redirect_stdout(io.StringIO()):
                    plain = CTargetVisitor(instr, **({} if q['neutron'] else dict(generate=MCXTRACE_GENERATOR))).contents()
                told = R.translate(instr, q['neutron'], dict(portable=True, enable_trace=True, default_main=True, embed_instrument_file=False))
                if without_names(again(plain)) != without_names(again(told)):
                    raise RuntimeError('a translator without settings does not have the settings of mcstas-antlr: portable, with trace, a main and the run time')
            elif how == 'reread':
                instr = parse(i, text(instr))
            rec['text'] = text(instr)
            rec['c'] = R.translate(instr, q['neutron'], q['config'], asks.get(how))
            rec['flags'] = instr.decoded_flags()
        except Exception as ex:
            rec['error'] = short_tb(ex, 4)
        out.append(rec)
    return out


if __name__ == '__main__':
    with open(sys.argv[1]) as f:
        spec = json.load(f)
    keep = sys.stdout
    sys.stdout = io.StringIO()
    result = work(spec)
    sys.stdout = keep
    with open(sys.argv[2], 'w') as f:
        json.dump(result, f)
