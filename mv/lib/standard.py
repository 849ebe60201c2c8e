"""Other registries in place of the standard ones, wherever the library keeps a reference to them."""
import contextlib, sys


@contextlib.contextmanager
def replaced(**registries):
    import mccode_antlr.loader, mccode_antlr.reader, mccode_antlr.translators.c, mccode_antlr.compiler.c, mccode_antlr.cli.commands, mccode_antlr.run.runner  # noqa
    old = {k: getattr(mccode_antlr.reader, k) for k in registries}
    places = [(m, k) for name, m in list(sys.modules.items()) if name.startswith('mccode_antlr') for k in registries if getattr(m, k, None) is old[k]]
    for m, k in places:
        setattr(m, k, registries[k])
    try:
        yield
    finally:
        for m, k in places:
            setattr(m, k, old[k])
