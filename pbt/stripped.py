"""The package under test as `python -O` compiles it: without its assert statements.

Callers run in a forked shard process of their own, so the exchange stays there."""
import importlib
import sys

_done = False


def enter():
    global _done
    if _done:
        return
    _done = True
    from importlib.machinery import SourceFileLoader
    old = SourceFileLoader.source_to_code
    for name in [m for m in sys.modules if m == 'webauthn_rp' or m.startswith('webauthn_rp.')]:
        del sys.modules[name]

    def compile_stripped(self, data, path, *, _optimization=-1):
        return compile(data, path, 'exec', dont_inherit=True, optimize=1)
    SourceFileLoader.source_to_code = compile_stripped
    try:
        importlib.import_module('webauthn_rp.backends')
        importlib.import_module('webauthn_rp.builders')
    finally:
        SourceFileLoader.source_to_code = old
