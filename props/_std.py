"""modules of the standard library whose own source is executed symbolically, as oracles"""
import importlib
import sys


def instrumented(name):
    engine = sys.modules.get('sx.instrument')
    if engine and name not in engine.PREFIXES:
        engine.PREFIXES.append(name)
        for m in [m for m in sys.modules if m == name or m.startswith(name + '.')]:
            del sys.modules[m]
    return importlib.import_module(name)
