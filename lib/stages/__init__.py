"""Registry of stages."""
import importlib
import os

STAGES = {}
META = {}
for _f in sorted(os.listdir(os.path.dirname(__file__))):
    if _f.endswith('.py') and _f != '__init__.py':
        _m = importlib.import_module('stages.' + _f[:-3])
        for _s in _m.STAGES:
            STAGES[_s.name] = _s
        META.update(getattr(_m, 'META', {}))
