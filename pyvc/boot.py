"""Symbolic-mode process set-up: import the instrumented packages from /repo."""
import os
import sys

REPO = "/repo"
sys.dont_write_bytecode = True


def boot():
    sys.setrecursionlimit(20000)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    sp = "/opt/venv/lib/python3.12/site-packages"
    if sp not in sys.path:
        sys.path.append(sp)
    import z3  # noqa: F401

    from pyvc import instrument, models, runtime  # noqa: F401

    fd = instrument.install(runtime.rt)
    import importlib
    import pkgutil

    for top, base in instrument.SCOPE.items():
        for m in [top] + [n.name for n in pkgutil.walk_packages([base], top + ".")]:
            try:
                importlib.import_module(m)
            except ImportError:
                pass  # an optional dependency; a target that needs the module reports it
    from pyvc import libmodels  # noqa: F401

    return fd
