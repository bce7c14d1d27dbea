"""Property id -> Check."""

import importlib
import os
import pkgutil

from . import checks as _pkg
from .core import Check


def all_checks():
    out = {}
    for m in sorted(pkgutil.iter_modules(_pkg.__path__), key=lambda m: m.name):
        mod = importlib.import_module(f"{_pkg.__name__}.{m.name}")
        for v in vars(mod).values():
            if isinstance(v, type) and issubclass(v, Check) and v.pid != "?":
                out[v.pid] = v
    return out


def get(pid):
    """Import only the module that holds the check, named after it."""
    for m in sorted(pkgutil.iter_modules(_pkg.__path__), key=lambda m: m.name):
        if m.name.startswith(pid.lower()):
            mod = importlib.import_module(f"{_pkg.__name__}.{m.name}")
            for v in vars(mod).values():
                if isinstance(v, type) and issubclass(v, Check) and v.pid == pid:
                    return v()
    raise SystemExit(f"no check for {pid}")
