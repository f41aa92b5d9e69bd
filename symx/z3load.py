"""Loads the z3 Python bindings of the tooling venv into the project's own interpreter.

/opt/venv (the interpreter that has the project's pinned numpy/pandas/sklearn) and the tooling
venv are both CPython 3.12; only the pure-python package z3 (plus its bundled libz3) is taken.
"""
import importlib.util
import sys

_CANDIDATES = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"]


def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    try:
        import z3  # already on the path
        return z3
    except ImportError:
        pass
    for d in _CANDIDATES:
        spec = importlib.util.spec_from_file_location(
            "z3", d + "/__init__.py", submodule_search_locations=[d])
        if spec is None:
            continue
        mod = importlib.util.module_from_spec(spec)
        sys.modules["z3"] = mod
        spec.loader.exec_module(mod)
        return mod
    raise ImportError("z3 bindings not found")


z3 = load()
