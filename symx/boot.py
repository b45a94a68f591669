"""Interpreter set-up: the repository's own virtual environment runs the code
under analysis; only the solver bindings are borrowed from the tooling venv."""
import importlib.machinery
import os
import sys

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
ALLOWED = ("z3", "z3_solver", "cvc5")


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.split(".")[0] in ALLOWED:
            return importlib.machinery.PathFinder.find_spec(
                name, [VT] if path is None else path)
        return None


def setup():
    if not any(f is _Finder for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
