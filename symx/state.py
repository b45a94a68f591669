"""State of the modules under analysis: every run of a harness, symbolic or
concrete, starts from the state the modules have after import.  (Caches,
counters or buffers kept by the code would otherwise carry terms of one run
into the next.)"""
import collections
import inspect
import types

import numpy as np

CONTAINERS = (dict, list, set, bytearray, collections.deque)
_undo = []
_seen = set()


def _container(c):
    if id(c) in _seen:
        return
    _seen.add(id(c))
    saved = c.copy()

    def undo():
        if isinstance(c, (dict, set)):
            if c.keys() != saved.keys() or any(
                    c[k] is not saved[k] for k in saved) \
                    if isinstance(c, dict) else c != saved:
                c.clear()
                c.update(saved)
        elif len(c) != len(saved) or any(a is not b for a, b in
                                         zip(c, saved)):
            c.clear()
            c.extend(saved)
    _undo.append(undo)


def _value(v, depth=0):
    """state reachable from v"""
    if isinstance(v, CONTAINERS):
        _container(v)
        if depth < 2 and not isinstance(v, (set, bytearray)):
            for x in list(v.values() if isinstance(v, dict) else v):
                _value(x, depth + 1)
    elif isinstance(v, np.ndarray):
        if id(v) not in _seen and v.size < 100000:
            _seen.add(id(v))
            c = v.copy()

            def undo():
                if v.flags.writeable:
                    v[...] = c
            _undo.append(undo)
    elif isinstance(v, (types.FunctionType, staticmethod, classmethod,
                        property)):
        for f in (v,) if isinstance(v, types.FunctionType) else (
                (v.fget, v.fset) if isinstance(v, property)
                else (v.__func__,)):
            if isinstance(f, types.FunctionType):
                _function(f, depth)
    elif hasattr(v, "cache_clear"):
        _undo.append(v.cache_clear)
    elif isinstance(v, type):
        if (v.__module__ or "").startswith("robuststats"):
            _namespace(v, v.__dict__, depth)
    elif type(v).__module__.startswith("robuststats") and \
            isinstance(getattr(v, "__dict__", None), dict):
        if id(v) not in _seen:
            _seen.add(id(v))
            _container(v.__dict__)
            for x in list(v.__dict__.values()):
                _value(x, depth + 1)


def _function(f, depth):
    if id(f) in _seen or not (f.__module__ or "").startswith("robuststats"):
        return
    _seen.add(id(f))
    if f.__dict__ is not None:
        _container(f.__dict__)
    for d in list(f.__defaults__ or ()) + list(
            (f.__kwdefaults__ or {}).values()):
        _value(d, depth + 1)
    for c in f.__closure__ or ():
        try:
            v = c.cell_contents
        except ValueError:
            continue
        if not isinstance(v, types.ModuleType):
            _value(v, depth + 1)

        def undo(c=c, v=v):
            if c.cell_contents is not v:
                c.cell_contents = v
        _undo.append(undo)


def _namespace(owner, d, depth=0):
    if id(owner) in _seen:
        return
    _seen.add(id(owner))
    skip = ("__dict__", "__weakref__", "__builtins__", "__doc__",
            "__loader__", "__spec__", "__cached__", "__annotations__")
    saved = {k: v for k, v in d.items() if k not in skip}
    dyn = [k for k in saved if not k.startswith("__")]

    def undo():
        for k in [k for k in d if k not in saved and k not in skip]:
            if not isinstance(d[k], types.ModuleType) and \
                    not k.startswith("_abc"):
                delattr(owner, k)
        for k in dyn:
            if k not in d or d[k] is not saved[k]:
                setattr(owner, k, saved[k])
    _undo.append(undo)
    for k, v in saved.items():
        if k.startswith("__") and k not in ("__init__", "__call__"):
            continue
        if not isinstance(v, types.ModuleType):
            _value(v, depth)


def snapshot(mods):
    for m in mods:
        if m.__name__.split(".")[0] == "robuststats":
            _namespace(m, m.__dict__)


def reset():
    for f in _undo:
        f()
