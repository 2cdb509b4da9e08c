"""Faults at the calls of the package into h5py.

Only the calls made from outside h5py are counted, so that the numbering is
that of the package's own calls.  A fault is an exception raised instead of
the call (before) or right after its effect (after).
"""
import functools

import h5py

_state = {"on": False, "depth": 0, "n": 0, "at": None, "after": False, "exc": None, "log": None, "hit": None}

METHODS = {
    h5py.Group: ["create_group", "create_dataset", "require_group", "get", "__getitem__", "__setitem__",
                 "__delitem__", "__contains__", "__len__", "__iter__", "move", "keys", "values", "items"],
    h5py.File: ["flush", "close"],
    h5py.Dataset: ["__getitem__", "__setitem__", "resize"],
    h5py.AttributeManager: ["__getitem__", "__setitem__", "__delitem__", "__contains__", "__iter__", "__len__", "get",
                            "create", "modify", "keys", "values", "items"],
}
PROPS = {h5py.HLObject: ["ref", "attrs"]}


def _wrap(name, fun):
    @functools.wraps(fun)
    def w(*a, **k):
        s = _state
        if not s["on"] or s["depth"]:
            return fun(*a, **k)
        i = s["n"]
        s["n"] += 1
        if s["log"] is not None:
            s["log"].append(name)
        if i == s["at"] and not s["after"]:
            s["hit"] = name
            raise s["exc"]("injected before " + name)
        s["depth"] += 1
        try:
            r = fun(*a, **k)
        finally:
            s["depth"] -= 1
        if i == s["at"]:
            s["hit"] = name
            raise s["exc"]("injected after " + name)
        return r
    return w


_installed = []
CHANGING = {"create_group", "create_dataset", "require_group", "__setitem__", "__delitem__", "move", "flush", "close",
            "resize", "create", "modify"}


def install():
    if _installed:
        return
    _installed.append(1)
    for cls, names in METHODS.items():
        for n in names:
            setattr(cls, n, _wrap(cls.__name__ + "." + n, getattr(cls, n)))
    for cls, names in PROPS.items():
        for n in names:
            p = getattr(cls, n)
            setattr(cls, n, property(_wrap("HLObject." + n, p.fget)))


class Fault:
    """Context: the call number `at` (None: count only) fails."""

    def __init__(self, at=None, after=False, exc=OSError):
        self.args = at, after, exc

    def __enter__(self):
        install()
        _state.update(n=0, depth=0, at=self.args[0], after=self.args[1], exc=self.args[2], hit=None, log=[])
        _state["on"] = True
        return self

    def __exit__(self, *a):
        _state["on"] = False
        self.calls, self.hit, self.log = _state["n"], _state["hit"], _state["log"]
        return False

    def points(self):
        """All the faults that differ: after a call only if it changes something."""
        return [[i, a] for i, n in enumerate(self.log) for a in ((False, True) if n.split(".")[1] in CHANGING else (False,))]
