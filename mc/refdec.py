"""Reference decoder: what the documentation says an object without Python
metadata is read as.  Works on h5py objects and shares no code with the
marshallers.

Results: ("arr", ndarray) | ("struct", shape, names, {name: [element...]}) |
("obj", shape, [element...]) | ("dict", [(name, element)...])
"""
import re

import h5py
import numpy as np

from . import values as V

CLS = {"logical": "?", "single": "f4", "double": "f8", "uint8": "u1", "uint16": "u2", "uint32": "u4", "uint64": "u8",
       "int8": "i1", "int16": "i2", "int32": "i4", "int64": "i8", "char": "U1", "cell": "O", "struct": "O",
       "canonical empty": "f8"}
META = {"Python.Type", "Python.Shape", "MATLAB_class", "MATLAB_int_decode", "MATLAB_fields"}


class Unspecified(Exception):
    pass


def unesc(s):
    return re.sub(r"\\(\\|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8})",
                  lambda m: "\\" if m.group(1) == "\\" else chr(int(m.group(1)[1:], 16)), s)


def text(a):
    if a is None:
        return None
    if isinstance(a, bytes):
        return a.decode()
    return str(a)


def elements(a):
    return [a[i] for i in np.ndindex(a.shape)]


def is_ref(o):
    return isinstance(o, h5py.Dataset) and h5py.check_dtype(ref=o.dtype) is not None


def chars(a):
    """Rows of code units as strings."""
    if a.ndim == 0:
        a = a.reshape((1,))
        scalar = True
    else:
        scalar = False
    n = a.shape[-1]
    enc = {2: "utf-16-le", 4: "utf-32-le", 1: "utf-8"}[a.dtype.itemsize]
    dt = a.dtype.newbyteorder("<")
    rows = [a[i].astype(dt).tobytes().decode(enc) for i in np.ndindex(a.shape[:-1])]
    out = np.array(rows).reshape(a.shape[:-1] + (1,) if n else a.shape)
    return out.reshape(()) if scalar else out


class Dec:
    def __init__(self, f, refs="/#refs#", dicts=False):
        self.f, self.refs, self.dicts = f, refs, dicts

    def dec(self, o):
        at = dict(o.attrs)
        if "Python.Type" in at:
            raise Unspecified("has metadata")
        cls = text(at.get("MATLAB_class"))
        if cls is not None and cls not in CLS:
            cls = None
        empty = at.get("MATLAB_empty") == 1
        if isinstance(o, h5py.Group):
            return self.group(o, cls, at.get("MATLAB_fields"))
        if cls is not None and empty:
            sh = tuple(int(x) for x in np.asarray(o[()]).ravel())
            mf = at.get("MATLAB_fields")
            if cls == "struct" and mf is not None or mf is not None:
                names = [unesc(b"".join(x.tolist()).decode()) for x in mf]
                return ("struct", sh, names, {n: [] for n in names})
            return ("arr", np.zeros(sh, dtype=CLS[cls]))
        a = o[()]
        if isinstance(a, h5py.Empty):
            raise Unspecified("null dataspace")
        if isinstance(a, (str, bytes)) and not isinstance(a, np.generic):
            x = np.empty((), dtype=o.dtype if o.dtype.kind == "S" else object)
            x[()] = a
            a = x
        a = np.asarray(a, dtype=o.dtype)
        if is_ref(o):
            if cls is not None:
                a = a.T
            return ("obj", a.shape, [self.dec(self.f[r]) for r in elements(a)])
        if cls is None:
            return ("arr", a)
        a = a.T
        if cls in ("single", "double") and a.dtype.names is not None:
            lo = {n.lower(): n for n in a.dtype.names}
            if len(lo) == 2:
                re_ = [n for n in lo if n in ("r", "re", "real")]
                im = [n for n in lo if n in ("i", "im", "imag", "imaginary")]
                if re_ and im:
                    c = np.zeros(a.shape, dtype=np.result_type(a.dtype[0], a.dtype[1], "c8"))
                    c.real, c.imag = a[lo[re_[0]]], a[lo[im[0]]]
                    a = c
        elif cls == "logical":
            a = a != 0
        elif cls == "char" and a.dtype.kind == "u":
            a = chars(a)
        return ("arr", np.array(a, order="C"))

    def group(self, g, cls, mf):
        listed = None
        if mf is not None:
            listed = [unesc(b"".join(x.tolist()).decode()) for x in mf]
        mem = {}
        for k in g:
            if (g.name.rstrip("/") + "/" + k) != self.refs:
                mem[unesc(k)] = g[k]
        # A struct array has the elements of every field in an array of
        # references that is nothing else.
        multi = all(is_ref(o) and not (set(o.attrs) & META) or isinstance(o, h5py.Dataset) and False
                    for k, o in mem.items() if listed is None or k in listed)
        names = [k for k in (listed or []) if k in mem]
        names += sorted(k for k in mem if k not in names)
        vals = {k: self.dec(o) for k, o in mem.items()}
        shapes = {vals[k][1] for k in names if vals[k][0] == "obj"}
        if multi and len(shapes) == 1 and cls == "struct":
            sh = shapes.pop()
            order = elements(np.arange(int(np.prod(sh, dtype=int))).reshape(sh).T)
            for k in names:
                vals[k] = ("obj", sh[::-1], [vals[k][2][i] for i in order])
            shapes = {sh[::-1]}
        if cls == "struct" and self.dicts:
            return ("dict", list(vals.items()))
        if not names:
            return ("struct", (1,), [], {})
        if multi and len(shapes) == 1:
            return ("struct", shapes.pop(), names, {k: vals[k][2] for k in names})
        return ("struct", (1,), names, {k: [vals[k]] for k in names})


def match(spec, got, at=""):
    """What differs, or None."""
    kind = spec[0]
    if kind == "dict":
        if type(got) is not dict:
            return "%s is a %s, expected a dict" % (at, type(got).__name__)
        if set(got) != {k for k, _ in spec[1]}:
            return "%s has keys %r, expected %r" % (at, list(got), [k for k, _ in spec[1]])
        for k, s in spec[1]:
            d = match(s, got[k], at + "/" + k)
            if d:
                return d
        return None
    if kind == "arr":
        w = spec[1]
        if isinstance(got, np.generic) and w.ndim == 0 or isinstance(got, (str, bytes)) and w.ndim == 0:
            got2 = np.empty((), dtype=w.dtype)
            got2[()] = got
            if w.dtype.kind != "O" and getattr(got, "dtype", w.dtype).kind != w.dtype.kind:
                return "%s is %r, expected %r" % (at, got, w)
            got = got2
        if type(got) is not np.ndarray:
            return "%s is a %s, expected an ndarray" % (at, type(got).__name__)
        wd, gd = V.cdtype(w.dtype), V.cdtype(got.dtype)
        if w.dtype.kind in "U" and got.dtype.kind == "U":
            gd = wd  # Widths of strings follow from the contents.
        if wd != gd or w.shape != got.shape:
            return "%s is %s %s, expected %s %s" % (at, got.dtype, got.shape, w.dtype, w.shape)
        if w.dtype.kind in "US":
            if w.ravel().tolist() != got.ravel().tolist():
                return "%s is %r, expected %r" % (at, got, w)
            return None
        d = V.eq(w.astype(got.dtype), got)
        return d and "%s: %s" % (at, d)
    if type(got) is np.void and kind == "struct":
        x = np.empty((), dtype=got.dtype)
        x[()] = got
        got = x
    if type(got) is not np.ndarray:
        return "%s is a %s, expected an ndarray" % (at, type(got).__name__)
    if kind == "obj":
        if got.dtype != object or got.shape != spec[1]:
            return "%s is %s %s, expected object %s" % (at, got.dtype, got.shape, spec[1])
        for i, (s, x) in enumerate(zip(spec[2], elements(got))):
            d = match(s, x, "%s{%d}" % (at, i))
            if d:
                return d
        return None
    if tuple(got.dtype.names or ()) != tuple(spec[2]):
        return "%s has fields %s, expected %s" % (at, got.dtype.names, spec[2])
    if got.shape != spec[1]:
        return "%s has shape %s, expected %s" % (at, got.shape, spec[1])
    for n in spec[2]:
        for i, (s, idx) in enumerate(zip(spec[3][n], np.ndindex(got.shape))):
            d = match(s, got[n][idx], "%s.%s(%d)" % (at, n, i))
            if d:
                return d
    return None
