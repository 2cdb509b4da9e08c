"""Reference encoder: what the storage format says a value is stored as.

Written from doc/source/storage_format.rst.  expected() gives a dump in the form
of h5dump.Dumper (without filters).  It shares no code with the marshallers.
"""
import collections
import datetime
import fractions
import hashlib

import numpy as np

from .h5dump import dt_desc, val_desc

DISCARD = "DISCARDED"


class Incompatible(Exception):
    pass


class Unspecified(Exception):
    """The documentation doesn't say how this is stored."""


CLASSES = {"b": "logical", "S": "char", "U": "char", "O": "cell"}
CONST = {type(None): "builtins.NoneType", type(...): "builtins.ellipsis",
         type(NotImplemented): "builtins.NotImplementedType"}
TYPES = {bool: "bool", int: "int", float: "float", complex: "complex", str: "str", bytes: "bytes",
         bytearray: "bytearray", list: "list", tuple: "tuple", set: "set", frozenset: "frozenset",
         collections.deque: "collections.deque", collections.ChainMap: "collections.ChainMap",
         dict: "dict", collections.OrderedDict: "collections.OrderedDict",
         collections.Counter: "collections.Counter", slice: "slice", range: "range",
         datetime.timedelta: "datetime.timedelta", datetime.timezone: "datetime.timezone",
         datetime.date: "datetime.date", datetime.time: "datetime.time",
         datetime.datetime: "datetime.datetime", fractions.Fraction: "fractions.Fraction"}
KEYTYPES = {str: "t", bytes: "b", np.str_: "U", np.bytes_: "S"}


def mclass(dt):
    if dt.kind in CLASSES:
        return CLASSES[dt.kind]
    if dt.kind in "ui":
        return dt.name
    if dt.kind in "fc":
        return {"float32": "single", "complex64": "single", "float64": "double",
                "complex128": "double"}.get(dt.name)
    return None


def esc(s):
    out = ""
    lead = True
    for c in s:
        if c == "\x00":
            out += "\\x00"
        elif c == "/":
            out += "\\x2f"
        elif c == "\\":
            out += "\\\\"
        elif c == "." and lead:
            out += "\\x2e"
        else:
            out += c
        lead = lead and c == "."
    return out


class Enc:
    def __init__(self, opts):
        """opts is an Options object (its public attributes are used)."""
        self.o = opts
        self.matlab = opts.matlab_compatible
        self.meta = opts.store_python_metadata
        self.refs = opts.group_for_references

    # ------------------------------------------------------------- attributes
    def attrs(self, d, parent):
        out = {k: val_desc(v) for k, v in d.items() if v is not None}
        if self.matlab and parent != "/":
            if parent.startswith(self.refs + "/"):
                out["H5PATH"] = ("H5PATH inside", parent[len(self.refs) + 1:].count("/"))
            else:
                out["H5PATH"] = val_desc(np.bytes_(parent.encode("utf-8")))
        return tuple(sorted(out.items()))

    def s(self, x):
        return np.bytes_(x.encode("ascii"))

    def mfields(self, names):
        if not all(ord(c) < 128 for n in names for c in n):
            return None
        a = np.empty((len(names),), dtype=object)
        for i, n in enumerate(names):
            a[i] = np.array([c.encode("ascii") for c in n], dtype="S1")
        return a

    def strarr(self, names):
        a = np.empty((len(names),), dtype=object)
        a[:] = list(names)
        return a

    # ------------------------------------------------------------------ values
    def enc(self, v, parent, name):
        t = type(v)
        if t in CONST:
            return self.num(np.zeros((0,), np.float64), parent, name, CONST[t], (0,), "ndarray")
        if t in (bool, float, complex):
            return self.num(np.array(v), parent, name, TYPES[t], (), "scalar")
        if t is int:
            if -2**63 <= v < 2**63:
                return self.num(np.array(v, dtype=np.int64), parent, name, "int", (), "scalar")
            return self.text([str(v).encode()], (), len(str(v)), "S", parent, name, "int", "scalar")
        if t is str:
            return self.text([v], (), len(v), "U", parent, name, "str", "scalar")
        if t in (bytes, bytearray):
            return self.text([bytes(v)], (), len(v), "S", parent, name, TYPES[t], "scalar")
        if t in (list, tuple, set, frozenset, collections.deque, collections.ChainMap):
            els = list(v.maps) if t is collections.ChainMap else list(v)
            a = np.empty((len(els),), dtype=object)
            for i, e in enumerate(els):
                a[i] = e
            return self.objs(a, parent, name, TYPES[t], "ndarray")
        if t in (dict, collections.OrderedDict, collections.Counter):
            return self.mapping(v, parent, name, TYPES[t])
        if t in (slice, range):
            return self.mapping({"start": v.start, "stop": v.stop, "step": v.step}, parent, name, TYPES[t])
        if t is fractions.Fraction:
            return self.mapping({"numerator": v.numerator, "denominator": v.denominator}, parent, name, TYPES[t])
        if t in TYPES:
            return self.mapping(self.dt_args(v), parent, name, TYPES[t])
        if isinstance(v, np.dtype):
            s = str(v)
            if s[0] not in "([{":
                s = "'" + s + "'"
            s = s.encode("utf-8")
            return self.text([s], (), len(s), "S", parent, name, "numpy.dtype", "scalar")
        if isinstance(v, np.ndarray):
            tname, cont = {np.ndarray: ("numpy.ndarray", "ndarray"), np.matrix: ("numpy.matrix", "matrix"),
                           np.chararray: ("numpy.chararray", "chararray"),
                           np.recarray: ("numpy.recarray", "recarray")}[t]
        elif isinstance(v, np.generic):
            tname, cont = "numpy." + {"bool": "bool_", "longlong": "int64", "ulonglong": "uint64"}.get(t.__name__, t.__name__), "scalar"
        else:
            raise Unspecified(t)
        if t in (np.str_, np.bytes_):
            return self.text([str(v) if t is np.str_ else bytes(v)], (), len(v), v.dtype.kind, parent, name,
                             tname, cont)
        a = np.array(v, dtype=v.dtype.newbyteorder("=") if v.dtype.kind == "U" else v.dtype, subok=False, copy=True)
        if a.dtype.kind in "SU":
            w = a.dtype.itemsize // (4 if a.dtype.kind == "U" else 1)
            return self.text(a.ravel().tolist(), a.shape, w, a.dtype.kind, parent, name, tname, cont)
        if a.dtype.kind == "O":
            return self.objs(a, parent, name, tname, cont)
        if a.dtype.names is not None:
            under = a.dtype.name
            if a.dtype.type is np.record:
                a = a.view(np.dtype((np.void, a.dtype)))
            return self.struct(a, parent, name, tname, cont, under)
        return self.num(a, parent, name, tname, a.shape, cont)

    def dt_args(self, v):
        if type(v) is datetime.timedelta:
            return {k: getattr(v, k) for k in ("days", "seconds", "microseconds")}
        if type(v) is datetime.timezone:
            off = v.utcoffset(None)
            if repr(v) == repr(datetime.timezone(off)) or v is datetime.timezone.utc:
                return {"offset": off}
            return {"offset": off, "name": v.tzname(None)}
        d = ("year", "month", "day")
        t = ("hour", "minute", "second", "microsecond", "tzinfo")
        k = {datetime.date: d, datetime.time: t, datetime.datetime: d + t}[type(v)]
        return {x: getattr(v, x) for x in k}

    # ---------------------------------------------------------------- datasets
    def base(self, tname, under, shape, cont, empty, cls=None, decode=None):
        d = {}
        if self.meta:
            d["Python.Type"] = self.s(tname)
            d["Python.Shape"] = np.array(shape, dtype=np.uint64)
            d["Python.numpy.UnderlyingType"] = self.s(under)
            d["Python.numpy.Container"] = self.s(cont)
            if empty:
                d["Python.Empty"] = np.uint8(1)
        if self.matlab:
            if cls is not None:
                d["MATLAB_class"] = self.s(cls)
            if decode is not None:
                d["MATLAB_int_decode"] = np.int64(decode)
            if empty:
                d["MATLAB_empty"] = np.uint8(1)
        return d

    def shaped(self, a, oned=None):
        """At least 2D with the dimensions in the wanted order."""
        if self.o.make_atleast_2d and a.ndim < 2:
            n = int(np.prod(a.shape, dtype=int))
            col = oned and self.o.oned_as == "column"
            a = a.reshape((n, 1) if col else (1, n))
        return a

    def dset(self, a, attrs, parent, data=None):
        if self.o.reverse_dimension_order:
            a = a.T
        a = np.ascontiguousarray(a) if a.ndim else a
        b = a.tobytes()
        return ("D", self.attrs(attrs, parent), dt_desc(a.dtype), a.shape, (),
                b if len(b) < 4096 else hashlib.blake2b(b).hexdigest())

    def empty(self, a, attrs, parent):
        b = np.array(a.shape, dtype=np.uint64)
        return ("D", self.attrs(attrs, parent), "<u8", b.shape, (), b.tobytes())

    def incompat(self):
        if not self.matlab or self.o.action_for_matlab_incompatible == "ignore":
            return None
        if self.o.action_for_matlab_incompatible == "discard":
            return DISCARD
        raise Incompatible

    def num(self, a, parent, name, tname, shape, cont):
        cls = mclass(a.dtype)
        if cls is None and self.incompat() == DISCARD:
            return DISCARD
        at = self.base(tname, a.dtype.name, shape, cont, a.size == 0, cls, 1 if a.dtype.kind == "b" else None)
        st = self.shaped(a, a.ndim == 1)
        if a.size == 0 and self.o.store_shape_for_empty:
            return self.empty(st, at, parent)
        if st.dtype.kind == "b" and self.o.convert_bools_to_uint8:
            st = st.astype(np.uint8)
        if st.dtype.kind == "c" and tuple(self.o.complex_names) != ("r", "i"):
            p = st.real.dtype
            w = np.zeros(st.shape, dtype=[(n, p) for n in self.o.complex_names])
            w[self.o.complex_names[0]] = st.real
            w[self.o.complex_names[1]] = st.imag
            st = w
        return self.dset(st, at, parent)

    def text(self, strs, shape, width, kind, parent, name, tname, cont):
        n = len(strs)
        blank = n == 0 or width == 0
        under = ("bytes%d" % (8 * width) if kind == "S" else "str%d" % (32 * width)) if width else (
            "bytes" if kind == "S" else "str")
        codes = [list(s) if kind == "S" else [ord(c) for c in s] for s in strs]
        conv = True
        if kind == "S":
            conv = self.o.convert_numpy_bytes_to_utf16 and all(c < 128 for s in codes for c in s)
            tp = np.uint16
        else:
            ok16 = all(c < 0x10000 and not 0xd800 <= c < 0xe000 for s in codes for c in s)
            tp = np.uint16 if self.o.convert_numpy_str_to_utf16 and ok16 else np.uint32
        if conv:
            sh = (0,) if blank else (tuple(shape[:-1]) + (shape[-1] * width,) if shape else (width,))
            flat = [c for s in codes for c in s + [0] * (width - len(s))]
            a = np.array([] if blank else flat, dtype=tp).reshape(sh)
            col = False
        else:
            a = np.array([s.ljust(width, b"\x00") for s in strs], dtype="S%d" % max(width, 1)).reshape(shape)
            col = a.ndim == 1
        st = self.shaped(a, col)
        isempty = blank and self.o.store_shape_for_empty
        dec = 2 if blank else a.dtype.itemsize if conv else 1
        at = self.base(tname, under, shape, cont, blank, "char", dec)
        if isempty:
            return self.empty(st, at, parent)
        return self.dset(st, at, parent)

    def element(self, v):
        d = self.enc(v, self.refs, "?")
        if d == DISCARD:
            ce = (("MATLAB_class", val_desc(np.bytes_(b"canonical empty"))), ("MATLAB_empty", val_desc(np.uint8(1))))
            return (True, ("D", ce, "<u8", (2,), (), bytes(16)))
        return (True, d)

    def objs(self, a, parent, name, tname, cont, bare=False):
        at = {} if bare else self.base(tname, "object", a.shape, cont, a.size == 0, "cell")
        st = self.shaped(a, a.ndim == 1)
        if a.size == 0 and self.o.store_shape_for_empty:
            return self.empty(st, at, parent)
        if self.o.reverse_dimension_order:
            st = st.T
        return ("D", self.attrs(at, parent), "ref", st.shape, (), tuple(self.element(st[i]) for i in np.ndindex(st.shape)))

    def struct(self, a, parent, name, tname, cont, under):
        names = list(a.dtype.names)
        asst = self.o.structured_numpy_ndarray_as_struct
        if not asst and self.incompat() == DISCARD:
            return DISCARD
        bygroup = asst or a.dtype.hasobject or _nul(a.dtype) or _zero(a.dtype)
        at = self.base(tname, under, a.shape, cont, a.size == 0, "struct" if asst else None)
        en = [esc(n) for n in names]
        if bygroup or a.size == 0:
            if self.meta:
                at["Python.Fields"] = self.strarr(en)
            if self.matlab:
                at["MATLAB_fields"] = self.mfields(en)
        st = self.shaped(a, a.ndim == 1)
        if a.size == 0 and self.o.store_shape_for_empty:
            return self.empty(st, at, parent)
        if not bygroup:
            return self.dset(st, at, parent)
        me = parent.rstrip("/") + "/" + name
        mem = []
        for n, e in zip(names, en):
            if a.size == 1:
                d = self.enc(st.reshape(-1)[0][n], me, e)
            else:
                fa = np.empty(st.shape, dtype=object)
                for i in np.ndindex(st.shape):
                    fa[i] = st[i][n]
                d = self.objs(fa, me, e, None, None, bare=True)
            if d != DISCARD:
                mem.append((e, d))
        return ("G", self.attrs(at, parent), tuple(sorted(mem)))

    # ------------------------------------------------------------------ groups
    def mapping(self, m, parent, name, tname):
        me = parent.rstrip("/") + "/" + name
        keys = list(m)
        en, kt, indiv = [], "", True
        for k in keys:
            if type(k) not in KEYTYPES:
                indiv = False
                break
            try:
                s = k.decode("utf-8") if isinstance(k, bytes) else str(k)
            except UnicodeDecodeError:
                indiv = False
                break
            en.append(esc(s))
            kt += KEYTYPES[type(k)]
        if indiv and ("" in en or len(set(en)) != len(en)):
            indiv = False
        # HDF5 limits the size of the attributes.
        if len(en) > 4000 and (self.meta or self.matlab):
            indiv = False
        at = {}
        if self.meta:
            at["Python.Type"] = self.s(tname)
            at["Python.dict.StoredAs"] = self.s("individually" if indiv else "keys_values")
            if indiv:
                at["Python.Fields"] = self.strarr(en)
                at["Python.dict.key_str_types"] = self.s(kt)
            else:
                at["Python.dict.keys_values_names"] = self.strarr(
                    [self.o.dict_like_keys_name, self.o.dict_like_values_name])
        if self.matlab:
            at["MATLAB_class"] = self.s("struct")
            if indiv:
                at["MATLAB_fields"] = self.mfields(en)
        mem = []
        if indiv:
            pairs = list(zip(en, m.values()))
        else:
            pairs = [(esc(self.o.dict_like_keys_name), tuple(keys)),
                     (esc(self.o.dict_like_values_name), tuple(m.values()))]
        for e, v in pairs:
            d = self.enc(v, me, e)
            if d != DISCARD:
                mem.append((e, d))
        return ("G", self.attrs(at, parent), tuple(sorted(mem)))


def _nul(dt):
    return "\\x00" in str(dt)


def _zero(dt):
    if dt.subdtype is not None:
        return 0 in dt.shape or _zero(dt.subdtype[0])
    if dt.names is not None:
        return any(_zero(dt.fields[n][0]) for n in dt.names)
    return False


def expected(v, opts, parent, name):
    return Enc(opts).enc(v, parent, name)
