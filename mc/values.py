"""Alphabets of values and strict canonical forms."""
import collections
import datetime
import fractions
import struct

import numpy as np

OD, Counter, ChainMap, deque = (collections.OrderedDict, collections.Counter,
                                collections.ChainMap, collections.deque)


# --------------------------------------------------------------------- canon
def cdtype(dt):
    """Canonical form of a dtype, byte order ignored."""
    if dt.subdtype is not None:
        return ("sub", cdtype(dt.subdtype[0]), dt.subdtype[1])
    if dt.names is not None:
        return tuple((n, cdtype(dt.fields[n][0])) for n in dt.names)
    return dt.newbyteorder("=").str


def tname(t):
    """Name of the type of a scalar; the integers of the same size are the same."""
    return np.dtype(np.dtype(t).str).type.__name__ if issubclass(t, np.integer) else t.__name__


def _arr(x):
    """Canonical contents of an array as nested tuple/bytes."""
    if x.dtype.names is not None:
        return tuple((n, _arr(np.asarray(x[n]))) for n in x.dtype.names)
    x = np.asarray(x)
    if x.dtype.hasobject:
        return tuple(canon(e) for e in x.ravel().tolist()) if x.ndim else (canon(x[()]),)
    if x.dtype.kind in "US":
        return tuple(x.ravel().tolist())
    if x.dtype.char in "gG":
        return tuple(map(repr, x.ravel()))  # has padding
    y = np.ascontiguousarray(x).astype(x.dtype.newbyteorder("="))
    return y.tobytes()


def loosen(x, empty=True):
    """Copy of a structured array/scalar as the documentation allows it to come
    back when stored field by field: string fields may become object fields and
    fields of empty arrays object fields."""
    if isinstance(x, (np.ndarray, np.void)) and x.dtype.names is not None:
        nd = []
        for n in x.dtype.names:
            f = x.dtype.fields[n][0]
            if (empty and x.size == 0) or f.kind in "SU":
                nd.append((n, object))
            else:
                nd.append((n, f))
        y = np.zeros(np.shape(x), dtype=nd)
        if x.size:
            for n in x.dtype.names:
                if y.dtype.fields[n][0] == object and x.dtype.fields[n][0].kind in "SU":
                    tp = np.bytes_ if x.dtype.fields[n][0].kind == "S" else np.str_
                    src = np.asarray(x[n])
                    if y.ndim == 0:
                        y[n] = tp(src[()])
                    else:
                        for i in np.ndindex(y.shape):
                            y[n][i] = tp(src[i])
                else:
                    y[n] = x[n]
        if isinstance(x, np.recarray):
            y = y.view(np.recarray)
        elif isinstance(x, np.void):
            y = y[()]
        return y
    return x


def canon(x):
    t = type(x)
    if x is None or x is Ellipsis or x is NotImplemented:
        return ("const", repr(x))
    if t in (bool, int, str, bytes, bytearray):
        return (t.__name__, bytes(x) if t is bytearray else x)
    if t is float:
        return ("float", struct.pack("<d", x))
    if t is complex:
        return ("complex", struct.pack("<dd", x.real, x.imag))
    if t in (list, tuple):
        return (t.__name__, tuple(canon(e) for e in x))
    if t is deque:
        return ("deque", tuple(canon(e) for e in x))
    if t in (set, frozenset):
        return (t.__name__, tuple(sorted((canon(e) for e in x), key=repr)))
    if t in (dict, OD, Counter):
        return (t.__name__, tuple((canon(k), canon(v)) for k, v in x.items()))
    if t is ChainMap:
        return ("ChainMap", tuple(canon(m) for m in x.maps))
    if t is slice:
        return ("slice", canon(x.start), canon(x.stop), canon(x.step))
    if t is range:
        return ("range", x.start, x.stop, x.step)
    if t in (datetime.timedelta, datetime.timezone, datetime.date, datetime.time,
             datetime.datetime, fractions.Fraction):
        return (t.__name__, repr(x))
    if isinstance(x, np.dtype):
        return ("dtype", cdtype(x))
    if isinstance(x, np.ndarray):
        name = t.__module__ + "." + t.__name__
        dt = ("O",) if x.dtype == object else cdtype(x.dtype)
        flat = x.view(np.ndarray) if t is not np.ndarray else x
        if t is np.chararray:
            flat = np.asarray(x)
        return ("array", name, dt, x.shape, _arr(np.asarray(flat)))
    if isinstance(x, np.generic):
        if isinstance(x, np.str_):
            return ("np.str_", str(x))
        if isinstance(x, np.bytes_):
            return ("np.bytes_", bytes(x))
        return ("scalar", tname(t), cdtype(x.dtype), _arr(np.asarray(x)))
    return ("other", t.__module__, t.__qualname__, repr(x))


def diff(a, b):
    """Short description of how two canonical forms differ (None if equal)."""
    if a == b:
        return None
    ra, rb = repr(a), repr(b)
    i = 0
    while i < min(len(ra), len(rb)) and ra[i] == rb[i]:
        i += 1
    lo = max(0, i - 60)
    return "expected ...%s... got ...%s..." % (ra[lo:i + 140], rb[lo:i + 140])


def eq(x, y):
    return diff(canon(x), canon(y))


# ------------------------------------------------------------------ alphabets
CHARS = ["a", "\x00", "\x7f", "\x80", "\xe9", "\xff", "\u0100", "\u20ac", "\ud7ff", "\ue000", "\ufeff", "\ufffe",
         "\uffff", "\U00010000", "\U0001f600", "\U0010ffff", " ", "\n", "\\", "/"]

SHAPES = [(), (0,), (1,), (3,), (0, 0), (0, 3), (3, 0), (1, 1), (1, 3), (3, 1), (2, 3),
          (2, 0, 3), (2, 3, 2), (1, 1, 1), (1, 2, 1, 2)]

NUM = ["bool", "u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f4", "f8", "c8", "c16"]


def fill(dt, shape, start=0):
    """Deterministic array with boundary values."""
    dt = np.dtype(dt)
    n = int(np.prod(shape, dtype=int))
    if dt.kind == "b":
        v = [bool((start + i) % 3 != 1) for i in range(n)]
    elif dt.kind == "u":
        m = np.iinfo(dt).max
        pool = [0, 1, m, m - 1, 2, m // 2, m // 2 + 1, 97]
        v = [pool[(start + i) % len(pool)] for i in range(n)]
    elif dt.kind == "i":
        ii = np.iinfo(dt)
        pool = [0, -1, ii.max, ii.min, 1, 97, -97]
        v = [pool[(start + i) % len(pool)] for i in range(n)]
    elif dt.kind == "f":
        fi = np.finfo(dt)
        pool = [0.0, -0.0, 1.5, float("inf"), float("-inf"), float("nan"), float(fi.max),
                float(fi.tiny), -2.25]
        v = [pool[(start + i) % len(pool)] for i in range(n)]
    elif dt.kind == "c":
        pool = [0j, complex(1, -2), complex(-0.0, 3), complex(0, float("inf")),
                complex(float("nan"), 1), complex(-1.5, -0.0)]
        v = [pool[(start + i) % len(pool)] for i in range(n)]
    elif dt.kind == "S":
        w = dt.itemsize
        pool = [b"", b"a" * w, b"ab"[:w], b"z", (b"xy" * w)[:w]]
        v = [pool[(start + i + 1) % len(pool)] for i in range(n)]
    elif dt.kind == "U":
        w = dt.itemsize // 4
        pool = ["", "a" * w, "b\xe9"[:w], "\u0101", ("x\u20ac" * w)[:w]]
        v = [pool[(start + i + 1) % len(pool)] for i in range(n)]
    elif dt.kind == "O":
        pool = [1, "ab", None, [1, 2], np.float32(2), {"k": 1}, b"x", (), np.arange(2)]
        out = np.empty((n,), dtype=object)
        for i in range(n):
            out[i] = pool[(start + i) % len(pool)]
        return out.reshape(shape)
    elif dt.kind == "V" and dt.names is not None:
        out = np.zeros(shape, dtype=dt)
        for j, nm in enumerate(dt.names):
            f = dt.fields[nm][0]
            base, sub = (f.subdtype if f.subdtype is not None else (f, ()))
            out[nm] = fill(base, tuple(shape) + tuple(sub), start + 3 * j)
        return out
    else:
        raise ValueError(dt)
    if not n:
        return np.zeros(shape, dtype=dt)
    return np.array(v, dtype=dt).reshape(shape)


STRUCTS = {
    "i4": [("a", "i4")],
    "i4f8": [("a", "i4"), ("b", "f8")],
    "order": [("z", "u1"), ("a", "u1"), ("m", "f4")],
    "sub2": [("a", "i4", (2,)), ("b", "f8")],
    "sub23": [("a", "i2", (2, 3))],
    "bool": [("a", "?"), ("b", "u1")],
    "cplx": [("a", "c8"), ("b", "c16")],
    "nest": [("a", [("x", "i4"), ("y", "f8")]), ("b", "u1")],
    "esc": [("a/b", "i4"), (".", "u1"), ("\\", "f4"), ("\xe9", "i8")],
    "obj": [("a", "O"), ("b", "i4")],
    "names": [("keys", "i4"), ("values", "i4"), ("#refs#", "i4")],
    "bytes": [("s", "S3"), ("a", "i4")],
}
STRUCT_NUL = [("a\x00", "i4"), ("b", "f8")]


def strings():
    out = ["", "abc", " a ", "a\x00", "\x00a", "a\x00b", "\x00\x00", "\u4f60\u597d", "a\U0001f600",
           "\U0001f600a", "\u0100\u0100", "x\u0100", "e\u0301", "'\"", "1.0", "nan"]
    return list(dict.fromkeys(out + CHARS))


def bytestrings():
    return [b"", b"a", b"abc", b"\x00", b"a\x00", b"\x00a", b"a\x00b", b"\x7f", b"\x80", b"\xff",
            b"\x80\x00", b"\xc3\xa9", b"\xff\xfe", b"\x00\x00", bytes(range(256))]


def _reg(d, name, thunk, *tags):
    assert name not in d, name
    d[name] = (thunk, frozenset(tags))


def build():
    """Registry name -> (thunk, tags)."""
    d = {}

    def add(name, thunk, *tags):
        _reg(d, name, thunk, *tags)

    # Python scalars.
    for v in (True, False):
        add("bool:%r" % v, lambda v=v: v, "py", "leaf")
    for v in (0, 1, -1, 255, 2**31 - 1, 2**31, -2**31 - 1, 2**53 + 1, 2**63 - 1, 2**63, -2**63,
              -2**63 - 1, 2**64 - 1, 2**64, 10**30, -10**30, 10**5000 // 7 if False else 10**400):
        add("int:%s" % (v if abs(v) < 10**40 else "1e400"), lambda v=v: v, "py", "leaf")
    for v in (0.0, -0.0, 1.5, float("inf"), float("-inf"), float("nan"), 1.7976931348623157e308,
              5e-324, 0.1):
        add("float:%r" % v, lambda v=v: v, "py", "leaf")
    for i, v in enumerate((0j, 1 + 2j, complex(-0.0, -0.0), complex(float("nan"), 1),
                           complex(0, float("inf")), complex(3, -0.0))):
        add("complex:%d" % i, lambda v=v: v, "py", "leaf")
    for v in strings():
        add("str:%a" % v, lambda v=v: v, "py", "leaf", "str")
    for v in bytestrings():
        nm = v.hex() if len(v) < 20 else "all256"
        add("bytes:%s" % nm, lambda v=v: v, "py", "leaf", "bytes")
        add("bytearray:%s" % nm, lambda v=v: bytearray(v), "py", "leaf", "bytes")
    for nm, v in (("None", None), ("Ellipsis", Ellipsis), ("NotImplemented", NotImplemented)):
        add("const:" + nm, lambda v=v: v, "py", "leaf")
    # ranges, slices, dates, fractions.
    for i, v in enumerate((range(0), range(5), range(1, 10, 2), range(10, 0, -3),
                           range(0, 2**70), range(-2**63, 2**63 - 1, 7), range(3, 3))):
        add("range:%d" % i, lambda v=v: v, "py", "dictlike")
    for i, v in enumerate((slice(None), slice(1), slice(1, 2, 3), slice(None, None, -1),
                           slice("a", b"b", 1.5), slice((1, 2), [3], {"a": 1}))):
        add("slice:%d" % i, lambda v=v: v, "py", "dictlike")
    dt = datetime
    tz = dt.timezone
    for i, v in enumerate((dt.timedelta(0), dt.timedelta(-1, 5, 7), dt.timedelta.max,
                           dt.timedelta.min, dt.timedelta(microseconds=1))):
        add("timedelta:%d" % i, lambda v=v: v, "py", "dictlike")
    tzs = (tz.utc, tz(dt.timedelta(hours=5, minutes=30)), tz(dt.timedelta(hours=-3), "ABC"),
           tz(dt.timedelta(0), "zero"), tz(dt.timedelta(seconds=-1)),
           tz(dt.timedelta(hours=2), "\xe9\u4f60"), tz(dt.timedelta(hours=2), ""))
    for i, v in enumerate(tzs):
        add("timezone:%d" % i, lambda v=v: v, "py", "dictlike")
    for i, v in enumerate((dt.date.min, dt.date.max, dt.date(2020, 2, 29))):
        add("date:%d" % i, lambda v=v: v, "py", "dictlike")
    for i, v in enumerate((dt.time.min, dt.time.max, dt.time(1, 2, 3, 4, tz.utc),
                           dt.time(5, tzinfo=tzs[2]))):
        add("time:%d" % i, lambda v=v: v, "py", "dictlike")
    for i, v in enumerate((dt.datetime.min, dt.datetime.max, dt.datetime(2020, 2, 29, 1, 2, 3, 4, tz.utc),
                           dt.datetime(1999, 12, 31, 23, 59, 59, 999999, tzs[1]),
                           dt.datetime(2000, 1, 1, tzinfo=tzs[2]))):
        add("datetime:%d" % i, lambda v=v: v, "py", "dictlike")
    F = fractions.Fraction
    for i, v in enumerate((F(0), F(1, 3), F(-7, 2), F(10**30, 7), F(1, 10**30), F(-2**63 - 1, 3))):
        add("Fraction:%d" % i, lambda v=v: v, "py", "dictlike")
    # sequences.
    seqs = {
        "empty": lambda: [], "one": lambda: [1], "mixed": lambda: [1, "a", None, 2.5],
        "strs": lambda: ["a", "bc", ""], "none": lambda: [None], "emptystr": lambda: [""],
        "many": lambda: list(range(40)), "dups": lambda: [7, 7, 7],
    }
    for nm, th in seqs.items():
        for t in (list, tuple, set, frozenset, deque):
            add("%s:%s" % (t.__name__, nm), lambda t=t, th=th: t(th()), "py", "seq")
    seq2 = {
        "nested": lambda: [[1, [2, [3, []]]], (4,), {5}],
        "eqlists": lambda: [[1, 2], [3, 4]], "onelist": lambda: [[1, 2]],
        "eqarrays": lambda: [np.arange(2), np.arange(2, 4)],
        "onearray": lambda: [np.arange(3)], "emptyarrays": lambda: [np.zeros((0,)), np.zeros((0, 3))],
        "diffarrays": lambda: [np.arange(2), np.arange(3)], "arr2d": lambda: [np.eye(2), np.eye(2)],
        "objarr": lambda: [fill("O", (2,))], "dicts": lambda: [{"a": 1}, {}, {1: 2}],
        "consts": lambda: [None, ..., NotImplemented], "emptycont": lambda: [[], (), {}, set(), "", b""],
        "npscalars": lambda: [np.int8(1), np.str_("a"), np.bytes_(b"a"), np.bool_(True)],
        "dtypes": lambda: [np.dtype("i4"), np.dtype([("a", "f8")])],
        "matrix": lambda: [np.matrix([[1, 2], [3, 4]])],
        "struct": lambda: [fill(STRUCTS["i4f8"], (2,)), fill(STRUCTS["i4f8"], (1,))[0]],
        "oneelem": lambda: [[[[]]]], "tupleoftuple": lambda: [((), ((),))],
        "scalararr": lambda: [np.array(5), np.array([6])],
        "samerow": lambda: [np.zeros((1, 2)), np.zeros((1, 2))],
    }
    for nm, th in seq2.items():
        for t in (list, tuple, deque):
            add("%s:%s" % (t.__name__, nm), lambda t=t, th=th: t(th()), "py", "seq", "nested")
    # dict-likes.
    dicts = {
        "empty": lambda: [], "one": lambda: [("a", 1)], "order": lambda: [("z", 1), ("a", 2), ("m", 3)],
        "bytes": lambda: [(b"a", 1), (b"b", 2)], "mixstr": lambda: [("a", 1), (b"b", 2), (np.str_("c"), 3),
                                                                    (np.bytes_(b"d"), 4)],
        "int": lambda: [(1, 2), (3, 4)], "mixed": lambda: [(1, "x"), ("a", None), ((1, 2), 3)],
        "esc": lambda: [("a/b", 1), (".", 2), ("..", 3), ("\x00", 4), ("\\", 5), ("\\x41", 6), ("/", 7)],
        "uni": lambda: [("\xe9", 1), ("\u4f60", 2), ("\U0001f600", 3)],
        "reserved": lambda: [("keys", 1), ("values", 2), ("#refs#", 3), ("a", 4)],
        "one_int": lambda: [(0, 0)],
        "none": lambda: [(None, 1)], "big": lambda: [(10**30, 1), (-1, 2)],
        "tuplekeys": lambda: [((1, "a"), 2), (frozenset([1]), 3)],
        "space": lambda: [(" ", 1), ("a b", 2), ("1", 3)],
        "floatk": lambda: [(1.5, 1), (2.5, 2)], "boolk": lambda: [(True, 1), (False, 2)],
    }
    for nm, th in dicts.items():
        for t in (dict, OD):
            add("%s:%s" % (t.__name__, nm), lambda t=t, th=th: t(th()), "py", "dict")
    add("Counter:empty", lambda: Counter(), "py", "dict")
    add("Counter:str", lambda: Counter("abracadabra"), "py", "dict")
    add("Counter:int", lambda: Counter([1, 2, 2, 3]), "py", "dict")
    add("Counter:neg", lambda: Counter({"a": -1, "b": 0, "c": 10**30}), "py", "dict")
    add("ChainMap:empty", lambda: ChainMap(), "py", "dict")
    add("ChainMap:two", lambda: ChainMap({"a": 1}, {"a": 2, 3: 4}), "py", "dict")
    add("ChainMap:od", lambda: ChainMap(OD(z=1, a=2), {}), "py", "dict")
    nest = {
        "deep": lambda: {"a": {"b": {"c": {"d": [1, {"e": ()}]}}}},
        "vals": lambda: {"a": [1, 2], "b": np.arange(3), "c": "str", "d": None, "e": {1: 2}, "f": {}},
        "emptyvals": lambda: {"a": [], "b": "", "c": b"", "d": {}, "e": np.zeros((0, 2))},
        "arr": lambda: {"a": np.eye(2), "b": np.array(3), "c": np.array([1])},
        "uninest": lambda: {"\xe9": {"\u4f60": {"a": [{"\u0100": 1}]}}},
        "kvnest": lambda: {1: {2: {3: 4}}},
        "dtype": lambda: {"d": np.dtype("f4"), "s": fill(STRUCTS["nest"], (2,))},
    }
    for nm, th in nest.items():
        add("dict:" + nm, th, "py", "dict", "nested")
        add("OrderedDict:" + nm, lambda th=th: OD(th()), "py", "dict", "nested")
    # dtypes.
    for i, s in enumerate(("bool", "i1", "u8", "f4", "f8", "c16", "S1", "S5", "U1", "U7", "O", "V3",
                           [("a", "i4")], [("a", "i4"), ("b", "S3", (2,))], [("a", [("b", "f8")])],
                           ("i4", (2, 3)), [("a b", "u1"), ("", "i2")], ">i4", "f2", "M8[s]", "m8[us]",
                           [("'q\"", "i4")], {"names": ["a", "b"], "formats": ["u1", "f8"],
                                              "offsets": [0, 8], "itemsize": 16})):
        add("dtype:%d" % i, lambda s=s: np.dtype(s), "np", "dtype")
    # NumPy scalars.
    for t in NUM:
        for i in range(1 if t == "bool" else 6):
            add("np.%s:%d" % (t, i), lambda t=t, i=i: fill(t, (1,), i)[0], "np", "leaf", "scalar")
    add("np.bool:F", lambda: np.bool_(False), "np", "leaf", "scalar")
    for v in strings():
        if not v.endswith("\x00"):
            add("np.str_:%a" % v, lambda v=v: np.str_(v), "np", "leaf", "str", "scalar")
    for v in bytestrings():
        if not v.endswith(b"\x00"):
            nm = v.hex() if len(v) < 20 else "all256"
            add("np.bytes_:%s" % nm, lambda v=v: np.bytes_(v), "np", "leaf", "bytes", "scalar")
    for t in "qQ":
        add("np.%s" % t, lambda t=t: np.zeros(1, t)[0], "np", "leaf", "scalar")
        add("arr:%s" % t, lambda t=t: np.arange(3).astype(t), "np", "array", "small")
        add("arr:%s:0d" % t, lambda t=t: np.array(7, t), "np", "array")
        add("struct:%s" % t, lambda t=t: np.array([(1, 2), (3, 4)], [("a", t), ("b", "i4")]), "np", "struct")
        add("struct1:%s" % t, lambda t=t: np.array([(1, 2)], [("a", t), ("b", "i4")]), "np", "struct")
    add("np.float16:0", lambda: np.float16(1.5), "np", "leaf", "scalar", "nomatlab")
    add("np.void:0", lambda: np.void(b"abc"), "np", "leaf", "scalar", "nomatlab")
    # arrays.
    for t in NUM + ["S1", "S3", "U1", "U3", "O"]:
        for sh in SHAPES:
            tags = ["np", "array"]
            if t[0] in "SU":
                tags.append("strarr")
            if t == "O":
                tags.append("objarr")
            add("arr:%s:%s" % (t, "x".join(map(str, sh)) or "()"), lambda t=t, sh=sh: fill(t, sh), *tags)
    for t in ("f2",):
        for sh in ((), (3,), (0,), (2, 3)):
            add("arr:f2:%s" % ("x".join(map(str, sh)) or "()"), lambda sh=sh: fill("f2", sh),
                "np", "array", "nomatlab")
    add("arr:V1:0", lambda: np.zeros((0,), "V1"), "np", "array", "nomatlab")
    add("arr:V3:0x2", lambda: np.zeros((0, 2), "V3"), "np", "array", "nomatlab")
    add("arr:V3:2", lambda: np.array([b"abc", b"x"], dtype="V3"), "np", "array", "nomatlab")
    for t in ("u2", "i4", "f8", "c8", "c16", "U2"):
        add("arr:>%s" % t, lambda t=t: fill(t, (2, 3)).astype(np.dtype(t).newbyteorder(">")),
            "np", "array", "bigendian")
        add("arr:>%s:0d" % t, lambda t=t: fill(t, ()).astype(np.dtype(t).newbyteorder(">")),
            "np", "array", "bigendian")
    for t in ("i4", "f8", "c16", "U3", "S3", "O", "bool"):
        add("arr:F:" + t, lambda t=t: np.asfortranarray(fill(t, (2, 3))), "np", "array", "layout")
        add("arr:T:" + t, lambda t=t: fill(t, (2, 3, 2)).T, "np", "array", "layout")
        add("arr:step:" + t, lambda t=t: fill(t, (4, 6))[::2, 1::3], "np", "array", "layout")
        add("arr:neg:" + t, lambda t=t: fill(t, (5,))[::-1], "np", "array", "layout")
        add("arr:bcast:" + t, lambda t=t: np.broadcast_to(fill(t, (1, 3)), (2, 3)), "np", "array", "layout")

        def ro(t=t):
            a = fill(t, (2, 2))
            a.flags.writeable = False
            return a
        add("arr:ro:" + t, ro, "np", "array", "layout")
    # strings in arrays with critical characters.
    for i, v in enumerate((["\U0001f600", "a"], ["a\U0001f600", "bc"], ["\u0100", "\u0200\u0100"],
                           ["\x00a", "b"], ["a\x00b", ""], ["\ue000", "\ud7ff"], ["\U0010ffff"] * 3,
                           ["", "", ""], ["abc", "d", ""])):
        for sh in ("1d", "2d", "0d"):
            def mk(v=v, sh=sh):
                a = np.array(v)
                if sh == "2d":
                    a = np.array([v, v[::-1]])
                elif sh == "0d":
                    a = np.array(v[0])
                return a
            add("arr:chars%d:%s" % (i, sh), mk, "np", "array", "strarr")
    for i, v in enumerate(([b"\x80", b"a"], [b"a\xff", b"bc"], [b"\x00a", b"b"], [b"", b"", b""],
                           [b"a\x00b", b""])):
        for sh in ("1d", "2d", "0d"):
            def mkb(v=v, sh=sh):
                a = np.array(v)
                if sh == "2d":
                    a = np.array([v, v[::-1]])
                elif sh == "0d":
                    a = np.array(v[0])
                return a
            add("arr:bytes%d:%s" % (i, sh), mkb, "np", "array", "strarr")
    # matrices, chararrays, recarrays.
    for t in ("i4", "f8", "c16", "bool", "U3", "S2", "O"):
        for sh in ((1, 1), (1, 3), (3, 1), (2, 2), (0, 0), (0, 3), (3, 0)):
            tags = ["np", "array", "matrix"] + (["strarr"] if t[0] in "US" else [])
            if t == "O":
                tags.append("objarr")
            add("matrix:%s:%s" % (t, "x".join(map(str, sh))),
                lambda t=t, sh=sh: np.matrix(fill(t, sh).reshape(sh)), *tags)
    for t in ("U1", "U3", "S1", "S3"):
        for sh in ((1,), (3,), (0,), (2, 3), (1, 1), (2, 2, 2), (3, 0)):
            add("chararray:%s:%s" % (t, "x".join(map(str, sh))),
                lambda t=t, sh=sh: fill(t, sh).view(np.chararray), "np", "array", "strarr", "chararray")
    for nm, dd in STRUCTS.items():
        for sh in ((), (1,), (3,), (0,), (2, 2), (1, 1), (0, 2)):
            add("struct:%s:%s" % (nm, "x".join(map(str, sh)) or "()"),
                lambda dd=dd, sh=sh: fill(dd, sh), "np", "array", "struct")
        add("structscalar:" + nm, lambda dd=dd: fill(dd, (2,))[1], "np", "struct", "scalar")
    for sh in ((), (1,), (3,)):
        add("struct:nul:%s" % ("x".join(map(str, sh)) or "()"), lambda sh=sh: fill(STRUCT_NUL, sh),
            "np", "array", "struct")
    for nm in ("i4f8", "nest", "obj"):
        for sh in ((1,), (3,), (0,), (2, 2)):
            add("recarray:%s:%s" % (nm, "x".join(map(str, sh))),
                lambda nm=nm, sh=sh: fill(STRUCTS[nm], sh).view(np.recarray), "np", "array", "struct", "rec")
    # Structured arrays with an object field: all ordered pairs of elements,
    # except alike arrays, which cannot be told from a subarray field.
    els = {"z3": lambda: np.zeros(3), "o1": lambda: np.ones(1), "o11": lambda: np.ones((1, 1)),
           "z3f4": lambda: np.ones(3, "f4"), "m22": lambda: np.arange(4.0).reshape(2, 2), "e": lambda: np.zeros(0),
           "i4": lambda: np.int32(3), "f8": lambda: np.float64(2.5), "S": lambda: np.bytes_(b"ab"),
           "U": lambda: np.str_("xyz"), "str": lambda: "t\u0100", "int": lambda: 7, "none": lambda: None,
           "list": lambda: [1], "dict": lambda: {"k": 2}, "mat": lambda: np.matrix([[1.5]])}
    for a in els:
        for b in els:
            x, y = els[a](), els[b]()
            if isinstance(x, (np.ndarray, np.generic)) and isinstance(y, (np.ndarray, np.generic)) and (
                    x.dtype, x.shape) == (y.dtype, y.shape):
                continue

            def mks(a=a, b=b):
                r = np.zeros((2,), dtype=[("n", "i4"), ("x", "O")])
                r["x"][0] = els[a]()
                r["x"][1] = els[b]()
                return r
            add("sobj:%s:%s" % (a, b), mks, "np", "sobj")
    return d


VALUES = build()


def get(name):
    return (VALUES.get(name) or LARGE[name])[0]()


def tagged(*tags, without=()):
    s = set(tags)
    w = set(without)
    return [n for n, (_, t) in VALUES.items() if s <= t and not (w & t)]


def build_large():
    """Values that are unusual in size: lengths, numbers of elements, depths, dimensions."""
    d = {}

    def add(name, thunk, *tags):
        _reg(d, name, thunk, *tags)
    for n in (31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 16383,
              16384, 16385, 32768, 65535, 65536, 65537, 100000):
        for nm, c in (("asc", "abcdefghijklmnopqrstuvwxyz "), ("uni", "a\u0100\u4f60z"), ("astral", "xy\U0001f600")):
            if nm != "asc" and n not in (63, 64, 255, 256, 4096, 8192, 16385, 65536):
                continue
            add("str:%s:%d" % (nm, n), lambda n=n, c=c: (c * (n // len(c) + 1))[:n])
            add("np.str_:%s:%d" % (nm, n), lambda n=n, c=c: np.str_((c * (n // len(c) + 1))[:n]))
        add("bytes:%d" % n, lambda n=n: (bytes(range(1, 256)) * (n // 255 + 1))[:n])
        add("bytes:asc:%d" % n, lambda n=n: (b"abcdefg" * n)[:n])
        add("bytearray:%d" % n, lambda n=n: bytearray((bytes(range(256)) * (n // 256 + 1))[:n]))
        for t in ("u1", "f8", "c16", "?", "S3", "U2"):
            if t != "u1" and n not in (64, 255, 256, 512, 4096, 8192, 16384, 16385, 65536):
                continue
            add("arr:%s:%d" % (t, n), lambda n=n, t=t: fill(t, (n,)))
    for n in (16, 17, 40, 255, 256, 257, 300, 1000, 1500):
        for t in (list, tuple, set, frozenset, deque):
            if n <= 300 or t is list:
                add("%s:%d" % (t.__name__, n), lambda n=n, t=t: t(range(n)))
        if n <= 300:
            add("list:mixed:%d" % n, lambda n=n: [(i, str(i), None, [i], {"a": i})[i % 5] for i in range(n)])
            add("dict:int:%d" % n, lambda n=n: {i: str(i) for i in range(n)})
            add("objarr:%d" % n, lambda n=n: fill("O", (n,)))
            add("Counter:%d" % n, lambda n=n: Counter({"w%d" % i: i for i in range(n)}))
            add("struct:%d" % n, lambda n=n: fill(STRUCTS["i4f8"], (n,)))
            add("structobj:%d" % n, lambda n=n: fill(STRUCTS["obj"], (n,)))
        for t in (dict, OD):
            add("%s:%d" % (t.__name__, n), lambda n=n, t=t: t(("key%d" % (i * 7 % n), i) for i in range(n)))
    add("dict:4001", lambda: {"k%d" % i: True for i in range(4001)})
    for n in (63, 64, 255, 256, 257, 1000, 1024, 5000):
        add("dict:keylen:%d" % n, lambda n=n: {"k" * n: 1, "\u4f60" * n: 2, b"b" * n: 3, np.str_("/" * n): 4, "." * n: 5,
                                                    np.bytes_(b"s" * n): 6, np.str_("u" * n): 7})
        add("field:namelen:%d" % n, lambda n=n: fill([("n" * n, "i4"), ("\xe9" * n, "f8")], (2,)), "longname")
    for n in (10, 30, 100):
        add("fields:%d" % n, lambda n=n: fill([("f%d" % (i * 3 % n + i // n), ["i4", "f8", "?", "c8"][i % 4]) for i in range(n)]
                                              if n % 3 else [("f%d" % (n - i), "i4") for i in range(n)], (2,)))
    for nd in (5, 8, 9, 16, 31):
        add("ndim:%d" % nd, lambda nd=nd: fill("i4", (2, 3) + (1,) * (nd - 3) + (2,)))
        add("ndim0:%d" % nd, lambda nd=nd: fill("f8", (2, 0) + (1,) * (nd - 3) + (3,)))
        add("ndimS:%d" % nd, lambda nd=nd: fill("U2", (2, 1) + (1,) * (nd - 3) + (2,)))
        add("ndimO:%d" % nd, lambda nd=nd: fill("O", (1, 2) + (1,) * (nd - 3) + (2,)))
    for n in (8, 20, 40):
        def deep(n=n, f=None, x=1):
            for i in range(n):
                x = f(x, i)
            return x
        for nm, f in (("list", lambda x, i: [x]), ("tuple", lambda x, i: (x, i)), ("dict", lambda x, i: {"a": x}),
                      ("kv", lambda x, i: {i: x}), ("mix", lambda x, i: [[x], (x,), {"a": x}, {1: x}, deque([x])][i % 5] if i < 5
                                            else [x])):
            add("deep:%s:%d" % (nm, n), lambda n=n, f=f, deep=deep: deep(n, f))
    for sh in ((300, 300), (1, 100000), (100000, 1), (50, 40, 30), (1000, 33)):
        for t in ("f4", "i8", "c8", "?"):
            add("arr:%s:%s" % (t, "x".join(map(str, sh))), lambda sh=sh, t=t: fill(t, sh))
    for e in (62, 63, 64, 65, 100, 127, 128, 256, 1000, 4000):
        for dv in (-1, 0, 1):
            add("int:2**%d%+d" % (e, dv), lambda e=e, dv=dv: 2**e + dv)
            add("int:-2**%d%+d" % (e, dv), lambda e=e, dv=dv: -2**e + dv)
    for w in (1, 2, 7, 8, 9, 63, 64, 255, 256, 1000):
        add("arr:S%d" % w, lambda w=w: np.array([b"a" * w, b"", b"b" * (w // 2)]))
        add("arr:U%d" % w, lambda w=w: np.array(["a" * w, "", "\u0100" * (w // 2)]))
        add("arr:U%dx" % w, lambda w=w: np.array([["\U0001f600" * w, "q"], ["", "\u0100" * (w // 2)]]))
    return d


LARGE = {"large " + n: t for n, t in build_large().items()}
VALUES_AND_LARGE = dict(VALUES, **LARGE)

