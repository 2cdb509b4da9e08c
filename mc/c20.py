"""C20: conversion utilities against independent references, exhaustively over
small strings, arrays, dtypes and attribute sets."""
import ast
import itertools
import struct
import sys

import h5py
import numpy as np

from hdf5storage import utilities as U

from . import common, values as V

PROP = "C20"
LEVEL = "exploration"
ASSUMPTIONS = ["numpy strings do not distinguish trailing NULs, so numpy results are compared without them",
               "lone surrogates are not text and are not used"]

CH = ["a", "\x00", "\x7f", "\x80", "\xff", "\u0100", "\u2000", "\ud7ff", "\ufeff", "\ufffe", "\uffff", "\U00010000",
      "\U0010ffff"]


def units(s, size):
    """UTF code units of a str."""
    if size == 1:
        return list(s.encode("utf-8"))
    if size == 4:
        return [ord(c) for c in s]
    out = []
    for c in s:
        o = ord(c)
        if o > 0xFFFF:
            o -= 0x10000
            out += [0xD800 | o >> 10, 0xDC00 | o & 0x3FF]
        else:
            out.append(o)
    return out


def st(s):
    return str(s).rstrip("\x00")


def stb(b):
    return bytes(b).rstrip(b"\x00")


class Ctx:
    def __init__(self, res):
        self.res = res

    def __call__(self, key, fn, want):
        """Run fn and compare by predicate or value."""
        self.res.count("evaluations")
        try:
            got = fn()
        except Exception as e:
            self.res.bad(key, common.exc_str(e))
            return None
        ok = want(got) if callable(want) else (type(got) is type(want) and got == want)
        if not ok:
            self.res.bad(key, "got %r" % (got,) + ("" if callable(want) else ", expected %r" % (want,)))
        else:
            self.res.seen("nontrivial", key)
        return got


def arrays_of(a):
    """The same array in several memory layouts and byte orders."""
    yield "C", a
    if a.ndim:
        yield "F", np.asfortranarray(a)
    big = np.zeros(tuple(2 * n for n in a.shape), dtype=a.dtype)
    sl = tuple(slice(None, None, 2) for _ in a.shape)
    big[sl] = a
    yield "strided", big[sl]
    if a.ndim:
        yield "reversed", np.ascontiguousarray(a[::-1])[::-1]
    if a.dtype.kind in "uUcfi" and a.dtype.itemsize > 1:
        yield "swapped", a.astype(a.dtype.newbyteorder())
    r = a.copy()
    r.flags.writeable = False
    yield "readonly", r


def strings(case, res):
    c = Ctx(res)
    for t in itertools.product(CH, repeat=case["n"] - 1) if case["n"] else [None]:
        s = case["first"] + "".join(t) if t is not None else ""
        k = "str:%r:" % s
        b8 = s.encode("utf-8")
        for name, x in (("str", s), ("bytes", b8), ("bytearray", bytearray(b8))):
            c(k + "to_str:" + name, lambda: U.convert_to_str(x), s)
            c(k + "to_np:" + name, lambda: U.convert_to_numpy_str(x), lambda g: type(g) is np.str_ and st(g) == st(s))
            c(k + "to_npb:" + name, lambda: U.convert_to_numpy_bytes(x),
              lambda g: type(g) is np.bytes_ and stb(g) == stb(b8))
            c(k + "attr:" + name, lambda: U.convert_attribute_to_string(x),
              None if name == "bytearray" else s)
        ns, nb = np.str_(s), np.bytes_(b8)
        c(k + "npstr to_str", lambda: U.convert_to_str(ns), lambda g: type(g) is str and st(g) == st(s))
        c(k + "npbytes to_str", lambda: U.convert_to_str(nb), lambda g: type(g) is str and st(g) == st(s))
        c(k + "npstr attr", lambda: U.convert_attribute_to_string(ns), lambda g: isinstance(g, str) and st(g) == st(s))
        c(k + "npbytes attr", lambda: U.convert_attribute_to_string(nb), lambda g: isinstance(g, str) and st(g) == st(s))
        c(k + "npstr to_np", lambda: U.convert_to_numpy_str(ns), lambda g: type(g) is np.str_ and st(g) == st(s))
        c(k + "npbytes to_np", lambda: U.convert_to_numpy_str(nb), lambda g: type(g) is np.str_ and st(g) == st(s))
        c(k + "npstr to_npb", lambda: U.convert_to_numpy_bytes(ns), lambda g: type(g) is np.bytes_ and stb(g) == stb(b8))
        c(k + "npbytes to_npb", lambda: U.convert_to_numpy_bytes(nb),
          lambda g: type(g) is np.bytes_ and stb(g) == stb(b8))
        # To code units.
        for size, f in ((2, U.convert_numpy_str_to_uint16), (4, U.convert_numpy_str_to_uint32)):
            want = units(st(s), size)

            def good(g):
                return (isinstance(g, np.ndarray) and g.ndim == 1 and g.dtype == np.dtype("u%d" % size)
                        and g.tolist()[:len(want)] == want and not any(g.tolist()[len(want):]))
            g = c(k + "u%d" % size, lambda: f(ns), good)
            if g is not None and len(g):
                c(k + "u%d back" % size, lambda: U.convert_to_numpy_str(g, len(g))[0], lambda x: st(x) == st(s))
                c(k + "u%d back none" % size, lambda: U.convert_to_numpy_str(g)[0], lambda x: st(x) == st(s))
        # From code units.
        for size in (1, 2, 4):
            u = np.array(units(s, size), dtype="u%d" % size)
            for lay, x in arrays_of(u):
                c(k + "from u%d %s" % (size, lay), lambda: U.convert_to_str(x), s)
                if len(u):
                    for ln in (None, len(u)):
                        c(k + "from u%d %s np %s" % (size, lay, ln), lambda: U.convert_to_numpy_str(x, ln),
                          lambda g: g.shape == (1,) and g.dtype.kind == "U" and st(g[0]) == st(s))
                        c(k + "from u%d %s npb %s" % (size, lay, ln), lambda: U.convert_to_numpy_bytes(x, ln),
                          lambda g: g.shape == (1,) and g.dtype.kind == "S" and stb(g[0]) == stb(b8))
            if len(u) == 1:
                for x in (u[0], np.array(u[0])):
                    c(k + "scalar u%d" % size, lambda: U.convert_to_str(x), s)
                    c(k + "scalar np u%d" % size, lambda: U.convert_to_numpy_str(x),
                      lambda g: type(g) is np.str_ and st(g) == st(s))
                    c(k + "scalar npb u%d" % size, lambda: U.convert_to_numpy_bytes(x),
                      lambda g: type(g) is np.bytes_ and stb(g) == stb(b8))


WORDS = ["", "a", "ab", "abc", "\xe9", "\u20acx", "\U0001f600", "x\U0001f600\u0100", "\ufeffq", "a\x00b", "\U0010ffff" * 3]
SHAPES = [(), (1,), (3,), (1, 1), (2, 2), (1, 3), (3, 1), (2, 1, 2), (0,), (2, 0)]


def str_arrays(case, res):
    c = Ctx(res)
    off = case["off"]
    for shape in SHAPES:
        for width in (None, 8):
            for pick in range(len(WORDS)):
                n = int(np.prod(shape))
                ws = [WORDS[(off + pick * i) % len(WORDS)] for i in range(n)]
                a = np.array(ws, dtype="U" if width is None else "U%d" % width).reshape(shape)
                k = "arr:%r:%r:%r:" % (shape, width, ws)
                flat = [str(x) for x in a.ravel()]
                b = np.array([w.encode() for w in flat], dtype="S" if n else "S1").reshape(shape)
                for lay, x in arrays_of(b):
                    c(k + "b to np " + lay, lambda: U.convert_to_numpy_str(x),
                      lambda g: (g.dtype.kind == "U" and g.shape == shape
                                 and [st(e) for e in np.asarray(g).ravel()] == flat))
                    c(k + "b to npb " + lay, lambda: U.convert_to_numpy_bytes(x),
                      lambda g: g.shape == shape and np.array_equal(g, b))
                for lay, x in arrays_of(a):
                    kk = k + lay + ":"
                    before = x.tobytes()
                    c(kk + "to npb", lambda: U.convert_to_numpy_bytes(x),
                      lambda g: (g.dtype.kind == "S" and g.shape == shape
                                 and [e.decode() for e in np.asarray(g).ravel()] == flat))
                    c(kk + "to np", lambda: U.convert_to_numpy_str(x),
                      lambda g: g.shape == shape and np.array_equal(g, a))
                    for size, f in ((2, U.convert_numpy_str_to_uint16), (4, U.convert_numpy_str_to_uint32)):
                        if a.nbytes == 0:
                            c(kk + "u%d empty" % size, lambda: f(x),
                              lambda g: g.size == 0 and g.dtype == np.dtype("u%d" % size))
                            continue
                        us = [units(w, size) for w in flat]
                        wd = x.dtype.itemsize // 4 if size == 4 else max([1] + [len(u) for u in us])

                        def good(g):
                            sh = shape if shape else (1,)
                            if g.dtype != np.dtype("u%d" % size) or g.shape[:-1] != sh[:-1]:
                                return False
                            w = g.shape[-1] // sh[-1]
                            if w * sh[-1] != g.shape[-1] or w < max(len(u) for u in us):
                                return False
                            if w == 0:
                                return not any(us)
                            rows = np.ascontiguousarray(g).reshape((-1, w)).tolist()
                            return rows == [u + [0] * (w - len(u)) for u in us]
                        if a.dtype.itemsize == 0 or wd == 0:
                            continue
                        g = c(kk + "u%d" % size, lambda: f(x), good)
                        if g is None or g.size == 0:
                            continue
                        w = g.shape[-1] // (shape or (1,))[-1]
                        for lay2, y in arrays_of(g):
                            c(kk + "u%d back %s" % (size, lay2), lambda: U.convert_to_numpy_str(y, w),
                              lambda r: (r.dtype.kind == "U" and r.shape == (shape or (1,))
                                         and [st(e) for e in r.ravel()] == flat))
                            c(kk + "u%d back b %s" % (size, lay2), lambda: U.convert_to_numpy_bytes(y, w),
                              lambda r: (r.dtype.kind == "S" and r.shape == (shape or (1,))
                                         and [e.decode() for e in r.ravel()] == [w2 for w2 in flat]))
                    if x.tobytes() != before:
                        res.bad(kk + "input", "the input was changed")
                # UTF-8 code unit arrays.
                if b.dtype.itemsize and b.size and b.nbytes:
                    w = b.dtype.itemsize
                    u8 = np.ascontiguousarray(np.atleast_1d(b)).view("u1").reshape(
                        (shape or (1,))[:-1] + ((shape or (1,))[-1] * w,))
                    for lay2, y in arrays_of(u8):
                        c(k + "u1 back %s" % lay2, lambda: U.convert_to_numpy_str(y, w),
                          lambda r: r.shape == (shape or (1,)) and [st(e) for e in r.ravel()] == flat)
                        c(k + "u1 back b %s" % lay2, lambda: U.convert_to_numpy_bytes(y, w),
                          lambda r: r.shape == (shape or (1,)) and [e.decode() for e in r.ravel()] == flat)


NAMES = [("r", "i"), ("real", "imag"), ("Re", "IM"), ("R", "imaginary"), ("x", "y"), ("imag", "real"), ("i", "r"),
         ("\xe9", "a b")]
REALS, IMAGS = ("r", "re", "real"), ("i", "im", "imag", "imaginary")


def bits(x):
    """Values with the sign of zero; NaN payloads only where no padding."""
    x = np.asarray(x).copy()
    if x.dtype.itemsize > 8:
        return x.shape, [(repr(v), bool(np.signbit(v)) if v == v else None) for v in x.ravel()]
    return x.shape, x.astype(x.dtype.newbyteorder("=")).tobytes()


def complexes(case, res):
    c = Ctx(res)
    for ch in ("c8", "c16", "c32"):
        dt = np.dtype(ch) if ch != "c32" else np.dtype(np.clongdouble)
        part = {"c8": np.float32, "c16": np.float64, "c32": np.longdouble}[ch]
        sp = [0.0, -0.0, 1.5, float("nan"), float("inf"), -float("inf"), 1e-45, 3e38]
        vals = [complex(a, b) for a in sp for b in sp]
        arrs = [("all", np.zeros(64, dtype=dt))]
        arrs[0][1].real = [v.real for v in vals]
        arrs[0][1].imag = [v.imag for v in vals]
        for shape in SHAPES:
            a = np.zeros(shape, dtype=dt)
            a.real = np.arange(a.size).reshape(shape)
            a.imag = -a.real - 1
            arrs.append((shape, a))
        arrs.append(("scalar", arrs[0][1][13]))
        for nm, a in arrs:
            lays = arrays_of(a) if isinstance(a, np.ndarray) else [("scalar", a)]
            for lay, x in lays:
                for names in NAMES:
                    k = "complex:%s:%s:%s:%s:" % (ch, nm, lay, names)

                    def enc_ok(e):
                        return (e.dtype.names == names and e.shape == x.shape
                                and all(np.dtype(e.dtype[n]).newbyteorder("=") == np.dtype(part) for n in names)
                                and bits(e[names[0]]) == bits(x.real.copy())
                                and bits(e[names[1]]) == bits(x.imag.copy()))
                    e = c(k + "enc", lambda: U.encode_complex(x, names), enc_ok)
                    if e is None:
                        continue

                    def dec_ok(d):
                        return (d.dtype.newbyteorder("=") == dt and d.shape == x.shape
                                and bits(d.real.copy()) == bits(x.real.copy())
                                and bits(d.imag.copy()) == bits(x.imag.copy()))
                    low = tuple(n.lower() for n in names)
                    std = low[0] in REALS and low[1] in IMAGS
                    clash = low[0] in IMAGS or low[1] in REALS
                    if not clash:
                        c(k + "dec", lambda: U.decode_complex(e, names), dec_ok)
                    if std:
                        c(k + "dec none", lambda: U.decode_complex(e), dec_ok)
                    elif not clash:
                        c(k + "dec none", lambda: U.decode_complex(e), lambda d: d.dtype == e.dtype)
    # What must be returned unchanged.
    for a in (np.zeros(3), np.zeros(3, "c8"), np.array(["a"]), np.zeros(3, [("r", "f4")]),
              np.zeros(3, [("r", "f4"), ("i", "f4"), ("x", "f4")]), np.zeros(3, [("a", "f4"), ("b", "f4")]),
              np.zeros(3, [("r", "f4"), ("re", "f4")]), np.zeros((), [("r", "f4"), ("q", "f4")]),
              np.float32(3), np.zeros(1, [("r", "f4"), ("q", "f4")])[0]):
        c("dec same:%r" % (a,), lambda: U.decode_complex(a), lambda d: V.canon(d) == V.canon(a))
    for p, q in itertools.product(["f4", "f8", "i2", "i4", ">f8", "u1", "f2"], repeat=2):
        a = np.zeros(3, [("imag", q), ("real", p)])
        a["real"], a["imag"] = [1, 2, 3], [4, 5, 6]
        c("dec mixed:%s:%s" % (p, q), lambda: U.decode_complex(a),
          lambda d: d.tolist() == [1 + 4j, 2 + 5j, 3 + 6j] and d.dtype.kind == "c")


KINDS = {
    "str": ("string", "abc"), "str2": ("string", "abd"), "str3": ("string", "abcd"), "str0": ("string", "a" * 300),
    "sarr": ("string_array", ["a", "bc"]), "sarr2": ("string_array", ["a", "\xe9\u20ac"]), "sarr0": ("string_array", []),
    "sarrb": ("string_array", [b"x", np.str_("y"), np.bytes_(b"z"), ""]),
    "u8": ("value", np.uint8(1)), "u8b": ("value", np.uint8(2)), "i64": ("value", np.int64(1)),
    "f4": ("value", np.float32(1)), "arr1": ("value", np.uint64([3])), "arr2": ("value", np.uint64([3, 0])),
    "arr3": ("value", np.uint64([4, 0])), "arr22": ("value", np.uint64([[4, 0]])), "arri": ("value", np.int32([3, 0])),
    "arr0": ("value", np.zeros((0,), "u8")), "int": ("value", 7), "float": ("value", 1.5), "bool": ("value", True),
    "pystr": ("value", "text"),
}


def norm_attr(v):
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("oarr", v.shape, [norm_attr(x) for x in v.ravel()])
        return ("arr", v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, np.generic):
        return ("sc", v.dtype.str, v.tobytes())
    if isinstance(v, h5py.Empty):
        return ("empty", v.dtype.str)
    return (type(v).__name__, v)


def attr_sets(case, res):
    fn = common.newfile()
    try:
        with h5py.File(fn, "w") as f:
            # What a freshly created attribute looks like.
            ref = {}
            for k, (kind, v) in KINDS.items():
                g = f.create_group("ref_" + k)
                if kind == "string_array":
                    g.attrs.create("a", [U.convert_to_str(x) for x in v], dtype=h5py.special_dtype(vlen=str))
                elif kind == "string":
                    g.attrs.create("a", np.bytes_(v))
                else:
                    g.attrs.create("a", v)
                ref[k] = norm_attr(g.attrs["a"])
            n = 0
            for target in ("group", "dataset"):
                for before in [()] + [(k,) for k in KINDS] + [("str", case["k"]), ("u8", case["k"])]:
                    for after in ((case["k"],), (), (case["k"], "arr2"), ("u8", case["k"])):
                        for discard in (True, False):
                            n += 1
                            t = f.create_group("t%d" % n) if target == "group" else f.create_dataset(
                                "t%d" % n, data=[1])
                            key = "attrs:%s:%r:%r:%r" % (target, before, after, discard)
                            res.count("evaluations")
                            try:
                                U.set_attributes_all(t, {"n%d" % i: KINDS[k] for i, k in enumerate(before)})
                                t.attrs["own"] = 5
                                U.set_attributes_all(t, {"n%d" % i: KINDS[k] for i, k in enumerate(after)},
                                                     discard_others=discard)
                                got = {k: norm_attr(v) for k, v in t.attrs.items()}
                            except Exception as e:
                                res.bad(key, common.exc_str(e))
                                continue
                            want = {} if discard else dict({"n%d" % i: ref[k] for i, k in enumerate(before)},
                                                           own=norm_attr(np.int64(5)))
                            want.update({"n%d" % i: ref[k] for i, k in enumerate(after)})
                            if got != want:
                                res.bad(key, "left %r, expected %r" % (got, want))
                            else:
                                res.seen("nontrivial", key)
    finally:
        common.rmfile(fn)


def fields_attr(names):
    dt = h5py.special_dtype(vlen=np.dtype("S1"))
    a = np.empty(shape=(len(names),), dtype="object")
    for i, s in enumerate(names):
        a[i] = np.array([c.encode() for c in s], dtype="S1")
    return a, dt


def matlab_fields(case, res):
    """MATLAB_fields: set over every other list of names."""
    lists = [[], ["a"], ["b"], ["ab"], ["a", "b"], ["b", "a"], ["ab", "c"], ["ab", "d"], ["abc", "de"], ["a", "b", "c"],
             ["aa", "bb"], ["aa", "bc"]]
    fn = common.newfile()
    try:
        with h5py.File(fn, "w") as f:
            n = 0
            for x in lists:
                for y in lists:
                    if not x or not y:
                        continue
                    n += 1
                    res.count("evaluations")
                    g = f.create_group("g%d" % n)
                    key = "MATLAB_fields:%r:%r" % (x, y)
                    try:
                        # Exactly how a stale attribute looks like to the setter.
                        for names in (x, y):
                            val = np.empty(shape=(len(names),), dtype=h5py.vlen_dtype(np.dtype("S1")))
                            for i, s in enumerate(names):
                                val[i] = np.array([c.encode() for c in s], dtype="S1")
                            U.set_attributes_all(g, {"MATLAB_fields": ("value", val)})
                        got = [b"".join(e.tolist()).decode() for e in g.attrs["MATLAB_fields"]]
                        if got != y:
                            res.bad(key, "left %r" % got)
                        else:
                            res.seen("nontrivial", key)
                    except Exception as e:
                        res.bad(key, common.exc_str(e))
    finally:
        common.rmfile(fn)


def zero_ref(dt):
    if dt.subdtype is not None:
        return 0 in dt.shape or zero_ref(dt.base)
    if dt.names:
        return any(zero_ref(dt[n]) for n in dt.names)
    return 0 in dt.shape


def dtypes(case, res):
    c = Ctx(res)
    base = [np.dtype(x) for x in ("u1", ">i4", "f2", "c16", "S0", "S3", "U2", "?", "O", "<u8", "M8[s]", "V3")]
    lvl1 = base + [np.dtype((b, s)) for b in base[:4] for s in ((2,), (0,), (2, 0), (1, 2))]
    structs = []
    for a, b in itertools.product(lvl1, repeat=2):
        structs.append(np.dtype([("a", a), ("b b", b)]))
    lvl2 = lvl1 + structs
    inner = structs[::7]
    for a in inner:
        for s in ((), (2,), (0,), (3, 0)):
            lvl2.append(np.dtype([("x", "u1"), ("\xe9'\"\\", a, s)]))
    lvl2.append(np.dtype([(("title", "n"), "i4"), ("m", "f4")]))
    for dt in lvl2:
        k = "dtype:%r:" % (dt,)
        c(k + "zero", lambda: U.does_dtype_have_a_zero_shape(dt), zero_ref(dt))
        if dt.kind != "V" or dt.names is not None:
            c(k + "str", lambda: np.dtype(ast.literal_eval(U.convert_dtype_to_str(dt))), lambda g: g == dt)
    for bad in (None, 3, "u1", np.uint8, [("a", "u1")]):
        for f in (U.does_dtype_have_a_zero_shape, U.convert_dtype_to_str):
            c("dtype bad:%r:%s" % (bad, f.__name__), lambda: raises(f, bad), "TypeError")
    for bad in (None, 3, 3.5, ["a"], ("a",), np.float64(3), np.zeros(3), np.zeros(2, "i4"), np.zeros(2, "O"), {}, object(),
                np.zeros(2, "c8"), np.array(3.5), np.zeros(0), np.zeros((2, 0), "i2"), np.zeros((3, 0, 2), "c16"), True, np.bool_(True), np.int8(3), np.zeros(2, [("a", "u1")])):
        for f in (U.convert_to_str, U.convert_to_numpy_str, U.convert_to_numpy_bytes):
            c("bad:%r:%s" % (bad, f.__name__), lambda: raises(f, bad), "TypeError")
        if not isinstance(bad, (np.ndarray,)):
            c("badattr:%r" % (bad,), lambda: U.convert_attribute_to_string(bad), lambda g: g is None)
    for v, w in ((None, None), ([], []), (["a", b"b", np.str_("c"), np.bytes_(b"d")], ["a", "b", "c", "d"]),
                 (np.array(["a", "b"], dtype=object), ["a", "b"]), (np.array([b"a", b""], dtype=object), ["a", ""]),
                 (np.array([b"q", b"r"]), ["q", "r"]), (np.array(["q", "\xe9"]), ["q", "\xe9"])):
        c("attrarr:%r" % (v,), lambda: U.convert_attribute_to_string_array(v), lambda g: g == w)


def raises(f, *a):
    try:
        return "returned %r" % (f(*a),)
    except Exception as e:
        return type(e).__name__


def run_case(case):
    res = common.Res()
    {"strings": strings, "arrays": str_arrays, "complex": complexes, "attrs": attr_sets, "fields": matlab_fields,
     "dtypes": dtypes}[case["kind"]](case, res)
    res.samples.append(case)
    return res


CASE_TIMEOUT = 300


def cases(tier, seed):
    deep = tier == "thorough"
    out = [{"kind": "complex"}, {"kind": "fields"}, {"kind": "dtypes"}, {"kind": "strings", "n": 0, "first": ""}]
    for n in (1, 2, 3) + ((4,) if deep else ()):
        for x in CH:
            if n <= 3:
                out.append({"kind": "strings", "n": n, "first": x})
            else:
                out += [{"kind": "strings", "n": n - 1, "first": x + y} for y in CH]
    for off in range(len(WORDS)):
        out.append({"kind": "arrays", "off": off})
    for k in KINDS:
        out.append({"kind": "attrs", "k": k})
    return out


def coverage(res, tier):
    return common.cov_exploration(
        res, "all strings up to length %d over 13 characters covering every UTF-8/16/32 length class and the byte "
        "order marks, in every container, code unit width, byte order and memory layout; string arrays over %d "
        "shapes; complex arrays over 8 name pairs, special values and layouts; every before/after pair of attribute "
        "values; nested dtypes; every case is one conversion compared with an independent reference; non-trivial = "
        "distinct case with the expected result" % (4 if tier == "thorough" else 3, len(SHAPES)))
