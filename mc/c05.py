"""C05: every sequence of overwrites of one path against a fresh file."""
import collections
import datetime
import fractions

import h5py
import numpy as np

import hdf5storage

from . import common, h5dump, optsets
from . import values as V

PROP = "C05"
LEVEL = "exploration"
ASSUMPTIONS = ["with deletion of unused variables off, members of an overwritten dict or struct that the new dict or "
               "struct does not have may remain visible in it (documented merge)",
               "names and order of elements inside the group for references are internal"]

UTC = datetime.timezone.utc


def _s(dt, shape=()):
    return lambda: V.fill(dt, shape)


SLOT = {
    "int": lambda: 5, "int2": lambda: -7, "big": lambda: 10**30, "float": lambda: 1.5, "complex": lambda: 1 - 2j,
    "bool": lambda: True, "str": lambda: "abc", "str2": lambda: "xyz", "strw": lambda: "a\U0001f600", "strlong": lambda: "q" * 40,
    "str0": lambda: "", "bytes": lambda: b"abc", "bytes0": lambda: b"", "bytesh": lambda: b"\xff\x80c",
    "ba": lambda: bytearray(b"abc"), "none": lambda: None, "ell": lambda: Ellipsis,
    "i8s": lambda: np.int8(3), "bools": lambda: np.bool_(False), "f4s": lambda: np.float32(2.5),
    "u8s": lambda: np.uint64(2**64 - 1), "Ss": lambda: np.bytes_(b"abc"), "Us": lambda: np.str_("abc"),
    "i4_1": _s("i4", (3,)), "i4_1b": lambda: np.array([9, 8, 7], "i4"), "i4_1x": lambda: np.array([9, 8, 7], ">i4"),
    "i4_2": _s("i4", (2, 3)), "i4_3": _s("i4", (1, 3)), "f8_0": _s("f8", (0,)), "f8_03": _s("f8", (0, 3)), "u8_2": lambda: np.array([0, 3], "u8"),
    "u8_02": lambda: np.array([[0, 3]], "u8"), "i4_0": _s("i4", (0,)), "bool_1": _s("?", (3,)), "u1_1": lambda: np.array([1, 0, 1], "u1"),
    "c16_1": _s("c16", (3,)), "U_1": _s("U3", (2,)), "U0": _s("U1", (0,)), "S_1": _s("S3", (2,)), "u2_1": lambda: np.array([97, 98, 99], "u2"),
    "O_1": _s("O", (3,)), "O_0": _s("O", (0,)), "O_2": _s("O", (1, 2)), "mat": lambda: np.matrix([[1, 2], [3, 4]]),
    "chararr": lambda: V.fill("S3", (2,)).view(np.chararray), "rec": lambda: V.fill([("a", "i4"), ("b", "f8")], (2,)).view(np.recarray),
    "st0": _s([("a", "i4"), ("b", "f8")], ()), "st1": _s([("a", "i4"), ("b", "f8")], (1,)), "st3": _s([("a", "i4"), ("b", "f8")], (3,)),
    "st3c": _s([("b", "u1"), ("c", "f8")], (3,)), "st2x": _s([("a", "i4"), ("b", "f8")], (2,)), "stE": _s([("a", "i4"), ("b", "f8")], (0,)),
    "sto": _s([("a", "O"), ("b", "i4")], (2,)), "stn": _s([("a", [("x", "i4"), ("y", "f8")]), ("b", "u1")], (2,)),
    "stv": lambda: V.fill([("a", "i4"), ("b", "f8")], (2,))[1],
    "d0": lambda: {}, "da": lambda: {"a": 1}, "db": lambda: {"b": "x", "a": [1]}, "dkv": lambda: {"keys": 1, "values": 2, "z": 3},
    "dn": lambda: {"a": {"x": 1}, "b": {}}, "dn2": lambda: {"a": {"y": (2,)}}, "dnum": lambda: {1: 2, "s": 3}, "dnum0": lambda: {None: 1},
    "dby": lambda: {b"a": 1, "c": 2}, "desc": lambda: {"a/b": 1, ".": 2}, "duni": lambda: {"\xe9": 1},
    "od": lambda: collections.OrderedDict([("b", 1), ("a", 2)]), "cnt": lambda: collections.Counter("aab"), "cm": lambda: collections.ChainMap({"a": 1}, {"b": 2}),
    "list": lambda: [1, "x"], "list2": lambda: [[1], {"a": 2}], "list0": lambda: [], "tuple": lambda: (1, 2), "set": lambda: {3},
    "deque": lambda: collections.deque([1]), "slice": lambda: slice(1, None, 2), "range": lambda: range(1, 9, 3),
    "td": lambda: datetime.timedelta(1, 2, 3), "date": lambda: datetime.date(2020, 1, 2), "time": lambda: datetime.time(1, 2, 3, 4),
    "dt": lambda: datetime.datetime(2020, 1, 2, 3, 4, 5, 6, UTC), "tz": lambda: UTC, "tzn": lambda: datetime.timezone(datetime.timedelta(0, 3600), "N"),
    "frac": lambda: fractions.Fraction(3, 4), "dtype": lambda: np.dtype("i4"), "dtype2": lambda: np.dtype([("a", "i4")]),
    "large": lambda: np.arange(3000, dtype="f8"), "large2": lambda: np.arange(3000, dtype="f8") + 1,
    "cancel": lambda: np.zeros((2,), "u8"),
}
SMALL = ["int", "str", "strw", "bytes0", "none", "bool_1", "f8_0", "c16_1", "O_1", "st3", "sto", "stn", "da", "db", "dn", "dnum", "list2",
         "list0", "dt", "cm", "large", "frac"]
TINY = ["int", "str0", "bool_1", "f8_03", "O_1", "st3", "sto", "db", "dn", "dnum", "list2", "dt"]

# Initial contents not made by this package.
FOREIGN = {}


def _foreign(name):
    def deco(fun):
        FOREIGN[name] = fun
        return fun
    return deco


@_foreign("resizable")
def _f1(f, p):
    f.create_dataset(p, data=np.arange(3, dtype="i4"), maxshape=(None,))


@_foreign("lzf")
def _f2(f, p):
    f.create_dataset(p, data=np.arange(3, dtype="i8"), compression="lzf")


@_foreign("attrs")
def _f3(f, p):
    f.create_dataset(p, data=np.int64(4)).attrs["MATLAB_class"] = np.bytes_("int8")
    f[p].attrs["other"] = "x"


@_foreign("null")
def _f4(f, p):
    f[p] = h5py.Empty("f8")


@_foreign("vlen")
def _f5(f, p):
    f.create_dataset(p, data=["abc", "d"], dtype=h5py.special_dtype(vlen=str))


@_foreign("group")
def _f6(f, p):
    g = f.create_group(p)
    g["a"] = 1.0
    g["sub/x"] = [1, 2]
    g.attrs["Python.Type"] = np.bytes_("dict")


@_foreign("type")
def _f7(f, p):
    f[p] = np.dtype("f8")


@_foreign("softlink")
def _f8(f, p):
    f.create_group("elsewhere")["q"] = 1
    f[p] = h5py.SoftLink("/elsewhere/q")


def refs(opts):
    return hdf5storage.Options(**opts).group_for_references


def extras_ok(fresh, got, depth=0):
    """got equals fresh but for extra members of dicts and structs."""
    if V.canon(fresh) == V.canon(got):
        return True
    if type(fresh) is not type(got):
        return False
    if isinstance(fresh, dict):
        keys = [V.canon(k) for k in fresh]
        gk = {V.canon(k): v for k, v in got.items()}
        return [V.canon(k) for k in got if V.canon(k) in keys] == keys and all(
            extras_ok(v, gk[V.canon(k)], depth + 1) for k, v in fresh.items())
    if isinstance(fresh, (np.ndarray, np.void)) and fresh.dtype.names is not None and got.dtype.names is not None:
        if fresh.shape != got.shape or got.dtype.names[:len(fresh.dtype.names)] != fresh.dtype.names:
            return False
        for n in fresh.dtype.names:
            a, b = np.asarray(fresh[n]), np.asarray(got[n])
            if V.canon(a) == V.canon(b):
                continue
            if a.shape != b.shape or a.dtype != object or b.dtype != object or not all(
                    extras_ok(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist())):
                return False
        return True
    return False


_fresh = {}


def fresh(name, oname, path):
    k = (name, oname, path)
    if k not in _fresh:
        opts = get_opts(oname)
        fn = common.newfile()
        try:
            with hdf5storage.File(fn, writable=True, **opts) as f:
                f.write(SLOT[name](), path)
            with hdf5storage.File(fn, writable=False, **opts) as f:
                v = f.read(path)
            _fresh[k] = (v, h5dump.dump(fn, path, refs(opts)))
        finally:
            common.rmfile(fn)
    return _fresh[k]


def get_opts(oname):
    if oname.endswith("+del"):
        return dict(optsets.get(oname[:-4]), delete_unused_variables=True)
    return optsets.get(oname)


_start = {}


def start(first, oname, path):
    """File image with the neighbours (and a foreign object), and their dumps."""
    k = (first if first.startswith("@") else "", oname, path)
    if k not in _start:
        fn = common.newfile()
        try:
            if k[0]:
                with h5py.File(fn, "w", userblock_size=512) as h:
                    FOREIGN[k[0][1:]](h, path)
            with hdf5storage.File(fn, writable=True, **get_opts(oname)) as g:
                g.write([1, {"n": 2}], "/nb1")
                g.write(np.arange(3), "/nb2")
            with h5py.File(fn, "r") as h:
                nb = [h5dump.dump(h, p, refs(get_opts(oname))) for p in ("/nb1", "/nb2")]
            with open(fn, "rb") as h:
                _start[k] = h.read(), nb
        finally:
            common.rmfile(fn)
    return _start[k]


def run_seq(seq, onames, path, session, res):
    """seq: values written in turn, onames: options of each write."""
    fn = common.newfile()
    key = "%s|%s|%s|%s" % (",".join(seq), ",".join(onames), path, session)
    f = None
    try:
        cur = None
        seq2 = list(seq)
        img, nb = start(seq2[0], onames[0], path)
        with open(fn, "wb") as h:
            h.write(img)
        for name, on in zip(seq2, onames):
            if name.startswith("@"):
                continue
            if f is None or on != cur or session == "reopen":
                if f is not None:
                    f.close()
                f = hdf5storage.File(fn, writable=True, **get_opts(on))
                cur = on
            try:
                f.write(SLOT[name](), path)
            except Exception as e:
                res.bad(key, "writing %s raised %s" % (name, common.exc_str(e)))
                return
        opts = get_opts(onames[-1])
        want, wd = fresh(seq2[-1], onames[-1], path)
        for when in ("same session", "reopened"):
            if when == "reopened":
                f.close()
                f = hdf5storage.File(fn, writable=False, **opts)
            try:
                got = f.read(path)
            except Exception as e:
                res.bad(key, "%s: read raised %s" % (when, common.exc_str(e)))
                return
            delete = hdf5storage.Options(**opts).delete_unused_variables
            if delete:
                d = V.eq(want, got)
            else:
                d = None if extras_ok(want, got) else V.eq(want, got)
            if d:
                res.bad(key, "%s: %s" % (when, d))
                return
        f.close()
        f = None
        with h5py.File(fn, "r") as h:
            if delete and seq2[0] != "@resizable":
                d = h5dump.diff(wd, h5dump.dump(h, path, refs(opts)))
                if d:
                    res.bad(key, "stored differently than in a fresh file: " + d)
                    return
            r0 = refs(get_opts(onames[0]))
            for p, x in zip(("/nb1", "/nb2"), nb):
                d = h5dump.diff(x, h5dump.dump(h, p, r0))
                if d:
                    res.bad(key, "neighbour %s changed: %s" % (p, d))
                    return
        res.count("evaluations")
        res.seen("nontrivial", key)
    finally:
        if f is not None:
            f.close()
        common.rmfile(fn)


def run_case(case):
    res = common.Res()
    for seq, onames, path, session in case["runs"]:
        n = len(res.problems)
        run_seq(seq, onames, path, session, res)
        if len(res.problems) > n:
            res.problems[n:] = [(k, m, {"runs": [[seq, onames, path, session]]}) for k, m, c in res.problems[n:]]
    res.samples.append({"sequence": case["runs"][0][0], "options": case["runs"][0][1]})
    return res


CASE_TIMEOUT = 300


def cases(tier, seed):
    deep = tier == "thorough"
    runs = []
    names = list(SLOT)
    prof = ["matlab", "plain", "plain+del"] + (["allon", "odd", "odd2", "tiny+del", "matcol", "f1+del", "f32+del"] if deep else [])
    for o in prof:
        for a in names:
            for b in names:
                runs.append([[a, b], [o, o], "/v", "same" if (len(a) + len(b)) % 2 else "reopen"])
    if not deep:
        for o in ("allon", "odd", "odd2", "tiny+del", "matcol"):
            for a in SMALL:
                for b in SMALL:
                    runs.append([[a, b], [o, o], "/v", "same"])
    # Foreign objects first.
    for o in ("matlab", "plain", "plain+del", "allon"):
        for a in FOREIGN:
            for b in names:
                runs.append([["@" + a, b], [o, o], "/v", "same"])
    # Options changing between the writes.
    some = ["matlab", "plain+del", "plain", "allon", "tiny+del", "matcol"] if deep else ["matlab", "plain+del", "allon", "tiny+del"]
    for o1 in some:
        for o2 in some:
            if o1 != o2:
                for a in (names if deep else SMALL):
                    for b in SMALL:
                        runs.append([[a, b], [o1, o2], "/v", "same"])
    # Longer histories.
    three = SMALL if deep else TINY
    for o in ("matlab", "plain") + (("plain+del", "allon") if deep else ()):
        for a in three:
            for b in three:
                for c in three:
                    runs.append([[a, b, c], [o] * 3, "/g/h" if len(b) % 2 else "/v", "same" if len(c) % 2 else "reopen"])
    if deep:
        for o in ("matlab", "plain"):
            for q in __import__("itertools").product(TINY, repeat=4):
                runs.append([list(q), [o] * 4, "/v", "same"])
    return [{"runs": runs[i:i + 40]} for i in range(0, len(runs), 40)]


def coverage(res, tier):
    return common.cov_exploration(
        res, "all ordered pairs of %d values (every type and layout class), triples of %d, after %d kinds of foreign "
        "objects, and pairs with options changing between the writes; an evaluation is one history checked by reading in "
        "the same session and after reopening, and (deletion on) by a complete structural dump, against a fresh file with "
        "the last value, plus two neighbours" % (len(SLOT), len(TINY), len(FOREIGN)))
