"""C16: failing operations."""
import collections
import datetime
import fractions
import shutil

import h5py
import numpy as np

import hdf5storage

from . import common, faults, h5dump
from . import values as V

PROP = "C16"
LEVEL = "exploration"
ASSUMPTIONS = ["faults are exceptions raised by h5py instead of or right after a call; damage done by HDF5 itself "
               "when the storage fails below it is out of reach of the package",
               "after a failed write the variable itself may be absent, old, new or partial until it is written again"]

PROFILES = {
    "matlab": dict(matlab_compatible=True, delete_unused_variables=True),
    "plain": dict(matlab_compatible=False, delete_unused_variables=True),
    "nometa": dict(matlab_compatible=True, store_python_metadata=False, delete_unused_variables=True),
    "filters": dict(matlab_compatible=True, delete_unused_variables=True, compress=True, compress_size_threshold=0,
                    uncompressed_fletcher32_filter=True),
}
VALUES = {
    "int": lambda: 5, "str": lambda: "abc", "none": lambda: None, "estr": lambda: "", "arr": lambda: np.arange(6.0),
    "cplx": lambda: np.ones((2, 2), complex), "bool": lambda: np.array([True, False]), "empty": lambda: np.zeros((0, 3)),
    "list": lambda: [1, "x"], "elist": lambda: [], "nest": lambda: [[1], {"a": [None]}], "tuple": lambda: (1, (2,)),
    "set": lambda: {3}, "chain": lambda: collections.ChainMap({"a": 1}, {2: 3}), "objarr": lambda: V.fill("O", (2, 2)),
    "dict": lambda: {"a": 1, "b": "x"}, "dict2": lambda: {"a": [1], "c": {"d": 2}}, "kv": lambda: {1: "x", 2: [3]},
    "edict": lambda: {}, "od": lambda: collections.OrderedDict([("z", 1), (b"y", 2)]),
    "struct1": lambda: np.array([(1, 2.0)], [("a", "i4"), ("b", "f8")]),
    "struct2": lambda: np.array([(1, 2.0), (3, 4.0)], [("a", "i4"), ("c", "f8")]),
    "structO": lambda: np.array([([1], {"k": 2})], [("a", object), ("b", object)]),
    "rec": lambda: np.rec.array([(1, b"ab"), (2, b"c")], dtype=[("a", "i4"), ("b", "S2")]),
    "slice": lambda: slice(1, None, [2]), "date": lambda: datetime.date(2000, 1, 2), "frac": lambda: fractions.Fraction(1, 2),
    "dtype": lambda: np.dtype("f4"), "big": lambda: 10**40, "arr2": lambda: np.arange(6.0) + 1, "Sarr": lambda: np.array([b"ab", b"c"]),
}
CORE = ["int", "arr", "estr", "list", "nest", "dict2", "kv", "struct1", "structO", "struct2"]
PRIORS = [None, "same", "int", "dict", "list", "struct2", "kv", "arr2"]
KEEP = {"keep1": lambda: [np.arange(3)], "g/keep3": lambda: {"v": 1}}


def opts(profile):
    return hdf5storage.Options(**PROFILES[profile])


def put(fn, items, profile, mode=False):
    with hdf5storage.File(fn, writable=True, options=opts(profile)) as f:
        for k, v in items:
            f[k] = v()


def tree(fn):
    with h5py.File(fn, "r") as h:
        return h5dump.Dumper(h, "/#refs#", filters=False).dump(h["/"])


_cache = {}
_deep = [False]


def base(profile, prior, value):
    """File contents to start from."""
    key = (profile, prior, value)
    if key not in _cache:
        fn = common.newfile()
        # The canonical empty isn't there unless an element is written.
        put(fn, list(KEEP.items()) if prior != "fresh" else [], profile)
        if prior not in (None, "fresh"):
            put(fn, [("x", VALUES[value if prior == "same" else prior])], profile)
        with open(fn, "rb") as f:
            _cache[key] = f.read()
        common.rmfile(fn)
        if len(_cache) > 200:
            _cache.clear()
            return base(profile, prior, value)
    return _cache[key]


def fresh(profile, value, keep=True):
    """What the file holds when the value is written without trouble."""
    key = ("fresh", profile, value, keep)
    if key not in _cache:
        fn = common.newfile()
        put(fn, (list(KEEP.items()) if keep else []) + [("x", VALUES[value])], profile)
        _cache[key] = tree(fn)
        common.rmfile(fn)
    return _cache[key]


def without(t, name):
    """Tree without a member of the root."""
    return (t[0], t[1], tuple((k, v) for k, v in t[2] if k != name))


def start(profile, prior, value):
    fn = common.newfile()
    with open(fn, "wb") as f:
        f.write(base(profile, prior, value))
    return fn


def after(fn, f, value, profile, keep, failed):
    """After a failed write with file f still open."""
    try:
        if keep:
            got = f["keep1"]
            d = V.eq(KEEP["keep1"](), got) if profile != "nometa" else None
            if d:
                return "another variable changed: " + d
        len(f), list(f), "x" in f
    except Exception as e:
        return "the file is not usable afterwards: " + common.exc_str(e)
    if _deep[0]:
        want = without(fresh(profile, value, keep), "x")
        got = without(tree_of(fn), "x")
        if got != want:
            return "others changed: " + str(h5dump.diff(want, got))
    if not failed:
        d = h5dump.diff(fresh(profile, value, keep), tree_of(fn))
        return d and "no exception although the write is incomplete: " + d
    try:
        f["x"] = VALUES[value]()
    except Exception as e:
        return "writing again raised " + common.exc_str(e)
    # Then something with empty placeholders and references.
    f["y"] = [None, {}]
    f.close()
    t = tree(fn)
    d = h5dump.diff(fresh(profile, value, keep), without(t, "y"))
    if d:
        return "after closing: " + d
    return canonical(fn)


def tree_of(fn):
    """The file while it is open for writing in this process."""
    with h5py.File(fn, "r+") as h:
        return h5dump.Dumper(h, "/#refs#", filters=False).dump(h["/"])


def canonical(fn):
    """The canonical empty must be what the format says."""
    with h5py.File(fn, "r") as h:
        if "/#refs#" not in h:
            return None
        c = h["/#refs#"].get("a")
        if c is None:
            return "the canonical empty is missing"
        at = {k: v for k, v in c.attrs.items()}
        if not (isinstance(c, h5py.Dataset) and c.shape == (2,) and not c[()].any()
                and bytes(at.get("MATLAB_class", b"")) == b"canonical empty" and at.get("MATLAB_empty") == 1):
            return "the canonical empty is damaged: %r" % (at,)


def fault(case):
    profile, value, prior = case["profile"], case["value"], case["prior"]
    keep = prior != "fresh"
    exc = {"OSError": OSError, "MemoryError": MemoryError, "RuntimeError": RuntimeError, "KeyError": KeyError}[case["exc"]]
    # The package may take a KeyError for an absent object.
    res = common.Res()
    points = case.get("points")
    if points is None:
        fn = start(profile, prior, value)
        with hdf5storage.File(fn, writable=True, options=opts(profile)) as f:
            with faults.Fault() as ft:
                f["x"] = VALUES[value]()
        common.rmfile(fn)
        points = ft.points()
    for i, aft in points:
        fn = start(profile, prior, value)
        f = hdf5storage.File(fn, writable=True, options=opts(profile))
        raised = None
        try:
            ft = faults.Fault(i, aft, exc)
            try:
                with ft:
                    f["x"] = VALUES[value]()
            except Exception as e:
                raised = e
            res.count("evaluations")
            if ft.hit is None:
                continue
            p = None
            if raised is not None and "injected" not in str(raised) and not isinstance(raised, (OSError, exc)):
                p = "the injected exception became " + common.exc_str(raised)
            p = p or after(fn, f, value, profile, keep, raised is not None)
            if p:
                res.bad("fault|%s|%s|%s|%s|%s|%d|%s" % (profile, value, prior, case["exc"], ft.hit, i, aft),
                        "%s fault at call %d %s: %s" % ("after" if aft else "before", i, ft.hit, p),
                        dict(case, points=[[i, aft]]))
            else:
                res.seen("nontrivial", (profile, value, prior, i, aft, case["exc"]))
        finally:
            f.close()
            common.rmfile(fn)
    res.samples.append({"value": value, "over": prior, "profile": profile, "points": len(points)})
    return res


# --------------------------------------------------------- unsupported values
class Strange:
    pass


class SubInt(int):
    pass


BAD = {"object": Strange, "subclass": lambda: SubInt(3), "longdouble": lambda: np.longdouble(1), "function": lambda: len,
       "datetime64": lambda: np.array(["2000"], "M8[Y]"), "float16": lambda: np.float16(1)}
SLOTS = {
    "top": lambda b, a, c: b, "list": lambda b, a, c: a + [b] + c, "tuple": lambda b, a, c: tuple(a) + (b,) + tuple(c),
    "dictv": lambda b, a, c: {**{"a%d" % i: v for i, v in enumerate(a)}, "b": b, **{"c%d" % i: v for i, v in enumerate(c)}},
    "kvv": lambda b, a, c: {**{i: v for i, v in enumerate(a)}, (0,): b, **{-1 - i: v for i, v in enumerate(c)}},
    "kvk": lambda b, a, c: {**{i: v for i, v in enumerate(a)}, b: 0, **{-1 - i: v for i, v in enumerate(c)}},
    "nested": lambda b, a, c: [a, {"q": {"r": c + [b]}}], "deque": lambda b, a, c: collections.deque(a + [b] + c),
    "chain": lambda b, a, c: collections.ChainMap({"a": a}, {"b": b, "c": c}),
    "sf1": lambda b, a, c: _sf([a, b, c], 1), "sf2": lambda b, a, c: _sf([a, b, c], 2), "slice": lambda b, a, c: slice(a, b, c),
    "objarr": lambda b, a, c: _oa([a, c, c, b]), "frozen": lambda b, a, c: frozenset(["s", b]),
}
UNHASHABLE = {"datetime64"}


def _sf(vals, n):
    x = np.zeros((n,), [("f%d" % i, object) for i in range(len(vals))])
    for i, v in enumerate(vals):
        for j in range(n):
            x["f%d" % i][j] = v
    return x


def _oa(vals):
    x = np.empty((2, 2), object)
    for i, v in enumerate(vals):
        x[i // 2, i % 2] = v
    return x


SIDES = [([], []), (["s"], []), ([], [1.5, [2]]), ([None], ["t"])]


def badvalue(case):
    res = common.Res()
    profile = case["profile"]
    for b, slot, side, prior, value in case["items"]:
        before, aft = SIDES[side]
        bad = SLOTS[slot](BAD[b](), list(before), list(aft))
        fn = start(profile, prior, value)
        f = hdf5storage.File(fn, writable=True, options=opts(profile))
        try:
            f.flush()
            prev = tree_of(fn)
            try:
                f["x"] = bad
                p = "the write raised nothing"
            except (NotImplementedError, TypeError, hdf5storage.exceptions.TypeNotMatlabCompatibleError) as e:
                p = None
            except Exception as e:
                p = "the write raised " + common.exc_str(e)
            res.count("evaluations")
            if p is None and slot == "top" and tree_of(fn) != prev and b != "datetime64":
                p = "the file changed although the value was refused: " + str(h5dump.diff(prev, tree_of(fn)))
            p = p or after(fn, f, value, profile, prior != "fresh", True)
            if p:
                res.bad("bad|%s|%s" % (profile, [b, slot, side, prior, value]), p,
                        dict(case, items=[[b, slot, side, prior, value]]))
            else:
                res.seen("nontrivial", (profile, b, slot, side, prior, value))
        finally:
            f.close()
            common.rmfile(fn)
    return res


# ----------------------------------------------------------- several at a time
BADPATHS = [5, None, b"\xff/a", ["a", 3], 1.5, "/#refs#/b", "/#refs#", b"#refs#", ["#refs#", "q"]]


class Pairs(collections.abc.Mapping):
    """Mapping that can have unhashable keys."""

    def __init__(self, pairs):
        self.p = pairs

    def __getitem__(self, k):
        return [v for q, v in self.p if q is k][0]

    def __iter__(self):
        return iter([k for k, _ in self.p])

    def __len__(self):
        return len(self.p)

    def items(self):
        return list(self.p)


def multi(case):
    res = common.Res()
    profile = case["profile"]
    for i in range(len(BADPATHS)):
        for n in (1, 2, 3, 9, 40, 140, 1100):
            # (only the last one for many)
            for pos in range(n) if n < 4 else (n - 1,):
                for how in ("writes", "update", "module") if n < 4 else ("writes",):
                    if how == "update" and any(isinstance(BADPATHS[i], t) for t in (list,)):
                        continue
                    key = [i, n, pos, how]
                    if case.get("only") and key != case["only"]:
                        continue
                    items = [("n%d" % j, j) for j in range(n)]
                    items[pos] = (BADPATHS[i], 7)
                    fn = start(profile, None, "int")
                    f = hdf5storage.File(fn, writable=True, options=opts(profile))
                    p = None
                    try:
                        prev = tree_of(fn)
                        try:
                            if how == "writes":
                                f.writes(Pairs(items))
                            elif how == "update":
                                f.update(dict(items))
                            else:
                                f.close()
                                hdf5storage.writes(Pairs(items), filename=fn, options=opts(profile))
                            p = "nothing was raised"
                        except (TypeError, ValueError, KeyError, NotImplementedError):
                            pass
                        except Exception as e:
                            p = "raised " + common.exc_str(e)
                        res.count("evaluations")
                        if how == "module":
                            f = hdf5storage.File(fn, writable=True, options=opts(profile))
                        if p is None and how != "update" and tree_of(fn) != prev:
                            p = "something was written: " + str(h5dump.diff(prev, tree_of(fn)))
                        if how == "update":
                            for j in range(n):
                                if "n%d" % j in f:
                                    del f["n%d" % j]
                        p = p or after(fn, f, "int", profile, True, True)
                    finally:
                        f.close()
                        common.rmfile(fn)
                    if p:
                        res.bad("multi|%s|%s" % (profile, key), "%r at %d of %d by %s: %s" % (BADPATHS[i], pos, n, how, p),
                                dict(case, only=key))
                    else:
                        res.seen("nontrivial", (profile, key))
    # A bad value among good ones: what comes before may be written, the others are intact.
    for b in BAD:
        for n in range(1, 4):
            for pos in range(n):
                key = [b, n, pos]
                if case.get("only") and key != case["only"]:
                    continue
                if b == "float16" and profile == "plain":
                    continue
                fn = start(profile, None, "int")
                f = hdf5storage.File(fn, writable=True, options=opts(profile))
                p = None
                try:
                    items = {"n%d" % j: BAD[b]() if j == pos else [j] for j in range(n)}
                    try:
                        f.writes(items)
                        p = "nothing was raised"
                    except Exception as e:
                        if not isinstance(e, (NotImplementedError, TypeError, hdf5storage.exceptions.TypeNotMatlabCompatibleError)):
                            p = "raised " + common.exc_str(e)
                    res.count("evaluations")
                    for j in range(n):
                        if "n%d" % j in f:
                            if j < pos and profile != "nometa" and f["n%d" % j] != [j]:
                                p = p or "n%d is %r" % (j, f["n%d" % j])
                            del f["n%d" % j]
                    p = p or after(fn, f, "int", profile, True, True)
                finally:
                    f.close()
                    common.rmfile(fn)
                if p:
                    res.bad("multival|%s|%s" % (profile, key), p, dict(case, only=key))
                else:
                    res.seen("nontrivial", (profile, key))
    return res


# ------------------------------------------------------------ other operations
OPS = {
    "read": lambda f: f["x"], "readall": lambda f: f.reads(["x", "keep1", "g/keep3"]), "del": lambda f: f.__delitem__("x"),
    "len": len, "iter": list, "in": lambda f: "x" in f, "items": lambda f: list(f.items()), "flush": lambda f: f.flush(),
    "pop": lambda f: f.pop("x"), "popdef": lambda f: f.pop("nothere", 3), "get": lambda f: f.get("nothere"),
    "setdefault": lambda f: f.setdefault("x", 3), "close": lambda f: f.close(), "eq": lambda f: f == {},
    "deepwrite": lambda f: f.write([1], "/m/n/o"), "deepdel": lambda f: f.__delitem__("g/keep3"),
}
CHANGES = {"del", "pop", "deepdel", "deepwrite", "close", "setdefault"}


def others(case):
    res = common.Res()
    profile, value, op = case["profile"], case["value"], case["op"]
    points = case.get("points")

    def trees():
        """The file before and after the operation."""
        fn = start(profile, "same", value)
        a = tree(fn)
        with hdf5storage.File(fn, writable=True, options=opts(profile)) as f:
            with faults.Fault() as ft:
                OPS[op](f)
        b = tree(fn)
        common.rmfile(fn)
        return a, b, ft.points()
    a, b, pts = trees()
    if points is None:
        points = pts
    for i, aft in points:
        fn = start(profile, "same", value)
        f = hdf5storage.File(fn, writable=True, options=opts(profile))
        p = None
        try:
            ft = faults.Fault(i, aft, OSError)
            try:
                with ft:
                    OPS[op](f)
            except Exception:
                pass
            res.count("evaluations")
            if ft.hit is None:
                continue
            if op == "close":
                f.close()
                if not f.closed:
                    p = "can't be closed"
            else:
                t = tree_of(fn)
                if op == "deepwrite":
                    if without(t, "m") != a:
                        p = "changed others: " + str(h5dump.diff(a, without(t, "m")))
                elif t not in (a, b):
                    p = "the file is neither as before nor as after: " + str(h5dump.diff(a, t))
                elif op not in CHANGES and t != a:
                    p = "the file changed"
                if p is None and t == a or op == "deepwrite":
                    try:
                        OPS[op](f)
                    except Exception as e:
                        p = p or "doing it again raised " + common.exc_str(e)
                    t = tree_of(fn)
                    if p is None and t != b:
                        p = "doing it again: " + str(h5dump.diff(b, t))
                f.close()
            t = tree(fn)
            if p is None and t != b and not (op == "close" and t == a):
                p = "after closing: " + str(h5dump.diff(b, t))
            if p:
                res.bad("op|%s|%s|%s|%s|%d|%s" % (profile, value, op, ft.hit, i, aft), p, dict(case, points=[[i, aft]]))
            else:
                res.seen("nontrivial", (profile, value, op, i, aft))
        finally:
            f.close()
            common.rmfile(fn)
    return res


def run_case(case):
    _deep[0] = case.get("deep", False)
    return {"fault": fault, "bad": badvalue, "multi": multi, "op": others}[case["kind"]](case)


def cases(tier, seed):
    deep = tier == "thorough"
    out = []
    for profile in PROFILES:
        for value in VALUES:
            core = value in CORE
            for prior in (["fresh"] + PRIORS if deep else ["fresh", None, "same", "int", "dict", "list"]
                          if profile == "matlab" and core else ["fresh", "same"] if profile == "matlab"
                          else ["dict"] if core else ["same"] if profile == "plain" else []):
                for e in ["OSError", "MemoryError", "RuntimeError", "KeyError"] if deep else ["OSError"]:
                    out.append(dict(kind="fault", profile=profile, value=value, prior=prior, exc=e))
    for profile in PROFILES:
        items = []
        for b in BAD:
            for slot in SLOTS:
                if slot in ("kvk", "frozen") and b in UNHASHABLE:
                    continue
                if b == "float16" and profile == "plain":
                    continue
                for side in range(len(SIDES)):
                    for prior in ("fresh", None, "same", "int", "dict") if deep or side == 1 else (None,):
                        for value in ("list", "dict2", "structO", "int") if deep else ("dict2", "structO"):
                            items.append([b, slot, side, prior, value])
        out += [dict(kind="bad", profile=profile, items=items[i:i + 25]) for i in range(0, len(items), 25)]
        out.append(dict(kind="multi", profile=profile))
        for op in OPS:
            for value in VALUES if deep else ("nest", "dict2", "structO"):
                out.append(dict(kind="op", profile=profile, value=value, op=op))
    if deep:
        out = [dict(c, deep=True) for c in out]
    return out


def coverage(res, tier):
    return common.cov_exploration(
        res, "a fault before and after every single h5py call of writing %d values over %d prior states in %d option "
        "profiles and of %d other operations; %d kinds of unsupported values in every slot of %d containers; bad paths "
        "and values at every position of multi-writes; afterwards the whole file, usability, and the result of "
        "writing again are compared with a fresh file; non-trivial = distinct faults that were survived"
        % (len(VALUES), len(PRIORS) + 1, len(PROFILES), len(OPS), len(BAD), len(SLOTS)))
