"""C18: nothing of the caller's is altered, and what is read is fresh."""
import collections
import copy
import os
import sys
import types
import warnings

import h5py
import numpy as np

import hdf5storage

from . import c01, common, h5dump
from . import values as V

PROP = "C18"
LEVEL = "exploration"
ASSUMPTIONS = ["the MarshallerCollection of an Options object is shared on purpose"]


# ------------------------------------------------------------------ snapshots
def root(a):
    while isinstance(a, np.ndarray) and a.base is not None:
        a = a.base
    return a


def inside(v):
    """The objects held by an array."""
    v = np.asarray(v)
    if v.dtype.names is not None:
        return [x for n in v.dtype.names if v.dtype[n].hasobject for x in inside(v[n])]
    return v.reshape(-1).tolist() if v.dtype == object else []


def snap(v, seen=None, out=None):
    """Everything observable about an object and all inside it."""
    if out is None:
        out, seen = [], set()
    t = type(v)
    if isinstance(v, np.dtype):
        out.append(("dtype", id(v), str(v)))
        return out
    if id(v) in seen and not isinstance(v, np.generic):
        out.append(("seen", id(v)))
        return out
    seen.add(id(v))
    if isinstance(v, np.ndarray):
        r = root(v)
        if isinstance(r, np.ndarray) and not r.dtype.hasobject:
            mem = r.tobytes()
        elif isinstance(r, (bytes, bytearray)):
            mem = bytes(r)
        else:
            mem = None
        out.append((t, id(v), str(v.dtype), v.dtype.descr if v.dtype.names else None, v.shape, v.strides, str(v.flags),
                    v.__array_interface__["data"], id(v.base), mem))
        if v.dtype.hasobject:
            for x in inside(v):
                if isinstance(x, (list, dict, set, np.ndarray, tuple)):
                    snap(x, seen, out)
                else:
                    out.append(repr(x)[:200])
    elif isinstance(v, np.generic):
        out.append((t, repr(v), v.tobytes() if not v.dtype.hasobject else None))
    elif t in (list, tuple, collections.deque):
        out.append((t, id(v), len(v), [id(x) for x in v]))
        for x in v:
            snap(x, seen, out)
    elif t in (set, frozenset):
        out.append((t, id(v), sorted(id(x) for x in v)))
        for x in sorted(v, key=repr):
            snap(x, seen, out)
    elif isinstance(v, collections.abc.Mapping) and t is not collections.ChainMap:
        out.append((t, id(v), [(id(k), id(x)) for k, x in v.items()]))
        for k, x in v.items():
            snap(k, seen, out)
            snap(x, seen, out)
    elif t is collections.ChainMap:
        out.append((t, id(v), [id(m) for m in v.maps]))
        for m in v.maps:
            snap(m, seen, out)
    elif t is slice:
        for x in (v.start, v.stop, v.step):
            snap(x, seen, out)
    elif t is bytearray:
        out.append((t, id(v), bytes(v)))
    else:
        out.append((t, id(v), repr(v)))
    return out


def same(a, b):
    if a == b:
        return None
    for x, y in zip(a, b):
        if x != y:
            return "was %.150r, is %.150r" % (x, y)
    return "structure changed"


# ------------------------------------------------- values with unusual buffers
def _view(a):
    big = np.zeros((10,) + a.shape[1:], a.dtype)
    big[3:3 + len(a)] = a
    return big[3:3 + len(a)]


def _ro(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def _aliased():
    a = [np.arange(3)]
    return [a, a, {"k": a, "b": a[0]}]


def _shared():
    a = np.arange(12.0)
    return {"a": a[:6], "b": a[3:9], "c": a[::-1], "d": a.reshape(3, 4).T}


def _big():
    return np.array([(b"ab", 1, 2.5), (b"c", 3, 4.5)], [("s", "S2"), ("i", ">i2"), ("f", "f8")])


BUFFERS = {
    "view": lambda: _view(np.arange(4.0)), "view2": lambda: _view(V.fill("i2", (3, 4)))[:, 1:3], "ro": lambda: _ro(np.arange(4)),
    "ro2": lambda: _ro(V.fill("c16", (2, 3))), "frombuffer": lambda: np.frombuffer(b"0123456789abcdef", "u2"),
    "frombytearray": lambda: np.frombuffer(bytearray(b"0123456789abcdef"), "f4"), "T": lambda: V.fill("f4", (2, 3, 4)).T,
    "neg": lambda: np.arange(10)[::-2], "bcast": lambda: np.broadcast_to(np.arange(3), (4, 3)),
    "overlap": lambda: np.lib.stride_tricks.as_strided(np.arange(6), (4, 3), (8, 8)), "aliased": _aliased, "shared": _shared,
    "field": lambda: _big()["i"], "fields": lambda: _big()[["i", "f"]], "sro": lambda: _ro(_big()), "sview": lambda: _view(_big()),
    "recview": lambda: _view(_big()).view(np.recarray), "bool": lambda: _ro(np.array([True, False, True])),
    "boolview": lambda: _view(np.array([True, False])), "U": lambda: _view(np.array(["a", "bcd"])), "Uro": lambda: _ro(np.array(["\u4f60", "\U0001f600"])),
    "S": lambda: _view(np.array([b"a", b"bcd"])), "Sro": lambda: _ro(np.array([[b"a", b"bcd"]])), "char": lambda: np.array(["a", "b"]).view(np.chararray),
    "charT": lambda: V.fill("S2", (2, 3)).T.view(np.chararray), "matrix": lambda: np.matrix(np.eye(4))[1:3], "Oview": lambda: V.fill("O", (4,))[1:3],
    "OT": lambda: V.fill("O", (2, 3)).T, "Oro": lambda: _ro(V.fill("O", (3,))), "empty": lambda: np.zeros((5, 0))[1:3], "be": lambda: np.arange(4, dtype=">u4")[1:],
    "cplxview": lambda: _view(V.fill("c8", (3,))), "real": lambda: V.fill("c16", (3,)).real, "imag": lambda: V.fill("c16", (2, 2)).imag,
    "0d": lambda: np.arange(5)[2:3].reshape(()), "ba": lambda: bytearray(b"\x80\xffabc"), "memview": lambda: np.asarray(memoryview(bytearray(8))),
    "unalign": lambda: np.frombuffer(bytearray(17), "u1")[1:].view("f8"), "sO": lambda: np.array([([1], {"a": [2]})], [("x", object), ("y", object)]),
    "sub": lambda: _view(V.fill([("a", "i4", (2, 2)), ("b", "S2")], (3,))), "nested": lambda: _view(V.fill([("a", [("b", "S2"), ("c", "i2")])], (2,))),
    "V": lambda: _view(np.array([b"abc", b"def"], "V3")), "f2": lambda: _ro(np.arange(3, dtype="f2")),
    "listview": lambda: [np.arange(9)[2:5], {"k": np.arange(9)[::3]}, (np.arange(4).reshape(2, 2).T,)],
}
NOMAT = {"V", "f2"}
PROFILES = {
    "matlab": dict(matlab_compatible=True), "column": dict(matlab_compatible=True, oned_as="column"),
    "ignore": dict(matlab_compatible=True, action_for_matlab_incompatible="ignore"),
    "discard": dict(matlab_compatible=True, action_for_matlab_incompatible="discard"),
    "plain": dict(matlab_compatible=False),
}
FLAGS = ("structured_numpy_ndarray_as_struct", "make_atleast_2d", "convert_numpy_bytes_to_utf16", "convert_numpy_str_to_utf16",
         "convert_bools_to_uint8", "reverse_dimension_order", "store_shape_for_empty")
PROFILES["all"] = dict({k: True for k in FLAGS}, matlab_compatible=False)
for _i, _k in enumerate(FLAGS):
    PROFILES["only" + str(_i)] = dict({k: k == _k for k in FLAGS}, matlab_compatible=False)
    PROFILES["but" + str(_i)] = dict({k: k != _k for k in FLAGS}, matlab_compatible=False)


def getter(spec):
    if spec[0] == "buf":
        return BUFFERS[spec[1]]()
    return c01.make((spec[1], spec[2]))


# ----------------------------------------------------------- writing, reading
def mutables(v, out=None, depth=0):
    """All the objects and buffers inside a value that can be changed."""
    if out is None:
        out = []
    t = type(v)
    if isinstance(v, np.ndarray):
        out.append(v)
        if v.dtype.hasobject:
            for x in inside(v):
                mutables(x, out)
    elif isinstance(v, np.void):
        out.append(v)
    elif t in (list, tuple, collections.deque, set, frozenset):
        if t not in (tuple, frozenset):
            out.append(v)
        for x in v:
            mutables(x, out)
    elif t is collections.ChainMap:
        for m in v.maps:
            mutables(m, out)
    elif isinstance(v, dict):
        out.append(v)
        for k, x in v.items():
            mutables(k, out)
            mutables(x, out)
    elif t is slice:
        for x in (v.start, v.stop, v.step):
            mutables(x, out)
    elif t is bytearray:
        out.append(v)
    return out


def overlap(a, b):
    """Do two values share anything that can be changed?"""
    ids = {id(x): x for x in a}
    for x in b:
        if id(x) in ids:
            return "both hold the same %s" % type(x).__name__
    arrs = [(x.__array_interface__["data"][0], x.nbytes, x) for x in a if isinstance(x, np.ndarray) and x.nbytes]
    for y in b:
        if isinstance(y, np.ndarray) and y.nbytes:
            p = y.__array_interface__["data"][0]
            for q, n, x in arrs:
                if p < q + n and q < p + y.nbytes and np.may_share_memory(x, y):
                    return "both share the memory of %s" % type(y).__name__


def spoil(objs):
    """Change everything that can be changed."""
    for x in objs:
        if isinstance(x, np.ndarray):
            if x.flags.writeable and x.dtype.names is None:
                try:
                    x[...] = 1 if x.dtype.kind != "V" else b"\x01"
                except Exception:
                    pass
            elif x.flags.writeable:
                for n in x.dtype.names:
                    try:
                        x[n] = 0
                    except Exception:
                        pass
        elif isinstance(x, bytearray):
            x[:] = b"spoiled"
        elif isinstance(x, (list, collections.deque, set, dict)):
            x.clear()


def roundtrip(spec, profile, res):
    fn = common.newfile(".mat")
    o = hdf5storage.Options(**PROFILES[profile])
    fields = [k for k in dir(type(o)) if isinstance(getattr(type(o), k), property)]
    before_o = {k: getattr(o, k) for k in fields}
    try:
        v = getter(spec)
        m = {"/x": v, "y": [v]} if spec[0] == "buf" else {"x": v}
        paths = list(m)
        s0, m0 = snap(v), list(map(id, m.values()))
        with hdf5storage.File(fn, writable=True, options=o) as f:
            f.writes(m)
            d = same(s0, snap(v))
            if d:
                return "writing changed the value: " + d
            if list(m) != paths or list(map(id, m.values())) != m0:
                return "writing changed the mapping"
            f["x"] = v
            d = same(s0, snap(v))
            if d:
                return "writing again changed the value: " + d
            present = "x" in f
        if {k: getattr(o, k) for k in fields} != before_o:
            return "writing changed the options"
        res.count("evaluations")
        if not present:
            return None
        with open(fn, "rb") as g:
            raw = g.read()
        ro = hdf5storage.Options(**PROFILES[profile])
        with hdf5storage.File(fn, writable=False, options=ro) as f:
            a = f["x"]
            ma = mutables(a)
            d = overlap(mutables(v), ma)
            if d:
                return "what was read and what was written: " + d
            ca = V.canon(a)
            sa = snap(a)
            b, c = f.reads(["x", "/x"])
            mb, mcc = mutables(b), mutables(c)
            d = overlap(ma, mb) or overlap(mb, mcc) or overlap(ma, mcc)
            if d:
                return "two reads: " + d
            if V.canon(b) != ca or V.canon(c) != ca:
                return "two reads differ: " + str(V.diff(ca, V.canon(b)) or V.diff(ca, V.canon(c)))
            spoil(mb)
            d = same(sa, snap(a))
            if d:
                return "changing one read changed another: " + d
            if V.canon(f.read("x")) != ca or V.canon(c) != ca:
                return "reading after changing what was read differs"
            items = dict(f.items())
            d = overlap(mutables(items["x"]), ma + mcc)
            if d:
                return "items and read: " + d
        if {k: getattr(ro, k) for k in fields} != before_o:
            return "reading changed the options"
        with open(fn, "rb") as g:
            if g.read() != raw:
                return "reading changed the file"
        # Changing what was read or written doesn't reach the file, even if it is open for writing.
        wo = hdf5storage.Options(**PROFILES[profile])
        with hdf5storage.File(fn, writable=True, options=wo) as f:
            f.flush()
            with h5py.File(fn, "r+") as h:
                t = h5dump.Dumper(h, "/#refs#").dump(h["/"])
            a = f["x"]
            list(f), len(f), "x" in f, "nope" in f, list(f.values())
            spoil(mutables(a))
            if V.canon(f["x"]) != ca:
                return "changing what was read changed the variable"
        with h5py.File(fn, "r") as h:
            if h5dump.Dumper(h, "/#refs#").dump(h["/"]) != t:
                return "reading while open for writing changed the file"
        res.seen("nontrivial", (spec, profile))
    finally:
        common.rmfile(fn)


# -------------------------------------------------------------------- options
CHANGES = {
    "store_python_metadata": False, "matlab_compatible": False, "action_for_matlab_incompatible": "discard",
    "delete_unused_variables": None, "structured_numpy_ndarray_as_struct": False, "make_atleast_2d": False,
    "convert_numpy_bytes_to_utf16": False, "convert_numpy_str_to_utf16": False, "convert_bools_to_uint8": False,
    "reverse_dimension_order": False, "structs_as_dicts": True, "store_shape_for_empty": False, "complex_names": ("r", "i"),
    "group_for_references": "/refs", "oned_as": "column", "dict_like_keys_name": "kk", "dict_like_values_name": "vv",
    "compress": None, "compress_size_threshold": 0, "compression_algorithm": "lzf", "gzip_compression_level": 2,
    "shuffle_filter": None, "compressed_fletcher32_filter": None, "uncompressed_fletcher32_filter": None,
}


def everything():
    """A value whose layout depends on every option."""
    return {"l": [1, "ab", b"cd", np.array([True, False]), 1 + 2j, np.arange(3.0)], "e": np.zeros((0, 3)),
            "k": {1: "x"}, "s": np.array([(1, 2.0)], [("a", "i4"), ("b", "f8")]), "big": np.zeros((40, 40))}


def setopt(o, k):
    v = CHANGES[k]
    setattr(o, k, (not getattr(o, k)) if v is None else v)


def dump_all(fn):
    with h5py.File(fn, "r") as h:
        t = []
        for k in ("x", "y"):
            t.append(h5dump.dump(h, k, "/#refs#") if k in h else None)
        t.append(sorted(h))
        return t


def wr(f, name):
    if name == "y":
        # Overwriting depends on delete_unused_variables.
        f["y"] = {"old": 1, "a": 2}
        f["y"] = {"a": 3}
    else:
        f[name] = everything()


# Events of a program with one Options object and two files.
EVENTS = ["set1", "set2", "openA", "wAx", "wAy", "closeA", "openB", "wBx", "closeB"]


def schedule_ok(s):
    idx = {e: i for i, e in enumerate(s)}
    return (idx["openA"] < idx["wAx"] < idx["wAy"] < idx["closeA"] and idx["openB"] < idx["wBx"] < idx["closeB"])


def schedules(deep):
    """Orders of two option changes among the operations on two files."""
    ops = ["openA", "wAx", "openB", "wAy", "wBx", "closeA", "closeB"]
    out = []
    for i in range(len(ops) + 1):
        for j in range(i, len(ops) + 1):
            s = list(ops)
            s.insert(j, "set2")
            s.insert(i, "set1")
            out.append(s)
    return out


def isolation(k1, k2, sched, res, how="options"):
    """The options of a file are those at the time it was opened."""
    fa, fb, ra, rb = (common.newfile(".mat") for _ in range(4))
    files = {}
    try:
        o = hdf5storage.Options()
        kwargs = {}
        at_open = {}
        for e in sched:
            if e == "set1":
                setopt(o, k1)
            elif e == "set2":
                setopt(o, k2)
            elif e.startswith("open"):
                at_open[e[-1]] = {k: getattr(o, k) for k in CHANGES}
                files[e[-1]] = hdf5storage.File(fa if e[-1] == "A" else fb, writable=True, options=o)
            elif e.startswith("w"):
                wr(files[e[1]], e[2])
            else:
                files[e[-1]].close()
        res.count("evaluations")
        for n, fn, ref in (("A", fa, ra), ("B", fb, rb)):
            ro = fresh_options(at_open[n])
            with hdf5storage.File(ref, writable=True, options=ro) as f:
                wr(f, "x")
                if n == "A":
                    wr(f, "y")
            if dump_all(fn) != dump_all(ref):
                return "file %s doesn't follow the options it was opened with" % n
        res.seen("nontrivial", (k1, k2, sched))
    finally:
        for f in files.values():
            f.close()
        common.rmfile(fa, fb, ra, rb)


def fresh_options(d):
    """New Options equal to the recorded ones."""
    o = hdf5storage.Options(matlab_compatible=False)
    if d["matlab_compatible"]:
        o = hdf5storage.Options(matlab_compatible=True)
    for k, v in d.items():
        if k != "matlab_compatible" and getattr(o, k) != v:
            setattr(o, k, v)
    return o


def keywords(k, res):
    """Keywords given to one File or function don't reach another, nor do they change."""
    fns = [common.newfile(".mat") for _ in range(4)]
    try:
        base = hdf5storage.Options()
        d = {n: getattr(base, n) for n in CHANGES}
        cur = getattr(base, k)
        val = (not cur) if CHANGES[k] is None else CHANGES[k]
        kw = {"matlab_compatible": False, k: val} if k != "matlab_compatible" else {k: val}
        kw0 = dict(kw)
        with hdf5storage.File(fns[0], writable=True, **kw) as f:
            with hdf5storage.File(fns[1], writable=True) as g:
                wr(f, "x")
                wr(g, "x")
        hdf5storage.write(everything(), "x", filename=fns[2], **kw)
        hdf5storage.write(everything(), "x", filename=fns[3])
        res.count("evaluations")
        if kw != kw0:
            return "the keywords were changed"
        now = hdf5storage.Options()
        if {n: getattr(now, n) for n in CHANGES} != d:
            return "the default options changed"
        if dump_all(fns[1])[0] != dump_all(fns[3])[0]:
            return "the options of another file had an effect"
        if dump_all(fns[0])[0] != dump_all(fns[2])[0]:
            return "write and File don't do the same with the same keywords"
        with hdf5storage.File(fns[1], **kw) as f, hdf5storage.File(fns[1]) as g:
            a, b = V.canon(f["x"]), V.canon(g["x"])
        with hdf5storage.File(fns[1]) as g:
            if V.canon(g["x"]) != b:
                return "the options of another file had an effect on reading"
        res.seen("nontrivial", ("kw", k))
    finally:
        common.rmfile(*fns)


def arguments(res):
    """The mappings, paths and lists given to the functions stay as they are."""
    fn = common.newfile(".mat")
    try:
        for mk in (dict, collections.OrderedDict, lambda d: types.MappingProxyType(dict(d)),
                   lambda d: collections.ChainMap(dict(d), {"z": [3]})):
            m = mk({"a": [1, 2], "b": {"c": np.arange(3)}, "g/d": "x"})
            keep = [(k, id(v)) for k, v in m.items()]
            s0 = snap(dict(m))
            o = hdf5storage.Options()
            for what, fun in (
                    ("writes", lambda: hdf5storage.writes(m, filename=fn, options=o)),
                    ("savemat", lambda: hdf5storage.savemat(fn, m)),
                    ("savemat2", lambda: hdf5storage.savemat(fn[:-4], m, truncate_existing=True, oned_as="column"))):
                fun()
                res.count("evaluations")
                if [(k, id(v)) for k, v in m.items()] != keep or same(s0[1:], snap(dict(m))[1:]):
                    return what + " changed the mapping it was given"
            paths = ["a", "/b", ["g", "d"], b"a"]
            p0 = copy.deepcopy(paths)
            hdf5storage.reads(paths, filename=fn)
            with hdf5storage.File(fn) as f:
                f.reads(paths)
                f.reads(tuple(paths))
            if paths != p0:
                return "reads changed the paths"
            p = ["g", "new"]
            hdf5storage.write(1, p, filename=fn)
            with hdf5storage.File(fn, writable=True) as f:
                f.write(1, p)
                del f[tuple(p)]
            if p != ["g", "new"]:
                return "write changed the path"
            d = {"other": 1}
            names = ["a", "b"]
            r = hdf5storage.loadmat(fn, d, variable_names=names)
            if names != ["a", "b"] or r is not d or set(d) != {"other", "a", "b"}:
                return "loadmat changed the names or returned something else"
            res.count("evaluations")
            res.seen("nontrivial", ("args", str(mk)))
    finally:
        common.rmfile(fn)


def process_state():
    """Settings of the whole process that belong to the user."""
    return {"warning filters": list(warnings.filters), "NumPy error handling": np.geterr(),
            "NumPy print options": repr(np.get_printoptions()), "working directory": os.getcwd(),
            "sys.path": list(sys.path), "environment": dict(os.environ), "umask": umask()}


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def run_case(case):
    before = process_state()
    res = case_(case)
    after = process_state()
    bad = [k for k in before if before[k] != after[k]]
    if bad and "specs" in case and len(case["specs"]) > 1:
        # Which one was it?
        for sp in case["specs"]:
            warnings.filters[:] = before["warning filters"]
            b = process_state()
            case_(dict(case, specs=[sp]))
            a = process_state()
            bad = [k for k in b if b[k] != a[k]]
            if bad:
                res.bad("process|%s|%s" % (case["profile"], sp), "changed the process's " + ", ".join(bad),
                        dict(case, specs=[sp]))
    elif bad:
        res.bad("process|%s" % case, "changed the process's " + ", ".join(bad), case)
    return res


def case_(case):
    res = common.Res()
    k = case["kind"]
    if k == "rt":
        for sp in case["specs"]:
            p = roundtrip(sp, case["profile"], res)
            if p:
                res.bad("rt|%s|%s" % (case["profile"], sp), p, dict(case, specs=[sp]))
    elif k == "iso":
        for s in case["scheds"]:
            p = isolation(case["k1"], case["k2"], s, res)
            if p:
                res.bad("iso|%s|%s|%s" % (case["k1"], case["k2"], s), p, dict(case, scheds=[s]))
    elif k == "kw":
        p = keywords(case["k"], res)
        if p:
            res.bad("kw|" + case["k"], p)
    else:
        p = arguments(res)
        if p:
            res.bad("args", p)
    return res


def cases(tier, seed):
    deep = tier == "thorough"
    out = [{"kind": "args"}]
    for p in PROFILES:
        nomat = PROFILES[p]["matlab_compatible"] and PROFILES[p].get("action_for_matlab_incompatible") is None
        b = [["buf", n] for n in BUFFERS if not (nomat and n in NOMAT)]
        vals = [["val", n, None] for n in V.VALUES if not (nomat and "nomatlab" in V.VALUES[n][1])]
        full = deep or p in ("matlab", "plain")
        if not full:
            vals = vals[:0] if p.startswith(("only", "but")) else vals[::3]
        small = [n for n in V.VALUES if V.VALUES[n][1] & {"seq", "dict", "small", "matrix"}
                 and not (nomat and "nomatlab" in V.VALUES[n][1])]
        ctx = [["val", n, c] for n in small for c in c01.OUTER if c not in c01.FIELDWISE]
        if not deep:
            ctx = ctx[::3] if p in ("matlab", "plain") else []
        specs = b + vals + ctx
        out += [dict(kind="rt", profile=p, specs=specs[i:i + 30]) for i in range(0, len(specs), 30)]
    sch = schedules(deep)
    keys = list(CHANGES)
    for i, k1 in enumerate(keys):
        out.append(dict(kind="kw", k=k1))
        for k2 in keys if deep else [k1, keys[(i + 5) % len(keys)]]:
            for j in range(0, len(sch), 12):
                out.append(dict(kind="iso", k1=k1, k2=k2, scheds=sch[j:j + 12]))
    return out


def coverage(res, tier):
    return common.cov_exploration(
        res, "%d values with unusual buffers and the value alphabet, alone and in containers, in %d option profiles: deep "
        "snapshots (identity, flags, memory of the whole underlying buffer) before and after writing, disjointness of two "
        "reads, file bytes and dumps around reading; all places of one or two changes of %d options among the operations on two "
        "files; non-trivial = distinct cases in which nothing was altered" % (len(BUFFERS), len(PROFILES), len(CHANGES)))
