"""C22: filters of every stored dataset, fresh and after overwriting."""
import itertools

import h5py
import numpy as np

import hdf5storage

from . import common
from . import values as V

PROP = "C22"
LEVEL = "exploration"
ASSUMPTIONS = ["the canonical empty (a constant of the format) is stored without filters whatever the options",
               "szip is only used if the HDF5 library can encode it, and only for numeric arrays of more elements "
               "than a block of it, since HDF5 refuses everything else"]
ALGS = [("gzip", 0), ("gzip", 1), ("gzip", 6), ("gzip", 9), ("lzf", 3)]
if h5py.h5z.filter_avail(h5py.h5z.FILTER_SZIP) and "szip" in h5py.filters.encode:
    ALGS.append(("szip", 5))

CONFIGS = [dict(compress=c, compression_algorithm=a, gzip_compression_level=l, shuffle_filter=s,
                compressed_fletcher32_filter=fc, uncompressed_fletcher32_filter=fu)
           for c, (a, l), s, fc, fu in itertools.product((True, False), ALGS, (True, False), (True, False),
                                                          (True, False))]


def _sarr(n):
    return V.fill([("a", "i4"), ("b", "f8")], n)


DATA = {
    "scalar": lambda: np.float64(1.5), "int": lambda: 7, "0d": lambda: np.array(3), "none": lambda: None,
    "f8:1": lambda: np.zeros(1), "f8:16": lambda: np.arange(16.0), "u1:7x5": lambda: V.fill("u1", (7, 5)),
    "i2:3d": lambda: V.fill("i2", (4, 3, 5)), "c16": lambda: V.fill("c16", (3, 3)), "bool": lambda: V.fill("bool", (9,)),
    "str": lambda: "compress me \u4f60", "str:empty": lambda: "", "bytes": lambda: b"some bytes",
    "Uarr": lambda: V.fill("U3", (2, 3)), "Sarr": lambda: V.fill("S3", (4,)), "empty": lambda: np.zeros((0, 3)),
    "empty2": lambda: np.zeros((0,), "i1"), "list": lambda: [1, "abc", np.arange(8), None], "onelist": lambda: [[0]],
    "emptylist": lambda: [], "objarr": lambda: V.fill("O", (2, 4)),
    "dict": lambda: {"a": np.arange(9), "b": "text", "c": 1, "d": [np.zeros((3, 3))]},
    "kvdict": lambda: {1: np.arange(9), (2, 3): "x"}, "struct": lambda: _sarr((5,)), "struct1": lambda: _sarr((1,)),
    "struct0": lambda: _sarr(()), "sub": lambda: V.fill([("a", "i4", (2, 3))], (4,)), "big": lambda: np.zeros((64, 65)),
    "bigint": lambda: 10**60, "dtype": lambda: np.dtype([("a", "i4"), ("b", "f8")]), "be": lambda: np.arange(6, dtype=">i4"),
    "matrix": lambda: np.matrix(np.eye(4)), "slice": lambda: slice(1, np.arange(7)), "V": lambda: np.array([b"abc", b"d"], "V3"),
}
NOMAT = {"V"}
SZIP = {"big", "i2:3d", "u1:7x5"}


def szip_ok(ci, name):
    return CONFIGS[ci]["compression_algorithm"] != "szip" or name in SZIP


def stored_size(d):
    return d.size * (8 if h5py.check_dtype(ref=d.dtype) is not None else d.dtype.itemsize)


def want(d, cfg, thr):
    """(compression, options, shuffle, checksum) documented for the dataset."""
    if d.shape == ():
        return (None, None, False, False)
    if cfg["compress"] and stored_size(d) >= thr:
        a = cfg["compression_algorithm"]
        return (a, cfg["gzip_compression_level"] if a == "gzip" else "any", cfg["shuffle_filter"],
                cfg["compressed_fletcher32_filter"])
    return (None, None, False, cfg["uncompressed_fletcher32_filter"])


def datasets(f):
    out = []

    def visit(name, o):
        if isinstance(o, h5py.Dataset) and bytes(o.attrs.get("MATLAB_class", b"")) != b"canonical empty":
            out.append((name, o))
    f.visititems(visit)
    return out


def reachable(f, o, out):
    if isinstance(o, h5py.Group):
        for k in o:
            if o.name != "/" or not k.startswith("#refs#"):
                reachable(f, o[k], out)
    elif isinstance(o, h5py.Dataset):
        if bytes(o.attrs.get("MATLAB_class", b"")) == b"canonical empty":
            return
        out.append(o)
        if h5py.check_dtype(ref=o.dtype) is not None:
            for r in np.asarray(o[()]).ravel().tolist():
                if r:
                    reachable(f, f[r], out)


def check_file(fn, cfg, thr, res, key, case, path="/v"):
    n = 0
    with h5py.File(fn, "r") as f:
        out = []
        reachable(f, f[path], out)
        for o in out:
            n += 1
            w = want(o, cfg, thr)
            got = (o.compression, o.compression_opts, o.shuffle, o.fletcher32)
            if w[1] == "any":
                got = (got[0], "any") + got[2:]
            if got != w:
                res.bad(key, "%s of %d bytes %s has filters %s, documented %s (compression, level, shuffle, checksum)"
                        % (o.name, stored_size(o), o.shape, got, w), case)
                break
    return n


def mopts(mode):
    return {"matlab_compatible": mode == "matlab"}


def thresholds(name, mode):
    """All thresholds at which the stored datasets of the value change sides."""
    fn = common.newfile()
    try:
        hdf5storage.File(fn, writable=True, compress=False, **mopts(mode)).close()
        with hdf5storage.File(fn, writable=True, compress=False, **mopts(mode)) as f:
            f.write(DATA[name](), "/v")
        with h5py.File(fn, "r") as f:
            out = []
            reachable(f, f["/v"], out)
            sizes = {stored_size(o) for o in out}
    finally:
        common.rmfile(fn)
    t = {0, 1, 16384}
    for s in sizes:
        t |= {s, s + 1, max(0, s - 1)}
    return sorted(t)


def write(fn, name, cfg, thr, mode):
    with hdf5storage.File(fn, writable=True, compress_size_threshold=thr, **cfg, **mopts(mode)) as f:
        f.write(DATA[name](), "/v")


def run_case(case):
    res = common.Res()
    mode = case["mode"]
    if case["kind"] == "fresh":
        name = case["data"]
        for thr in thresholds(name, mode):
            for ci in case["cfgs"]:
                if not szip_ok(ci, name):
                    continue
                cfg = CONFIGS[ci]
                fn = common.newfile()
                key = "fresh|%s|%s|%d|%d" % (name, mode, thr, ci)
                try:
                    write(fn, name, cfg, thr, mode)
                    res.count("evaluations")
                    if check_file(fn, cfg, thr, res, key, dict(case, cfgs=[ci])):
                        res.seen("nontrivial", key)
                    got = hdf5storage.read(path="/v", filename=fn)
                    d = same(DATA[name](), got)
                    if d:
                        res.bad(key, "value differs with these filters: %s" % d, dict(case, cfgs=[ci]))
                except Exception as e:
                    res.bad(key, "raised " + common.exc_str(e), dict(case, cfgs=[ci]))
                finally:
                    common.rmfile(fn)
        return res
    # Overwriting: first configuration fixed, all second ones.
    a = case["first"]
    for n1, n2 in case["pairs"]:
        for thr1, thr2 in case["thrs"]:
            for b in case["seconds"]:
                if not (szip_ok(a, n1) and szip_ok(b, n2)):
                    continue
                fn = common.newfile()
                key = "over|%s|%s|%s|%s" % (n1, n2, mode, (a, b, thr1, thr2))
                one = dict(case, pairs=[[n1, n2]], thrs=[[thr1, thr2]], seconds=[b])
                try:
                    write(fn, n1, CONFIGS[a], thr1, mode)
                    write(fn, n2, CONFIGS[b], thr2, mode)
                    res.count("evaluations")
                    if check_file(fn, CONFIGS[b], thr2, res, key, one):
                        res.seen("nontrivial", key)
                    got = hdf5storage.read(path="/v", filename=fn)
                    d = same(DATA[n2](), got)
                    if d:
                        res.bad(key, "value differs: %s" % d, one)
                except Exception as e:
                    res.bad(key, "raised " + common.exc_str(e), one)
                finally:
                    common.rmfile(fn)
    return res


def same(v, r):
    from . import c01
    return c01.compare(v, r, {"matlab_compatible": True})


def cases(tier, seed):
    out = []
    for mode in ("matlab", "plain"):
        # Only gzip is MATLAB compatible.
        idx = [i for i, c in enumerate(CONFIGS) if mode == "plain" or c["compression_algorithm"] == "gzip"]
        for n in DATA:
            if mode == "matlab" and n in NOMAT:
                continue
            use = idx
            if tier == "quick" and mode == "plain" and n not in ("f8:16", "c16", "bool", "list", "struct", "Sarr", "V"):
                use = idx[::3]
            step = 14 if n in ("list", "dict", "kvdict", "objarr") else 40
            for i in range(0, len(use), step):
                out.append({"kind": "fresh", "mode": mode, "data": n, "cfgs": use[i:i + step]})
        pairs = [["f8:16", "f8:16"], ["u1:7x5", "u1:7x5"]]
        if tier == "thorough":
            pairs += [["list", "list"], ["dict", "dict"], ["struct", "struct"], ["empty", "empty"], ["0d", "f8:16"],
                      ["c16", "c16"], ["bool", "bool"], ["list", "f8:16"], ["f8:16", "list"], ["big", "big"]]
        red = idx if tier == "thorough" or mode == "matlab" else idx[::5]
        for a in red:
            out.append({"kind": "over", "mode": mode, "first": a, "seconds": red,
                        "pairs": pairs if tier == "thorough" or mode == "plain" else pairs[:1], "thrs": [[0, 0]]})
        few = idx[::7]
        allp = [[x, y] for x in ("0d", "f8:16", "u1:7x5", "empty", "list", "dict", "struct", "str", "c16") for y in
                ("0d", "f8:16", "u1:7x5", "empty", "list", "dict", "struct", "str", "c16")]
        for a in few:
            for p in range(0, len(allp), 9):
                out.append({"kind": "over", "mode": mode, "first": a, "seconds": few if tier == "thorough" else few[::3],
                            "pairs": allp[p:p + 9], "thrs": [[0, 10**6], [10**6, 0]] + ([[0, 0], [40, 41]]
                                                                                      if tier == "thorough" else [])})
    return out


def coverage(res, tier):
    return common.cov_exploration(
        res, "every filter configuration (%d: compress x algorithm and level x shuffle x both checksums) x %d values of "
        "every layout class x every threshold where one of their datasets changes sides (and one below and above), and "
        "ordered pairs of configurations when overwriting; all datasets reachable from the variable are compared with "
        "the documented filters and the value is read back" % (len(CONFIGS), len(DATA)))
