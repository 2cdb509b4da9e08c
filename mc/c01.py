"""C01: write-then-read round trip, exhaustive value x option x nesting product."""
import collections

import numpy as np

import hdf5storage

from . import common, optsets
from . import values as V

PROP = "C01"
LEVEL = "exploration"
ASSUMPTIONS = ["byte order of array data is not part of an object's identity",
               "deque maxlen and datetime fold are not compared",
               "documented limits: empty structured arrays stored field by field may come back with object fields; "
               "fixed-width string fields stored field by field may come back as object fields of the same strings"]


class Box:
    pass


def _objarr(shape):
    def f(v):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = v() if i == (0,) * len(shape) else 7
        return a
    return f


def _sfield(v):
    a = np.zeros((2,), dtype=[("x", "O"), ("n", "i4")])
    a["x"][0] = v()
    a["x"][1] = "other"
    a["n"] = [1, 2]
    return a


def _sfield1(v):
    a = np.zeros((1,), dtype=[("x", "O"), ("n", "i4")])
    a["x"][0] = v()
    return a


OUTER = {
    "list1": lambda v: [v()],
    "list3": lambda v: [0, v(), "z"],
    "tuple2": lambda v: (v(), v()),
    "deque": lambda v: collections.deque([v(), None]),
    "dictval": lambda v: {"k": v(), "other": 1},
    "odval": lambda v: collections.OrderedDict([("z", 1), ("k", v())]),
    "kvval": lambda v: {1: v(), "s": 2},
    "chainmap": lambda v: collections.ChainMap({"k": v()}, {2: v()}),
    "objarr1": _objarr((1,)), "objarr22": _objarr((2, 2)), "objarr0d": _objarr(()),
    "sfield": _sfield, "sfield1": _sfield1,
    "slice": lambda v: slice(v(), None, v()),
    "deep": lambda v: [{"a": ({"b": [v()]},)}],
}
# Element of a structured field of object dtype: the arrays inside would be
# indistinguishable from subarrays, so only leaves that stay whole are used there.
FIELDWISE = ("sfield", "sfield1")


def _usable(name, opts):
    tags = (V.VALUES.get(name) or V.LARGE[name])[1]
    return not (opts["matlab_compatible"] and "nomatlab" in tags)


def _as_struct(v, opts):
    return (opts.get("matlab_compatible") or opts.get("structured_numpy_ndarray_as_struct")
            or v.dtype.hasobject or any("\x00" in n for n in v.dtype.names))


def compare(v, r, opts):
    d = V.eq(v, r)
    if d and isinstance(v, (np.ndarray, np.void)) and v.dtype.names is not None:
        by_field = _as_struct(v, opts)
        lossy_empty = v.size == 0 and (by_field or opts.get("store_shape_for_empty"))
        if by_field or lossy_empty:
            if V.eq(V.loosen(v, lossy_empty), r) is None:
                return None
            if V.eq(V.loosen(v, lossy_empty), V.loosen(r, lossy_empty)) is None:
                return None
    return d


def lossy(name):
    """Structured values that the documentation lets come back altered when
    stored field by field are only used at the top level."""
    v = V.get(name)
    return (isinstance(v, (np.ndarray, np.void)) and v.dtype.names is not None
            and (v.size == 0 or any(v.dtype[n].kind in "SU" for n in v.dtype.names)))


def make(spec):
    name, outer = spec
    if outer is None:
        return V.get(name)
    return OUTER[outer](lambda: V.get(name))


def one_file(specs, opts, oname, res, session):
    fn = common.newfile()
    try:
        f = hdf5storage.File(fn, writable=True, **opts)
        written = []
        try:
            for i, sp in enumerate(specs):
                v = make(sp)
                try:
                    f.write(v, "/v%d" % i)
                    written.append((i, sp))
                except Exception as e:
                    yield sp, "write raised " + common.exc_str(e)
        finally:
            f.close()
        f = hdf5storage.File(fn, writable=False, **opts)
        try:
            for i, sp in written:
                res.count("evaluations")
                try:
                    r = f.read("/v%d" % i)
                except Exception as e:
                    yield sp, "read raised " + common.exc_str(e)
                    continue
                d = compare(make(sp), r, opts)
                if d:
                    yield sp, d
                elif session:
                    res.seen("nontrivial", (sp, oname))
        finally:
            f.close()
    finally:
        common.rmfile(fn)


def run_case(case):
    res = common.Res()
    oname = case["opts"]
    opts = optsets.get(oname)
    specs = [tuple(s) for s in case["specs"]]
    specs = [s for s in specs if _usable(s[0], opts)]
    for sp, d in one_file(specs, opts, oname, res, True):
        single = {"opts": oname, "specs": [list(sp)]}
        alone = list(one_file([sp], opts, oname, common.Res(), False)) if len(specs) > 1 else [1]
        res.bad("%s|%s|%s" % (sp[0], sp[1], oname), d, single if alone else case)
    if specs:
        res.samples.append({"value": specs[0][0], "inside": specs[0][1], "options": oname})
    return res


def cases(tier, seed):
    out = []
    names = list(V.VALUES)
    step = 60
    prof = ["matlab", "plain", "allon", "odd", "odd2", "tiny", "matcol"]
    # quick: the 64 combinations of even parity, which contain every
    # combination of any six of the seven flags; thorough: all 128.
    prof += ["f%d" % b for b in range(128) if tier == "thorough" or bin(b).count("1") % 2 == 0]
    for o in prof:
        use = names
        if tier == "quick" and o[0] == "f" and int(o[1:]) % 5:
            use = [n for n in names if "sobj" not in V.VALUES[n][1]]
        for i in range(0, len(use), step):
            out.append({"opts": o, "specs": [[n, None] for n in use[i:i + step]]})
    # Unusual sizes.
    large = list(V.LARGE)
    for o in ("matlab", "plain") if tier == "quick" else prof[:7] + ["f%d" % b for b in range(0, 128, 9)]:
        for i in range(0, len(large), 12):
            out.append({"opts": o, "specs": [[n, None] for n in large[i:i + 12]]})
    nest = ["matlab", "plain"] if tier == "quick" else [
        "matlab", "plain", "allon", "odd", "odd2", "tiny", "matcol"]
    leaves = [n for n in names if V.VALUES[n][1] & {"leaf", "dtype", "dictlike", "seq", "dict", "struct", "matrix"}
              or n.startswith("arr:")]
    leaves = [n for n in leaves if not lossy(n)]
    for o in nest:
        for outer in OUTER:
            use = leaves
            if outer in FIELDWISE:
                use = [n for n in leaves if not n.startswith(("struct", "recarray", "arr:", "np.", "matrix",
                                                              "chararray"))]
            for i in range(0, len(use), step):
                out.append({"opts": o, "specs": [[n, outer] for n in use[i:i + step]]})
    if tier == "thorough":
        seq = [n for n in names if V.VALUES[n][1] & {"leaf", "seq", "dict", "dictlike"}]
        for b in range(0, 128, 3):
            for outer in ("list3", "dictval", "kvval", "objarr22"):
                for i in range(0, len(seq), step):
                    out.append({"opts": "f%d" % b, "specs": [[n, outer] for n in seq[i:i + step]]})
    return out


def coverage(res, tier):
    return common.cov_exploration(
        res, "every value of the alphabet (%d values: type x shape class x boundary content) under every "
        "combination of the seven layout flags (quick tier: every combination of any six) and seven whole-option profiles, and inside every kind of "
        "container (%d contexts); an evaluation is one write, close, reopen, read, strict compare; non-trivial "
        "= distinct (value, context, options) that round-tripped" % (len(V.VALUES), len(OUTER)))
