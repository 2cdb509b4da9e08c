"""C14: the action for MATLAB incompatible data, in every position."""
import collections
import contextlib
import datetime
import fractions
import itertools

import h5py
import numpy as np

import hdf5storage

from . import common, h5dump, layout
from . import values as V

PROP = "C14"
LEVEL = "exploration"
ASSUMPTIONS = ["a discarded top level variable leaves what was stored under the name before (not specified)",
               "a discarded slot of a container is read as an array of size 0; discarded dict items, fields and "
               "set elements are absent; a discarded part of a slice is None",
               "scalars of types the package does not know at all (numpy.longdouble) are not data it can store"]
TNC = hdf5storage.exceptions.TypeNotMatlabCompatibleError
ACTIONS = ("error", "discard", "ignore")
OD, Counter, ChainMap, deque = V.OD, V.Counter, V.ChainMap, V.deque

# --------------------------------------------------------------------- leaves
BAD = {
    "f2": lambda: np.float16(1.5), "void": lambda: np.void(b"abc"), "f2:3": lambda: V.fill("f2", (3,)),
    "f2:2x2": lambda: V.fill("f2", (2, 2)), "f2:0": lambda: np.zeros((0,), "f2"), "f2:0d": lambda: np.array(2.5, "f2"),
    ">f2": lambda: np.arange(3.0).astype(">f2"), "f2m": lambda: np.matrix(np.eye(2, dtype="f2")),
    "f2:1": lambda: np.ones(1, "f2"), "f2:T": lambda: V.fill("f2", (2, 3)).T,
    "V3": lambda: np.array([b"abc", b"d"], "V3"), "V3:1": lambda: np.array([b"abc"], "V3"),
    "V1:0": lambda: np.zeros((0,), "V1"), "g": lambda: np.arange(3).astype("g"), "G": lambda: np.ones((2, 1), "G"),
    "f2rec": lambda: np.ones(2, "f2").view(np.recarray),
}
BADHASH = ["f2"]
GOOD = {
    "int": lambda: 7, "big": lambda: 10**40, "str": lambda: "\u4f60x", "bytes": lambda: b"by", "none": lambda: None,
    "float": lambda: 0.5, "tuple": lambda: (1, "a"), "q": lambda: np.arange(3).astype("q"), "f4": lambda: np.float32(2.5),
    "c8": lambda: np.ones((2, 2), "c8"), "bool": lambda: np.array([True, False]), "list": lambda: [[], None],
    "dict": lambda: {"k": 1}, "Uarr": lambda: np.array(["a", "bcd"]), "empty": lambda: np.zeros((0, 2)),
    "struct": lambda: np.array([(1, 2.0)], [("p", "i4"), ("r", "f8")]), "date": lambda: datetime.date(2020, 1, 2),
    "frac": lambda: fractions.Fraction(1, 3), "dtype": lambda: np.dtype("f2"), "O0": lambda: np.zeros((0,), "O"),
    "range": lambda: range(3), "slice": lambda: slice(1, None), "nptrue": lambda: np.True_, "ba": lambda: bytearray(b"z"),
    "cx": lambda: 1j, "Q0": lambda: np.zeros(1, "Q")[0], ">i2": lambda: np.arange(3).astype(">i2"),
}
GOODHASH = ["int", "str", "bytes", "none", "tuple", "f4", "frac", "date", "big", "float"]


def leaf(n):
    return BAD[n[1:]]() if n[0] == "!" else GOOD[n]()


# ------------------------------------------------------------------- contexts
def objarr(vals, shape=None):
    a = np.empty(len(vals), object)
    for i, x in enumerate(vals):
        a[i] = x
    return a.reshape(shape) if shape else a


def ofields(vals, n):
    """Structured array of n elements with one object field per value."""
    a = np.zeros((n,), [("f%d" % i, object) for i in range(len(vals))])
    for i, x in enumerate(vals):
        for j in range(n):
            a["f%d" % i][j] = x if (i + j) % 2 == 0 or n == 1 else "other%d" % j
    return a


def tfields(vals):
    """Structured array whose fields have the dtypes of the values."""
    arrs = [np.asarray(x) if isinstance(x, (np.ndarray, np.generic)) else objarr([x])[0:1].reshape(()) for x in vals]
    a = np.zeros((2,), [("f%d" % i, x.dtype, x.shape) for i, x in enumerate(arrs)])
    for i, x in enumerate(arrs):
        for j in range(2):
            a["f%d" % i][j] = x[()] if x.dtype == object else x
    return a


def keys(vals, tp=dict, pad=True):
    it = [(v, i) for i, v in enumerate(vals)]
    if pad:
        it.insert(1, ((1, "pad"), "pad"))
    return tp(it) if tp is not Counter else Counter(dict((k, 1 if v == "pad" else v + 1) for k, v in it))


CTX = {
    "list": list, "tuple": tuple, "deque": deque, "set": set, "frozenset": frozenset,
    "dict": lambda v: {"k%d" % i: x for i, x in enumerate(v)},
    "bdict": lambda v: OD((b"k%d" % i, x) for i, x in enumerate(v)),
    "kv": lambda v: {i: x for i, x in enumerate(v)},
    "kvod": lambda v: OD(((i, "t"), x) for i, x in enumerate(v)),
    "cntv": lambda v: Counter({"c%d" % i: x for i, x in enumerate(v)}),
    "key": keys, "odkey": lambda v: keys(v, OD), "cntkey": lambda v: keys(v, Counter),
    "tkey": lambda v: keys([(x, i) for i, x in enumerate(v)]), "onlykeys": lambda v: keys(v, pad=False),
    "objarr": objarr, "objarr2": lambda v: objarr(v + v, (2, len(v))), "objarr1": lambda v: objarr(v, (1, len(v))),
    "sf1": lambda v: ofields(v, 1), "sf2": lambda v: ofields(v, 2), "sf0d": lambda v: ofields(v, 1).reshape(()),
    "svoid": lambda v: ofields(v, 1)[0], "srec": lambda v: ofields(v, 2).view(np.recarray),
    "stf": tfields, "stf1": lambda v: tfields(v)[:1], "chain": lambda v: ChainMap({"m%d" % 0: v[0]}, CTX["dict"](v)),
    "slice": lambda v: slice(*(v + [None])[:3]) if len(v) > 1 else slice(v[0]),
}
HASHCTX = {"set", "frozenset", "key", "odkey", "cntkey", "tkey", "onlykeys"}


# A field of a single element holds the plain contents of arrays.
ONE = {"sf1", "sf0d", "svoid"}


def make(spec):
    """spec: leaf name or [context, spec...]."""
    if isinstance(spec, str):
        return leaf(spec)
    return CTX[spec[0]]([make(s) for s in spec[1:]])


# --------------------------------------------------------------------- oracle
class Gone:
    """Marks what isn't stored."""


class Slot:
    """Marks an empty slot of a container."""


def ok_dtype(dt):
    return dt.kind in "buiSUO" or dt.kind in "fc" and dt.itemsize // (2 if dt.kind == "c" else 1) in (4, 8)


def hashable(x):
    if type(x) is tuple:
        return all(hashable(e) for e in x)
    if type(x) is Proj:
        return x[0] == "frozenset" or x[0] == "slice" and all(hashable(e) for e in x[1:])
    if isinstance(x, (S, type)):
        return False
    try:
        hash(x)
    except TypeError:
        return False
    return True


class Proj(list):
    """Projection of a container: [kind, ...]."""


class S:
    """Projection of a structured array: shape, field name -> list of elements."""

    def __init__(self, tp, shape, fields):
        self.tp, self.shape, self.fields = tp, shape, fields


def slot(x, act):
    p = proj(x, act)
    return Slot if p is Gone else p


def proj(x, act):
    """What remains of x.  Raises TNC when the action is error."""
    t = type(x)
    if isinstance(x, (np.ndarray, np.generic)):
        if x.dtype.names is not None:
            single = x.size == 1
            elems = [e for e in np.asarray(x).reshape(-1)]
            fields = {}
            for n in x.dtype.names:
                if single:
                    p = proj(elems[0][n], act)
                    if p is not Gone:
                        fields[n] = [p]
                else:
                    fields[n] = [slot(e[n], act) for e in elems]
            return S(np.void if t is np.void else t, x.shape, fields)
        if x.dtype == object:
            return Proj(["O", x.shape] + [slot(e, act) for e in x.reshape(-1)])
        if ok_dtype(x.dtype) or act == "ignore":
            return x
        if act == "error":
            raise TNC("")
        return Gone
    if t in (list, deque):
        return Proj([t.__name__] + [slot(e, act) for e in x])
    if t is tuple:
        return tuple(slot(e, act) for e in x)
    if t in (set, frozenset):
        r = [slot(e, act) for e in x]
        return Proj([t.__name__] + [e for e in r if hashable(e)])
    if t in (dict, OD, Counter):
        if all(type(k) in (str, bytes, np.str_, np.bytes_) for k in x):
            r = [(k, proj(v, act)) for k, v in x.items()]
            return Proj([t.__name__] + [Proj(["item", k, v]) for k, v in r if v is not Gone])
        r = [(slot(k, act), slot(v, act)) for k, v in x.items()]
        return Proj([t.__name__] + [Proj(["item", k, v]) for k, v in r if hashable(k)])
    if t is ChainMap:
        return Proj(["ChainMap"] + [proj(m, act) for m in x.maps])
    if t is slice:
        r = [proj(e, act) for e in (x.start, x.stop, x.step)]
        return Proj(["slice"] + [None if e is Gone else e for e in r])
    return x


def cmp(want, got, at="value"):
    if want is Slot:
        if isinstance(got, np.ndarray) and got.size == 0 and got.dtype.names is None:
            return None
        return "%s: expected an empty placeholder, got %.80r" % (at, got)
    if isinstance(want, S):
        if not isinstance(got, (np.ndarray, np.void)) or got.dtype.names is None:
            return "%s: expected a structured array, got %.80r" % (at, got)
        if type(got) is not want.tp and not (want.tp is np.recarray and isinstance(got, np.recarray)) and not (
                want.shape == () and isinstance(got, np.void)):
            return "%s: type %s, expected %s" % (at, type(got), want.tp)
        if got.shape != want.shape or list(got.dtype.names) != list(want.fields):
            return "%s: %s %s, expected %s %s" % (at, got.shape, got.dtype.names, want.shape, list(want.fields))
        elems = [e for e in np.asarray(got).reshape(-1)]
        for n, vals in want.fields.items():
            for i, v in enumerate(vals):
                d = cmp(v, elems[i][n], "%s[%d][%s]" % (at, i, n))
                if d:
                    return d
        return None
    if type(want) is tuple:
        if type(got) is not tuple:
            return "%s: expected a tuple, got %.80r" % (at, got)
        want = Proj(["tuple"] + list(want))
    if type(want) is Proj:
        k, items = want[0], want[1:]
        if k == "O":
            if not isinstance(got, np.ndarray) or got.dtype != object or got.shape != items[0]:
                return "%s: expected an object array of shape %s, got %.80r" % (at, items[0], got)
            seq, items = [got[i] for i in np.ndindex(got.shape)], items[1:]
        elif k in ("set", "frozenset"):
            if type(got).__name__ != k or len(got) != len(items):
                return "%s: expected %s of %d elements, got %.100r" % (at, k, len(items), got)
            rest = list(got)
            for e in items:
                hit = [g for g in rest if cmp(e, g) is None]
                if not hit:
                    return "%s: lacks %.60r, has %.100r" % (at, e, got)
                rest = [g for g in rest if g is not hit[0]]
            return None
        elif k in ("dict", "OrderedDict", "Counter"):
            if type(got).__name__ != k:
                return "%s: type %s, expected %s" % (at, type(got), k)
            seq = [Proj(["pair", a, b]) for a, b in got.items()]
            if len(seq) != len(items):
                return "%s: has the keys %.100r, expected %.100r" % (at, list(got), [i[1] for i in items])
            for e, (_, a, b) in zip(items, seq):
                d = cmp(e[1], a, at + " key") or cmp(e[2], b, "%s[%.30r]" % (at, e[1]))
                if d:
                    return d
            return None
        elif k == "ChainMap":
            if type(got) is not ChainMap:
                return "%s: type %s, expected ChainMap" % (at, type(got))
            seq = got.maps
        elif k == "slice":
            if type(got) is not slice:
                return "%s: type %s, expected slice" % (at, type(got))
            seq = [got.start, got.stop, got.step]
        else:
            if type(got).__name__ != k:
                return "%s: type %s, expected %s" % (at, type(got), k)
            seq = list(got)
        if len(seq) != len(items):
            return "%s: %d elements, expected %d" % (at, len(seq), len(items))
        for i, (e, g) in enumerate(zip(items, seq)):
            d = cmp(e, g, "%s[%d]" % (at, i))
            if d:
                return d
        return None
    d = V.eq(want, got)
    return "%s: %s" % (at, d) if d else None


# ---------------------------------------------------------------------- cases
def ways():
    """How a variable can be written: name -> function(file name, value, action)."""
    def w_file(fn, v, act):
        with hdf5storage.File(fn, writable=True, action_for_matlab_incompatible=act) as f:
            f["x"] = v

    def w_write(fn, v, act):
        hdf5storage.write(v, "/x", filename=fn, matlab_compatible=True, action_for_matlab_incompatible=act)

    def w_writes(fn, v, act):
        hdf5storage.writes({"/x": v}, filename=fn, options=hdf5storage.Options(action_for_matlab_incompatible=act))

    def w_save(fn, v, act):
        hdf5storage.savemat(fn, {"x": v}, action_for_matlab_incompatible=act, truncate_existing=False)

    def w_update(fn, v, act):
        with hdf5storage.File(fn, writable=True, action_for_matlab_incompatible=act) as f:
            f.update({"x": v})

    def w_default(fn, v, act):
        with hdf5storage.File(fn, writable=True, action_for_matlab_incompatible=act) as f:
            f.setdefault("x", v)

    def w_later(fn, v, act):
        o = hdf5storage.Options(matlab_compatible=False)
        o.matlab_compatible = True
        o.action_for_matlab_incompatible = act
        with hdf5storage.File(fn, writable=True, options=o) as f:
            f.write(v, "x")
    return {"file": w_file, "write": w_write, "writes": w_writes, "savemat": w_save, "update": w_update,
            "setdefault": w_default, "later": w_later}


WAYS = ways()


def attempt(fn, spec, act, way="file"):
    """-> (problem or None, projection, stored?)"""
    try:
        want = proj(make(spec), act)
        refuse = False
    except TNC:
        want, refuse = None, True
    try:
        WAYS[way](fn, make(spec), act)
    except TNC as e:
        if not refuse:
            return "refused: " + common.exc_str(e), None, False
        return None, None, False
    except Exception as e:
        return "writing raised " + common.exc_str(e), None, False
    if refuse:
        return "not refused although it holds MATLAB incompatible data", None, False
    return None, want, want is not Gone


def look(fn, want, name="x", options=None):
    with hdf5storage.File(fn, options=options or hdf5storage.Options()) as f:
        if want is Gone:
            return "is stored: %.80r" % (f[name],) if name in f else None
        try:
            got = f[name]
        except Exception as e:
            return "reading raised " + common.exc_str(e)
    return cmp(want, got)


def structure(fn, spec, act):
    """Compare the stored structure with the reference encoder."""
    o = hdf5storage.Options(action_for_matlab_incompatible=act)
    try:
        want = layout.expected(make(spec), o, "/", "x")
    except layout.Unspecified:
        return None
    with h5py.File(fn, "r") as h:
        got = h5dump.dump(h, "/x", "/#refs#", filters=False)
    if want == layout.DISCARD:
        want = None
    if want != got:
        return "stored: " + (h5dump.diff(want, got) if want and got else "%.100s, expected %.100s" % (got, want))
    return None


def one(case, res):
    spec, act, way = case["spec"], case["act"], case.get("way", "file")
    fn = common.newfile(".mat")
    try:
        with hdf5storage.File(fn, writable=True) as f:
            f["keep"] = [1, {"a": np.arange(3)}]
        p, want, stored = attempt(fn, spec, act, way)
        res.count("evaluations")
        if p is None and (stored or want is Gone):
            p = look(fn, want)
            if p is None and case.get("layout", True) and want is not Gone:
                p = structure(fn, spec, act)
        d = look(fn, proj([1, {"a": np.arange(3)}], "error"), "keep")
        p = p or (d and "another variable changed: " + d)
        if p is None and want is None and act == "error":
            # Refused, but the file must remain usable under that name.
            q, want, stored = attempt(fn, ["list", "int"], act)
            p = q or look(fn, want)
            p = p and "after being refused: " + p
        if p is None:
            res.seen("nontrivial", (spec, act, way))
        return p
    finally:
        common.rmfile(fn)


def history(case, res):
    """Writing a second value over a first one."""
    fn = common.newfile(".mat")
    try:
        last = None
        for spec, act in case["hist"]:
            p, want, stored = attempt(fn, spec, act)
            if p:
                return p
            if stored:
                last = want
            elif act == "error":
                last = None
        res.count("evaluations")
        if last is not None:
            p = look(fn, last)
            if p is None and want is not None and want is not Gone:
                p = structure(fn, *case["hist"][-1])
            if p:
                return p
        res.seen("nontrivial", case["hist"])
    finally:
        common.rmfile(fn)


def plain(case, res):
    """Without MATLAB compatibility, the action doesn't matter."""
    fn = common.newfile(".mat")
    try:
        spec = case["spec"]
        o = hdf5storage.Options(matlab_compatible=True, action_for_matlab_incompatible=case["act"])
        for k, v in case["off"].items():
            setattr(o, k, tuple(v) if isinstance(v, list) else v)
        if o.matlab_compatible:
            return "still MATLAB compatible after setting %s" % case["off"]
        with hdf5storage.File(fn, writable=True, options=o) as f:
            try:
                f["x"] = make(spec)
            except Exception as e:
                return "writing raised " + common.exc_str(e)
        res.count("evaluations")
        p = look(fn, proj(make(spec), "ignore"), options=o)
        if p is None:
            res.seen("nontrivial", case)
        return p
    finally:
        common.rmfile(fn)


def run_case(case):
    res = common.Res()
    fun = {"one": one, "hist": history, "plain": plain}[case["kind"]]
    for c in case["batch"]:
        p = fun(c, res)
        if p:
            res.bad("%s|%s" % (case["kind"], sorted(c.items())), p, dict(case, batch=[c]))
    res.samples.append(case["batch"][0])
    return res


def batches(kind, items, n=40):
    return [{"kind": kind, "batch": items[i:i + n]} for i in range(0, len(items), n)]


def patterns(ctx, full):
    """All fillings of a context with leaves, up to three slots."""
    bad = ["!" + b for b in (BADHASH if ctx in HASHCTX else BAD)]
    good = GOODHASH if ctx in HASHCTX else list(GOOD)
    if ctx in ("stf", "stf1"):
        good = [g for g in good if g not in ("O0", "struct", "list")]
        bad = [b for b in bad if b not in ("!f2m", "!f2rec")]
    if ctx in ONE:
        bad = [b for b in bad if b not in ("!f2m", "!f2rec", "!f2:0d")]
    for i, b in enumerate(bad):
        yield [b]
        for j, g in enumerate(good):
            if full or i == 0 or j < 2:
                yield [g, b]
                if full or j < 2:
                    yield [b, g]
        yield [good[0], b, good[1]]
        yield [b, good[2], good[0]]
        for b2 in bad[:2] + (bad[-1:] if ctx not in HASHCTX else []):
            if ctx not in HASHCTX:
                yield [b, good[1], b2]
                yield [b, b2]
    for g in good:
        yield [g]
        yield [g, good[0] if g != good[0] else good[1]]


def nested(depth):
    """Contexts inside contexts."""
    inner = {}
    for c in CTX:
        b = "!f2"
        inner[c] = [[c, b], [c, "int", b]] if depth == 2 else [[c, "str", b]]
    for outer in CTX:
        for c in CTX:
            for sp in inner[c]:
                if outer in HASHCTX and not _hash(sp):
                    continue
                if outer in ("stf", "stf1") or outer in ONE and c == "srec":
                    continue
                if depth == 2:
                    yield [outer, sp]
                    yield [outer, "str", sp]
                    yield [outer, sp, "int"]
                else:
                    for mid in CTX:
                        if mid in ("stf", "stf1") or outer in ONE and mid == "srec" or mid in ONE and c == "srec" or mid in HASHCTX and not _hash(sp):
                            continue
                        m = [mid, sp, "int"]
                        if outer in HASHCTX and not _hash(m):
                            continue
                        yield [outer, "int", m]


def _hash(sp):
    with contextlib.suppress(TypeError):
        hash(make(sp))
        return True
    return False


OFFS = [{"matlab_compatible": False}, {"convert_bools_to_uint8": False}, {"oned_as": "row", "reverse_dimension_order": False},
        {"group_for_references": "/r"}, {"complex_names": ["r", "i"]}, {"structured_numpy_ndarray_as_struct": False}]


def cases(tier, seed):
    deep = tier == "thorough"
    ones = []
    for n in ["!" + b for b in BAD] + list(GOOD):
        for act in ACTIONS:
            for way in WAYS:
                ones.append(dict(spec=n, act=act, way=way, layout=way not in ("savemat",)))
    seen = set()
    for c in CTX:
        for pat in patterns(c, deep):
            if repr((c, pat)) in seen:
                continue
            seen.add(repr((c, pat)))
            for act in ACTIONS:
                ones.append(dict(spec=[c] + pat, act=act))
    for c in CTX:
        for pat in (["!f2"], ["int", "!f2"], ["!f2", "str"]):
            for act in ACTIONS:
                for way in WAYS:
                    ones.append(dict(spec=[c] + pat, act=act, way=way, layout=way != "savemat"))
    for sp in nested(2):
        for act in ACTIONS:
            ones.append(dict(spec=sp, act=act))
    if deep:
        for sp in nested(3):
            for act in ACTIONS:
                ones.append(dict(spec=sp, act=act))
    out = batches("one", ones)
    hs = []
    vals = [[c] + p for c in CTX for p in (["int", "str"], ["int", "!f2"], ["!f2", "int"])
            if not (c in ("stf", "stf1") and "str" in p)]
    pairs = [(c1, c2) for c1 in vals for c2 in vals if c1[0] == c2[0] or deep] + [
        (a, b) for a in ("int", "q", "str", ["dict", "int", "int"], ["sf1", "int", "str"], ["sf2", "int", "int"],
                         ["list", "int"], ["kv", "int", "str"]) for b in vals]
    for a, b in pairs:
        for x, y in (("discard", "discard"), ("ignore", "discard"), ("discard", "ignore"), ("ignore", "error")):
            hs.append(dict(hist=[[a, x], [b, y]]))
    for v in vals[:: 1 if deep else 3]:
        hs.append(dict(hist=[[v, "ignore"], [v, "error"], [v, "discard"]]))
    out += batches("hist", hs)
    pl = [dict(spec=sp, act=act, off=off) for off in OFFS for act in ACTIONS
          for sp in ["!" + b for b in BAD] + [[c, "int", "!f2"] for c in CTX]
          if not ("structured_numpy_ndarray_as_struct" in off and isinstance(sp, list) and sp[0] == "stf")]
    out += batches("plain", pl)
    return out


def coverage(res, tier):
    return common.cov_exploration(
        res, "%d incompatible and %d compatible leaves x the three actions x %d containers with every pattern of up to "
        "three slots, containers in containers, seven ways to write, overwriting histories, and %d ways of not being MATLAB "
        "compatible; refusals, what is read back and what is stored are compared with the reference; non-trivial = "
        "distinct cases that matched" % (len(BAD), len(GOOD), len(CTX), len(OFFS)))
