"""C21: dict-like values over all small key sets; structured arrays over all field name pairs."""
import collections
import datetime
import fractions
import itertools

import numpy as np

import hdf5storage

from . import c01, common, optsets
from . import values as V

PROP = "C21"
LEVEL = "exploration"
ASSUMPTIONS = ["the order of keys is compared for dict, OrderedDict, Counter and the maps of a ChainMap"]

STR = ["", "a", "b", ".", "..", "...", ".a", "a.", "/", "a/b", "//", "\x00", "a\x00", "\x00a", "\\", "\\\\", "\\x61", "\\x2f", "\\x2e", "\\u0061",
       "\\\\x61", "\\x00", "keys", "values", "#refs#", "K/", ".V", "\xe9", "e\u0301", "\u4f60", "\U0001f600", " ", "a ", "\n", "1", "None",
       "MATLAB_class", "Python.Type", "self", "x" * 300]
BYT = [b"", b"a", b"/", b"\x00", b"a\x00", b".", b"\\x61", b"keys", b"\xc3\xa9", b"\xe9", b"\xff\xfe", b"1"]
NPS = ["", "a", "/", "a\x00b", "\u4f60", "keys"]
NPB = [b"", b"a", b"/", b"a\x00b", b"\xff", b"values"]
UTC = datetime.timezone.utc
OTHER = [0, 1, -1, 2**40, 10**30, True, False, 1.5, float("inf"), -0.0, 1j, None, Ellipsis, (), (1,), ("a", b"a"), (None, (2.5,)),
         frozenset(), frozenset([1]), np.int8(1), np.uint64(2**64 - 1), np.float32(1.5), np.bool_(True), np.complex64(1j),
         fractions.Fraction(1, 3), datetime.date(2020, 1, 2), datetime.timedelta(1), datetime.datetime(2020, 1, 2, tzinfo=UTC), UTC, range(3)]
KEYS = {}
for _i, _k in enumerate(STR):
    KEYS["t%d" % _i] = _k
for _i, _k in enumerate(BYT):
    KEYS["b%d" % _i] = _k
for _i, _k in enumerate(NPS):
    KEYS["U%d" % _i] = np.str_(_k)
for _i, _k in enumerate(NPB):
    KEYS["S%d" % _i] = np.bytes_(_k)
for _i, _k in enumerate(OTHER):
    KEYS["o%d" % _i] = _k
# Lengths.
LONG = {}
for _n in (15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1024, 4096):
    for _c in ("k", "/", "\u4f60", "\\"):
        _s = _c * _n
        LONG["Lt%s%d" % (_c, _n)] = _s
        LONG["LU%s%d" % (_c, _n)] = np.str_(_s)
        LONG["Lb%s%d" % (_c, _n)] = _s.encode("utf-8")
        LONG["LS%s%d" % (_c, _n)] = np.bytes_(_s.encode("utf-8"))
KEYS_ALL = dict(KEYS, **LONG)
# Fewer, for triples and other containers.
FEW = ["t0", "t1", "t3", "t9", "t11", "t16", "t22", "t23", "t24", "t27", "b0", "b1", "b4", "b9", "U1", "S1", "S5", "o1", "o11", "o14", "o19"]
FIELDS = [s for s in STR if s] + ["a", "c"]
TYPES = {"dict": dict, "od": collections.OrderedDict, "cnt": collections.Counter,
         "cm": lambda items: collections.ChainMap(dict(items), dict(reversed(items)), {}),
         "inlist": lambda items: [dict(items), 1], "indict": lambda items: {"k": dict(items), "z": 2},
         "values": lambda items: dict((k, [v, {"w": (v,)}]) for k, v in items)}
PROFILES = ["matlab", "plain", "odd", "allon"]


def build(tname, knames):
    if tname.startswith("many"):
        return many(*knames)
    return TYPES[tname]([(KEYS_ALL[k], i + 1) for i, k in enumerate(knames)])


def many(tname, mix, n):
    """n keys of the kinds in mix in turn, in an order of their own."""
    mk = {"t": str, "b": lambda s: s.encode("utf-8"), "U": np.str_, "S": lambda s: np.bytes_(s.encode("utf-8")), "i": len,
          "/": lambda s: "/" + s, "e": lambda s: "\xe9" + s}
    items = []
    for i in range(n):
        j = i * 7919 % n if n % 7919 else i
        k = mk[mix[i % len(mix)]]
        items.append((j if k is len else k("n%d" % j), j))
    return TYPES[tname](items)


def nomatlab(o):
    """Holds a type MATLAB cannot represent."""
    return isinstance(o, (np.void, np.float16)) or o in ()


def struct(names, kind):
    dt = [(n, ("i4", "f8", "O")[(i + kind) % 3] if kind < 4 or kind == 5 else ("i4", "f8")[i % 2]) for i, n in enumerate(names)]
    shape = ((), (2,), (1,), (2, 2), (0,), (0, 2), (2, 0, 1))[kind]
    a = np.zeros(shape, dtype=dt)
    for i, n in enumerate(names):
        if a.dtype[n] == object:
            if shape:
                for j in np.ndindex(*shape):
                    a[n][j] = ["v", i, j] if sum(j) else "s%d" % i
            else:
                a[n] = "s%d" % i
        else:
            a[n] = np.arange(a.size).reshape(shape) + 10 * i
    return a


def make(item):
    if item[0] == "struct":
        return struct(item[1], item[2])
    return build(item[0], item[1])


def one(items, oname, res, record):
    opts = optsets.get(oname)
    fn = common.newfile()
    bad = []
    try:
        with hdf5storage.File(fn, writable=True, **opts) as f:
            ok = []
            for i, it in enumerate(items):
                try:
                    f.write(make(it), "/v%d" % i)
                    ok.append((i, it))
                except Exception as e:
                    bad.append((it, "write raised " + common.exc_str(e)))
        with hdf5storage.File(fn, writable=False, **opts) as f:
            for i, it in ok:
                res.count("evaluations")
                v = make(it)
                try:
                    r = f.read("/v%d" % i)
                except Exception as e:
                    bad.append((it, "read raised " + common.exc_str(e)))
                    continue
                d = c01.compare(v, r, opts)
                if d:
                    bad.append((it, d))
                elif record:
                    res.seen("nontrivial", (it, oname))
    finally:
        common.rmfile(fn)
    return bad


def root(item, oname, res):
    """The dict is written to the root Group of its own file."""
    opts = optsets.get(oname)
    fn = common.newfile()
    v = build("dict", item[1])
    try:
        with hdf5storage.File(fn, writable=True, **opts) as f:
            f.write(v, "/")
        with hdf5storage.File(fn, writable=False, **opts) as f:
            res.count("evaluations")
            d = V.eq(v, f.read("/"))
            if d:
                return [(item, d)]
        res.seen("nontrivial", (item, oname))
    except Exception as e:
        return [(item, common.exc_str(e))]
    finally:
        common.rmfile(fn)
    return []


def run_case(case):
    res = common.Res()
    items = [tuple(tuple(x) if isinstance(x, list) else x for x in it) for it in case["items"]]
    for it in [it for it in items if it[0] == "root"]:
        for it, d in root(it, case["opts"], res):
            res.bad("%r|%s" % (it, case["opts"]), d, {"opts": case["opts"], "items": [it]})
    items = [it for it in items if it[0] != "root"]
    if not items:
        return res
    for it, d in one(items, case["opts"], res, True):
        again = one([it], case["opts"], common.Res(), False) if len(items) > 1 else [1]
        res.bad("%r|%s" % (it, case["opts"]), d, {"opts": case["opts"], "items": [it]} if again else case)
    res.samples.append({"options": case["opts"], "value": items[-1]})
    return res


CASE_TIMEOUT = 300


def distinct(ks):
    return len({KEYS_ALL[k] for k in ks}) == len(ks)


def cases(tier, seed):
    deep = tier == "thorough"
    out = []
    for o in PROFILES + (["odd2", "matcol", "tiny"] if deep else []):
        items = [(t, ()) for t in TYPES] + [(t, (k,)) for t in TYPES for k in KEYS]
        pairs = [(a, b) for a in KEYS for b in KEYS if distinct((a, b))]
        if o in ("matlab", "plain") or deep:
            items += [("dict", p) for p in pairs]
        else:
            items += [("dict", (a, b)) for a, b in pairs if a in FEW or b in FEW]
        items += [(t, (a, b)) for t in TYPES for a in FEW for b in FEW if distinct((a, b)) and t != "dict"]
        few = FEW if deep else FEW[::2]
        items += [("dict" if i % 2 else "od", q) for i, q in enumerate(itertools.permutations(few, 3)) if distinct(q)]
        if deep and o in ("matlab", "plain"):
            items += [("dict", q) for q in itertools.permutations(FEW[::2], 4) if distinct(q)]
        items += [("dict", tuple(k for k in KEYS if k[0] == c)) for c in "tbUS"]
        fields = FIELDS
        items += [("struct", (a,), kind) for a in fields for kind in range(4)]
        items += [("struct", (a, b), (i + j) % 3) for i, a in enumerate(fields) for j, b in enumerate(fields)
                  if a != b and (deep or o in ("matlab", "plain") or i < 8 or j < 8)]
        # Empty arrays, which are stored otherwise, many fields, long names.
        items += [("struct", (a,), kind) for a in fields for kind in (4, 5, 6)]
        items += [("struct", (a, b), 4 + (i + j) % 3) for i, a in enumerate(fields) for j, b in enumerate(fields)
                  if a != b and (deep or i % 2 == 0 or j < 8)]
        items += [("struct", p, kind) for p in itertools.permutations(("b", "a", "x/y", ".", "c\\d"), 3) for kind in range(7)]
        for n in (16, 17, 64, 65, 130) + ((257,) if deep else ()):
            for kind in (1, 3, 4):
                items += [("struct", tuple("f%d" % (i * 7 % n) for i in range(n)), kind) for n in (n if n % 7 else n + 1,)]
                items.append(("struct", tuple(("/f%d" if i % 3 else "\xe9%d") % (n - i) for i in range(n)), kind))
        for nm in LONG:
            if nm[1] == "t" and "\\" not in nm:
                items += [("struct", (LONG[nm], "a"), kind) for kind in (1, 4)] + [("struct", ("b", LONG[nm]), 2)]
        items += [("dict", (k,)) for k in LONG] + [("od", ("o1", k)) for k in LONG] + [("cnt", (k, "t1")) for k in LONG]
        for a, b in itertools.permutations("tUbS", 2):
            items += [("dict", (k, "L" + b + k[2:])) for k in LONG if k[1] == a and distinct((k, "L" + b + k[2:]))]
        for n in (7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257) + ((512, 1000) if deep else ()):
            for m in ("t", "b", "U", "S", "tb", "tUbS", "t/e", "ti", "i"):
                for t in ("dict", "od", "cnt") if n < 70 or deep else ("dict",):
                    items.append(("many", (t, m, n)))
        items += [("root", (k,)) for k in KEYS] + [("root", p) for p in itertools.permutations(FEW, 2) if distinct(p)]
        items = list(dict.fromkeys(items))
        for i in range(0, len(items), 80):
            out.append({"opts": o, "items": items[i:i + 80]})
    return out


def coverage(res, tier):
    return common.cov_exploration(
        res, "all single keys and all ordered pairs of %d keys (str, bytes, NumPy strings with special, internal and "
        "colliding contents, and 30 other hashables) as dict, all pairs and triples of %d keys in 6 other dict-like contexts, keys of lengths around powers of two to 4096 and dicts of up to 257 keys of mixed types, "
        "all ordered pairs of %d field names of structured arrays, empty ones too; strict comparison of type, order, keys and values" % (
            len(KEYS), len(FEW), len(FIELDS)))
