"""C11: Options against a reference state machine, explicit-state search.

The model state is the tuple of all option values.  Every model transition
(option, assigned value) out of every reachable state is executed on a real
Options object carrying that state and the resulting state is compared.
"""
import collections
import copy
import itertools
import posixpath

import hdf5storage

from . import common

PROP = "C11"
LEVEL = "model_checking"
ASSUMPTIONS = ["bool and int subclasses other than bool itself are not assigned; True/False are not used as integers"]

REQ = collections.OrderedDict([
    ("delete_unused_variables", True), ("structured_numpy_ndarray_as_struct", True), ("make_atleast_2d", True),
    ("convert_numpy_bytes_to_utf16", True), ("convert_numpy_str_to_utf16", True), ("convert_bools_to_uint8", True),
    ("reverse_dimension_order", True), ("store_shape_for_empty", True), ("complex_names", ("real", "imag")),
    ("group_for_references", "/#refs#"), ("compression_algorithm", "gzip")])
DEFAULT = collections.OrderedDict([
    ("store_python_metadata", True), ("matlab_compatible", True), ("action_for_matlab_incompatible", "error"),
    ("structs_as_dicts", False), ("oned_as", "row"), ("dict_like_keys_name", "keys"),
    ("dict_like_values_name", "values"), ("compress", True), ("compress_size_threshold", 16384),
    ("gzip_compression_level", 7), ("shuffle_filter", True), ("compressed_fletcher32_filter", True),
    ("uncompressed_fletcher32_filter", False)])
NAMES = list(DEFAULT) + list(REQ)
IDX = {n: i for i, n in enumerate(NAMES)}
CTOR_DEFAULT = dict(DEFAULT, delete_unused_variables=False, structured_numpy_ndarray_as_struct=False,
                    make_atleast_2d=False, convert_numpy_bytes_to_utf16=False, convert_numpy_str_to_utf16=False,
                    convert_bools_to_uint8=False, reverse_dimension_order=False, store_shape_for_empty=False,
                    complex_names=("r", "i"), group_for_references="/#refs#", compression_algorithm="gzip")

BOOLS = [n for n in NAMES if isinstance(dict(CTOR_DEFAULT)[n], bool)]
ODDBOOL = [None, 0, 1, "True", 1.0, []]
VALID, INVALID = {}, {}
for _n in BOOLS:
    VALID[_n] = [True, False]
    INVALID[_n] = ODDBOOL
VALID["action_for_matlab_incompatible"] = ["ignore", "discard", "error"]
INVALID["action_for_matlab_incompatible"] = ["Ignore", "", None, 3, b"error", ("error",)]
VALID["complex_names"] = [("real", "imag"), ("r", "i"), ("imag", "real")]
INVALID["complex_names"] = [["real", "imag"], ("real",), ("real", "imag", "x"), ("real", 1), (b"r", b"i"), "ri", None,
                            ()]
VALID["group_for_references"] = ["/#refs#", "/refs", "/a/b"]
INVALID["group_for_references"] = ["", "/", "refs", "a/b", "./x", None, b"/x", 5, "/a/..", "//"]
VALID["compression_algorithm"] = ["gzip", "lzf", "szip"]
INVALID["compression_algorithm"] = ["GZIP", "", None, 4, b"gzip", "zip"]
VALID["oned_as"] = ["row", "column"]
INVALID["oned_as"] = ["Row", "col", "", None, 1]
VALID["dict_like_keys_name"] = ["keys", "K", "", "a/b"]
INVALID["dict_like_keys_name"] = [None, b"keys", 3]
VALID["dict_like_values_name"] = ["values", "V", "", "a/b"]
INVALID["dict_like_values_name"] = [None, b"values", 3]
VALID["compress_size_threshold"] = [16384, 0, 1, 10**12]
INVALID["compress_size_threshold"] = [-1, 1.0, None, "5", -10**9]
VALID["gzip_compression_level"] = [7, 0, 1, 9]
INVALID["gzip_compression_level"] = [-1, 10, 5.0, None, "5"]


def step(state, name, value):
    """The reference transition relation (docs/source/storage_format.rst and
    the Options docstrings)."""
    valid = any(type(value) is type(v) and value == v for v in VALID[name])
    if not valid:
        # An option that keeps an incompatible value keeps the object
        # incompatible, which it already is.
        return state
    s = list(state)
    s[IDX[name]] = value
    if name == "matlab_compatible":
        if value:
            for n, v in REQ.items():
                s[IDX[n]] = v
    elif name in REQ and value != REQ[name]:
        s[IDX["matlab_compatible"]] = False
    return tuple(s)


def ctor(kw):
    """State after construction."""
    d = dict(CTOR_DEFAULT)
    for n, v in kw.items():
        if any(type(v) is type(x) and v == x for x in VALID[n]):
            d[n] = v
        else:
            # Invalid values leave the initial value of the option.
            d[n] = CTOR_DEFAULT[n] if n != "matlab_compatible" else True
    if d["matlab_compatible"]:
        d.update(REQ)
    return tuple(d[n] for n in NAMES)


def get(o):
    return tuple(getattr(o, n) for n in NAMES)


def same(a, b):
    return a == b and all(type(x) is type(y) for x, y in zip(a, b))


def show(a, b):
    return ", ".join("%s=%r (expected %r)" % (n, x, y) for n, x, y in zip(NAMES, a, b) if x != y or type(x) != type(y))


def invariant(s):
    return not s[IDX["matlab_compatible"]] or all(s[IDX[n]] == v for n, v in REQ.items())


def bfs(core, rest, res, part, mod):
    """All states reachable by assigning the options in core, from the object
    constructed with rest; every assignment of every option out of each."""
    start = hdf5storage.Options(matlab_compatible=False, **rest)
    s0 = get(start)
    want = ctor(dict(rest, matlab_compatible=False))
    if not same(s0, want):
        res.bad("ctor:%r" % (rest,), show(s0, want))
        return
    seen = {s0: start}
    todo = collections.deque([s0])
    allops = [(n, v) for n in NAMES for v in VALID[n] + INVALID[n]]
    while todo:
        s = todo.popleft()
        o = seen[s]
        mine = common.h64(s) % mod == part
        if mine:
            res.seen("states", s)
            res.count("traces")
        for n, v in allops:
            if not mine and (n not in core or v not in VALID[n]):
                continue
            c = copy.copy(o)
            try:
                setattr(c, n, v)
            except TypeError:
                # Unhashable values may be refused outright.
                if v in VALID[n]:
                    raise
            got = get(c)
            want = step(s, n, v)
            if mine:
                res.count("transitions")
                if not same(got, want) or not invariant(got):
                    res.bad("set:%s=%r" % (n, v), "from %r: %s" % (
                        {k: x for k, x in zip(NAMES, s)}, show(got, want)))
                if not same(get(o), s):
                    res.bad("alias:%s=%r" % (n, v), "changed the object it was copied from")
            if n in core and v in VALID[n] and want not in seen and same(got, want):
                seen[want] = c
                todo.append(want)
    res.count("reachable_states", len(seen) if part == 0 else 0)


def sequences(first, depth, res):
    """Every sequence of assignments without any copying."""
    ops = [(n, v) for n in ["matlab_compatible"] + list(REQ) for v in
           (VALID[n][:2] if n != "complex_names" else VALID[n]) + INVALID[n][:1]]
    ops += [("oned_as", "column"), ("compress", False), ("store_python_metadata", False)]
    for mc in (True, False):
        for tail in itertools.product(ops, repeat=depth - 1):
            seq = (ops[first % len(ops)],) + tail
            o = hdf5storage.Options(matlab_compatible=mc)
            s = ctor({"matlab_compatible": mc})
            for n, v in seq:
                setattr(o, n, v)
                s = step(s, n, v)
            res.count("transitions", depth)
            res.count("traces")
            got = get(o)
            if not same(got, s):
                res.bad("seq:%r:%r" % (mc, seq), show(got, s))


def ctors(part, mod, res):
    """The constructor with every combination of required options, valid and
    invalid, for both values of matlab_compatible."""
    names = list(REQ)
    pools = [[True, False] if n in BOOLS else VALID[n][:2] + INVALID[n][:1] for n in names]
    for i, combo in enumerate(itertools.product(*pools)):
        if i % mod != part:
            continue
        for mc in (True, False):
            kw = dict(zip(names, combo), matlab_compatible=mc)
            res.count("transitions")
            res.count("traces")
            got = get(hdf5storage.Options(**kw))
            want = ctor(kw)
            if not same(got, want):
                res.bad("ctor:%r" % (kw,), show(got, want))
    if part == 0:
        for n in NAMES:
            for v in VALID[n] + INVALID[n]:
                for mc in (True, False):
                    kw = {"matlab_compatible": mc}
                    kw[n] = v
                    if n == "matlab_compatible" and type(v) is not bool:
                        # Not documented what it falls back on.
                        if not invariant(get(hdf5storage.Options(**kw))):
                            res.bad("ctor1:%s=%r" % (n, v), "inconsistent")
                        continue
                    try:
                        got = get(hdf5storage.Options(**kw))
                    except TypeError:
                        if v not in VALID[n]:
                            continue
                        raise
                    res.count("transitions")
                    if not same(got, ctor(kw)):
                        res.bad("ctor1:%s=%r:%r" % (n, v, mc), show(got, ctor(kw)))
        # Values that are only spelled differently.
        for v in ("/#refs#/", "/a/../b", "/a//b", "//refs", "//#refs#", "/./x/"):
            for mc in (True, False):
                o = hdf5storage.Options(matlab_compatible=mc)
                s = get(o)
                o.group_for_references = v
                got = list(get(o))
                norm = posixpath.normpath("/" + v.lstrip("/"))
                if posixpath.normpath("/" + got[IDX["group_for_references"]].lstrip("/")) != norm:
                    res.bad("refs:%r:%r" % (v, mc), "became %r" % (got[IDX["group_for_references"]],))
                if not invariant(tuple(got)) or (norm != "/#refs#" and o.matlab_compatible):
                    res.bad("refs:%r:%r" % (v, mc), "inconsistent")
                for n in NAMES:
                    if n not in ("group_for_references", "matlab_compatible") and got[IDX[n]] != s[IDX[n]]:
                        res.bad("refs:%r:%r" % (v, mc), "changed " + n)
        o = hdf5storage.Options(some_future_option=3)
        if not same(get(o), ctor({})):
            res.bad("ctor:unknown", show(get(o), ctor({})))
        mcs = [hdf5storage.MarshallerCollection() for _ in range(2)]
        d = hdf5storage.get_default_marshaller_collection()
        for mcv, want in ((None, d), (mcs[0], mcs[0]), (3, d), ("x", d)):
            o = hdf5storage.Options(marshaller_collection=mcv)
            if o.marshaller_collection is not want:
                res.bad("mc:ctor:%r" % (mcv,), "wrong marshaller collection")
            s = get(o)
            for bad in (None, 3, "x", hdf5storage.MarshallerCollection):
                o.marshaller_collection = bad
                if o.marshaller_collection is not want or not same(get(o), s):
                    res.bad("mc:set:%r" % (bad,), "changed something")
            o.marshaller_collection = mcs[1]
            if o.marshaller_collection is not mcs[1] or not same(get(o), s):
                res.bad("mc:set", "not set or other options changed")


CORE = [n for n in REQ] + ["matlab_compatible"]
ODD_REST = dict(store_python_metadata=False, action_for_matlab_incompatible="ignore", structs_as_dicts=True,
                oned_as="column", dict_like_keys_name="K", dict_like_values_name="V", compress=False,
                compress_size_threshold=1, gzip_compression_level=1, shuffle_filter=False,
                compressed_fletcher32_filter=False, uncompressed_fletcher32_filter=True)
REST_CORE = [n for n in DEFAULT if n != "matlab_compatible" and n in BOOLS] + [
    "matlab_compatible", "make_atleast_2d", "action_for_matlab_incompatible", "oned_as"]


def run_case(case):
    res = common.Res()
    k = case["kind"]
    if k == "bfs":
        core, rest = [(CORE, {}), (CORE, ODD_REST), (REST_CORE, {}), (REST_CORE + ["compression_algorithm"],
                                                                     {"complex_names": ("imag", "real")})][case["which"]]
        bfs(core, rest, res, case["part"], case["mod"])
    elif k == "seq":
        sequences(case["first"], case["depth"], res)
    else:
        ctors(case["part"], case["mod"], res)
    res.samples.append(case)
    return res


CASE_TIMEOUT = 600


def cases(tier, seed):
    deep = tier == "thorough"
    out = []
    for w in range(4 if deep else 3):
        if w == 1 and not deep:
            continue
        for p in range(16):
            out.append({"kind": "bfs", "which": w, "part": p, "mod": 16})
    for p in range(16):
        out.append({"kind": "ctor", "part": p, "mod": 16})
    n = sum(len(VALID[x][:2]) + 1 for x in ["matlab_compatible"] + list(REQ)) + 1 + 3
    for i in range(n):
        out.append({"kind": "seq", "first": i, "depth": 4 if deep else 3})
    return out


def coverage(res, tier):
    return common.cov_mc(res, rule="state = values of all 24 options; every assignment (valid and invalid values of "
                         "every option) out of every reachable state is executed on a real Options object and "
                         "compared with the reference transition relation; plus all assignment sequences up to depth "
                         "%d on one object and the constructor over the product of the required options"
                         % (4 if tier == "thorough" else 3))
