"""C03: effect of every layout option, against the reference encoder."""
from . import c01, c02, common
from . import values as V

PROP = "C03"
LEVEL = "exploration"
ASSUMPTIONS = c02.ASSUMPTIONS
run_case = c02.run_case

NAMES = [{"complex_names": ["x", "y"]}, {"complex_names": ["imag", "real"], "dict_like_keys_name": "K/"},
         {"group_for_references": "/q/\xe9"}, {"dict_like_keys_name": ".", "dict_like_values_name": "a\\.."},
         {"oned_as": "column"}, {"group_for_references": "/r", "oned_as": "column", "complex_names": ["re", "im"]}]


def cases(tier, seed):
    out = []
    allv = [(n, None) for n in V.VALUES]
    # Values whose handling differs from that of another one only in its
    # Python type are left out of most combinations in the quick tier.
    drop = ("sobj", "bytearray", "np.str_", "np.bytes_", "frozenset", "set:", "OrderedDict", "deque", "tuple",
            "matrix:i4", "matrix:f8", "arr:i1", "arr:i2", "arr:i4:", "arr:u1", "arr:u2", "arr:u8", "arr:f4",
            "arr:c8", "arr:ro", "arr:neg", "np.", "date", "time")
    quickv = [(n, None) for n in V.VALUES if not n.startswith(drop)]
    for b in range(128):
        for meta in (True, False):
            # quick: the half cube of even parity (any six flags in every
            # combination) with all values, thorough the whole cube.
            if tier == "quick" and (bin(b).count("1") + meta) % 2:
                continue
            use = allv if tier == "thorough" or b % 32 in (6, 25) else quickv
            out += c02.chunks(use, 60, opts="f%d" % b, extra={"store_python_metadata": meta}, parent="/")
    for b in (0, 94) if tier == "quick" else range(128):
        for meta in (True, False) if tier != "quick" else (True,):
            out += c02.chunks(c02.larges(tier), 12, opts="f%d" % b, extra={"store_python_metadata": meta}, parent="/")
    cx = [(n, o) for n in c02.leaves() for o in (None, "list3", "kvval", "sfield", "dictval")]
    for b in (0, 127, 2, 3, 33, 64, 94) if tier == "quick" else range(128):
        for e in NAMES:
            use = cx if tier == "thorough" and b % 9 == 0 else [
                x for x in cx if not x[0].startswith(drop + ("str", "arr:u", "arr:i", "arr:c"))]
            if tier == "quick" and b not in (0, 127):
                use = [x for x in use if x[1] in (None, "kvval")]
            out += c02.chunks(use, 80, opts="f%d" % b, extra=e, parent="/g")
    return out


def coverage(res, tier):
    return common.cov_exploration(
        res, "every value of the alphabet (%d) under the layout flags (7 flags and metadata: quick every combination of any "
        "seven of the eight, thorough all) and with the name and orientation options, plain mode; the "
        "complete stored structure is compared with the reference encoder" % len(V.VALUES))
