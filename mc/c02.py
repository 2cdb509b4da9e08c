"""C02 and C03: stored layout against the reference encoder."""
import contextlib
import itertools

import h5py

import hdf5storage

from . import c01, common, h5dump, layout, optsets
from . import values as V

PROP = "C02"
LEVEL = "exploration"
ASSUMPTIONS = ["doc/source/storage_format.rst is the specification",
               "non-ASCII bytes stay unconverted (the documentation asks for an exception, which would make them "
               "impossible to store)"]


def strip_fields(d):
    """Python.Fields is optional on compound Datasets."""
    return d


def opts_of(case):
    o = optsets.get(case["opts"])
    o.update({k: tuple(v) if isinstance(v, list) else v for k, v in case.get("extra", {}).items()})
    return o


def one(specs, opts, parent, res, note):
    """Write all in one file and compare the stored objects."""
    fn = common.newfile(".mat")
    O = hdf5storage.Options(**opts)
    rej = {}
    try:
        want = {}
        with hdf5storage.File(fn, writable=True, options=O) as f:
            for i, sp in enumerate(specs):
                try:
                    want[i] = layout.expected(c01.make(sp), O, parent, "v%d" % i)
                except layout.Incompatible:
                    want[i] = "ERROR"
                try:
                    f.write(c01.make(sp), parent.rstrip("/") + "/v%d" % i)
                except Exception as e:
                    rej[i] = e
        with h5py.File(fn, "r") as h:
            for i, sp in enumerate(specs):
                res.count("evaluations")
                p = parent.rstrip("/") + "/v%d" % i
                w = want[i]
                if w == "ERROR":
                    if not isinstance(rej.get(i), hdf5storage.exceptions.TypeNotMatlabCompatibleError):
                        yield sp, "expected TypeNotMatlabCompatibleError, got %r" % (rej.get(i),)
                    else:
                        res.seen("nontrivial", (note, sp))
                    continue
                if i in rej:
                    yield sp, "write raised " + common.exc_str(rej[i])
                    continue
                got = h5dump.dump(h, p, O.group_for_references, filters=False)
                if w == layout.DISCARD:
                    w = None
                if got != w:
                    if w is None or got is None:
                        yield sp, "stored %s, expected %s" % (str(got)[:200], str(w)[:200])
                    else:
                        yield sp, h5dump.diff(w, got)
                else:
                    res.seen("nontrivial", (note, sp))
    finally:
        common.rmfile(fn)


def run_case(case):
    res = common.Res()
    opts = opts_of(case)
    specs = [tuple(s) for s in case["specs"]]
    note = (case["opts"], tuple(sorted((k, str(v)) for k, v in case.get("extra", {}).items())), case["parent"])
    for sp, d in one(specs, opts, case["parent"], res, note):
        single = dict(case, specs=[list(sp)])
        alone = list(one([sp], opts, case["parent"], common.Res(), note)) if len(specs) > 1 else [1]
        res.bad("%s|%s|%s" % (sp[0], sp[1], note), d, single if alone else case)
    if specs:
        res.samples.append({"value": specs[0][0], "inside": specs[0][1], "options": note})
    return res


def chunks(names, step, **kw):
    return [dict(kw, specs=[list(s) for s in names[i:i + step]]) for i in range(0, len(names), step)]


# Not specified: compound Datasets are only described for field by field storage.
def leaves():
    return [n for n in V.VALUES if V.VALUES[n][1] & {"leaf", "dtype", "dictlike", "seq", "dict", "matrix"}
            or n.startswith("arr:")]


def larges(tier):
    """Values of unusual sizes, without the ones that the dumper is not made for."""
    out = [n for n in V.LARGE if n not in ("large deep:kv:40", "large deep:mix:40")]
    if tier == "quick":
        out = [n for n in out if not n.endswith((":1000", ":1500", ":300", ":4001", ":256"))
               or n.startswith(("large str", "large bytes", "large arr", "large field:name", "large dict:keylen"))]
    return [(n, None) for n in out]


EXTRAS = [{"store_python_metadata": a, "oned_as": b, "action_for_matlab_incompatible": c}
          for a, b, c in itertools.product((True, False), ("row", "column"), ("error", "discard", "ignore"))]


def cases(tier, seed):
    out = []
    allv = [(n, None) for n in V.VALUES]
    for e in EXTRAS:
        for parent in ("/", "/g", "/g/\xe9/h"):
            if parent != "/" and tier == "quick" and (e["oned_as"] == "column") != (parent == "/g"):
                continue
            out += chunks(allv, 60, opts="matlab", extra=e, parent=parent)
    for e in EXTRAS[:1] + EXTRAS[3:4] if tier == "quick" else EXTRAS:
        out += chunks(larges(tier), 12, opts="matlab", extra=e, parent="/")
    small = leaves()
    for outer in c01.OUTER:
        for e in EXTRAS if tier == "thorough" else (EXTRAS[0], EXTRAS[-1], EXTRAS[7]):
            out += chunks([(n, outer) for n in small], 60, opts="matlab", extra=e, parent="/")
    if tier == "thorough":
        for e in EXTRAS:
            for parent in ("/g/\xe9/h",):
                for outer in ("list3", "dictval", "sfield", "sfield1"):
                    out += chunks([(n, outer) for n in small], 60, opts="matlab", extra=e, parent=parent)
    return out


def coverage(res, tier):
    return common.cov_exploration(
        res, "every value of the alphabet (%d), at the top level and inside %d kinds of container, written in MATLAB "
        "mode with every combination of metadata, oned_as and action for incompatible types and three groups to be "
        "in; the complete stored structure (types, shapes, data, references, attributes) is compared with the "
        "reference encoder; non-trivial = distinct (value, context, options) that matched"
        % (len(V.VALUES), len(c01.OUTER)))
