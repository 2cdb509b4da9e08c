"""C07: histories of containers in one file; nothing aliased, clobbered, dangling."""
import collections
import itertools
import random

import h5py
import numpy as np

import hdf5storage

from . import common
from . import values as V

PROP = "C07"
LEVEL = "model_checking"
ASSUMPTIONS = ["what is left at the path of a write that failed is not specified (see C16)"]


class Box:
    pass


def _obj(rows):
    a = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            a[i, j] = x
    return a


def _st(vals):
    a = np.zeros((len(vals),), dtype=[("x", "O"), ("n", "i4")])
    for i, v in enumerate(vals):
        a["x"][i] = v
        a["n"][i] = i
    return a


VALS = {
    "list": lambda t: [t, t + "y"],
    "nest": lambda t: [[t, [t + "z"]], (1, t), []],
    "obj": lambda t: _obj([[t, 1], [None, [t]]]),
    "kv": lambda t: {1: t, (2, t): [3]},
    "st": lambda t: _st([t, [t, 5], {"k": t}]),
    "set": lambda t: {t},
    "dict": lambda t: {"p": [t], "q": {"r": (t,)}},
    "int": lambda t: 7,
    "cm": lambda t: collections.ChainMap({"k": [t]}, {}),
    "empty": lambda t: [],
}
CONFIGS = {"matlab": {"matlab_compatible": True}, "plain": {"matlab_compatible": False, "delete_unused_variables": True},
           "nested": {"matlab_compatible": False, "group_for_references": "/r/s", "delete_unused_variables": True},
           "skip": {"matlab_compatible": True, "action_for_matlab_incompatible": "discard"}}
REFS = {"nested": "/r/s"}

FULL = [("w", p, v) for p in ("a", "b", "g/c") for v in VALS] + [("d", "a"), ("d", "b"), ("d", "g"), ("r",), ("x", "a"), ("x", "b")]
CORE = [("w", "a", "list"), ("w", "a", "nest"), ("w", "a", "st"), ("w", "a", "int"), ("w", "b", "obj"), ("w", "b", "kv"), ("w", "b", "list"),
        ("w", "g/c", "dict"), ("w", "g/c", "list"), ("d", "a"), ("d", "b"), ("r",), ("x", "a"), ("x", "b")]
MINI = [("w", "a", "nest"), ("w", "a", "int"), ("w", "b", "list"), ("w", "b", "st"), ("d", "a"), ("r",), ("x", "b")]


# --------------------------------------------------- foreign initial contents
def canon_empty(g, name="a"):
    d = g.create_dataset(name, data=np.array([0, 0], dtype="u8"))
    d.attrs["MATLAB_class"] = np.bytes_("canonical empty")
    d.attrs["MATLAB_empty"] = np.uint8(1)
    return d


def cells(f, g, names, path="cell"):
    ref = h5py.special_dtype(ref=h5py.Reference)
    a = np.empty((len(names), 1), dtype=ref)
    for i, n in enumerate(names):
        if n not in g:
            g.create_dataset(n, data=np.full((1, 1), float(i))).attrs["MATLAB_class"] = np.bytes_("double")
        a[i, 0] = g[n].ref
    d = f.create_dataset(path, data=a, dtype=ref)
    d.attrs["MATLAB_class"] = np.bytes_("cell")


def s_norefs(f, R):
    f["v"] = np.arange(2)


def s_emptyrefs(f, R):
    f.create_group(R)


def s_dset(f, R):
    f[R] = np.arange(3)
    f["v"] = np.arange(2)


def s_matlab(f, R):
    g = f.create_group(R)
    canon_empty(g)
    cells(f, g, ["b", "c", "d", "a"])


def s_noempty(f, R):
    g = f.create_group(R)
    cells(f, g, ["b", "c"])


def s_taken(f, R):
    """An element of a cell array happens to be called a."""
    g = f.create_group(R)
    cells(f, g, ["a", "b"])


def s_takengroup(f, R):
    g = f.create_group(R)
    h = g.create_group("a")
    h["x"] = 1.0
    cells(f, g, ["b"])


def _damaged(kind):
    def s(f, R):
        g = f.create_group(R)
        d = canon_empty(g)
        if kind == "noclass":
            del d.attrs["MATLAB_class"]
        elif kind == "noflag":
            del d.attrs["MATLAB_empty"]
        elif kind == "class":
            d.attrs["MATLAB_class"] = np.bytes_("double")
        elif kind == "flag0":
            d.attrs["MATLAB_empty"] = np.uint8(0)
        elif kind in ("shape", "dtype", "data", "scalar", "null", "str"):
            del g["a"]
            data = {"shape": np.zeros((3,), "u8"), "dtype": np.zeros((2,), "f8"), "data": np.array([1, 0], "u8"),
                    "scalar": np.uint64(0), "null": h5py.Empty("u8"), "str": "text"}[kind]
            d = g.create_dataset("a", data=data)
            d.attrs["MATLAB_class"] = np.bytes_("canonical empty")
            d.attrs["MATLAB_empty"] = np.uint8(1)
        cells(f, g, ["b", "11", "0000000000000000"])
    return s


STARTS = {"norefs": s_norefs, "emptyrefs": s_emptyrefs, "dset": s_dset, "matlabcell": s_matlab, "noempty": s_noempty,
          "taken": s_taken, "takengroup": s_takengroup}
for _k in ("noclass", "noflag", "class", "flag0", "shape", "dtype", "data", "scalar", "null", "str"):
    STARTS["damaged-" + _k] = _damaged(_k)


class Names:
    """The choices of internal names come from a script, then are all new."""

    def __init__(self, script):
        self.script = list(script or ())
        self.i = 0
        self.n = 1000

    def __call__(self, bits):
        if self.i < len(self.script):
            self.i += 1
            return self.script[self.i - 1]
        self.n += 1
        return self.n


def reachable(f, refs):
    """All references outside refs and, from there, inside; problems."""
    seen, todo, slots = set(), [], []
    refs_g = f.get(refs)

    def visit(o, where):
        if isinstance(o, h5py.Group):
            for k in o:
                c = o[k]
                if c.name == refs or c.name.startswith(refs + "/") and not where.startswith("->"):
                    continue
                visit(c, where + "/" + k)
        elif isinstance(o, h5py.Dataset) and o.shape is not None and h5py.check_dtype(ref=o.dtype) is not None:
            for i, r in enumerate(np.asarray(o[()]).ravel().tolist()):
                slots.append((where + "[%d]" % i, r))
    visit(f["/"], "")
    out = {}
    i = 0
    while i < len(slots):
        where, r = slots[i]
        i += 1
        if i > 5000:
            return "cycle of references"
        if not r:
            return "null reference at %s" % where
        try:
            o = f[r]
            name = o.name
        except Exception as e:
            return "dangling reference at %s (%s)" % (where, common.exc_str(e))
        if name is None:
            return "reference at %s to an object without a name" % where
        if refs_g is not None and o.parent != refs_g:
            continue
        if isinstance(o, h5py.Dataset) and o.attrs.get("MATLAB_class") == b"canonical empty":
            continue
        if o.id in out:
            return "the same object %s is the element of %s and %s" % (name, out[o.id], where)
        out[o.id] = where
        visit(o, "->" + where)
    return None


def empty_ok(f, refs):
    g = f.get(refs)
    if g is None:
        return None
    if not isinstance(g, h5py.Group) or "a" not in g:
        return "no canonical empty in the group for references"
    d = g["a"]
    if not (isinstance(d, h5py.Dataset) and d.shape == (2,) and d.dtype.kind == "u" and not d[()].any()
            and d.attrs.get("MATLAB_class") == b"canonical empty" and d.attrs.get("MATLAB_empty") == 1):
        return "the canonical empty is damaged"
    return None


def run_seq(cfg, start, seq, script, res):
    opts = CONFIGS[cfg]
    refs = REFS.get(cfg, "/#refs#")
    key = "%s|%s|%r|%r" % (cfg, start, seq, script)
    fn = common.newfile()
    orig = random.getrandbits
    names = Names(script)
    msg = None
    f = None
    model = {}
    keep = {}
    wrote = False
    try:
        if start:
            with h5py.File(fn, "w", userblock_size=512) as h:
                STARTS[start](h, refs)
            with hdf5storage.File(fn, **opts) as g:
                keep = {p: V.canon(g[p]) for p in ("v", "cell") if p in g}
        random.getrandbits = names
        f = hdf5storage.File(fn, writable=True, **opts)
        for n, op in enumerate(seq):
            res.count("transitions")
            if op[0] == "w":
                model[op[1]] = VALS[op[2]]("t%d" % n)
                f.write(model[op[1]], op[1])
                wrote = wrote or op[2] != "int"
            elif op[0] == "d":
                ex = any(p == op[1] or p.startswith(op[1] + "/") for p in model) or op[1] in f
                try:
                    del f[op[1]]
                except KeyError:
                    if ex:
                        msg = "could not delete %r" % op[1]
                        break
                for p in [p for p in model if p == op[1] or p.startswith(op[1] + "/")]:
                    del model[p]
            elif op[0] == "r":
                f.close()
                f = hdf5storage.File(fn, writable=True, **opts)
            elif op[0] == "x":
                try:
                    f.write([n, [Box(), "z"], "end"], op[1])
                    msg = "writing an unsupported type did not fail"
                    break
                except NotImplementedError:
                    pass
                model.pop(op[1], None)
        res.seen("states", (cfg, start, sorted((k, repr(V.canon(v))) for k, v in model.items())))
        for when in ("same session", "after reopening"):
            if msg:
                break
            if when != "same session":
                f.close()
                f = hdf5storage.File(fn, writable=False, **opts)
            for p, v in list(model.items()):
                try:
                    d = V.eq(v, f[p])
                except Exception as e:
                    d = "raised " + common.exc_str(e)
                if d:
                    msg = "%s: %s: %s" % (when, p, d)
                    break
            for p, c in keep.items():
                if msg:
                    break
                try:
                    d = V.diff(c, V.canon(f[p]))
                except Exception as e:
                    d = "raised " + common.exc_str(e)
                if d:
                    msg = "%s: existing %s: %s" % (when, p, d)
        f.close()
        if not msg:
            with h5py.File(fn, "r") as h:
                msg = reachable(h, refs) or (empty_ok(h, refs) if wrote else None)
    except Exception as e:
        msg = common.exc_str(e)
    finally:
        random.getrandbits = orig
        if f is not None:
            try:
                f.close()
            except Exception:
                pass
        common.rmfile(fn)
    if msg:
        res.bad(key, msg, {"cfg": cfg, "start": start, "seqs": [[list(o) for o in seq]], "script": script})
    else:
        res.count("traces")


ALPH = {"full": FULL, "core": CORE, "mini": MINI}


def run_case(case):
    res = common.Res()
    if "seqs" in case:
        seqs = [tuple(map(tuple, s)) for s in case["seqs"]]
    else:
        A = ALPH[case["alph"]]
        pre = tuple(A[i] for i in case["pre"])
        seqs = [pre + t for t in itertools.product(A, repeat=case["depth"] - len(pre))]
    scripts = [case.get("script")]
    if "width" in case:
        scripts = list(itertools.product(range(case["width"]), repeat=case["length"]))
    for s in seqs:
        for sc in scripts:
            run_seq(case["cfg"], case["start"], s, sc, res)
    res.samples.append({"cfg": case["cfg"], "start": case["start"], "sequence": seqs[-1], "names": scripts[-1]})
    return res


CASE_TIMEOUT = 400
SCRIPTED = [
    [("w", "a", "list"), ("r",), ("w", "b", "nest")],
    [("w", "a", "nest"), ("r",), ("w", "a", "nest")],
    [("w", "a", "obj"), ("r",), ("w", "b", "kv"), ("r",), ("w", "a", "st")],
    [("w", "a", "int"), ("r",), ("w", "a", "st"), ("w", "b", "list"), ("d", "a"), ("w", "a", "list")],
    [("w", "b", "dict"), ("r",), ("x", "a"), ("w", "b", "list")],
    [("w", "g/c", "cm"), ("r",), ("w", "a", "set"), ("d", "g"), ("r",), ("w", "b", "nest")],
]


def cases(tier, seed):
    deep = tier == "thorough"
    out = []
    for cfg in CONFIGS:
        d = 4 if deep else 3
        if cfg == "matlab" or deep:
            out += [{"cfg": cfg, "start": None, "alph": "core", "pre": [i, j], "depth": d}
                    for i in range(len(CORE)) for j in range(len(CORE))]
        if cfg in ("matlab", "nested") or deep:
            out += [{"cfg": cfg, "start": None, "alph": "full", "pre": [i], "depth": 2} for i in range(len(FULL))]
        out += [{"cfg": cfg, "start": None, "alph": "mini", "pre": [i, j], "depth": (5 if deep else 4) if cfg == "nested" or deep else 3}
                for i in range(len(MINI)) for j in range(len(MINI))]
        for st in STARTS if deep or cfg != "plain" else ():
            out += [{"cfg": cfg, "start": st, "alph": "full" if deep else "core", "pre": [i], "depth": 2 if cfg != "skip" or deep else 1}
                    for i in range(len(FULL if deep else CORE))]
        for st in (None, "matlabcell"):
            for s in SCRIPTED:
                out.append({"cfg": cfg, "start": st, "seqs": [s], "width": 3, "length": 6 if deep else 4})
    return out


def coverage(res, tier):
    return common.cov_mc(res, rule="all sequences of writes, overwrites, deletions, failing writes and reopenings up to the depth "
                         "(alphabets of 36, 14 and 7 operations to depth 2, 3-4, 4-5) from an empty file and from %d foreign states of "
                         "the group for references, and all choices of internal names from a domain small enough to collide "
                         "(3^4 to 3^6 scripts per history); values read in the same session and reopened, every reference "
                         "resolved and checked for sharing" % len(STARTS))
