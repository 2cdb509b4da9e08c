"""C04: reading objects without Python metadata, against the reference decoder."""
import itertools

import h5py
import numpy as np

import hdf5storage

from . import c01, common, optsets, refdec
from . import values as V

PROP = "C04"
LEVEL = "exploration"
ASSUMPTIONS = ["MATLAB's own layout is as described in storage_format.rst; no MATLAB is available here",
               "a Group of nothing but arrays of references of one shape is a struct array"]

# ---------------------------------------------------- objects as MATLAB stores
SHAPES = [(1, 1), (1, 3), (3, 1), (2, 3), (2, 3, 2), (0, 0), (0, 3), (3, 0), (0, 2, 2)]
NUMC = {"double": "f8", "single": "f4", "uint8": "u1", "uint16": "u2", "uint32": "u4", "uint64": "u8", "int8": "i1",
        "int16": "i2", "int32": "i4", "int64": "i8"}


class Builder:
    def __init__(self, f, attr="fixed"):
        self.f, self.attr, self.n = f, attr, 0

    def cls(self, o, c):
        if self.attr == "fixed":
            o.attrs.create("MATLAB_class", np.bytes_(c))
        elif self.attr == "vlen":
            o.attrs["MATLAB_class"] = c
        else:
            o.attrs.create("MATLAB_class", c.encode(), dtype=h5py.string_dtype("ascii"))

    def fields(self, o, names):
        a = np.empty((len(names),), dtype=h5py.special_dtype(vlen=np.dtype("S1")))
        for i, n in enumerate(names):
            a[i] = np.array([c.encode() for c in n], dtype="S1")
        o.attrs.create("MATLAB_fields", a)

    def ref(self, spec):
        g = self.f.require_group("#refs#")
        self.n += 1
        name = "e%d" % self.n
        self.put(g, name, spec)
        return g[name].ref

    def empty(self, g, name, c, shape):
        d = g.create_dataset(name, data=np.array(shape, dtype="u8"))
        self.cls(d, c)
        d.attrs.create("MATLAB_empty", np.uint8(1))
        return d

    def put(self, g, name, spec):
        kind = spec[0]
        if kind == "num":
            _, c, shape, cplx = spec
            if 0 in shape:
                return self.empty(g, name, c, shape)
            a = V.fill(NUMC[c], shape, len(shape))
            if cplx:
                x = np.zeros(shape, dtype=[("real", NUMC[c]), ("imag", NUMC[c])])
                x["real"], x["imag"] = a, V.fill(NUMC[c], shape, 3)
                a = x
            d = g.create_dataset(name, data=a.T)
            self.cls(d, c)
            if len(spec) > 4 or shape == (2, 3):
                d.attrs.create("MATLAB_empty", np.uint8(0))
        elif kind == "logical":
            if 0 in spec[1]:
                d = self.empty(g, name, "logical", spec[1])
            else:
                a = np.arange(int(np.prod(spec[1])), dtype="u1").reshape(spec[1]) % 3
                d = g.create_dataset(name, data=a.T)
                self.cls(d, "logical")
            d.attrs.create("MATLAB_int_decode", np.int32(1))
        elif kind == "char":
            rows, dt = spec[1], spec[2]
            if not rows or not rows[0]:
                d = self.empty(g, name, "char", (len(rows), 0))
            else:
                a = np.array([[c for c in r] for r in rows], dtype=dt)
                d = g.create_dataset(name, data=a.T)
                self.cls(d, "char")
            d.attrs.create("MATLAB_int_decode", np.int32(2))
        elif kind == "cell":
            shape, els = spec[1], spec[2]
            if 0 in shape:
                return self.empty(g, name, "cell", shape)
            a = np.empty(shape, dtype=h5py.special_dtype(ref=h5py.Reference))
            for i, idx in enumerate(np.ndindex(shape)):
                a[idx] = self.ref(els[i % len(els)])
            d = g.create_dataset(name, data=a.T)
            self.cls(d, "cell")
        elif kind == "canon":
            d = g.create_dataset(name, data=np.array([0, 0], "u8"))
            self.cls(d, "canonical empty")
            d.attrs.create("MATLAB_empty", np.uint8(1))
        elif kind == "struct":
            shape, names, els, mf = spec[1:]
            if 0 in shape:
                d = self.empty(g, name, "struct", shape)
                if mf:
                    self.fields(d, names)
                return d
            s = g.create_group(name)
            self.cls(s, "struct")
            if mf:
                self.fields(s, names)
            k = 0
            for n in names:
                if int(np.prod(shape)) == 1:
                    self.put(s, n, els[k % len(els)])
                    k += 1
                    continue
                a = np.empty(shape, dtype=h5py.special_dtype(ref=h5py.Reference))
                for idx in np.ndindex(shape):
                    a[idx] = self.ref(els[k % len(els)])
                    k += 1
                s.create_dataset(n, data=a.T)
            return s
        else:
            raise ValueError(kind)
        if g.name != "/":
            d.attrs.create("H5PATH", np.bytes_(g.name.encode()))
        return d


def uni(s):
    return list(np.frombuffer(s.encode("utf-16-le"), "<u2"))


def atoms():
    out = {}
    for c in NUMC:
        for sh in SHAPES:
            out["%s%s" % (c, sh)] = ("num", c, sh, False)
            if c in ("double", "single"):
                out["%s%sc" % (c, sh)] = ("num", c, sh, True)
    for sh in SHAPES:
        out["logical%s" % (sh,)] = ("logical", sh)
    for i, s in enumerate(("a", "abc", " x ", "a\x00b", "\x00", "a\x00", "\u4f60\u597d", "\U0001f600", "a\U0001f600b", "\ufeffa",
                           "\xe9\x80", "\ue000\ufffe\uffff")):
        out["char%d" % i] = ("char", [uni(s)], "u2")
        out["char32:%d" % i] = ("char", [[ord(c) for c in s]], "u4")
    out["char2rows"] = ("char", [uni("abc"), uni("d  ")], "u2")
    out["char3rows"] = ("char", [uni("a"), uni("b"), uni("\xe9")], "u2")
    out["char0"] = ("char", [], "u2")
    out["char1x0"] = ("char", [[]], "u2")
    out["canon"] = ("canon",)
    for sh in ((0, 0), (1, 0), (0, 3)):
        out["cell%s" % (sh,)] = ("cell", sh, [])
        for mf in (True, False):
            out["struct%s%s" % (sh, mf)] = ("struct", sh, ["b", "a"], [], mf)
    out["struct0f"] = ("struct", (1, 1), [], [], False)
    return out


ATOMS = atoms()
CORE = ["double(1, 1)", "double(2, 3)", "single(2, 3)c", "uint8(1, 3)", "int64(1, 1)", "logical(1, 1)", "logical(2, 3)",
        "double(0, 0)", "double(0, 3)", "char1", "char2rows", "char0", "char7", "canon", "cell(0, 0)", "struct(0, 0)True"]


def specs(tier):
    out = dict(ATOMS)
    core = [ATOMS[n] for n in CORE]
    for n, a in ATOMS.items():
        out["cell1:" + n] = ("cell", (1, 1), [a])
        out["cell13:" + n] = ("cell", (1, 3), [("num", "double", (1, 1), False), a, ("char", [uni("z")], "u2")])
        out["struct1:" + n] = ("struct", (1, 1), ["f"], [a], True)
        out["struct2:" + n] = ("struct", (1, 1), ["z", "a"], [a, core[1]], True)
        out["struct2n:" + n] = ("struct", (1, 1), ["z", "a"], [a, core[1]], False)
        out["sarr:" + n] = ("struct", (1, 2), ["f"], [a, core[0]], True)
        out["sarr22:" + n] = ("struct", (2, 2), ["z", "a"], [a, core[0], core[8]], True)
        out["sarr21n:" + n] = ("struct", (2, 1), ["z", "a"], [a, a], False)
    for (i, a), (j, b) in itertools.product(enumerate(core), repeat=2):
        out["cell22:%d,%d" % (i, j)] = ("cell", (2, 2), [a, b])
        out["structp:%d,%d" % (i, j)] = ("struct", (1, 1), ["b", "a"], [a, b], True)
        out["sarrp:%d,%d" % (i, j)] = ("struct", (1, 2), ["b", "a"], [a, b, b, a], True)
    lvl1 = [("cell", (1, 2), [core[0], core[9]]), ("cell", (2, 2), [core[1], core[13]]), ("cell", (1, 1), [core[0]]),
            ("struct", (1, 1), ["b", "a"], [core[1], core[9]], True), ("struct", (1, 2), ["b", "a"], [core[0], core[9]], True),
            ("struct", (1, 1), [], [], False), ("struct", (1, 1), ["c"], [("cell", (1, 2), [core[0]])], True)]
    for i, a in enumerate(lvl1):
        out["lvl1:%d" % i] = a
        for sh in ((1, 1), (1, 3), (2, 2)):
            out["ccell%s:%d" % (sh, i)] = ("cell", sh, [a, core[0]])
            for mf in (True, False):
                out["cstruct%s%s:%d" % (sh, mf, i)] = ("struct", sh, ["y", "x"], [a, core[1], a], mf)
    for j, names in enumerate((["field_1", "A", "a"], ["a", "B", "_x"], ["f%d" % i for i in range(12)], ["x" * 63])):
        for mf in (True, False):
            for sh in ((1, 1), (1, 2), (0, 0)):
                out["names%d%s%s" % (j, mf, sh)] = ("struct", sh, names, [core[0], core[9]], mf)
    return out


# ------------------------------------------------------- objects of plain HDF5
def plain(f):
    """Name -> object in the file f."""
    f.attrs["x"] = 1
    for t in V.NUM + ["f2", ">i4", ">f8", "S3", "V4"]:
        for sh in ((), (1,), (3,), (2, 3), (0,), (2, 0), (2, 1, 3)):
            if t == "V4":
                a = np.zeros(sh, "V4")
            elif t in ("f2",):
                a = V.fill("f2", sh)
            else:
                a = V.fill(np.dtype(t).newbyteorder("="), sh).astype(t)
            d = f.create_dataset("d:%s:%s" % (t, sh), data=a)
            if len(sh) == 2:
                d.attrs["units"] = "m"
                d.attrs["H5PATH"] = np.bytes_(b"/x")
    f.create_dataset("e", data=np.array([0, 1, 0], "i1"), dtype=h5py.enum_dtype({"A": 0, "B": 1}, basetype="i1"))
    f.create_dataset("vs", data="vlen str")
    f.create_dataset("vs3", data=["a", "\u4f60", ""], dtype=h5py.string_dtype())
    f.create_dataset("cmp", data=V.fill([("b", "i4"), ("a", "f8", (2,)), ("s", "S3")], (3,)))
    f.create_dataset("gz", data=np.arange(100.0).reshape(10, 10), compression="gzip", chunks=(3, 4))
    g = f.create_group("g")
    g["z"], g["a"], g["m"] = np.arange(3), np.float32(1.5), np.zeros((2, 2), "u1")
    g.attrs["note"] = "hello"
    g.create_group("sub")["x"] = np.array([1, 2], "i2")
    f.create_group("emptyg")
    r = f.create_group("store")
    r["1"], r["2"] = np.arange(2), np.bytes_(b"abc")
    f["refs"] = np.array([r["1"].ref, r["2"].ref, g.ref], dtype=h5py.ref_dtype)
    f["ref0"] = np.array(r["1"].ref, dtype=h5py.ref_dtype)
    f["refs2"] = np.array([[r["1"].ref, r["2"].ref]], dtype=h5py.ref_dtype)
    h = f.create_group("structarr")
    h["b"], h["a"] = f["refs"][()], f["refs"][()]
    h = f.create_group("notarr")
    h["b"], h["a"] = f["refs"][()], np.arange(3)
    h = f.create_group("esc")
    h["a\\x2fb"], h["\\x2e"], h["\\\\"] = 1, 2, 3
    f["link"] = h5py.SoftLink("/g/a")
    f["hard"] = f["d:f8:(2, 3)"]


def compare(fn, names, res, tag, rules, refs="/#refs#"):
    """All ways of reading give what the decoder says."""
    for dicts, mat in itertools.product((False, True), (True, False)):
        kw = {"structs_as_dicts": dicts, "matlab_compatible": mat, "group_for_references": refs}
        if mat:
            kw.pop("group_for_references")
            if refs != "/#refs#":
                continue
        with h5py.File(fn, "r") as h:
            want = {}
            for n in names:
                try:
                    want[n] = refdec.Dec(h, refs, dicts).dec(h[n])
                except refdec.Unspecified:
                    pass
        with hdf5storage.File(fn, writable=False, **kw) as f:
            for n in want:
                res.count("evaluations")
                try:
                    got = f.read((n,))
                except Exception as e:
                    rules(n, dicts, "read raised " + common.exc_str(e))
                    continue
                d = refdec.match(want[n], got, "")
                if d:
                    rules(n, dicts, d)
                else:
                    res.seen("nontrivial", (tag, n, dicts))


def run_case(case):
    res = common.Res()
    fn = common.newfile(".mat")
    try:
        if case["kind"] == "matlab":
            sp = specs(case["tier"])
            names = case["names"]
            with h5py.File(fn, "w", userblock_size=512) as h:
                b = Builder(h, case["attr"])
                for n in names:
                    b.put(h, "x" + str(names.index(n)), sp[n])
            back = {"x" + str(i): n for i, n in enumerate(names)}

            def rules(n, dicts, msg):
                res.bad("matlab|%s|%s|%s" % (back[n], case["attr"], dicts), msg, dict(case, names=[back[n]]))
            compare(fn, list(back), res, ("m", case["attr"], tuple(names)), rules)
            res.samples.append({"object": names[0], "attributes": case["attr"]})
            if case["attr"] == "fixed":
                with h5py.File(fn, "r") as h:
                    want = {n: refdec.Dec(h).dec(h[n]) for n in back}
                got = hdf5storage.loadmat(fn)
                if set(got) != set(want):
                    res.bad("loadmat|%s" % (names[0],), "loadmat gave %s" % sorted(set(got) ^ set(want)), case)
                for n in want:
                    if n in got and refdec.match(want[n], got[n]):
                        res.bad("loadmat|%s" % back[n], refdec.match(want[n], got[n]), dict(case, names=[back[n]]))
        elif case["kind"] == "plain":
            with h5py.File(fn, "w") as h:
                plain(h)
                names = [k for k in h if k not in ("store",)]
            compare(fn, names, res, "plain", lambda n, d, m: res.bad("plain|%s|%s" % (n, d), m))
        else:
            opts = dict(optsets.get(case["opts"]), store_python_metadata=False)
            back = {}
            with hdf5storage.File(fn, writable=True, **opts) as f:
                for i, s in enumerate(case["specs"]):
                    v = c01.make(tuple(s))
                    f.write(v, "/v%d" % i)
                    back["v%d" % i] = s

            def rules2(n, dicts, msg):
                res.bad("own|%s|%s|%s" % (back[n], case["opts"], dicts), msg, dict(case, specs=[back[n]]))
            compare(fn, list(back), res, ("o", case["opts"], repr(case["specs"])), rules2,
                    opts.get("group_for_references", "/#refs#"))
    finally:
        common.rmfile(fn)
    return res


# Written without metadata these hold what no reader could tell: bytes that
# are no text stored as such in a char array.
def own_values():
    return [n for n in V.VALUES if not V.VALUES[n][1] & {"nomatlab"}]


def cases(tier, seed):
    out = [{"kind": "plain"}]
    names = list(specs(tier))
    for attr in ("fixed", "vlen", "vlenbytes"):
        step = 25
        for i in range(0, len(names), step):
            out.append({"kind": "matlab", "tier": tier, "attr": attr, "names": names[i:i + step]})
    own = [[n, None] for n in own_values()]
    prof = ["matlab", "plain", "matcol", "allon", "odd"] + ["f%d" % b for b in range(128)
                                                          if tier == "thorough" or b % 9 == 2]
    for o in prof:
        for i in range(0, len(own), 50):
            out.append({"kind": "own", "opts": o, "specs": own[i:i + 50]})
    leaves = [n for n in own_values() if V.VALUES[n][1] & {"leaf", "dtype", "dictlike", "seq", "dict"} or n.startswith("arr:")]
    for outer in ("list3", "dictval", "objarr22", "sfield", "sfield1", "deep"):
        if tier == "quick" and outer in ("deep",):
            continue
        for i in range(0, len(leaves), 50):
            out.append({"kind": "own", "opts": "matlab", "specs": [[n, outer] for n in leaves[i:i + 50]]})
    return out


def coverage(res, tier):
    return common.cov_exploration(
        res, "every object of a grammar of MATLAB objects (classes x shapes x contents, cells and structs of them, two levels; "
        "%d objects) in three attribute encodings, plain HDF5 objects, and every value of the alphabet written without "
        "metadata; each read with structs as dicts or not and with and without MATLAB compatibility and compared with the "
        "reference decoder" % len(specs(tier)))
