"""C13: every malformed piece of metadata, read under an audit hook.

For every kind of stored object, every attribute is set to every malformed
value (and, for what is inside of it, every structural change is made); the
result is read with files opened read-only and writable.  The read has to
return or raise an Exception, must not execute, import, open or change
anything, and what else is in the file stays readable with the same File.
"""
import collections
import copy
import datetime
import fractions
import itertools
import os
import sys

import h5py
import numpy as np

import hdf5storage

from . import common, h5dump, values

PROP = "C13"
LEVEL = "fault_enumeration"
CASE_TIMEOUT = 120
ASSUMPTIONS = ["the HDF5 library and h5py are trusted: no byte-level damage inside of HDF5's own structures",
               "external links and external storage, which HDF5 itself follows, are out of scope",
               "imports of parts of numpy, h5py and the standard library's codecs on first use are allowed"]

# ------------------------------------------------------------------- hook

_rec = {"on": False, "events": [], "depth": 0, "ok": ()}
PLANTED = {"hmcevil", "this", "antigravity", "wave", "xdrlib", "chunk", "turtle"}
WATCH = ("os.", "subprocess.", "socket.", "shutil.", "ctypes.", "pickle.", "tempfile.", "urllib.", "webbrowser.",
         "sqlite3.", "ftplib.", "smtplib.", "pty.", "winreg.", "mmap.", "glob.", "fcntl.", "resource.", "syslog.",
         "builtins.input", "cpython.", "setopencodehook", "sys.setprofile", "sys.settrace",
         "sys.addaudithook", "signal.")


def _hook(ev, args):
    if not _rec["on"]:
        return
    if ev == "import":
        n = args[0]
        if n.split(".")[0] in PLANTED:
            _rec["events"].append((ev, n))
    elif ev == "exec":
        c = args[0]
        if c.co_names and c.co_filename in ("<string>", "<unknown>", "<stdin>"):
            _rec["events"].append((ev, c.co_filename, c.co_names))
    elif ev == "open":
        p = args[0]
        if isinstance(p, int) or (isinstance(p, (str, bytes)) and os.fsdecode(p).endswith((".py", ".pyc", ".so"))):
            return
        _rec["events"].append((ev, p))
    elif ev == "os.listdir" or ev == "os.scandir":
        return  # the import system looks into directories
    elif ev == "marshal.loads":
        fr = sys._getframe()
        while fr is not None:
            if "importlib" in fr.f_code.co_filename:
                return  # an import
            fr = fr.f_back
        _rec["events"].append((ev, repr(args)[:200]))
    elif ev.startswith(WATCH):
        _rec["events"].append((ev, repr(args)[:200]))


_installed = []


def install():
    if not _installed:
        sys.addaudithook(_hook)
        _installed.append(1)


# ---------------------------------------------------------------- objects

class Sub(dict):
    pass


def bases():
    st = np.array([(1, 2.5), (3, 4.5)], dtype=[("x", "i4"), ("y", "f8")])
    ob = np.zeros(2, dtype=[("x", "O"), ("y", "O")])
    ob["x"] = [1, "a"]
    ob["y"] = [None, [1]]
    out = collections.OrderedDict([
        ("int", 5), ("bigint", 10**30), ("float", 1.5), ("complex", 1 + 2j), ("bool", True), ("none", None),
        ("ellipsis", Ellipsis), ("str", "abé"), ("emptystr", ""), ("bytes", b"xyz"), ("bytearray", bytearray(b"xyz")),
        ("list", [1, "a", None]), ("emptylist", []), ("tuple", (1, [2])), ("set", {1, "a"}),
        ("frozenset", frozenset([2])), ("deque", collections.deque([1, 2])), ("dict", {"a": 1, "b": "x"}),
        ("emptydict", {}), ("kvdict", {1: "a", "b": 2}), ("odict", collections.OrderedDict([("z", 1), ("a", 2)])),
        ("counter", collections.Counter("aab")), ("chainmap", collections.ChainMap({"a": 1}, {"b": 2})),
        ("slice", slice(1, 5, 2)), ("range", range(1, 9, 2)), ("datetime", datetime.datetime(2020, 1, 2, 3, 4, 5, 6)),
        ("tzdatetime", datetime.datetime(2020, 1, 2, tzinfo=datetime.timezone.utc)),
        ("date", datetime.date(2020, 1, 2)), ("time", datetime.time(3, 4, 5, 6)),
        ("timedelta", datetime.timedelta(1, 2, 3)),
        ("timezone", datetime.timezone(datetime.timedelta(hours=2), "X")), ("fraction", fractions.Fraction(2, 3)),
        ("dtype", np.dtype([("x", "i4"), ("y", "f8", (2,))])), ("array", np.arange(6.0).reshape(2, 3)),
        ("ints", np.arange(4, dtype="i2")), ("bools", np.array([True, False])), ("scalar", np.float32(3.5)),
        ("complexes", np.array([1 + 2j, 3.0])), ("empty", np.zeros((0, 3))), ("emptyobj", np.zeros((2, 0), dtype=object)),
        ("matrix", np.matrix([[1, 2], [3, 4]])), ("strs", np.array(["ab", "cé"])), ("bytess", np.array([b"ab", b"c"])),
        ("chararray", np.chararray((2,), itemsize=3)), ("objs", np.array([1, "a", None, [2]], dtype=object)),
        ("recarray", np.rec.array([(1, 2.5)], dtype=[("x", "i4"), ("y", "f8")])), ("struct", st), ("structobj", ob),
        ("emptystruct", np.zeros((0,), dtype=[("x", "i4"), ("y", "f8")])), ("void", np.void(b"abc")),
        ("npstr", np.str_("abc")), ("npbytes", np.bytes_(b"abc")), ("structscalar", st[0]),
        ("f16", np.float16(2)),
    ])
    out["chararray"][:] = b"abc"
    return out


BASES = bases()
PROFILES = {
    "both": dict(), "python": dict(matlab_compatible=False), "matlab": dict(store_python_metadata=False),
    "neither": dict(matlab_compatible=False, store_python_metadata=False),
    "struct": dict(matlab_compatible=False, structured_numpy_ndarray_as_struct=True),
}
ATTRS = ["Python.Type", "MATLAB_class", "Python.Shape", "Python.Empty", "MATLAB_empty", "MATLAB_fields",
         "Python.Fields", "Python.numpy.UnderlyingType", "Python.numpy.Container", "MATLAB_int_decode", "H5PATH",
         "Python.dict.StoredAs", "Python.dict.keys_values_names", "Python.dict.key_str_types", "Other"]

CODE = ["__import__('os').system('touch hmc_pwned')", "hmcevil.X", "wave.Wave_read", "builtins.eval", "os.system",
        "this.s", "hdf5storage.File", "numpy.load", "pickle.Unpickler", "subprocess.Popen"]
TYPES = sorted({t for c in vars(hdf5storage.Marshallers).values()
                if isinstance(c, type) and issubclass(c, hdf5storage.Marshallers.TypeMarshaller)
                for t in c().python_type_strings})
CLASSES = ["char", "double", "single", "int8", "uint64", "logical", "cell", "struct", "canonical empty", "function_handle",
           "numpy.object_", "opaque"]
UNDER = ["bool", "bytes24", "str64", "str96", "object", "object_", "float64", "complex128", "void64", "int8", "uint16",
         "bytes", "str", "bytes-8", "str7", "bytes999999999999999999999", "float", "void", "record", "datetime64",
         "M8[s]", "O", "nosuch", "float1000", "uint64_", "str3", "bytes9"]
CONT = ["scalar", "ndarray", "matrix", "chararray", "recarray", "memmap", "masked", "ufunc"]
WORDS = ["individually", "keys_values", "individual", "t", "b", "U", "S", "keys", "values", "t\0b", "/", "..", "ok", ""]
REFDT = h5py.special_dtype(ref=h5py.Reference)
VLS = h5py.special_dtype(vlen=str)
VLB = h5py.special_dtype(vlen=bytes)


def bad_values(f):
    """(name, function setting an attribute) for values of the wrong kind."""
    ref = f["ok"].ref
    nul = h5py.Reference()
    out = [
        ("del", None), ("int0", 0), ("int1", 1), ("int-1", -1), ("int2^62", 2**62), ("u8", np.uint8(255)),
        ("float", 1.5), ("nan", np.nan), ("inf", np.inf), ("complex", 1 + 2j), ("true", True),
        ("emptybytes", np.bytes_(b"")), ("emptystr", ""), ("nul", np.bytes_(b"a\0b")),
        ("bytes", np.bytes_(b"\xff\xfe\x80")), ("str", "é☃\U0001f600"), ("long", np.bytes_(b"x" * 5000)),
        ("shape0", np.zeros((0,), "i8")), ("shape-1", np.array([-1])), ("shape-2", np.array([2, -3])),
        ("shape3", np.array([3])), ("shape23", np.array([2, 3])), ("shape00", np.array([0, 0])),
        ("shape40", np.array([2] * 40)), ("shape1x33", np.array([1] * 33)), ("shapeu64", np.array([2**64 - 1], "u8")),
        ("shapebig", np.array([2**40, 2**20])), ("shapemax", np.array([2**62, 4])), ("shape0big", np.array([0, 2**62])),
        ("shape2d", np.arange(4).reshape(2, 2)), ("shapef", np.array([2.0, 1.5])), ("bools", np.array([True, False])),
        ("Sarr", np.array([b"x", b"y"])), ("Sarr1", np.array([b"x"])), ("Sarrdup", np.array([b"x", b"x"])),
        ("Sarrx", np.array([b"x", b"nosuch", b""])), ("Sarr2d", np.array([[b"x", b"y"], [b"a", b"b"]])),
        ("Sarrbad", np.array([b"\xff", b"x\0y"])), ("Sarr0", np.zeros((0,), "S1")),
        ("Sarrodd", np.array([b"/", b"..", b".", b"a/b", b"/ok"])),
        ("compound", np.array([(1, 2.0)], dtype=[("x", "i4"), ("y", "f8")])),
        ("compound0", np.array((1, 2.0), dtype=[("x", "i4"), ("y", "f8")])),
        ("void", np.void(b"abc")), ("vref", ("v", ref, REFDT)), ("vnul", ("v", nul, REFDT)),
        ("arefs", ("v", np.array([ref, nul], dtype=REFDT), REFDT)),
        ("vls", ("v", "x", VLS)), ("vlsarr", ("v", np.array(["x", "y"], dtype=object), VLS)),
        ("vlb", ("v", np.array([b"x", b"\xff"], dtype=object), VLB)),
        ("vlint", ("vl", [np.array([1, 2]), np.array([3])], h5py.special_dtype(vlen=np.dtype("i4")))),
        ("vlchars", ("vl", [np.array([b"x"], "S1"), np.array([b"n", b"o"], "S1")],
                     h5py.special_dtype(vlen=np.dtype("S1")))),
        ("vlchars2", ("vl", [np.array([b"\xff"], "S1"), np.array([], "S1")],
                      h5py.special_dtype(vlen=np.dtype("S1")))),
        ("vlcharsdup", ("vl", [np.array([b"x"], "S1"), np.array([b"x"], "S1")],
                        h5py.special_dtype(vlen=np.dtype("S1")))),
        ("enum", ("v", 1, h5py.special_dtype(enum=("i1", {"A": 0, "B": 1})))),
        ("emptyspace", h5py.Empty("f8")), ("emptyspaceS", h5py.Empty("S3")), ("f2", np.float16(1)),
        ("longdouble", np.longdouble(2)),
    ]
    return out


def words_for(attr):
    w = list(CODE[:4])
    if attr == "Python.Type":
        w = CODE + TYPES + ["", "int ", "Int", "numpy.float64\0", "numpy", "."]
    elif attr == "MATLAB_class":
        w = CODE + CLASSES
    elif attr == "Python.numpy.UnderlyingType":
        w = CODE + UNDER
    elif attr == "Python.numpy.Container":
        w = CODE + CONT
    elif attr.startswith("Python.dict"):
        w = CODE[:2] + WORDS
    return w


def setattr_(o, name, v):
    if name in o.attrs:
        del o.attrs[name]
    if v is None:
        return
    if isinstance(v, tuple) and v and v[0] == "v":
        o.attrs.create(name, v[1], dtype=v[2])
    elif isinstance(v, tuple) and v and v[0] == "vl":
        a = np.empty(len(v[1]), dtype=object)
        a[:] = v[1]
        o.attrs.create(name, a, dtype=v[2])
    else:
        o.attrs[name] = v


# ------------------------------------------------------- structural changes

def _dsets(g):
    out = []
    g.visititems(lambda n, o: out.append((n, o)))
    return out


def replace(parent, name, how, f):
    """replace what is at name in parent."""
    old = parent[name]
    attrs = [(k, old.attrs[k]) for k in old.attrs] if "attrs" in how else []
    if how == "delete":
        del parent[name]
        return
    if how == "copyin":  # a dataset put into itself as a group and so on
        d = parent[name]
        if isinstance(d, h5py.Group):
            d.create_dataset("extra", data=1)
            d.create_group("extragroup")
        return
    if how == "cycle":
        if isinstance(old, h5py.Group):
            old["loop"] = old
            old["up"] = parent
        return
    del parent[name]
    k = how.split("+")[0]
    if k == "group":
        o = parent.create_group(name)
    elif k == "softdangling":
        parent[name] = h5py.SoftLink("/nowhere/x")
        return
    elif k == "softloop":
        parent[name] = h5py.SoftLink(parent.name + "/" + name)
        return
    elif k == "extdangling":
        parent[name] = h5py.ExternalLink("hmc_nofile.h5", "/x")
        return
    elif k == "named":
        parent[name] = np.dtype([("x", "i4")])
        o = parent[name]
    elif k == "parent":
        parent[name] = parent
        return
    elif k == "root":
        parent[name] = f["/"]
        return
    else:
        o = NEW[k](parent, name, f)
    for a, v in attrs:
        try:
            o.attrs[a] = v
        except Exception:
            pass


def _refs(parent, name, lst, shape=None):
    a = np.empty(len(lst), dtype=REFDT)
    a[:] = lst
    if shape is not None:
        a = a.reshape(shape)
    return parent.create_dataset(name, data=a, dtype=REFDT)


def _selfref(parent, name, f):
    d = parent.create_dataset(name, (2,), dtype=REFDT)
    d[0] = d.ref
    d[1] = d.ref
    d.attrs["MATLAB_class"] = np.bytes_("cell")
    d.attrs["Python.Type"] = "list"
    return d


def _deadref(parent, name, f):
    f["tmp_dead"] = 1
    r = f["tmp_dead"].ref
    del f["tmp_dead"]
    return _refs(parent, name, [r, r])


def _regref(parent, name, f):
    r = f["okarr"].regionref[0:2]
    return parent.create_dataset(name, data=np.array([r], dtype=h5py.special_dtype(ref=h5py.RegionReference)),
                                 dtype=h5py.special_dtype(ref=h5py.RegionReference))


def _vlen(parent, name, f):
    dt = h5py.special_dtype(vlen=np.dtype("i4"))
    d = parent.create_dataset(name, (2,), dtype=dt)
    d[0] = [1, 2]
    return d


NEW = collections.OrderedDict([
    ("int", lambda p, n, f: p.create_dataset(n, data=7)),
    ("float", lambda p, n, f: p.create_dataset(n, data=np.array([[1.5, np.nan, -np.inf]]))),
    ("neg", lambda p, n, f: p.create_dataset(n, data=np.array([-5, -2**62]))),
    ("huge", lambda p, n, f: p.create_dataset(n, data=np.array([2**63, 2**64 - 1], "u8"))),
    ("bytes", lambda p, n, f: p.create_dataset(n, data=np.bytes_(b"\xff\xfe"))),
    ("code", lambda p, n, f: p.create_dataset(n, data=np.bytes_(CODE[0].encode()))),
    ("codes", lambda p, n, f: p.create_dataset(n, data=np.array([b"hmcevil.X", b"x"]))),
    ("surr", lambda p, n, f: p.create_dataset(n, data=np.array([0xD800, 0xDC00, 0xDC00], "u2"))),
    ("u4", lambda p, n, f: p.create_dataset(n, data=np.array([0x110000, 0xFFFFFFFF], "u4"))),
    ("vls", lambda p, n, f: p.create_dataset(n, data="abc", dtype=VLS)),
    ("vlsarr", lambda p, n, f: p.create_dataset(n, data=np.array(["a", "b"], dtype=object), dtype=VLS)),
    ("vlen", _vlen),
    ("empty", lambda p, n, f: p.create_dataset(n, shape=(0,), dtype="u1")),
    ("nullspace", lambda p, n, f: p.create_dataset(n, data=h5py.Empty("f8"))),
    ("compound", lambda p, n, f: p.create_dataset(n, data=np.array([(1, 2.0)], dtype=[("a", "i4"), ("b", "f8")]))),
    ("ri", lambda p, n, f: p.create_dataset(n, data=np.array([(1, 2.0)], dtype=[("r", "i4"), ("i", "S3")]))),
    ("nested", lambda p, n, f: p.create_dataset(n, data=np.zeros(2, dtype=[("a", [("b", "i4", (2,))])]))),
    ("nullrefs", lambda p, n, f: _refs(p, n, [h5py.Reference()] * 2)),
    ("refs", lambda p, n, f: _refs(p, n, [f["ok"].ref, f["okarr"].ref])),
    ("refs2d", lambda p, n, f: _refs(p, n, [f["ok"].ref] * 4, (2, 2))),
    ("grouprefs", lambda p, n, f: _refs(p, n, [p.ref, f["/"].ref])),
    ("refs0", lambda p, n, f: p.create_dataset(n, shape=(0,), dtype=REFDT)),
    ("selfref", _selfref), ("deadref", _deadref), ("regref", _regref),
    ("big", lambda p, n, f: p.create_dataset(n, shape=(2**40,), dtype="f8", chunks=(1024,))),
    ("void", lambda p, n, f: p.create_dataset(n, data=np.void(b"abc"))),
    ("bool", lambda p, n, f: p.create_dataset(n, data=True)),
    ("bitfield", lambda p, n, f: p.create_dataset(n, data=np.array([1, 2], "u1"), dtype=h5py.h5t.STD_B8LE)),
])
KINDS = (["delete", "copyin", "cycle", "group", "group+attrs", "softdangling", "softloop", "extdangling", "named",
          "named+attrs", "parent", "root"]
         + [k + s for k in NEW for s in ("", "+attrs")])

DT_STRINGS = [  # for the dtype marshaller
    "'f8'", "'O'", "None", "[('a', 'i4'), ('a', 'i4')]", "[('a', 'i4', -1)]", "{'names': ['a'], 'formats': ['i4']}",
    "{'names': ['a'], 'formats': ['i4'], 'offsets': [-4]}", "{'names': ['a','b'], 'formats': ['O','i4'], 'offsets': [0,2]}",
    "[('a', 'hmcevil.X')]", "__import__('os').system('touch hmc_pwned')", "os", "(lambda: 1)()", "[x for x in (1,)]",
    "f'{1}'", "'(2,3)f8,i4'", "'i4,(2,hmcevil)f8'", "1/0", "(", "", "\0", "é", "[" * 300 + "]" * 300,
    "[" * 20000 + "]" * 20000, "-" * 20000 + "1", "1+" * 5000 + "1", "'S2147483648'", "'V99999999999'", "('i4', (2**70,))",
    "('i4', (-1,))", "('f8', (100000, 100000))", "[('a', 'f8', (100000, 100000))]", "{}", "[]", "()", "1", "b'f8'",
    "{'names': [], 'formats': []}", "'datetime64[hmcevil]'", "'M8[7D]'", "[(b'a', 'i4')]", "[(('t', 'a'), 'i4')]",
    "{'a': ('i4', 0), 'b': ('f8', 2)}", "{'a': ('i4', 0, 'title')}", "'int32, hmcevil'",
] + ["['a', 'i4']", "[[('a','i4')]]", "{'names': 1, 'formats': 2}", "{'x': 1}", "'ascii:hmcevil'"]


# ------------------------------------------------------------------- checks

def start(fn, base, profile):
    with hdf5storage.File(fn, writable=True, truncate_existing=True, **PROFILES[profile]) as f:
        try:
            f.write(BASES[base], "v")
        except hdf5storage.exceptions.TypeNotMatlabCompatibleError:
            return False
        f.write(42, "ok")
        f.write(np.arange(5.0), "okarr")
        f.write({"a": [1, "x"]}, "okdict")
    return True


OK = {"ok": 42, "okarr": np.arange(5.0), "okdict": {"a": [1, "x"]}}


def world():
    return (os.getcwd(), sorted(os.listdir(".")), dict(os.environ), len(sys.path))


def read_all(res, fn, names, profile, label, case, modes=("r", "w")):
    """read everything mutated; names: {path: description}."""
    opts = dict(PROFILES[profile])
    sok = profile in ("both", "python", "struct")
    for mode in modes:
        ro = dict(opts)
        if mode == "n":  # without MATLAB compatibility
            ro["matlab_compatible"] = False
        if mode == "d":
            ro["structs_as_dicts"] = True
        with open(fn, "rb") as f:
            before = f.read()
        if mode == "w":
            with h5py.File(fn, "r") as f:
                dump = {k: safe_dump(f, k) for k in OK}
                keys = sorted(f)
                ident = sorted(names_attrs(f, names))
        w0 = world()
        expok = None
        hf = hdf5storage.File(fn, writable=mode == "w", **ro)
        try:
            expok = {k: values.canon(hf.read(k)) for k in OK}
            if sok and mode == "r" and any(values.canon(v) != expok[k] for k, v in OK.items()):
                raise AssertionError("control variables are not readable")
            length, listing = len(hf), list(hf)
            for path, what in names.items():
                desc = "%s, %s (%s)" % (label, what, {"r": "read-only", "w": "writable", "n": "not MATLAB compatible",
                                                     "d": "structs as dicts"}[mode])
                _rec["events"] = []
                _rec["on"] = True
                try:
                    v = hf.read(path)
                    _ = v is None
                    out = "value"
                except Exception as e:
                    out = type(e).__name__
                    del e
                except BaseException as e:
                    _rec["on"] = False
                    if type(e).__name__ == "CaseTimeout":
                        raise
                    res.bad("base:" + desc, desc + ": raised " + common.exc_str(e), case)
                    out = "base"
                finally:
                    _rec["on"] = False
                v = None
                evs = [e for e in _rec["events"]]
                if evs:
                    res.bad("event:" + desc, "%s: reading it did %s" % (desc, evs[:3]), case)
                res.count("evaluations")
                res.seen("nontrivial", (label, what, out))
                try:
                    if values.canon(hf.read("ok")) != expok["ok"]:
                        res.bad("other:" + desc, desc + ": another variable is not readable afterwards", case)
                except Exception as e:
                    res.bad("other:" + desc, "%s: reading another variable afterwards raised %s"
                            % (desc, common.exc_str(e)), case)
            for k in OK:
                if values.canon(hf.read(k)) != expok[k]:
                    res.bad("after:%s:%s" % (label, k), "%s: %s is not readable afterwards" % (label, k), case)
            if (len(hf), list(hf)) != (length, listing) or "ok" not in hf:
                res.bad("after:%s" % label, label + ": the contents are listed differently afterwards", case)
            if mode == "w":
                hf.write(43, "ok2")
                if hf.read("ok2") != 43:
                    res.bad("afterw:%s" % label, label + ": writing afterwards failed", case)
                del hf["ok2"]
        finally:
            hf.close()
        if world() != w0:
            res.bad("trace:" + label, label + ": reading changed the working directory or environment", case)
        if mode != "w":
            with open(fn, "rb") as f:
                if f.read() != before:
                    res.bad("bytes:" + label, label + ": reading changed the file", case)
        else:
            with h5py.File(fn, "r") as f:
                if ({k: safe_dump(f, k) for k in OK} != dump or sorted(f) != keys
                        or sorted(names_attrs(f, names)) != ident):
                    res.bad("dump:" + label, label + ": reading changed what is stored", case)


def safe_dump(f, k):
    return repr(h5dump.dump(f, k))


def names_attrs(f, names):
    for n in names:
        try:
            o = f[n]
            yield n, type(o).__name__, sorted(o.attrs), str(getattr(o, "dtype", sorted(o) if hasattr(o, "keys") else 0))
        except Exception as e:
            yield n, type(e).__name__, [], ""


def attr_case(res, case):
    base, profile, attr = case["base"], case["profile"], case["attr"]
    fn = common.newfile()
    label = "%s written with %s, attribute %s" % (base, profile, attr)
    try:
        if not start(fn, base, profile):
            return
        names = collections.OrderedDict()
        with h5py.File(fn, "a") as f:
            vals = bad_values(f) + [("w:" + w, np.bytes_(w.encode())) for w in words_for(attr)]
            if case.get("attr2"):
                vals = [x for x in vals if case["sub"] is None or x[0] in case["sub"]]
            g = f.create_group("m")
            for i, (n, v) in enumerate(vals):
                f.copy(f["v"], g, "x%d" % i)
                o = g["x%d" % i]
                try:
                    setattr_(o, attr, v)
                except (TypeError, ValueError, OSError, RuntimeError):
                    del g["x%d" % i]
                    continue
                names["m/x%d" % i] = "%s = %s" % (attr, n)
                if case.get("attr2"):
                    # a second one on top
                    for j, (n2, v2) in enumerate(vals):
                        p = "x%d_%d" % (i, j)
                        f.copy(o, g, p)
                        try:
                            setattr_(g[p], case["attr2"], v2)
                        except (TypeError, ValueError, OSError, RuntimeError):
                            del g[p]
                            continue
                        names["m/" + p] = "%s = %s and %s = %s" % (attr, n, case["attr2"], n2)
        read_all(res, fn, names, profile, label, case, case.get("modes", ("r", "w")))
    finally:
        common.rmfile(fn)


def type_case(res, case):
    """every stored thing claimed to be every type, as a dataset and as a group."""
    base, profile = case["base"], case["profile"]
    fn = common.newfile()
    label = "%s written with %s" % (base, profile)
    try:
        if not start(fn, base, profile):
            return
        names = collections.OrderedDict()
        with h5py.File(fn, "a") as f:
            g = f.create_group("m")
            i = 0
            for t in TYPES + [None]:
                for c in CLASSES[:9] + [None]:
                    p = "x%d" % i
                    i += 1
                    f.copy(f["v"], g, p)
                    setattr_(g[p], "Python.Type", None if t is None else np.bytes_(t))
                    setattr_(g[p], "MATLAB_class", None if c is None else np.bytes_(c))
                    for a in list(g[p].attrs):
                        if case["strip"] and a not in ("Python.Type", "MATLAB_class"):
                            del g[p].attrs[a]
                    names["m/" + p] = "claimed to be %s and %s%s" % (t, c, " and nothing else" * case["strip"])
        read_all(res, fn, names, profile, label, case, case["modes"])
    finally:
        common.rmfile(fn)


HEAVY = ("parent", "root", "grouprefs", "grouprefs+attrs")


def struct_case(res, case):
    """structural changes: those leading to a lot each in a file of its own."""
    base, profile, heavy = case["base"], case["profile"], case["heavy"]
    fn = common.newfile()
    label = "%s written with %s" % (base, profile)
    modes = case["modes"]
    try:
        if not start(fn, base, profile):
            return
        with open(fn, "rb") as f:
            template = f.read()
        todo = []
        with h5py.File(fn, "r") as f:
            v = f["v"]
            inner = []
            if isinstance(v, h5py.Group):
                v.visit(inner.append)
            for how in KINDS:
                for where in [None] + inner:
                    if (how in HEAVY) == heavy and not (where is None and how in ("parent", "root")):
                        todo.append((how, where))
            # what its references lead to
            if isinstance(v, h5py.Dataset) and h5py.check_dtype(ref=v.dtype) is not None and v.size:
                todo += [("ref", how) for how in ["null", "self", "root", "its group"] + list(NEW)
                         if (how in HEAVY + ("its group",)) == heavy]
        for part in [[t] for t in todo] if heavy else [todo]:
            with open(fn, "wb") as f:
                f.write(template)
            names = collections.OrderedDict()
            with h5py.File(fn, "a") as f:
                g = f.create_group("m")
                for i, (how, where) in enumerate(part):
                    p = "x%d" % i
                    f.copy(f["v"], g, p)
                    try:
                        if how == "ref":
                            if where in NEW:
                                tgt = NEW[where](g, "t%d" % i, f).ref
                            else:
                                tgt = {"null": h5py.Reference(), "root": f["/"].ref, "self": g[p].ref,
                                       "its group": g.ref}[where]
                            g[p][(0,) * g[p].ndim] = tgt
                            names["m/" + p] = "a reference leading to " + where
                            continue
                        if where is None:
                            parent, name = g, p
                        else:
                            parent = g[p][os.path.dirname(where)] if "/" in where else g[p]
                            name = os.path.basename(where)
                        replace(parent, name, how, f)
                        names["m/" + p] = "%s instead of %s" % (how, where or "it")
                    except (TypeError, ValueError, OSError, RuntimeError, KeyError):
                        if p in g:
                            del g[p]
            read_all(res, fn, names, profile, label, case, modes)
    finally:
        common.rmfile(fn)


def dtype_case(res, case):
    fn = common.newfile()
    try:
        start(fn, "dtype", case["profile"])
        names = collections.OrderedDict()
        with h5py.File(fn, "a") as f:
            g = f.create_group("m")
            for i, s in enumerate(DT_STRINGS):
                p = "x%d" % i
                d = g.create_dataset(p, data=np.bytes_(s.encode()) if s else h5py.Empty("S1"))
                for k, a in f["v"].attrs.items():
                    d.attrs[k] = a
                names["m/" + p] = "dtype %r" % s[:60]
        read_all(res, fn, names, case["profile"], "dtypes", case, ("r", "w"))
    finally:
        common.rmfile(fn)


def deep_case(res, case):
    """things nested in one another too deeply."""
    fn = common.newfile()
    n = case["depth"]
    try:
        start(fn, "int", "both")
        names = collections.OrderedDict()
        with h5py.File(fn, "a") as f:
            g = f.create_group("m")
            x = g.create_group("groups")
            for i in range(n):
                x = x.create_group("a")
            for t in ("list", "tuple", "collections.ChainMap", "numpy.object_", None):
                last = f["ok"]
                for i in range(n):
                    d = g.create_dataset("c%s%d" % (t, i), (1,), dtype=REFDT)
                    d[0] = last.ref
                    if t:
                        d.attrs["Python.Type"] = t
                    else:
                        d.attrs["MATLAB_class"] = np.bytes_("cell")
                    last = d
                names["m/c%s%d" % (t, n - 1)] = "%d nested cells (%s)" % (n, t)
            names["m/groups"] = "%d nested groups" % n
            x = g.create_group("dicts")
            for i in range(n):
                x.attrs["Python.Type"] = "dict"
                x = x.create_group("a")
            names["m/dicts"] = "%d nested dicts" % n
            dt = np.dtype("i4")
            for i in range(min(n, 25)):
                dt = np.dtype([("a", dt)])
            g.create_dataset("comp", shape=(2,), dtype=dt)
            names["m/comp"] = "nested compounds"
        read_all(res, fn, names, "both", "nesting", case, ("r", "w", "d"))
    finally:
        common.rmfile(fn)


def trunc_case(res, case):
    """files cut off at every multiple of a step cannot be opened or are readable."""
    fn = common.newfile()
    try:
        start(fn, case["base"], "both")
        with open(fn, "rb") as f:
            data = f.read()
        for n in range(case["start"], len(data), case["step"]):
            with open(fn, "wb") as f:
                f.write(data[:n])
            label = "%s cut off at %d of %d bytes" % (case["base"], n, len(data))
            for f, kw in ((hdf5storage.read, {"path": "v"}), (hdf5storage.reads, {"paths": ["ok", "v"]})):
                _rec["events"] = []
                _rec["on"] = True
                try:
                    f(filename=fn, **kw)
                    out = "value"
                except Exception as e:
                    out = type(e).__name__
                finally:
                    _rec["on"] = False
                if _rec["events"]:
                    res.bad("event:" + label, "%s: %s" % (label, _rec["events"][:3]), case)
                res.count("evaluations")
                res.seen("nontrivial", (case["base"], n, out))
            with open(fn, "rb") as f:
                if f.read() != data[:n]:
                    res.bad("bytes:" + label, label + ": reading changed it", case)
    finally:
        common.rmfile(fn)


PAIRS = [("Python.Type", "MATLAB_class"), ("Python.Shape", "Python.numpy.UnderlyingType"),
         ("Python.numpy.Container", "Python.numpy.UnderlyingType"), ("Python.Shape", "Python.Empty"),
         ("MATLAB_class", "MATLAB_empty"), ("Python.Fields", "Python.numpy.Container"),
         ("MATLAB_fields", "Python.Fields"), ("MATLAB_class", "MATLAB_int_decode"),
         ("Python.dict.StoredAs", "Python.dict.keys_values_names"), ("Python.Type", "Python.dict.key_str_types"),
         ("Python.Empty", "MATLAB_empty"), ("Python.Type", "Python.numpy.Container")]
SUBSET = ["del", "int0", "int1", "int-1", "float", "emptybytes", "bytes", "str", "shape0", "shape-1", "shape23",
          "shapebig", "Sarr", "Sarr2d", "compound", "vref", "vls", "vlchars", "vlint", "emptyspace", "bools"]
SUBSETQ = ["del", "int1", "int-1", "emptybytes", "bytes", "shape0", "shape23", "shapebig", "Sarr", "vref", "vls",
           "vlchars", "emptyspace"]


REP = {"int", "str", "list", "dict", "kvdict", "chainmap", "datetime", "fraction", "slice", "dtype", "array", "scalar",
       "complexes", "empty", "matrix", "strs", "objs", "recarray", "struct", "structobj", "emptystruct", "structscalar"}


def cases(tier, seed):
    full = tier != "quick"
    out = []
    for b in BASES:
        for p in PROFILES:
            if not full and b not in REP and p != "both":
                continue
            if not full and p in ("neither",) and b not in ("dict", "objs", "array", "struct"):
                continue
            if p == "struct" and not b.startswith(("struct", "rec", "empty")):
                continue
            for a in ATTRS:
                if a == "Other" and (p != "both" or b not in ("int", "dict", "objs")):
                    continue
                if not full and (p == "matlab" and a.startswith("Python.") and a != "Python.Type"
                                 or p == "python" and a in ("H5PATH", "MATLAB_int_decode", "MATLAB_fields")):
                    continue
                m = ("r", "w") if not full else ("r", "w", "n", "d")
                if not full:
                    m = ("r",) if p != "both" else ("w",)
                out.append({"k": "attr", "base": b, "profile": p, "attr": a, "modes": m})
            if full or p in ("both", "matlab") and b != "tzdatetime" or b in ("dict", "kvdict", "objs", "structobj"):
                out.append({"k": "struct", "base": b, "profile": p, "heavy": 0,
                            "modes": ("r", "w", "d") if full else ("w", "d") if b in REP and p == "both" and b != "datetime"
                            else ("r",)})
            if full or p == "both":
                out.append({"k": "struct", "base": b, "profile": p, "heavy": 1,
                            "modes": ("r", "w", "d") if full else ("w",)})
            for s in (0, 1):
                if full or (p == "both" and (b in REP or not s)):
                    out.append({"k": "type", "base": b, "profile": p, "strip": s,
                                "modes": ("r", "w", "n", "d") if full else ("r",) if s else ("d",)})
    for a, a2 in PAIRS:
        for b in BASES if full else ("array", "dict", "kvdict", "objs", "structobj", "strs", "empty", "structscalar"):
            out.append({"k": "attr", "base": b, "profile": "both", "attr": a, "attr2": a2, "modes": ("r",),
                        "sub": SUBSETQ if not full else None if b in ("array", "dict", "objs") else SUBSET})
    for p in PROFILES:
        out.append({"k": "dtype", "profile": p})
    for d in (5, 150) + (450, 1500) * full:
        out.append({"k": "deep", "depth": d})
    for b in ("dict", "objs", "array"):
        for i in range(8):
            step = 256 if not full else 16
            out.append({"k": "trunc", "base": b, "start": i * step // 8, "step": step})
    return out


RUN = {"attr": attr_case, "type": type_case, "struct": struct_case, "dtype": dtype_case, "deep": deep_case,
       "trunc": trunc_case}


def run_case(case):
    res = common.Res()
    install()
    d = os.path.join(common.scratch(), "cwd")
    os.makedirs(d, exist_ok=True)
    old = os.getcwd()
    os.chdir(d)
    try:
        RUN[case["k"]](res, case)
    finally:
        os.chdir(old)
    res.samples.append(case)
    return res


def coverage(res, tier):
    return common.cov_exploration(
        res, "every attribute of every kind of stored object x every malformed value, structural changes, claimed "
             "types, nesting, truncation; pairs of attributes on %s" % ("representatives" if tier == "quick" else "all"))
