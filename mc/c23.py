"""C23: user marshallers made of the documented building blocks work wherever built-in types do."""
import collections
import fractions
import itertools

import h5py
import numpy as np

import hdf5storage
import hdf5storage.Marshallers as HM

from . import c01, common, h5dump, optsets
from . import values as V

PROP = "C23"
LEVEL = "exploration"
ASSUMPTIONS = ["what a file holds for a user's type after its marshaller is gone is not specified beyond not failing for the others",
               "errors of a marshaller's read inside of a dict or struct are not specified to be passed on"]
LOG = []
PROBLEMS = []


# ------------------------------------------------------------------ types

def show(t, x):
    return "<%s %r>" % (t.__name__, V.canon(x))


class SubList(list):
    base = list

    def __repr__(self):
        return show(SubList, list(self))


class SubDict(dict):
    base = dict

    def __repr__(self):
        return show(SubDict, dict(self))


class Quant(np.ndarray):
    def __repr__(self):
        return show(Quant, np.asarray(self))


class Meters(float):
    def __repr__(self):
        return show(Meters, float(self))


class Ident(int):
    def __repr__(self):
        return show(Ident, int(self))


class Label(str):
    def __repr__(self):
        return show(Label, str(self))

    __hash__ = str.__hash__


class Blob(bytes):
    def __repr__(self):
        return show(Blob, bytes(self))


class Nil:
    def __repr__(self):
        return "<Nil>"


class Span:
    def __init__(self, start=None, stop=None, step=None):
        self.start, self.stop, self.step = start, stop, step

    def __repr__(self):
        return show(Span, slice(self.start, self.stop, self.step))


class Maps(collections.ChainMap):
    def __repr__(self):
        return show(Maps, collections.ChainMap(*self.maps))


class Point:
    def __init__(self, *c):
        self.c = c

    def __repr__(self):
        return show(Point, self.c)


class Comp:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __repr__(self):
        return show(Comp, (self.a, self.b, self.c))


class Ratio:
    def __init__(self, numerator, denominator):
        self.numerator, self.denominator = numerator, denominator

    def __repr__(self):
        return show(Ratio, (self.numerator, self.denominator))


class Gone:
    pass


class Boom(Exception):
    pass


class Bad:
    def __init__(self):
        self.e = Boom("x")


# ------------------------------------------------------------- marshallers

def problem(s):
    if s not in PROBLEMS:
        PROBLEMS.append(s)


class Watch:
    """Checks what the methods are called with."""

    def see_write(self, f, grp, name, data, type_string):
        if type(f) is not hdf5storage.utilities.LowLevelFile:
            problem("write was given %r as the file" % (f,))
        if not isinstance(grp, h5py.Group) or grp.file != f.f:
            problem("write was given %r as the Group" % (grp,))
        if type(name) is not str or "/" in name or not name:
            problem("write was given %r as the name" % (name,))
        if type_string is not None:
            problem("write was given the type string %r" % (type_string,))
        if f.options.marshaller_collection.get_marshaller_for_type(type(data))[0] is not self:
            problem("write was given a %r" % (type(data),))
        LOG.append(("w", id(data)))

    def see_read(self, f, dsetgrp, attributes):
        if type(f) is not hdf5storage.utilities.LowLevelFile:
            problem("read was given %r as the file" % (f,))
        if not isinstance(dsetgrp, (h5py.Dataset, h5py.Group)):
            problem("read was given %r as the object" % (dsetgrp,))
        a = h5dump.attrs_desc(dsetgrp)
        b = tuple(sorted((k, h5dump.val_desc(v)) for k, v in attributes.items() if v is not None))
        if a != b:
            problem("read was given the attributes %r of an object having %r" % (b, a))
        if attributes["no such attribute"] is not None:
            problem("a missing attribute is not None")
        del attributes["no such attribute"]
        LOG.append(("r", dsetgrp.name))


def mk(base, t, conv=None, back=None, as_str=False, string=None, write=None, read=None, classes=()):
    class M(Watch, base):
        def __init__(self):
            base.__init__(self)
            self.types = (t.__module__ + "." + t.__name__,) if as_str else (t,)
            self.python_type_strings = (string or "hmc." + t.__name__,)
            self.matlab_classes = classes
            self.update_type_lookups()

        def write(self, f, grp, name, data, type_string):
            self.see_write(f, grp, name, data, type_string)
            if write is not None:
                return write(self, f, grp, name, data, type_string)
            d = data if conv is None else conv(data)
            return base.write(self, f, grp, name, d, self.get_type_string(data, type_string))

        def read(self, f, dsetgrp, attributes):
            self.see_read(f, dsetgrp, attributes)
            if read is not None:
                return read(self, f, dsetgrp, attributes)
            v = base.read(self, f, dsetgrp, attributes)
            return v if back is None else back(v)
    return M()


MYATTRS = {"My.S": ("string", "x y"), "My.V": ("value", np.int32([1, 2])), "My.A": ("string_array", ["\xe9", "b", ""]),
           "My.F": ("value", np.float64(0.5))}


def comp_write(self, f, grp, name, data, type_string):
    if name in grp:
        del grp[name]
    g = grp.create_group(name)
    f.write_data(g, "a", data.a, None)
    f.write_data(g, "b", list(data.b), "tuple")
    c = np.empty((len(data.c),), dtype=object)
    for i, x in enumerate(data.c):
        c[i] = x
    r = f.write_object_array(c)
    if not isinstance(r, np.ndarray) or h5py.check_dtype(ref=r.dtype) is None or r.shape != c.shape:
        problem("write_object_array returned %r" % (r,))
    g.create_dataset("c", data=r)
    self.write_metadata(f, g, data, type_string, dict(MYATTRS))
    check_attrs({k: v for k, v in g.attrs.items()})
    want = set(MYATTRS) | ({"Python.Type"} if f.options.store_python_metadata else set())
    if set(g.attrs) != want:
        problem("write_metadata stored the attributes %r, not %r" % (sorted(g.attrs), sorted(want)))
    return g


def check_attrs(attributes):
    for k, (kind, v) in MYATTRS.items():
        w = attributes.get(k)
        if kind == "string":
            ok = hdf5storage.utilities.convert_attribute_to_string(w) == v
        elif kind == "value":
            ok = np.asarray(w).dtype == v.dtype and np.array_equal(w, v)
        else:
            ok = w is not None and hdf5storage.utilities.convert_attribute_to_string_array(w) == v
        if not ok:
            problem("the attribute %s: %r was stored as %r" % (k, v, w))


def comp_read(self, f, g, attributes):
    check_attrs(attributes)
    a = f.read_data(g, "a")
    b = f.read_data(None, None, dsetgrp=g["b"])
    c = f.read_object_array(g["c"][...])
    if type(b) is not tuple:
        problem("an object written with the type string 'tuple' was read as %r" % (type(b),))
    return Comp(a, b, list(c))


def raise_it(self, f, grp, name, data, type_string):
    raise data.e


def payloads(kind):
    """Values of the user's type as (thunk, base thunk or None)."""
    lists = [lambda: [], lambda: [1, "a", None], lambda: [[1.5], {"k": b"x"}], lambda: [np.arange(3), np.str_("\xe9")]]
    if kind in ("list", "liststr"):
        return [(lambda p=p: SubList(p()), p) for p in lists]
    if kind == "point":
        return [(lambda p=p: Point(*p()), lambda p=p: tuple(p())) for p in lists]
    if kind == "dict":
        return [(lambda p=p: SubDict(p()), p) for p in (lambda: {}, lambda: {"a": 1, "b/c": [2]}, lambda: {1: 2, (3,): "x"},
                                                      lambda: {b"k": {"n": 1}, "k2": np.float32(1)})]
    if kind == "nd":
        return [(lambda d=d, s=s: V.fill(d, s).view(Quant), lambda d=d, s=s: V.fill(d, s))
                for d in ("f8", "c16", "?", "S3", "U2", "O", "u1") for s in ((), (3,), (2, 3), (2, 0, 3)) if s not in ((), (3,)) or d in ("f8", "O", "S3")]
    if kind == "float":
        return [(lambda x=x: Meters(x), lambda x=x: x) for x in (0.0, -0.0, 1.5, float("inf"), float("nan"))]
    if kind == "int":
        return [(lambda x=x: Ident(x), lambda x=x: x) for x in (0, -1, 2**63 - 1, 2**64, -2**70)]
    if kind == "str":
        return [(lambda x=x: Label(x), lambda x=x: x) for x in ("", "abc", "\xe9\u4f60", "\U0001f600", "a\x00")]
    if kind == "bytes":
        return [(lambda x=x: Blob(x), lambda x=x: x) for x in (b"", b"abc", b"\xff\x00")]
    if kind == "nil":
        return [(Nil, lambda: None)]
    if kind == "span":
        return [(lambda x=x: Span(*x), lambda x=x: slice(*x)) for x in ((None, None, None), (1, 2, 3), ("a", [1], None))]
    if kind == "maps":
        return [(lambda p=p: Maps(*p()), lambda p=p: collections.ChainMap(*p())) for p in (
            lambda: [{}], lambda: [{"a": 1}, {1: 2}])]
    if kind == "ratio":
        return [(lambda x=x: Ratio(*x), lambda x=x: fractions.Fraction(*x)) for x in ((1, 3), (-2**70, 3))]
    if kind == "comp":
        return [(lambda p=p: Comp(*p()), None) for p in (
            lambda: (1, (), []), lambda: ("x", (1, "b"), [None, [1], {"k": 2}]), lambda: (np.arange(3), ([],), ["a"] * 20),
            lambda: (SubList([1, Meters(2)]), (Point(1, 2),), [Comp(None, (1,), [Label("q")]), Nil()]))]
    raise KeyError(kind)


KINDS = {
    "list": lambda: mk(HM.PythonTupleSetDequeMarshaller, SubList, read=lambda s, f, d, a: SubList(HM.PythonListMarshaller.read(s, f, d, a)),
                       write=lambda s, f, g, n, d, t: HM.PythonTupleSetDequeMarshaller.write(s, f, g, n, d, t)),
    "liststr": lambda: mk(HM.PythonListMarshaller, SubList, list, SubList, as_str=True),
    "point": lambda: mk(HM.PythonListMarshaller, Point, back=lambda v: Point(*v),
                        write=lambda s, f, g, n, d, t: f.write_data(g, n, d.c, s.get_type_string(d, t))),
    "dict": lambda: mk(HM.PythonDictMarshaller, SubDict, dict, SubDict),
    "nd": lambda: mk(HM.NumpyScalarArrayMarshaller, Quant, back=lambda v: v.view(Quant)),
    "float": lambda: mk(HM.PythonScalarMarshaller, Meters, float),
    "int": lambda: mk(HM.PythonScalarMarshaller, Ident, int),
    "str": lambda: mk(HM.PythonStringMarshaller, Label,
                      write=lambda s, f, g, n, d, t: f.write_data(g, n, str(d), s.get_type_string(d, t)),
                      read=lambda s, f, d, a: Label(HM.PythonStringMarshaller.read(s, f, d, dd(a, b"str")))),
    "bytes": lambda: mk(HM.PythonStringMarshaller, Blob,
                        read=lambda s, f, d, a: Blob(HM.PythonStringMarshaller.read(s, f, d, dd(a, b"bytes")))),
    "nil": lambda: mk(HM.PythonNoneEllipsisNotImplementedMarshaller, Nil),
    "span": lambda: mk(HM.PythonSliceRangeMarshaller, Span),
    "maps": lambda: mk(HM.PythonChainMapMarshaller, Maps, back=lambda v: Maps(*v.maps)),
    "ratio": lambda: mk(HM.PythonFractionMarshaller, Ratio, back=lambda v: Ratio(v.numerator, v.denominator), as_str=True),
    "comp": lambda: mk(HM.TypeMarshaller, Comp, write=comp_write, read=comp_read),
}
BASETYPE = {"list": "list", "liststr": "list", "point": "tuple", "dict": "dict", "nd": "numpy.ndarray", "float": "float", "int": "int",
            "str": "str", "bytes": "bytes", "nil": "builtins.NoneType", "span": "slice", "maps": "collections.ChainMap", "ratio": "fractions.Fraction"}
CLS = {"list": SubList, "liststr": SubList, "point": Point, "dict": SubDict, "nd": Quant, "float": Meters, "int": Ident, "str": Label,
       "bytes": Blob, "nil": Nil, "span": Span, "maps": Maps, "ratio": Ratio, "comp": Comp}


def dd(a, t):
    out = collections.defaultdict(type(None), a)
    out["Python.Type"] = t
    return out


def collection(reg, extra=()):
    ms = [KINDS[k]() for k in KINDS if k != ("list" if reg["liststr"] else "liststr")] + list(extra)
    return hdf5storage.MarshallerCollection(priority=PRIOS[reg["prio"]], marshallers=ms, lazy_loading=reg["lazy"])


PRIOS = list(itertools.permutations(("builtin", "plugin", "user")))


def opened(fn, opts, mc, how, writable=True):
    if how == "options":
        return hdf5storage.File(fn, writable=writable, options=hdf5storage.Options(marshaller_collection=mc, **opts))
    if how == "keywords":
        return hdf5storage.File(fn, writable=writable, marshaller_collection=mc, **opts)
    return hdf5storage.File(fn, writable=writable, **opts)  # the default collection


def renamed(d, table):
    if isinstance(d, tuple):
        if len(d) == 2 and d[0] == "Python.Type" and d in table:
            return table[d]
        return tuple(renamed(x, table) for x in d)
    return d


def rename_table():
    t = {}
    for k, b in BASETYPE.items():
        t[("Python.Type", h5dump.val_desc(np.bytes_("hmc." + CLS[k].__name__)))] = ("Python.Type", h5dump.val_desc(np.bytes_(b)))
    return t


TABLE = rename_table()
# Two extra containers of the user's own types.
OUTER = dict(c01.OUTER, none=lambda v: v(), inlist=lambda v: SubList([v(), 1]), indict=lambda v: SubDict({"k": v(), 1: v()}),
             incomp=lambda v: Comp(v(), (v(),), [v(), 2]), inmaps=lambda v: Maps({"k": v()}))
BASEOUTER = dict(c01.OUTER, none=lambda v: v(), inlist=lambda v: [v(), 1], indict=lambda v: {"k": v(), 1: v()},
                 incomp=None, inmaps=lambda v: collections.ChainMap({"k": v()}))
KEYED = {"key": lambda v: {v(): 1, 2: 3}, "elem": lambda v: frozenset([v(), 3]), "set": lambda v: {v()},
         "odkey": lambda v: collections.OrderedDict([(v(), [v()])]), "counter": lambda v: collections.Counter({v(): 2})}
OUTER.update(KEYED)
BASEOUTER.update(dict.fromkeys(KEYED))


def hashable(kind):
    return kind in ("float", "int", "str", "bytes", "nil", "span", "point", "comp", "ratio")


def dumped(fn, path, refs):
    return h5dump.dump(fn, path, refs)


def case_contexts(res, case):
    """Round trips and structure in all contexts."""
    opts = dict(optsets.get(case["opts"]), **case.get("extra", {}))
    mc = collection(case["reg"])
    how = case["how"]
    kind = case["kind"]
    refs = opts.get("group_for_references", "/#refs#")
    if how == "default":
        hdf5storage.make_new_default_marshaller_collection(
            priority=PRIOS[case["reg"]["prio"]], lazy_loading=case["reg"]["lazy"], marshallers=[m for m in mc._user_marshallers])
    fn, fb = common.newfile(), common.newfile()
    meta = opts.get("store_python_metadata", True)

    def bad(what, msg):
        res.bad("%s:%s:%s" % (kind, what, case["opts"]), "%s %s: %s" % (json_of(case), what, msg), case)
    try:
        specs = [(o, i) for o in case["outers"] for i in range(len(payloads(kind)))
                 if not case.get("few") or i in (0, 1, 4)]
        f = opened(fn, opts, mc, how)
        b = hdf5storage.File(fb, writable=True, **opts)
        written = []
        try:
            for o, i in specs:
                pth = "/%s_%d" % (o, i)
                del PROBLEMS[:], LOG[:]
                u, p = payloads(kind)[i]
                if (o in c01.FIELDWISE and kind == "nd") or (o in KEYED and not hashable(kind)):
                    continue
                val = OUTER[o](u)
                cerr = None
                if p is not None and BASEOUTER[o] is not None:
                    try:
                        b.write(BASEOUTER[o](p), pth)
                    except Exception as e:
                        cerr = e
                try:
                    f.write(val, pth)
                except Exception as e:
                    if type(e) is not type(cerr):
                        bad("%s %d" % (o, i), "write raised " + common.exc_str(e))
                    continue
                if cerr is not None:
                    bad("%s %d" % (o, i), "write did not raise but with the built-in type: " + common.exc_str(cerr))
                for x in PROBLEMS:
                    bad("%s %d" % (o, i), x)
                if not LOG:
                    bad("%s %d" % (o, i), "its marshaller was not used for writing")
                written.append((o, i, pth))
        finally:
            f.close()
            b.close()
        with h5py.File(fn, "r") as hf, h5py.File(fb, "r") as hb:
            for o, i, pth in written:
                if pth not in hb:
                    continue
                x = renamed(h5dump.dump(hf, pth, refs), TABLE)
                y = h5dump.dump(hb, pth, refs)
                res.count("evaluations")
                if x != y:
                    bad("%s %d" % (o, i), "stored differently from the built-in type: %s" % (h5dump.diff(x, y),))
                elif not meta:
                    res.seen("nontrivial", (kind, o, i, case["opts"], how, False))
        if not meta:
            return
        r = opened(fn, opts, mc, how, False)
        try:
            for o, i, pth in written:
                del PROBLEMS[:], LOG[:]
                res.count("evaluations")
                try:
                    v = r.read(pth)
                except Exception as e:
                    bad("%s %d" % (o, i), "read raised " + common.exc_str(e))
                    continue
                d = V.eq(OUTER[o](payloads(kind)[i][0]), v)
                if d:
                    bad("%s %d" % (o, i), d)
                for x in PROBLEMS:
                    bad("%s %d" % (o, i), x)
                if not LOG:
                    bad("%s %d" % (o, i), "its marshaller was not used for reading")
                if not d and not PROBLEMS:
                    res.seen("nontrivial", (kind, o, i, case["opts"], how, str(case["reg"])))
        finally:
            r.close()
        if written:
            res.samples.append({"kind": kind, "context": written[0][0], "payload": written[0][1], "options": case["opts"], "how": how})
    finally:
        common.rmfile(fn, fb)
        if how == "default":
            hdf5storage.make_new_default_marshaller_collection()


def json_of(case):
    import json
    return json.dumps(case, sort_keys=True)


def case_overwrite(res, case):
    """Ordered pairs at one path: the result is that of a fresh file."""
    # Without deleting, what was in a Group may stay.
    opts = dict(optsets.get(case["opts"]), delete_unused_variables=True)
    refs = opts.get("group_for_references", "/#refs#")
    reg = {"prio": 0, "lazy": True, "liststr": False}
    mc = collection(reg)
    allv = overvalues()
    first = case["first"]
    for second in allv:
        fn, fb = common.newfile(), common.newfile()
        try:
            del PROBLEMS[:]
            with opened(fn, opts, mc, "options") as f:
                f.write("n", "/n")
                f.write(allv[first](), case["path"])
                f.write(allv[second](), case["path"])
                v = f.read(case["path"])
                n = f.read("/n")
            with opened(fb, opts, mc, "options") as f:
                f.write(allv[second](), case["path"])
            res.count("evaluations")
            d = V.eq(allv[second](), v) or (n != "n" and "a neighbour changed") or (PROBLEMS and PROBLEMS[0])
            x, y = dumped(fn, case["path"], refs), dumped(fb, case["path"], refs)
            if not d and x != y:
                d = "stored differently from a fresh write: %s" % (h5dump.diff(x, y),)
        except Exception as e:
            d = common.exc_str(e)
        finally:
            common.rmfile(fn, fb)
        if d:
            res.bad("over:%s:%s:%s" % (first, second, case["opts"]), "%s over %s (%s): %s" % (second, first, case["opts"], d), case)
        else:
            res.seen("nontrivial", ("over", first, second, case["opts"], case["path"]))


def overvalues():
    out = collections.OrderedDict()
    for k in KINDS:
        if k == "liststr":
            continue
        ps = payloads(k)
        for i in sorted({0, 1, len(ps) - 1} & set(range(len(ps)))):
            out["%s%d" % (k, i)] = ps[i][0]
    out.update({"i": lambda: 3, "s": lambda: "str", "d": lambda: {"a": 1, "b": [1]}, "l": lambda: [1, 2],
                "a": lambda: np.arange(6.0).reshape(2, 3), "st": lambda: V.fill([("x", "O")], (2,))})
    return out


def case_special(res, case):
    """Marshallers that discard, raise, or take over built-in types."""
    opts = dict(optsets.get(case["opts"]))
    refs = opts.get("group_for_references", "/#refs#")
    o = case["outer"]
    sub = case["sub"]
    fn, fb = common.newfile(), common.newfile()

    def bad(msg):
        res.bad("%s:%s:%s" % (sub, o, case["opts"]), "%s: %s" % (json_of(case), msg), case)
    del PROBLEMS[:], LOG[:]
    reg = {"prio": case["prio"], "lazy": True, "liststr": False}
    try:
        if sub == "discard":
            # In MATLAB mode discarding is what the built-in types do too.
            mc = collection(reg, [mk(HM.TypeMarshaller, Gone, write=lambda *a: None)])
            with opened(fn, opts, mc, "options") as f:
                f.write("n", "/n")
                f.write(OUTER[o](Gone), "/v")
                f.write("m", "/m")
                nm = f.read("/n") + f.read("/m")
            with opened(fb, dict(opts, action_for_matlab_incompatible="discard"), collection(reg), "options") as f:
                f.write(OUTER[o](lambda: np.float16(1)), "/v")
            if nm != "nm":
                bad("neighbours changed: %r" % (nm,))
            res.count("evaluations")
            x, y = dumped(fn, "/v", refs), dumped(fb, "/v", refs)
            if x != y:
                bad("a discarded object is stored differently: %s" % (h5dump.diff(x, y),))
        elif sub == "raise":
            mc = collection(reg, [mk(HM.TypeMarshaller, Bad, write=raise_it)])
            b = Bad()
            with opened(fn, opts, mc, "options") as f:
                f.write([1, {"a": "n"}], "/n")
                for k in range(2):
                    try:
                        f.write(OUTER[o](lambda: b), "/v")
                        bad("the exception of write did not reach the caller")
                    except Boom as e:
                        if e is not b.e:
                            bad("another exception reached the caller")
                    except Exception as e:
                        bad("write raised %s" % common.exc_str(e))
                    if V.eq([1, {"a": "n"}], f.read("/n")):
                        bad("a neighbour changed")
                f.write(OUTER[o](lambda: Meters(2)), "/v")
                d = V.eq(OUTER[o](lambda: Meters(2)), f.read("/v"))
                if d:
                    bad("writing after an exception: " + d)
            with opened(fb, opts, mc, "options") as f:
                f.write(OUTER[o](lambda: Meters(2)), "/v")
            res.count("evaluations")
            x, y = dumped(fn, "/v", refs), dumped(fb, "/v", refs)
            if x != y:
                bad("after an exception stored differently: %s" % (h5dump.diff(x, y),))
        elif sub in TAKE:
            # A user's marshaller for a built-in type with the priority over it or not.
            t, m = TAKE[sub]
            mc = hdf5storage.MarshallerCollection(priority=PRIOS[case["prio"]], marshallers=[m()])
            mine = PRIOS[case["prio"]].index("user") < PRIOS[case["prio"]].index("builtin")
            for leaf in TAKEN[sub]:
                make = lambda: c01.OUTER[o](leaf) if o != "none" else leaf()
                del LOG[:]
                with opened(fn, opts, mc, "options") as f:
                    f.write(make(), "/v")
                    nw = len(LOG)
                    back = f.read("/v")
                kinds = types_in(fn)
                res.count("evaluations")
                want = ("hmc.taken" if mine else t.__name__)
                other = (t.__name__ if mine else "hmc.taken")
                if other in kinds or want not in kinds:
                    bad("the types stored are %r" % (sorted(kinds),))
                if bool(nw) != mine or (mine and nw != kinds[want]):
                    bad("its marshaller was used %d times for %d objects" % (nw, kinds.get(want, 0)))
                if mine and len(LOG) - nw < 1:
                    bad("its marshaller was not used for reading")
                d = V.eq(make(), back)
                if d:
                    bad("reading: " + d)
                common.rmfile(fn)
        elif sub == "class":
            # MATLAB classes read by a user's marshaller, in files without metadata.
            for cls, leaf in CLASSES.items():
                make = lambda: c01.OUTER[o](leaf) if o != "none" else leaf()
                with hdf5storage.File(fn, writable=True, **dict(opts, store_python_metadata=False)) as f:
                    f.write(make(), "/v")
                m = mk(HM.TypeMarshaller, Gone, classes=(cls,), read=lambda s, f, d, a: d.name)
                mc = hdf5storage.MarshallerCollection(priority=PRIOS[case["prio"]], marshallers=[m])
                # No built-in marshaller is registered for structs.
                mine = cls == "struct" or PRIOS[case["prio"]].index("user") < PRIOS[case["prio"]].index("builtin")
                del LOG[:]
                with opened(fn, opts, mc, "options", False) as f:
                    v = f.read("/v")
                names = [n for _, n in LOG]
                with h5py.File(fn, "r") as h:
                    want = set()
                    outermost(h["/v"], cls.encode(), want)
                res.count("evaluations")
                if mine and (set(names) != want or len(names) != len(want)):
                    bad("objects of class %s: its marshaller read %r, not %r" % (cls, sorted(names), sorted(want)))
                if not mine and names:
                    bad("objects of class %s were read by it: %r" % (cls, names))
                if mine and "/v" in want and v != "/v":
                    bad("reading an object of class %s returned %r" % (cls, v))
                common.rmfile(fn)
        for x in PROBLEMS:
            bad(x)
        if not res.problems:
            res.seen("nontrivial", json_of(case))
    finally:
        common.rmfile(fn, fb)


def outermost(o, cls, out):
    """Objects of the class that are not inside of one of it."""
    c = o.attrs.get("MATLAB_class")
    if c is not None and bytes(c) == cls if not isinstance(c, str) else c.encode() == cls:
        out.add(o.name)
        return
    if isinstance(o, h5py.Group):
        for k in o:
            outermost(o[k], cls, out)
    elif h5py.check_dtype(ref=o.dtype) is not None:
        for r in np.asarray(o[()]).ravel().tolist():
            outermost(o.file[r], cls, out)


def types_in(fn):
    n = collections.Counter()

    def visit(name, o):
        t = o.attrs.get("Python.Type")
        if t is not None:
            n[t.decode() if isinstance(t, bytes) else str(t)] += 1
    with h5py.File(fn, "r") as f:
        f.visititems(visit)
    return n


def taken(base, t, conv, back):
    return lambda: mk(base, t, string="hmc.taken",
                      write=lambda s, f, g, n, d, ts: base.write(s, f, g, n, conv(d), "hmc.taken"),
                      read=lambda s, f, d, a: back(base.read(s, f, d, a)))


def _tolist(v):
    return list(v)


TAKE = {
    "t:float": (float, taken(HM.NumpyScalarArrayMarshaller, float, lambda d: np.bytes_(d.hex().encode()), lambda v: float.fromhex(v.decode()))),
    "t:str": (str, taken(HM.NumpyScalarArrayMarshaller, str, lambda d: np.frombuffer(d.encode() + b"!", dtype=np.uint8),
                         lambda v: v.tobytes()[:-1].decode())),
    "t:list": (list, taken(HM.PythonListMarshaller, list, lambda d: d[::-1], lambda v: v[::-1])),
    "t:tuple": (tuple, taken(HM.PythonListMarshaller, tuple, lambda d: list(d) + ["end"], lambda v: tuple(v[:-1]))),
    "t:dict": (dict, taken(HM.PythonListMarshaller, dict, lambda d: [list(d), list(d.values())], lambda v: dict(zip(*v)))),
}
TAKEN = {"t:float": [lambda: 1.5, lambda: [0.25, {"q": 2.5}]], "t:str": [lambda: "a\xe9", lambda: ["", {"a": "b"}]],
         "t:list": [lambda: [1, [2]], lambda: {"a": [[], 1]}], "t:tuple": [lambda: (1, (2,)), lambda: [(), 3]],
         "t:dict": [lambda: {"a": {1: 2}}, lambda: [{}, {"x": 1}]]}
CLASSES = {"double": lambda: 1.5, "char": lambda: "abc", "cell": lambda: [1, 2.0], "struct": lambda: {"a": 1.0},
           "logical": lambda: True, "int64": lambda: 7, "uint8": lambda: np.uint8([1, 2])}


def run_case(case):
    res = common.Res()
    if case["t"] == "ctx":
        case_contexts(res, case)
    elif case["t"] == "over":
        case_overwrite(res, case)
    else:
        case_special(res, case)
    return res


def cases(tier, seed):
    out = []
    profs = ["matlab", "plain", "allon", "odd", "odd2", "tiny", "matcol"]
    regs = [{"prio": p, "lazy": bool(l), "liststr": bool(s)} for p in range(6) for l in (0, 1) for s in (0, 1)]
    hows = ("options", "keywords", "default")
    outers = list(OUTER)
    for kind in KINDS:
        for o in profs + (["f%d" % b for b in range(128)] if tier == "thorough" else ["f%d" % b for b in range(1, 127, 27)]):
            for j in range(0, len(outers), 5 if kind == "nd" else 10):
                use = outers[j:j + (5 if kind == "nd" else 10)]
                for meta in (True, False):
                    if tier == "quick" and not meta and o not in ("matlab", "plain", "allon"):
                        continue
                    out.append({"t": "ctx", "kind": kind, "opts": o, "outers": use, "how": "options", "extra": {"store_python_metadata": meta},
                                "reg": {"prio": 0, "lazy": True, "liststr": kind == "liststr"}})
        for r in regs:
            if r["liststr"] != (kind == "liststr"):
                if kind in ("list", "liststr"):
                    continue
            for how in hows if tier == "thorough" or (r["lazy"] and not r["liststr"]) else hows[:1]:
                for o in ("matlab", "plain"):
                    out.append({"t": "ctx", "kind": kind, "opts": o, "outers": ["list3", "kvval"], "how": how, "few": True,
                                "reg": r})
    for o in profs:
        for path in ("/v", "/g/h/v"):
            if tier == "quick" and path != "/v" and o not in ("matlab", "plain"):
                continue
            for first in overvalues():
                out.append({"t": "over", "opts": o, "path": path, "first": first})
    for o in profs:
        for outer in OUTER:
            if outer in KEYED:
                continue
            for prio in range(6):
                if o in ("matlab", "matcol") and prio == 0:
                    out.append({"t": "x", "sub": "discard", "opts": o, "outer": outer, "prio": prio})
                if prio == 0:
                    out.append({"t": "x", "sub": "raise", "opts": o, "outer": outer, "prio": prio})
                if outer in c01.OUTER or outer == "none":
                    for s in TAKE:
                        out.append({"t": "x", "sub": s, "opts": o, "outer": outer, "prio": prio})
                    if o in ("matlab", "matcol"):
                        out.append({"t": "x", "sub": "class", "opts": o, "outer": outer, "prio": prio})
    return out


def coverage(res, tier):
    return common.cov_exploration(
        res, "14 user types (marshallers derived from every built-in one and from the base class, converting, nesting, overriding the type "
        "string) x payloads x 25 containers x option profiles x ways to register, with and without metadata; all ordered pairs of values "
        "at one path; marshallers that discard, raise, take over a built-in type or a MATLAB class, in every container and priority order. "
        "Oracles: strict identity of what is read, the arguments given to the methods, the structure stored for the built-in type with the "
        "type string exchanged; non-trivial = distinct combinations that held")
