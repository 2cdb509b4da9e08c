"""C17: the module-level functions against the File methods.

Every call of the enumerated argument space is made twice from the same start:
through the function on one copy of the file, and through File on another.
Files (full dump and userblock), values, exceptions and what was handed to
SciPy (a stand-in which records) have to agree, and nothing stays open.
"""
import collections
import itertools
import os
import pathlib
import re
import shutil
import sys
import types

import h5py
import numpy as np

import hdf5storage

from . import common, h5dump, values

PROP = "C17"
LEVEL = "model_checking"
ASSUMPTIONS = ["SciPy is replaced by a stand-in that records its arguments",
               "the File methods are judged by the other properties",
               "a variable that is asked for by name and present but unreadable may be left out or raise",
               "the creation time in the MATLAB header is not compared"]

VALS = collections.OrderedDict([
    ("float", 2.5), ("oned", np.arange(3.0)), ("f16", np.float16(2)), ("str", "abé"), ("dict", {"k": 1, "l": [1, "x"]}),
    ("objs", [1, "a", None]), ("empty", np.zeros((0, 2))), ("bytes", b"xy"), ("twod", np.arange(6).reshape(2, 3)),
    ("bad", object()), ("big", np.zeros(4000)), ("cplx", np.array([1 + 2j, 3j])),
    ("struct", np.array([(1, 2.0)], dtype=[("x", "i4"), ("y", "f8")])), ("bools", np.array([True, False]))])
SETS = [["float"], ["oned", "str"], ["dict", "objs"], ["f16"], ["oned", "f16", "bytes"], [], ["float", "bad"],
        ["bad"], ["empty", "twod", "struct"], ["big", "cplx", "bools"]]
KEYF = {
    "plain": lambda n: n, "group": lambda n: "/g/" + n, "bytes": lambda n: n.encode(),
    "pure": lambda n: pathlib.PurePosixPath("/p", n), "tuple": lambda n: ("q/r", n + "."), "int": lambda n: 5,
}
OPTS = [{}, {"matlab_compatible": False}, {"matlab_compatible": True}, {"store_python_metadata": False},
        {"store_python_metadata": False, "matlab_compatible": False},
        {"action_for_matlab_incompatible": "ignore"}, {"action_for_matlab_incompatible": "discard"},
        {"oned_as": "column"}, {"compress_size_threshold": 0, "compress": True},
        {"structured_numpy_ndarray_as_struct": True, "matlab_compatible": False}, {"unknown_option": 3},
        {"matlab_compatible": 3}, {"options": None}, {"options": "own"}, {"options": "own", "compress": False},
        {"options": "str"}, {"structs_as_dicts": True}, {"options": "plain"},
        {"options": None, "matlab_compatible": False}, {"reverse_dimension_order": True, "matlab_compatible": False}]
FSTATES = ["none", "own", "plain", "garbage", "dir", "locked"]
TRUNC = [{}, {"truncate_existing": True}, {"truncate_invalid_matlab": True}, {"truncate_existing": False},
         {"truncate_existing": 1}]


class Dir:
    """A scratch directory which is the working directory meanwhile."""

    def __init__(self):
        self.d = os.path.join(common.scratch(), "d17")
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)
        self.old = os.getcwd()
        os.chdir(self.d)

    def done(self):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)


_tmpl = {}


def template(state):
    if state not in _tmpl:
        fn = common.newfile()
        if state == "own":
            with hdf5storage.File(fn, writable=True) as f:
                f.writes({"float": np.arange(4), "old": "abc", "g/old2": {"a": 1}, "a": 1.5})
        elif state == "plain":
            with h5py.File(fn, "w") as f:
                f["float"] = np.arange(4)
                f["old"] = [[1.5, 2], [3, 4]]
        elif state == "garbage":
            with open(fn, "wb") as f:
                f.write(b"MATLAB 5.0 MAT-file" + b" " * 200)
        with open(fn, "rb") as f:
            _tmpl[state] = f.read()
        common.rmfile(fn)
    return _tmpl[state]


def put(name, state):
    os.makedirs(os.path.dirname(name) or ".", exist_ok=True)
    if state in ("own", "plain", "garbage"):
        with open(name, "wb") as f:
            f.write(template(state))
    elif state == "dir":
        os.makedirs(name)
    elif state == "locked":
        os.symlink("/proc/self/nowhere/x", name)


STAMP = re.compile(rb"Created on: \w{3} \w{3} \d\d \d\d:\d\d:\d\d \d{4}")


def snapshot(name):
    if os.path.isdir(name):
        return ("dir", sorted(os.listdir(name)))
    if not os.path.isfile(name):
        return ("nothing",)
    try:
        with h5py.File(name, "r") as f:
            ub = f.userblock_size
        with open(name, "rb") as f:
            head = f.read(ub)
        # the parts inside the group for references have random names
        return ("hdf5", ub, STAMP.sub(b"Created on: -", head), repr(h5dump.dump(name, "/")))
    except OSError:
        with open(name, "rb") as f:
            return ("bytes", f.read())


def leftovers():
    """Files that were left open."""
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if "/d17" in p and os.path.basename(p) != "d17":
            out.append(p)
    return out


def outcome(fun, d):
    try:
        r = ("value", values.canon(fun()))
    except Exception as e:
        r = ("raised", type(e).__name__)
    return r


def mkopts(o):
    o = dict(o)
    if o.get("options") == "own":
        o["options"] = hdf5storage.Options(matlab_compatible=False, oned_as="column")
    elif o.get("options") == "plain":
        o["options"] = hdf5storage.Options()
    return o


def fname(n, where):
    return os.path.join(where, n)


def both(res, label, case, state, fn, viafun, viafile, value=True):
    """run viafun in directory a and viafile in directory b."""
    out = []
    d = Dir()
    try:
        for sub, fun in (("a", viafun), ("b", viafile)):
            os.makedirs(os.path.join(d.d, sub))
            os.chdir(os.path.join(d.d, sub))
            put(fn, state)
            r = outcome(fun, d.d)
            left = leftovers()
            if left:
                res.bad("open:" + label, "%s: files were left open: %s" % (label, left), case)
            shots = {}
            for base, _, files in os.walk("."):
                for x in sorted(files):
                    shots[os.path.join(base, x)] = snapshot(os.path.join(base, x))
            out.append((r, shots))
            os.chdir(d.d)
    finally:
        d.done()
    (ra, sa), (rb, sb) = out
    res.count("evaluations")
    res.count("transitions", 2)
    res.count("traces")
    res.seen("states", (ra, sorted(map(repr, sa.items()))))
    if ra != rb:
        res.bad("result:" + label, "%s: the function gave %s, File gave %s" % (label, str(ra)[:500], str(rb)[:500]), case)
    if sa != sb:
        bad = [k for k in set(sa) | set(sb) if sa.get(k) != sb.get(k)]
        res.bad("files:" + label, "%s: files differ: %s" % (
            label, [(k, str(sa.get(k))[:700], str(sb.get(k))[:700]) for k in bad][:2]), case)
    return out


def w_case(res, case):
    vs, kf, o, st, tr = case["set"], case["key"], case["o"], case["state"], case["trunc"]
    f = KEYF[kf]
    md = collections.OrderedDict((f(n), VALS[n]) for n in vs)
    fn = case.get("fn", "x.h5")
    kw = dict(mkopts(o), **tr)
    if fn != "data.h5":
        kw["filename"] = fn
    label = "%s(%s as %s, %s, %s) on %s" % (case["f"], vs, kf, o, tr, st)
    if case["f"] == "writes":
        both(res, label, case, st, fn, lambda: hdf5storage.writes(md, **kw), lambda: _with(True, kw, "writes", md))
    else:
        k = next(iter(md))
        both(res, label, case, st, fn, lambda: hdf5storage.write(VALS[vs[0]], k, **kw),
             lambda: _with(True, kw, "write", VALS[vs[0]], k))


def _with(writable, kw, meth, *args):
    with hdf5storage.File(writable=writable, **kw) as f:
        return getattr(f, meth)(*args)


PATHS = {
    "one": ["float"], "two": ["old", "float"], "missing": ["float", "nope"], "none": [], "repeat": ["old", "old"],
    "bytes": [b"float"], "pure": [pathlib.PurePosixPath("/old")], "tuple": [("g", "old2"), "/float"],
    "refs": ["/#refs#/a"], "int": [3], "group": ["g"], "nogroup": ["no/x"], "notgroup": ["float/x"], "root": ["/"],
    "str": "ao", "notiter": 5,
}


def r_case(res, case):
    p, o, st = PATHS[case["paths"]], case["o"], case["state"]
    fn = case.get("fn", "x.h5")
    kw = mkopts(o)
    if fn != "data.h5":
        kw["filename"] = fn
    fkw = dict(kw)
    if not ("matlab_compatible" in kw or kw.get("options") is not None):
        fkw["matlab_compatible"] = False
    label = "%s(%s, %s) on %s" % (case["f"], case["paths"], o, st)
    if case["f"] == "reads":
        both(res, label, case, st, fn, lambda: hdf5storage.reads(p, **kw), lambda: _with(False, fkw, "reads", p))
    else:
        args = tuple(p[:1]) if not isinstance(p, int) else (p,)
        both(res, label, case, st, fn, lambda: hdf5storage.read(*args, **kw), lambda: _with(False, fkw, "read", *args))


# ------------------------------------------------------- savemat and loadmat

class FakeScipy:
    def __init__(self, mode):
        self.mode = mode
        self.calls = []

    def __enter__(self):
        self.saved = {n: sys.modules.get(n) for n in ("scipy", "scipy.io")}
        if self.mode == "missing":
            sys.modules["scipy"] = None
            sys.modules["scipy.io"] = None
        else:
            s, io = types.ModuleType("scipy"), types.ModuleType("scipy.io")
            s.__path__ = []
            s.io = io

            def call(name):
                def fun(*args, **kw):
                    names = ["file_name", "mdict", "appendmat"] + (["format", "long_field_names", "do_compression",
                                                                    "oned_as"] if name == "savemat" else [])
                    a = dict(zip(names, args))
                    a.update(kw)
                    self.calls.append((name, a))
                    if self.mode == "raises":
                        raise ValueError("from scipy")
                    return {"from": "scipy"}
                return fun
            io.savemat, io.loadmat = call("savemat"), call("loadmat")
            sys.modules["scipy"], sys.modules["scipy.io"] = s, io
        return self

    def __exit__(self, *a):
        for n, m in self.saved.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m


NAMES = ["x", "x.mat", "x.MAT", "x.mat.h5", "d.mat/x", ".mat", "mat", "xmat", "é"]
FORMATS = ["4", "5", "7.3", "7.2", "8", "v5", 5, 7.3, None, "-1", "07.30", "7.30"]
SKW = [{}, {"oned_as": "column"}, {"store_python_metadata": False}, {"action_for_matlab_incompatible": "discard"},
       {"action_for_matlab_incompatible": "ignore", "oned_as": "column"}, {"marshaller_collection": "empty"},
       {"truncate_existing": True}, {"truncate_invalid_matlab": True}, {"oned_as": "x"},
       {"store_python_metadata": False, "truncate_existing": True, "oned_as": "column"},
       {"compress": False}, {"do_compression": True, "long_field_names": True}]


def refmat(name, append):
    b = os.fsdecode(name)
    return b + ".mat" if append and not b.endswith(".mat") else b


def s_case(res, case):
    name, fmt, kw, vs, st, mode, ap = (case[k] for k in ("name", "format", "kw", "set", "state", "scipy", "append"))
    md = {n: VALS[n] for n in vs}
    call = dict(kw)
    if case.get("bytes"):
        name = os.fsencode(name)
    if call.get("marshaller_collection") == "empty":
        call["marshaller_collection"] = hdf5storage.MarshallerCollection()
    if fmt != "default":
        call["format"] = fmt
    if ap is not None:
        call["appendmat"] = ap
    append = True if ap is None else ap
    label = "savemat(%r, %s, %s) on %s, scipy %s" % (name, vs, {k: v for k, v in case.items() if k in (
        "format", "kw", "append")}, st, mode)
    try:
        old = float(fmt) < 7.3 if fmt != "default" else False
    except Exception:
        old = None
    real = refmat(name, append)

    def viafun():
        with FakeScipy(mode) as s:
            try:
                return hdf5storage.savemat(name, md, **call)
            finally:
                fakes.append(s)

    def viafile():
        if old is None:
            float(fmt)
        if old:
            if mode == "raises":
                raise ValueError("from scipy")
            if mode == "missing":
                raise ImportError
            return None
        o = dict(store_python_metadata=True, oned_as="row", action_for_matlab_incompatible="error",
                 marshaller_collection=None)
        o.update({k: v for k, v in call.items() if k not in ("format", "appendmat", "truncate_existing",
                                                            "truncate_invalid_matlab")})
        with hdf5storage.File(real, writable=True, truncate_existing=call.get("truncate_existing", False),
                              truncate_invalid_matlab=call.get("truncate_invalid_matlab", False),
                              options=hdf5storage.Options(matlab_compatible=True, **o)) as f:
            f.writes(md)

    fakes = []
    if old and mode == "missing":
        r = Res0()
        both(r, label, case, st, real, viafun, lambda: None)
        r.problems = [p for p in r.problems if not p[0].startswith("result:")]
        try:
            viafun()
        except ImportError:
            pass
        except Exception as e:
            res.bad("missing:" + label, label + ": raised " + common.exc_str(e), case)
        else:
            res.bad("missing:" + label, label + ": did not raise ImportError", case)
        res.merge(r)
        return
    both(res, label, case, st, real, viafun, viafile)
    calls = fakes[0].calls if fakes else []
    if old:
        want = dict(file_name=name, mdict=md, appendmat=append, format=fmt, oned_as=kw.get("oned_as", "row"))
        want.update({k: v for k, v in kw.items() if k in ("compress", "do_compression", "long_field_names")})
        own = ("store_python_metadata", "action_for_matlab_incompatible", "marshaller_collection",
               "truncate_existing", "truncate_invalid_matlab")
        check_call(res, label, case, calls, "savemat", want, own)
        if calls and calls[0][1].get("mdict") is not md:
            res.bad("mdict:" + label, label + ": SciPy was given another dict", case)
    elif calls:
        res.bad("scipy:" + label, label + ": SciPy was called: %s" % (calls,), case)


def Res0():
    return common.Res()


def check_call(res, label, case, calls, fun, want, own=()):
    if len(calls) != 1 or calls[0][0] != fun:
        res.bad("scipy:" + label, "%s: calls made of SciPy: %s" % (label, calls), case)
        return
    got = calls[0][1]
    if set(got) != set(want) or any(got[k] is not want[k] and values.canon(got[k]) != values.canon(want[k])
                                    for k in want):
        res.bad("scipy:" + label, "%s: SciPy was given %s instead of %s" % (label, got, want), case)


VARN = {
    "all": None, "one": ["float"], "tuple": ("old", "float"), "missing": ["nope", "old"], "onlymissing": ["nope"],
    "none": [], "paths": ["g/old2", b"old", pathlib.PurePosixPath("/float")], "repeat": ["a", "a"],
    "iter": "iter", "group": ["g"], "refs": ["/#refs#/a", "a"], "gen": "gen",
}
LOPTS = [{}, {"options": "own"}, {"options": "plain"}, {"marshaller_collection": "empty"},
         {"options": "own", "marshaller_collection": "empty"}, {"chars_as_strings": False, "squeeze_me": True},
         {"options": "bad"}, {"options": None, "mat_dtype": True}, {"options": "dicts"}]
MD = ["omitted", None, {}, {"float": "old value", "zz": 1}]
LSTATES = ["own", "plain", "escaped", "none", "garbage", "dir", "locked", "brokenvar"]


def special(name, state):
    if state == "escaped":
        with hdf5storage.File(name, writable=True) as f:
            f.write(1.5, ("a/b",))
            f.write(2.5, ("..",))
            f.write(3.5, ("x\0y",))
            f.write(4.5, "float")
            f.write(5.5, ("back\\slash",))
            f.write(np.arange(3), ("old",))
    elif state == "brokenvar":
        with hdf5storage.File(name, writable=True) as f:
            f.writes({"float": 1.5, "old": np.arange(3), "a": "x"})
        with h5py.File(name, "a") as f:
            f.create_group("bad").attrs["Python.Type"] = "collections.deque"
            f.create_dataset("zbad", data=3.0).attrs["Python.Type"] = "int"
    else:
        put(name, state)


class MyDict(dict):
    pass


def l_case(res, case):
    name, ap, st, mode = case["name"], case["append"], case["state"], case["scipy"]
    if case.get("bytes"):
        name = os.fsencode(name)
    vn = VARN[case["vars"]]
    kw = dict(case["o"])
    if kw.get("options") == "own":
        kw["options"] = hdf5storage.Options(matlab_compatible=False, structs_as_dicts=True)
    elif kw.get("options") == "plain":
        kw["options"] = hdf5storage.Options(oned_as="column")
    elif kw.get("options") == "dicts":
        kw["options"] = hdf5storage.Options(structs_as_dicts=True)
    if kw.get("marshaller_collection") == "empty":
        kw["marshaller_collection"] = hdf5storage.MarshallerCollection()
    append = True if ap is None else ap
    if ap is not None:
        kw["appendmat"] = ap
    if case["vars"] != "all":
        kw["variable_names"] = vn
    label = "loadmat(%r, %s) on %s, scipy %s" % (name, {k: case[k] for k in ("append", "vars", "o", "md")}, st, mode)
    real = refmat(name, append)
    d = Dir()
    try:
        os.makedirs(os.path.dirname(real) or ".", exist_ok=True)
        special(real, st)
        before = snapshot(real) if st not in ("none", "locked") else None
        names = ["old", "float"]
        if vn == "iter":
            kw["variable_names"], vn = dict.fromkeys(names), names
        elif vn == "gen":
            kw["variable_names"], vn = (x for x in names), names
        md0 = case["md"] if not isinstance(case["md"], dict) else MyDict(case["md"])
        if case["md"] != "omitted":
            kw["mdict"] = md0
        md_before = dict(md0) if isinstance(md0, dict) else md0
        with FakeScipy(mode) as s:
            try:
                got = hdf5storage.loadmat(name, **kw)
                r = ("value", got)
            except Exception as e:
                r = ("raised", e)
        left = leftovers()
        if left:
            res.bad("open:" + label, label + ": files were left open: %s" % left, case)
        if before is not None and snapshot(real) != before:
            res.bad("modified:" + label, label + ": the file was changed", case)
        res.count("evaluations")
        res.count("traces")
        res.count("transitions")
        # what is expected
        if isinstance(kw.get("options"), str):
            if r[0] != "raised" or not isinstance(r[1], TypeError):
                res.bad("options:" + label, label + ": a bad options argument gave %r" % (r,), case)
            return
        exp, unsure, err = {}, set(), None
        opts = kw.get("options")
        if opts is None:
            opts = hdf5storage.Options(marshaller_collection=kw.get("marshaller_collection"))
        try:
            with hdf5storage.File(real, options=opts) as f:
                for k in (list(f) if vn is None else vn):
                    try:
                        v = f.read(k)
                    except Exception as e:
                        if vn is None:
                            err = e
                            break
                        if not isinstance(e, (KeyError, ValueError)):
                            unsure.add(k)
                        continue
                    exp[hdf5storage.pathesc.unescape_path(k) if vn is None else k] = v
            opened = True
        except OSError as e:
            opened = False
            if vn is None and err is None:
                err = e
        res.seen("states", (st, case["vars"], mode, sorted(map(str, exp)), opened))
        if not opened or isinstance(err, OSError):
            if s.mode == "missing":
                if r[0] != "raised" or not isinstance(r[1], ImportError):
                    res.bad("missing:" + label, label + ": gave %r" % (r,), case)
                return
            want = dict(file_name=name, mdict=None if case["md"] == "omitted" else md0, appendmat=append,
                        variable_names=kw.get("variable_names"))
            want.update({k: v for k, v in case["o"].items() if k in ("chars_as_strings", "squeeze_me", "mat_dtype")})
            if "variable_names" in kw and isinstance(kw["variable_names"], types.GeneratorType) and s.calls:
                want["variable_names"] = s.calls[0][1].get("variable_names")
            check_call(res, label, case, s.calls, "loadmat", want)
            if s.calls and isinstance(md0, dict):
                if s.calls[0][1].get("mdict") is not md0 or dict(md0) != md_before:
                    res.bad("mdict:" + label, label + ": the supplied dict was not handed over as it was", case)
            if mode == "raises":
                ok = r[0] == "raised" and isinstance(r[1], ValueError) and str(r[1]) == "from scipy"
            else:
                ok = r == ("value", {"from": "scipy"})
            if not ok:
                res.bad("dispatch:" + label, label + ": gave %r" % (r,), case)
            return
        if s.calls:
            res.bad("scipy:" + label, label + ": SciPy was called: %s" % (s.calls,), case)
        if err is not None:
            if r[0] != "raised" or type(r[1]) is not type(err):
                res.bad("error:" + label, label + ": gave %r instead of %r" % (r, err), case)
            elif isinstance(md0, dict) and dict(md0) != md_before:
                res.bad("mdict:" + label, label + ": the supplied dict was changed by a failed call", case)
            return
        if r[0] == "raised":
            if not unsure:
                res.bad("error:" + label, label + ": raised " + common.exc_str(r[1]), case)
            return
        want = {} if not isinstance(md0, dict) else dict(md_before)
        want.update(exp)
        if isinstance(md0, dict) and got is not md0:
            res.bad("mdict:" + label, label + ": the supplied dict is not what was returned", case)
        if [x for x in got if x not in want] or [x for x in want if x not in got]:
            res.bad("keys:" + label, label + ": gave %s instead of %s" % (sorted(map(repr, got)), sorted(map(repr, want))), case)
        else:
            for k in want:
                if values.canon(got[k]) != values.canon(want[k]):
                    res.bad("value:" + label, "%s: %r is %r instead of %r" % (label, k, got[k], want[k]), case)
    finally:
        d.done()


def cases(tier, seed):
    full = tier != "quick"
    out = []
    for f in ("write", "writes"):
        for vs in SETS:
            if f == "write" and not vs:
                continue
            for i, (kf, o, st, tr) in enumerate(itertools.product(KEYF, OPTS, FSTATES, TRUNC)):
                odd = (kf != "plain") + (st not in ("none", "own")) + (tr != {}) + (o != {})
                if odd <= (2 if not full else 3):
                    out.append({"f": f, "set": vs, "key": kf, "o": o, "state": st, "trunc": tr})
            out.append({"f": f, "set": vs, "key": "plain", "o": {}, "state": "none", "trunc": {}, "fn": "data.h5"})
    for f in ("read", "reads"):
        for p, o, st in itertools.product(PATHS, OPTS, FSTATES):
            if f == "read" and PATHS[p] == []:
                for fn in ("x.h5", "data.h5"):
                    out.append({"f": f, "paths": p, "o": o, "state": st, "fn": fn})
                continue
            out.append({"f": f, "paths": p, "o": o, "state": st})
        out.append({"f": f, "paths": "two", "o": {}, "state": "own", "fn": "data.h5"})
    for name, fmt, kw, vs, st, mode, ap in itertools.product(NAMES, FORMATS + ["default"], SKW, SETS, FSTATES,
                                                            ("works", "raises", "missing"), (None, True, False)):
        odd = ((name != "x") + (fmt not in ("7.3",)) + (kw != {}) + (vs != SETS[1]) + (st not in ("none",))
               + (mode != "works") + (ap is not None))
        if odd <= (2 if not full else 3):
            c = {"f": "savemat", "name": name, "format": fmt, "kw": kw, "set": vs, "state": st, "scipy": mode,
                 "append": ap}
            out.append(c)
            if odd <= 1 or (name != "x" and ap is not None):
                out.append(dict(c, bytes=1))
    for name, ap, st, vn, o, md, mode in itertools.product(NAMES, (None, True, False), LSTATES, VARN, LOPTS, MD,
                                                          ("works", "raises", "missing")):
        odd = ((name != "x") + (ap is not None) + (vn != "all") + (o != {}) + (md != "omitted") + (mode != "works"))
        if odd <= (2 if not full else 3):
            c = {"f": "loadmat", "name": name, "append": ap, "state": st, "vars": vn, "o": o, "md": md,
                 "scipy": mode}
            out.append(c)
            if odd <= 1 or (name != "x" and ap is not None):
                out.append(dict(c, bytes=1))
    return out


RUN = {"write": w_case, "writes": w_case, "read": r_case, "reads": r_case, "savemat": s_case, "loadmat": l_case}


def run_case(case):
    res = common.Res()
    RUN[case["f"]](res, case)
    if len(res.samples) < 1:
        res.samples.append(case)
    return res


def coverage(res, tier):
    return common.cov_mc(res,
                         rule="all calls whose arguments differ from the usual ones in at most %d places, against "
                              "the same File operations" % (2 if tier == "quick" else 3))
