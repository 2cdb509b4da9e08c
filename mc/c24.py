"""C24: whatever is opened is given back: no open handle, lock or stray file is left behind."""
import collections
import gc
import itertools
import json
import os
import shutil
import tempfile

import h5py
import numpy as np

import hdf5storage

from . import common, faults
from . import values as V

PROP = "C24"
LEVEL = "exploration"
ASSUMPTIONS = ["a failure of closing itself, and what the caller keeps open through h5py, are not considered",
               "that a File keeps a bounded number of HDF5 objects open for its own use is allowed"]


_frozen = []


class Boom(Exception):
    pass


class BadMap(collections.abc.Mapping):
    def __init__(self, d, n):
        self.d, self.n = d, n

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        for i, k in enumerate(self.d):
            if i == self.n:
                raise Boom("mapping")
            yield k
        if self.n >= len(self.d):
            raise Boom("mapping")

    def __getitem__(self, k):
        return self.d[k]


def fds(d):
    n = []
    for x in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + x)
        except OSError:
            continue
        if t.startswith(d + "/"):
            n.append(os.path.basename(t))
    return sorted(n)


def ids():
    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_ALL)


DATA = {"a": 1, "b": [1, "x", [2]], "c": {"k": np.arange(3), "s": "t"}, "g": {"h": {"i": 2.5}}, "o": np.array([None, "q"], dtype=object)}


def prior(fn, kind):
    if kind == "missing":
        return
    if kind == "dir":
        os.mkdir(fn)
    elif kind == "empty":
        open(fn, "w").close()
    elif kind == "text":
        with open(fn, "w") as f:
            f.write("not HDF5" * 100)
    elif kind == "ub0":
        with h5py.File(fn, "w") as f:
            f["a"] = 1
            f["z"] = np.arange(4)
    elif kind == "nodir":
        pass
    else:
        hdf5storage.writes(DATA, filename=fn, matlab_compatible=kind != "plain")
        if kind == "truncated":
            with open(fn, "r+b") as f:
                f.truncate(os.path.getsize(fn) // 2)
        if kind == "foreign":
            with h5py.File(fn, "r+") as f:
                f["a"].attrs["Python.Type"] = np.bytes_("no.such.Type")
                f["bad"] = np.zeros(2, dtype=[("x", "i4")])
                f["bad"].attrs["Python.Type"] = np.bytes_("dict")
                f["bad"].attrs["Python.Shape"] = "x"
        if kind == "badrefs":
            with h5py.File(fn, "r+") as f:
                del f["#refs#"]
                f["#refs#"] = 3


PRIORS = ("missing", "dir", "empty", "text", "ub0", "nodir", "matlab", "plain", "truncated", "foreign", "badrefs")


def calls(fn):
    """Calls of the module functions, good and bad."""
    h = hdf5storage
    good, bad = dict(DATA), {"x": 1, "y": [1, object()]}
    out = collections.OrderedDict()
    for o in ("m", "p", "t", "ti", "dl"):
        kw = {"m": {}, "p": {"matlab_compatible": False}, "t": {"truncate_existing": True},
              "ti": {"truncate_invalid_matlab": True}, "dl": {"delete_unused_variables": True, "compress_size_threshold": 0}}[o]
        out["writes good " + o] = lambda kw=kw: h.writes(good, filename=fn, **kw)
        out["writes bad " + o] = lambda kw=kw: h.writes(bad, filename=fn, **kw)
        out["writes badmap " + o] = lambda kw=kw: h.writes(BadMap(good, 2), filename=fn, **kw)
        out["write good " + o] = lambda kw=kw: h.write([1, {"a": "b"}], "/g/w", filename=fn, **kw)
        out["write bad " + o] = lambda kw=kw: h.write({"q": (1, object())}, "/w", filename=fn, **kw)
        out["write path " + o] = lambda kw=kw: h.write(1, 3.5, filename=fn, **kw)
        out["write refs " + o] = lambda kw=kw: h.write(1, "/#refs#/x", filename=fn, **kw)
        out["write through " + o] = lambda kw=kw: h.write(1, "/a/b/c", filename=fn, **kw)
    for o in ("m", "p"):
        kw = {"m": {"matlab_compatible": True}, "p": {}}[o]
        for p in ("/b", "/c", "/nope", "/g/nope", "/#refs#/b", "/a/b", "/bad", "/a", 3.5):
            out["read %s %s" % (p, o)] = lambda p=p, kw=kw: h.read(p, filename=fn, **kw)
        out["reads some " + o] = lambda kw=kw: h.reads(["/b", "/o", "/c"], filename=fn, **kw)
        out["reads late " + o] = lambda kw=kw: h.reads(["/b", "/nope"], filename=fn, **kw)
        out["reads map " + o] = lambda kw=kw: h.reads(BadMap({"/a": 1, "/b": 2}, 1), filename=fn, **kw)
    out["savemat"] = lambda: h.savemat(fn, good, appendmat=False)
    out["savemat bad"] = lambda: h.savemat(fn, bad, appendmat=False)
    out["savemat f2"] = lambda: h.savemat(fn, {"f": np.float16(2), "z": [np.float16(1)]}, appendmat=False)
    out["savemat t"] = lambda: h.savemat(fn, good, appendmat=False, truncate_existing=True)
    out["savemat badopt"] = lambda: h.savemat(fn, good, appendmat=False, gzip_compression_level="x", nope=1)
    out["loadmat"] = lambda: h.loadmat(fn, appendmat=False)
    out["loadmat vars"] = lambda: h.loadmat(fn, appendmat=False, variable_names=["b", "nope", "c"])
    out["loadmat badvars"] = lambda: h.loadmat(fn, appendmat=False, variable_names=BadMap({"b": 1}, 0))
    out["loadmat mdict"] = lambda: h.loadmat(fn, {"a": 2}, appendmat=False)
    out["loadmat badmdict"] = lambda: h.loadmat(fn, 5, appendmat=False)
    for w, t, i in itertools.product((False, True), repeat=3):
        for m in (False, True):
            def opening(w=w, t=t, i=i, m=m, how=0):
                f = h.File(fn, writable=w, truncate_existing=t, truncate_invalid_matlab=i, matlab_compatible=m)
                f.close()
                f.close()
            out["File %d%d%d%d" % (w, t, i, m)] = opening
    out["File badopt"] = lambda: h.File(fn, writable=True, nope=1).close()
    out["File badopt2"] = lambda: h.File(fn, writable=True, options=3).close()
    out["File badtype"] = lambda: h.File(3.5, writable=True).close()
    out["File badboth"] = lambda: h.File(fn, writable=True, options=h.Options(), compress=True).close()

    def ctx(exc):
        with h.File(fn, writable=True) as f:
            f.write(1, "/ctx")
            iter(f)
            raise exc
    out["with raise"] = lambda: ctx(Boom("b"))
    out["with kill"] = lambda: ctx(KeyboardInterrupt())

    def ctxr():
        with h.File(fn) as f:
            return [f.items(), iter(f), list(f.values()), f.get("b")]
    out["with return"] = ctxr
    return out


def run_call(res, case):
    """One call on one prior file, with faults at every call into h5py."""
    base = tempfile.mkdtemp(dir=common.scratch())
    base = os.path.realpath(base)

    def one(at=None, after=False, exc=OSError):
        d = os.path.join(base, "d")
        os.mkdir(d)
        try:
            fn = os.path.join(d, "nodir/x.mat" if case["prior"] == "nodir" else "x.mat")
            prior(fn, case["prior"])
            gc.collect()
            n0, names0 = ids(), sorted(os.listdir(d))
            assert not fds(d), "the harness left the file open"
            call = calls(fn)[case["call"]]
            what = "none"
            ft = faults.Fault(at, after, exc)
            kept = None
            try:
                with ft:
                    kept = call()
            except BaseException as e:
                if isinstance(e, (common.CaseTimeout, SystemExit)):
                    raise
                what = type(e).__name__
                # While the caller handles the exception.
                left = [fds(d), ids() - n0]
                del e
            else:
                left = [fds(d), ids() - n0]
            msg = None
            # The part of the constructor is only cleaned up with the exception.
            ctor = case["call"].startswith("File") and what != "none"
            gc.collect()
            after_gc = [fds(d), ids() - n0]
            if ft.hit and ft.hit.split(".")[1] == "close":
                left = after_gc = [[], 0]
            if after_gc != [[], 0]:
                msg = "leaves open %s (HDF5 objects: %d)" % (after_gc[0], after_gc[1])
            elif left[0] and not ctor:
                msg = "is still open while its exception is handled: %s" % (left[0],)
            new = set(os.listdir(d)) - set(names0) - {"x.mat"}
            if new:
                msg = "leaves files %s" % (sorted(new),)
            if msg is None and os.path.isfile(fn):
                for k in range(3):
                    try:
                        if k == 0:
                            h5py.File(fn, "r").close()
                        elif k == 1:
                            h5py.File(fn, "r+").close()
                        else:
                            os.rename(fn, fn + "2")
                            h5py.File(fn, "w").close()
                            os.unlink(fn)
                    except OSError as e:
                        if k < 2 and "unable to lock" not in str(e).lower():
                            continue  # not an HDF5 file
                        msg = "cannot be used afterwards: " + common.exc_str(e)
                        break
            del kept
            res.count("evaluations")
            if msg:
                res.bad("call:%s:%s:%s" % (case["call"], case["prior"], (at, after, exc.__name__)),
                        "%s on %s, fault %s: %s" % (case["call"], case["prior"], (ft.hit, at, after, exc.__name__), msg), case)
            else:
                res.seen("nontrivial", (case["call"], case["prior"], at, after, exc.__name__, what))
            return ft
        finally:
            shutil.rmtree(d, ignore_errors=True)
    try:
        ft = one()
        if case["faults"]:
            for i, a in ft.points():
                for exc in (OSError, KeyboardInterrupt)[:case["faults"]]:
                    one(i, a, exc)
        res.samples.append(case)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def ops():
    """Operations on an open File."""
    def w(p, mk):
        return lambda f: f.write(mk(), p)

    def partial(f):
        it = iter(f.items())
        next(it)
    o = collections.OrderedDict()
    o["w scalar"] = w("/s", lambda: 3)
    o["w list"] = w("/l", lambda: [1, "a", [2.5, None]])
    o["w dict"] = w("/g/d", lambda: {"a": 1, "b": {"c": [1]}})
    o["w struct"] = w("/st", lambda: V.fill([("x", "O"), ("y", "i4")], (2, 2)))
    o["w bad"] = w("/l", lambda: [1, [object()]])
    o["w badg"] = w("/g/d", lambda: {"a": 1, "b": object()})
    o["w path"] = lambda f: f.write(1, "/s/t/u")
    o["ws"] = lambda f: f.writes({"/m1": [1], "/m2": {"z": (1,)}})
    o["ws bad"] = lambda f: f.writes(BadMap({"/m1": 1, "/m2": 2}, 1))
    o["r list"] = lambda f: f.read("/b")
    o["r dict"] = lambda f: f.read("/c")
    o["r objs"] = lambda f: f.read("/o")
    o["r none"] = lambda f: f.read("/nope")
    o["r bad"] = lambda f: f.read("/bad")
    o["r cyc"] = lambda f: f.read("/cyc")
    o["rs late"] = lambda f: f.reads(["/b", "/c", "/nope"])
    o["in"] = lambda f: ("/b" in f, "/g/h/i" in f, "/nope" in f, "/a/x" in f, 3 in f)
    o["len"] = len
    o["iter"] = lambda f: list(f)
    o["items"] = lambda f: list(f.items())
    o["partial"] = partial
    o["get"] = lambda f: (f.get("/nope"), f.get("b"))
    o["flush"] = lambda f: f.flush()
    o["del"] = lambda f: f.__delitem__("/l")
    o["del none"] = lambda f: f.__delitem__("/nope")
    o["pop"] = lambda f: f.pop("/m1", None)
    o["upd"] = lambda f: f.update({"u": [1, 2]})
    o["eq"] = lambda f: f == {}
    return o


def run_ops(res, case):
    base = os.path.realpath(tempfile.mkdtemp(dir=common.scratch()))
    fn = os.path.join(base, "x.mat")
    O = ops()
    try:
        for seq in case["seqs"]:
            prior(fn, "matlab")
            with h5py.File(fn, "r+") as h:
                h["bad"] = np.zeros(2)
                h["bad"].attrs["Python.Type"] = np.bytes_("dict")
                c = h.create_dataset("cyc", (1,), dtype=h5py.special_dtype(ref=h5py.Reference))
                c[0] = c.ref
            del c, h
            gc.collect()
            n0 = ids()
            f = hdf5storage.File(fn, writable=case["writable"], matlab_compatible=case["matlab"])
            counts = []
            kept = []
            try:
                for rep in range(4):
                    for name, at, after in seq:
                        ft = faults.Fault(at, after, OSError)
                        try:
                            with ft:
                                r = O[name](f)
                            if case["keep"]:
                                kept.append(r)
                            del r
                        except Exception:
                            pass
                        res.count("steps")
                    gc.collect()
                    counts.append((ids() - n0, len(fds(base))))
                if counts[3][0] > counts[2][0] > counts[1][0] or counts[3][1] > counts[1][1]:
                    res.bad("ops:%s:%s" % (json.dumps(seq), case_id(case)),
                            "repeating %s on a File (%s): the number of open HDF5 objects and descriptors grows: %s" % (seq, case_id(case), counts),
                            dict(case, seqs=[seq]))
            finally:
                f.close()
            gone = (fds(base), ids() - n0)
            if gone != ([], 0):
                res.bad("close:%s:%s" % (json.dumps(seq), case_id(case)),
                        "after %s and close (%s): open %s, HDF5 objects %d" % (seq, case_id(case), gone[0], gone[1]), dict(case, seqs=[seq]))
            else:
                res.seen("nontrivial", (json.dumps(seq), case_id(case)))
            if sorted(os.listdir(base)) != ["x.mat"]:
                res.bad("files:%s" % json.dumps(seq), "stray files: %s" % os.listdir(base), dict(case, seqs=[seq]))
            res.count("evaluations")
            del f, kept
            gc.collect()
            os.unlink(fn)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def case_id(case):
    return "writable=%s matlab=%s keep=%s" % (case["writable"], case["matlab"], case["keep"])


def fault_seqs(name, writable, matlab):
    """The operation with a fault at every call it makes into h5py."""
    fn = common.newfile()
    try:
        prior(fn, "matlab")
        with hdf5storage.File(fn, writable=writable, matlab_compatible=matlab) as f:
            ft = faults.Fault()
            try:
                with ft:
                    ops()[name](f)
            except Exception:
                pass
        return [[[name, i, a]] for i, a in ft.points()]
    finally:
        common.rmfile(fn)


def run_values(res, case):
    """Values that were read keep nothing open; a File that is dropped is closed."""
    base = os.path.realpath(tempfile.mkdtemp(dir=common.scratch()))
    fn = os.path.join(base, "x.mat")
    try:
        for name in case["names"]:
            v = V.get(name)
            try:
                hdf5storage.write(v, "/v", filename=fn, matlab_compatible=case["matlab"])
            except Exception:
                continue
            gc.collect()
            n0 = ids()
            kept = []
            kept.append(hdf5storage.read("/v", filename=fn))
            f = hdf5storage.File(fn, writable=True, matlab_compatible=case["matlab"])
            kept.append(f.read("/v"))
            kept.append(list(f.items()))
            f.write([v, v], "/w")
            a = (ids() > n0, len(fds(base)))
            del f
            gc.collect()
            left = (ids() - n0, fds(base))
            res.count("evaluations")
            if left != (0, []) or a[1] != 1:
                res.bad("value:%s:%s" % (name, case["matlab"]), "%s: with the values read kept and the File dropped %s is open (before: %s)" % (
                    name, left, a), dict(case, names=[name]))
            else:
                res.seen("nontrivial", ("value", name, case["matlab"]))
            os.unlink(fn)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def run_case(case):
    res = common.Res()
    faults.install()
    if not _frozen:
        # Collecting is then only about what the cases make.
        gc.collect()
        gc.freeze()
        _frozen.append(1)
    if case["t"] == "call":
        run_call(res, case)
    elif case["t"] == "ops":
        if case.get("faultop"):
            case = dict(case, seqs=fault_seqs(case["faultop"], case["writable"], case["matlab"]))
        run_ops(res, case)
    else:
        run_values(res, case)
    return res


def cases(tier, seed):
    out = []
    names = list(calls("x"))
    for p in PRIORS:
        for c in names:
            # Faults where the call gets far enough to make many different calls.
            n = 0
            if p in ("missing", "ub0", "matlab", "foreign"):
                n = 2 if p == "matlab" or tier == "thorough" else 1
                if tier == "quick" and c.split()[-1] in ("p", "t", "ti", "dl") and p != "missing":
                    n = 0
            out.append({"t": "call", "prior": p, "call": c, "faults": n})
    o = list(ops())
    for w, m, k in itertools.product((True, False), (True, False), (True, False)):
        seqs = [[[a, None, False]] for a in o]
        if tier == "thorough" or (m and k == w):
            seqs += [[[a, None, False], [b, None, False]] for a in o for b in o]
        if tier == "thorough" and w and m:
            seqs += [[[a, None, False], [b, None, False], [c, None, False]] for a in o[:12] for b in o for c in o]
        for i in range(0, len(seqs), 25):
            out.append({"t": "ops", "writable": w, "matlab": m, "keep": k, "seqs": seqs[i:i + 25]})
    for w, m in itertools.product((True, False), (True, False)):
        for a in o:
            out.append({"t": "ops", "writable": w, "matlab": m, "keep": False, "faultop": a, "seqs": []})
    vs = [n for n in V.VALUES if "sobj" not in V.VALUES[n][1]] if tier == "quick" else list(V.VALUES)
    for m in (True, False):
        for i in range(0, len(vs), 40):
            out.append({"t": "values", "matlab": m, "names": vs[i:i + 40]})
    return out


def coverage(res, tier):
    return common.cov_exploration(
        res, "%d calls (module functions and openings, good and bad arguments, mappings that raise) on %d prior files with a fault before and "
        "after every h5py call they make; all sequences of %d operations on an open File to length %d, repeated, with and without keeping "
        "the results, and with a fault at every h5py call; every value of the alphabet read and kept with the File dropped. Counted: HDF5 "
        "identifiers of the process, descriptors, files in the directory. Non-trivial = distinct cases after which nothing was left open"
        % (len(calls("x")), len(PRIORS), len(ops()), 2 if tier == "quick" else 3), steps=res.n.get("steps", 0))
