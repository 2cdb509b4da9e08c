"""C25: what is written and read does not depend on the process it is done in."""
import hashlib
import itertools
import json
import os
import pickle
import subprocess
import sys

import h5py
import numpy as np

import hdf5storage

from . import c01, c04, common, h5dump, optsets
from . import values as V

PROP = "C25"
LEVEL = "exploration"
CASE_TIMEOUT = 400
ASSUMPTIONS = ["circumstances are the settings of the interpreter, the environment variables and the other libraries' settings listed in "
               "the check; the versions of Python, NumPy and HDF5 are those installed",
               "the order of the elements of a stored set of strings may follow Python's hash seed"]

# Name -> (interpreter flags, environment, actions in the process)
ENVS = {
    "hash1": ((), {"PYTHONHASHSEED": "1"}, ()),
    "hash2": ((), {"PYTHONHASHSEED": "4242"}, ()),
    "hash3": ((), {"PYTHONHASHSEED": "77"}, ()),
    "O": (("-O",), {}, ()),
    "OO": (("-OO",), {}, ()),
    "bb": (("-bb",), {}, ()),
    "dev": (("-X", "dev"), {}, ()),
    "isolated": (("-s", "-X", "utf8=0"), {"LC_ALL": "C", "LANG": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": "ascii"},
                 ("locale",)),
    "home": ((), {"HOME": "/nonexistent", "TMPDIR": "/nonexistent", "USER": "", "COLUMNS": "3", "TZ": "Pacific/Kiritimati"}, ()),
    "tz": ((), {"TZ": "XXX+13:47:11YYY"}, ()),
    "nolock": ((), {"HDF5_USE_FILE_LOCKING": "FALSE"}, ()),
    "seterr": ((), {}, ("seterr",)),
    "printopts": ((), {}, ("printopts",)),
    "bufsize": ((), {}, ("bufsize",)),
    "track": ((), {}, ("track",)),
    "gc1": ((), {}, ("gc1",)),
    "gcoff": ((), {}, ("gcoff",)),
    "thread": ((), {}, ("thread", "switch")),
    "fork": ((), {}, ("fork",)),
    "cwd": ((), {}, ("cwd", "umask")),
    "stdin": ((), {}, ("stdin",)),
    "misc": ((), {}, ("random", "decimal", "recursion", "digits", "utilfirst", "warnings")),
    "reversed": ((), {}, ("reversed",)),
    "odds": ((), {}, ("odds",)),
    "twice": ((), {}, ("twice",)),
    "limits": ((), {}, ("limits",)),
}
# For the files of others, where nothing but reading matters.
READING = ("hash1", "hash2", "O", "bb", "isolated", "seterr", "printopts", "gc1", "thread", "misc", "reversed", "limits")
HASHY = ("hash1", "hash2", "hash3")
PROFS = ("matlab", "plain", "allon")


def has_set(v, depth=0):
    """Whether something in it is a set whose order follows the hash seed."""
    if isinstance(v, (set, frozenset)):
        return True
    if depth > 6:
        return False
    if isinstance(v, np.ndarray) or isinstance(v, np.void):
        if v.dtype.hasobject:
            a = np.asarray(v)
            if a.dtype.names:
                return any(has_set(np.asarray(a[n]), depth + 1) for n in a.dtype.names)
            return any(has_set(x, depth + 1) for x in a.ravel().tolist())
        return False
    if hasattr(v, "maps"):
        return any(has_set(x, depth + 1) for x in v.maps)
    if hasattr(v, "items"):
        return any(has_set(k, depth + 1) or has_set(x, depth + 1) for k, x in v.items())
    if isinstance(v, (list, tuple)) or type(v).__name__ == "deque":
        return any(has_set(x, depth + 1) for x in v)
    return False


def text(x, full):
    r = repr(x)
    return r if full else hashlib.blake2b(r.encode("utf-8", "surrogatepass"), digest_size=8).hexdigest()


def attempt(f):
    try:
        return f()
    except Exception as e:
        return "raised " + type(e).__name__


def order(n, job):
    idx = list(range(n))
    if "reversed" in job["actions"]:
        idx.reverse()
    if "odds" in job["actions"]:
        idx = idx[1::2] + idx[::2]
    return idx


def work(job):
    """Runs in the worker; item -> description of what came of it."""
    out = {}
    for i in order(len(job["parts"]), job):
        part = dict(job, **job["parts"][i])
        for k, v in work_part(part).items():
            out["%d|%s" % (i, k)] = v
    return out


def work_part(job):
    out = {}
    full = job["full"]
    if job["kind"] == "own":
        for prof in job["profiles"]:
            for _ in range(2 if "twice" in job["actions"] else 1):
                out.update(own(job, prof, full))
    elif job["kind"] == "foreign":
        for kw in ({"matlab_compatible": True}, {"matlab_compatible": False, "structs_as_dicts": True}):
            with hdf5storage.File(job["file"], writable=False, **kw) as f:
                for i in order(len(job["names"]), job):
                    n = job["names"][i]
                    out["foreign|%s|%s" % (n, kw["matlab_compatible"])] = text(attempt(lambda: V.canon(f.read((n,)))), full)
        d = attempt(lambda: hdf5storage.loadmat(job["file"]))
        if isinstance(d, dict):
            d = {k: text(V.canon(v), full) for k, v in d.items()}
        out["loadmat"] = sorted(d.items()) if isinstance(d, dict) else d
    else:
        pathwork(job, out, full)
    return out


def own(job, prof, full):
    out = {}
    opts = dict(optsets.get(prof))
    refs = opts.get("group_for_references", "/#refs#")
    names = [tuple(s) for s in job["specs"]]
    n = len(names)
    if opts["matlab_compatible"]:
        pass
    fn = os.path.join(job["dir"], "own-%d-%s.mat" % (os.getpid(), prof))
    with_sets = [has_set(c01.make(s)) for s in names]
    try:
        for rnd in (0, 1) if prof != "plain" else (0,):
            with hdf5storage.File(fn, writable=True, **opts) as f:
                for i in order(n, job):
                    s = names[(i + rnd) % n]
                    if not c01._usable(s[0], opts):
                        r = "unusable"
                    else:
                        v = c01.make(s)
                        r = attempt(lambda: f.write(v, "/v%d" % i))
                    out["%s|%s|write%d" % (s, prof, rnd)] = r
            with hdf5storage.File(fn, writable=False, **opts) as f:
                for i in order(n, job):
                    s = names[(i + rnd) % n]
                    out["%s|%s|read%d" % (s, prof, rnd)] = text(attempt(lambda: V.canon(f.read("/v%d" % i))), full)
            with h5py.File(fn, "r") as h:
                for i in range(n):
                    s = names[(i + rnd) % n]
                    key = "%s|%s|dump%d" % (s, prof, rnd) + ("|set" if with_sets[(i + rnd) % n] or with_sets[i] and rnd else "")
                    out[key] = text(h5dump.dump(h, "/v%d" % i, refs, where=False), full)
        # Without metadata and by the functions.
        if prof == "plain" and job["light"]:
            return out
        opts2 = dict(opts, store_python_metadata=False)
        fn2 = fn + "b.mat"
        try:
            h5py.File(fn2, "w", userblock_size=512).close()
            with hdf5storage.File(fn2, writable=True, **opts2) as f:
                for i in order(n, job):
                    s = names[i]
                    if c01._usable(s[0], opts):
                        v = c01.make(s)
                        if i % 8:
                            r = attempt(lambda: f.write(v, "/w%d" % i))
                        else:
                            r = attempt(lambda: hdf5storage.write(v, "/w%d" % i, filename=fn2 + "c", **opts2))
                        out["%s|%s|nometa" % (s, prof)] = r
            with h5py.File(fn2, "r") as h:
                for i in range(n):
                    key = "%s|%s|nometadump" % (names[i], prof) + ("|set" if with_sets[i] else "")
                    out[key] = text(h5dump.dump(h, "/w%d" % i, refs, where=False), full)
            if "track" not in job["actions"]:
                with hdf5storage.File(fn2, writable=False, **opts2) as f:
                    for i in order(n, job):
                        key = "%s|%s|nometaread" % (names[i], prof) + ("|set" if with_sets[i] else "")
                        if i % 8:
                            out[key] = text(attempt(lambda: V.canon(f.read("/w%d" % i))), full)
                        else:
                            out[key] = text(attempt(lambda: V.canon(hdf5storage.read("/w%d" % i, filename=fn2 + "c", **opts2))), full)
        finally:
            common.rmfile(fn2, fn2 + "c")
    finally:
        common.rmfile(fn)
    return out


PATHCH = ["a", "/", "\\", ".", "\x00", "x", "\xe9", "\u4f60"]


def pathwork(job, out, full):
    from hdf5storage import pathesc
    ss = ["".join(t) for k in range(5) for t in itertools.product(PATHCH, repeat=k)]
    for nm in ("escape_path", "unescape_path", "process_path"):
        fn = getattr(pathesc, nm)
        for enc in (False, True):
            for blk in range(0, len(ss), 500):
                out["%s|%s|%d" % (nm, enc, blk)] = text(
                    [attempt(lambda: fn(s.encode() if enc else s)) for s in ss[blk:blk + 500]], full)
    for prof in ("matlab", "plain", "allon", "odd"):
        o = hdf5storage.Options(**optsets.get(prof))
        out["options|" + prof] = text([(k, repr(getattr(o, k))) for k in sorted(dir(o)) if not k.startswith("_") and not
                                       callable(getattr(o, k)) and k != "marshaller_collection"], full)
        mc = o.marshaller_collection
        for n in V.VALUES:
            v = V.get(n)
            out["marshaller|%s|%s" % (prof, n)] = repr([type(x).__name__ if not isinstance(x, bool) else x
                                                        for x in mc.get_marshaller_for_type(type(v))])
    # Whole files, by the MATLAB functions.
    fn = os.path.join(job["dir"], "p-%d.mat" % os.getpid())
    md = {"a": np.arange(3.0), "b": "text\u4f60", "c": {"x": 1, "y": [1, "z"]}, "_d": 3, "e": [None, 2.5]}
    try:
        for mat in (True, False):
            for oned in ("row", "column"):
                common.rmfile(fn)
                r = attempt(lambda: hdf5storage.savemat(fn, dict(md), matlab_compatible=mat, oned_as=oned))
                out["savemat|%s|%s" % (mat, oned)] = repr(r)
                with h5py.File(fn, "r") as h:
                    out["savematdump|%s|%s" % (mat, oned)] = text([(k, h5dump.dump(h, "/" + k)) for k in sorted(h) if k != "#refs#"],
                                                                  full)
                    ub = h.userblock_size
                with open(fn, "rb") as f:
                    head = f.read(ub)
                # The time is the only thing in the header that may differ.
                if ub:
                    t = head[:116].lower().split(b"created on: ")
                    head = t[0] + t[1][24:] + head[116:] if len(t) == 2 else head
                out["header|%s|%s" % (mat, oned)] = text(head, full)
                out["loadmat|%s|%s" % (mat, oned)] = text(sorted((k, V.canon(v)) for k, v in hdf5storage.loadmat(fn).items()), full)
    finally:
        common.rmfile(fn)


GROUPED = ["struct:i4f8:3", "struct:obj:3", "struct:nest:2x2", "struct:obj:0", "recarray:obj:3"] + [
    n for n in V.VALUES if V.VALUES[n][1] & {"dict", "dictlike"}][:36:4]
ATTRS = ["", "Python.Fields", "MATLAB_fields", "Python.Type", "Python.Shape", "Python.numpy.UnderlyingType", "Python.numpy.Container",
         "MATLAB_class", "Python.dict.StoredAs", "Python.dict.keys_values_names", "Python.dict.key_str_types", "Python.Empty",
         "MATLAB_empty", "MATLAB_int_decode"]


# ----------------------------------------------------------------- the driver
_job = [0]


def start(job, env):
    flags, environ, actions = ENVS[env] if env else ((), {}, ())
    if isinstance(env, (list, tuple)):
        raise TypeError
    d = common.scratch()
    _job[0] += 1
    base = os.path.join(d, "job%d" % _job[0])
    job = dict(job, actions=list(actions), verif=common.VERIF, dir=d)
    with open(base, "w", encoding="utf-8") as f:
        json.dump(job, f)
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "HDF5", "LC_", "LANG"))}
    e.update(PYTHONHASHSEED="0", LC_ALL="C.UTF-8", TZ="UTC", PYTHONPYCACHEPREFIX=os.path.join(os.environ["VERIF_SCRATCH"], "pyc"))
    e["VERIF_SCRATCH"] = os.environ["VERIF_SCRATCH"]
    e["VERIF_REPO"] = common.REPO
    e.update(environ)
    for k in [k for k, v in e.items() if v is None]:
        del e[k]
    p = subprocess.run([sys.executable, *flags, os.path.join(common.VERIF, "mc", "c25w.py"), base, base + ".out"],
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    try:
        if p.returncode or not os.path.exists(base + ".out"):
            return None, "exit code %s: %s" % (p.returncode, p.stdout.decode("utf-8", "replace")[-700:])
        with open(base + ".out", "rb") as f:
            return pickle.load(f), None
    finally:
        common.rmfile(base, base + ".out")


def foreign_file(case):
    fn = common.newfile(".mat")
    if case["names"][0] == "changed":
        # What the package wrote, with attributes removed and members added.
        attr = case["names"][1]
        names = []
        for prof in ("matlab", "allon"):
            opts = optsets.get(prof)
            if case["names"][2]:
                opts["store_python_metadata"] = False
            with hdf5storage.File(fn, writable=True, **opts) as f:
                for i, n in enumerate(GROUPED):
                    if c01._usable(n, opts):
                        f.write(V.get(n), "/%s%d" % (prof, i))
                        names.append("%s%d" % (prof, i))
        with h5py.File(fn, "r+") as h:
            objs = []
            h.visititems(lambda k, o: objs.append(o))
            for o in objs:
                if attr and attr in o.attrs:
                    if attr in ("Python.Fields", "MATLAB_fields") and o.attrs[attr].size > 1:
                        v = o.attrs[attr][:-1]
                        del o.attrs[attr]
                        if attr == "MATLAB_fields":
                            o.attrs.create(attr, v, dtype=h5py.special_dtype(vlen=np.dtype("S1")))
                        else:
                            o.attrs.create(attr, v, dtype=h5py.special_dtype(vlen=str))
                    else:
                        del o.attrs[attr]
                if isinstance(o, h5py.Group) and o.name != "/#refs#":
                    src = [k for k in o if isinstance(o[k], h5py.Dataset)]
                    for k in range(4):
                        o["new%d" % (k * 5 % 7)] = o[src[0]][()] if src else k
        return fn, names
    if case["names"] == ["plain"]:
        with h5py.File(fn, "w") as h:
            c04.plain(h)
            names = [k for k in h if k != "store"]
    else:
        sp = c04.specs(case["tier"])
        with h5py.File(fn, "w", userblock_size=512) as h:
            b = c04.Builder(h, case["attr"])
            for i, n in enumerate(case["names"]):
                b.put(h, "x%d" % i, sp[n])
        names = ["x%d" % i for i in range(len(case["names"]))]
    return fn, names


def run_case(case):
    res = common.Res()
    parts, files = [], []
    try:
        for p in case["parts"]:
            q = {"kind": p["kind"]}
            if p["kind"] == "own":
                q.update(specs=p["specs"], profiles=p["profiles"])
            elif p["kind"] == "foreign":
                q["file"], q["names"] = foreign_file(p)
                files.append(q["file"])
            parts.append(q)
        job = {"parts": parts, "full": False, "light": case["light"]}
        base, err = start(job, None)
        if base is None:
            res.bad("base|%016x" % common.h64(case["parts"]), "the usual process failed: " + err, case)
            return res
        for env in case["envs"]:
            got, err = start(job, env)
            if got is None:
                res.bad("%s|process|%016x" % (env, common.h64(case["parts"])), "the process failed: " + err, dict(case, envs=[env]))
                continue
            bad = []
            for k in base:
                if env in HASHY and k.endswith("|set") or env == "track" and "|nometaread" in k:
                    continue
                res.count("evaluations")
                if got.get(k) != base[k]:
                    bad.append(k)
                else:
                    res.seen("nontrivial", (env, k, base[k]))
            if bad:
                # Once more with the texts.
                idx = sorted({int(k.split("|")[0]) for k in bad})[:2]
                sub = dict(job, full=True, parts=[parts[i] for i in idx])
                a, _ = start(sub, None)
                b, _ = start(sub, env)
                n = 0
                for k in bad:
                    i = int(k.split("|")[0])
                    if i not in idx or n > 5:
                        continue
                    n += 1
                    k2 = "%d|%s" % (idx.index(i), k.split("|", 1)[1])
                    d = V.diff(a.get(k2), b.get(k2)) if a and b else "?"
                    p = case["parts"][i]
                    nm = "" if p["kind"] != "foreign" else "%s %s|" % (p["attr"], p["names"][:2] if p["names"][0] == "changed" else "")
                    res.bad("%s|%s%s" % (env, nm, k.split("|", 1)[1]), "%s: %s" % (env, d), {"parts": [p], "envs": [env], "light": case["light"]})
        res.samples.append({"job": case["parts"][0]["kind"], "items": len(base), "circumstances": list(case["envs"])})
    finally:
        common.rmfile(*files)
    return res


OUT_Q = ("list3", "dictval", "objarr22")


def cases(tier, seed):
    out = []
    envs = list(ENVS)
    rest = [n for n in V.VALUES if not V.VALUES[n][1] & {"leaf", "dtype", "dictlike", "seq", "dict"}]
    rest = set(V.VALUES) - set(rest) | set(rest if tier != "quick" else rest[::6])
    specs = [[n, None] for n in V.VALUES if n in rest]
    leaves = [n for n in V.VALUES if V.VALUES[n][1] & {"leaf", "dtype", "dictlike", "seq", "dict"}]
    for o in OUT_Q if tier == "quick" else tuple(x for x in c01.OUTER if x not in c01.FIELDWISE):
        specs += [[n, o] for n in (leaves if tier != "quick" else leaves[OUT_Q.index(o)::9])]
    big = [n for n in V.LARGE if not n.endswith(("000", "500", ":4001"))] if tier != "quick" else [
        "large " + n for n in ("dict:40", "OrderedDict:40", "fields:30", "dict:int:17", "Counter:17", "set:40",
                               "list:mixed:16", "structobj:17", "dict:keylen:257", "field:namelen:257", "ndim:9", "ndimO:8",
                               "deep:kv:8", "deep:mix:8", "int:2**4000+1", "str:uni:4096")]
    bigs = [[n, None] for n in big]
    envs = list(ENVS)
    own = [{"kind": "own", "specs": bigs, "profiles": ["matlab", "plain"]}]
    for i in range(0, len(specs), 60):
        own.append({"kind": "own", "specs": specs[i:i + 60], "profiles": list(PROFS) if tier != "quick" else ["matlab", "plain"]})
    own.append({"kind": "path"})
    names = list(c04.specs(tier))
    some = {"fixed": names[::3], "vlen": names[::8]} if tier == "quick" else dict.fromkeys(("fixed", "vlen", "vlenbytes"), names)
    foreign = [{"kind": "foreign", "tier": tier, "attr": attr, "names": some[attr][i:i + 100]}
               for attr in (("fixed", "vlen") if tier == "quick" else ("fixed", "vlen", "vlenbytes"))
               for i in range(0, len(some[attr]), 100)]
    changed = [{"kind": "foreign", "tier": tier, "attr": "", "names": ["plain"]}]
    changed += [{"kind": "foreign", "tier": tier, "attr": "", "names": ["changed", a, m]}
                for a in ATTRS for m in (False, True) if not (m and a.startswith("Python"))]
    reading = READING if tier == "quick" else envs
    k = 6 if tier == "quick" else 3
    for parts, who in ((own, envs), (foreign, reading), (changed, reading)):
        m = max(8, len(parts) // 3)
        for i in range(0, len(parts), m):
            for j in range(0, len(who), k):
                out.append({"parts": parts[i:i + m], "envs": [e for e in who[j:j + k] if parts is not changed or e != "track"],
                            "light": tier == "quick"})
    return out


def run_all(cases, tier, seed):
    return common.run_pool(sys.modules[__name__], cases, chunk=1)


def coverage(res, tier):
    return common.cov_exploration(
        res, "one result (structural dump, value read, exception) which is the same in a process started and set up otherwise",
        circumstances=sorted(ENVS))
