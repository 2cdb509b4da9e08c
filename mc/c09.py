"""C09: opening files, all parameters, prior files, sequences and crash points.

The model of a file is (userblock size, userblock bytes, MATLAB header or not,
variables).  Every parameter combination is applied to every kind of prior
file, every pair (thorough: triple) of openings in sequence, and for openings
which must not truncate, every state that a crash during the opening can leave
(recorded by the shim: every prefix of the file operations and every torn
write) has to hold all the variables.
"""
import collections
import datetime
import fcntl
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import time

import h5py
import numpy as np

import hdf5storage

from . import common, h5dump, tracing, values

PROP = "C09"
LEVEL = "model_checking"
ASSUMPTIONS = ["only one process opens the file at a time (others may hold locks)",
               "a crash is the end of the process: what was handed to the kernel is kept, in order, the last write "
               "possibly torn",
               "files in HDF5's latest format are not part of the crash states: HDF5 itself marks them as open"]

ROOT = dict(old=np.arange(6.0).reshape(2, 3), name="abé", cell=[1, "x", None], grp={"a": 1, "b": [2]})


def _custom(n):
    return bytes((i * 7 + 3) % 251 for i in range(n))


def _h5(fn, ub, custom=None, libver=None, refs=True):
    kw = {"userblock_size": ub} if ub else {}
    if libver:
        kw["libver"] = libver
    with h5py.File(fn, "w", **kw) as f:
        f["plain"] = np.arange(4)
        f["g/inner"] = b"text"
        f["plain"].attrs["x"] = "y"
        f.create_dataset("packed", data=np.zeros(5000), compression="gzip", chunks=(500,))
    if custom:
        with open(fn, "r+b") as f:
            f.write(custom)


def make(kind, fn):
    if kind == "none":
        return
    if kind in ("matlab", "python", "symlink", "readonly"):
        target = fn if kind != "symlink" else fn + ".target"
        with hdf5storage.File(target, writable=True, matlab_compatible=kind != "python") as f:
            f.writes(ROOT)
        if kind == "symlink":
            os.symlink(target, fn)
        if kind == "readonly":
            os.chmod(fn, 0o444)
    elif kind == "empty0":
        open(fn, "w").close()
    elif kind == "garbage":
        with open(fn, "wb") as f:
            f.write(_custom(1000))
    elif kind == "dir":
        os.mkdir(fn)
    elif kind == "dangling":
        os.symlink(fn + ".target", fn)
    elif kind == "noublock":
        _h5(fn, 0)
    elif kind == "ub512":
        _h5(fn, 512, _custom(512))
    elif kind == "ub512z":
        _h5(fn, 512)
    elif kind == "ub1024":
        _h5(fn, 1024, _custom(1024))
    elif kind == "ub4096":
        _h5(fn, 4096, _custom(200))
    elif kind == "othermat":
        head = (b"MATLAB 7.3 MAT-file, Platform: GLNXA64, Created on: Mon Jan  2 03:04:05 2006 HDF5 schema 1.00 ."
                .ljust(116) + bytes(8) + b"\x00\x02IM" + _custom(100))
        _h5(fn, 512, head)
    elif kind == "latest":
        _h5(fn, 512, _custom(128), "latest")
    elif kind == "nolatest":
        _h5(fn, 0, None, "latest")
    elif kind == "nothing":
        with h5py.File(fn, "w"):
            pass


KINDS = ["none", "matlab", "python", "symlink", "readonly", "empty0", "garbage", "dir", "dangling", "noublock", "ub512",
         "ub512z", "ub1024", "ub4096", "othermat", "latest", "nolatest", "nothing"]
H5KINDS = [k for k in KINDS if k not in ("none", "empty0", "garbage", "dir", "dangling")]
PARAMS = [dict(zip(("writable", "truncate_existing", "truncate_invalid_matlab", "matlab_compatible"), v))
          for v in itertools.product((True, False), repeat=4)]
WD = ("Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun")
MON = ("Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec")
HEAD = re.compile(r"^MATLAB 7\.3 MAT-file, Platform: (.*?), Created on: (\w{3}) (\w{3}) ([ \d]\d) (\d\d):(\d\d):(\d\d) "
                  r"(\d{4}) HDF5 schema 1\.00 \. *$")


def header_problem(b, now=None):
    """What is wrong with the first 128 bytes (None if nothing)."""
    try:
        t = b[:116].decode("ascii")
    except UnicodeDecodeError:
        return "the text is not ASCII"
    m = HEAD.match(t)
    if m is None:
        return "the text is %r" % t
    if "hdf5storage" not in m.group(1) or hdf5storage.__version__ not in m.group(1):
        return "the platform is %r" % m.group(1)
    if b[116:124] != bytes(8):
        return "the subsystem offset is %r" % b[116:124]
    if b[124:128] != b"\x00\x02IM":
        return "version and byte order are %r" % b[124:128]
    try:
        d = datetime.datetime(int(m.group(8)), MON.index(m.group(3)) + 1, int(m.group(4)), *map(int, m.group(5, 6, 7)))
    except ValueError as e:
        return "the time is %r" % (m.groups(),)
    if WD[d.weekday()] != m.group(2):
        return "%s was not a %s" % (d.date(), m.group(2))
    t = (d - datetime.datetime(1970, 1, 1)).total_seconds()
    lo, hi = (time.time() - 300, time.time() + 300) if now is None else (now, now)
    if not lo <= t <= hi:
        return "the time is %s" % d
    return None


def content(fn):
    """(userblock size, userblock, {variable: description}) or None."""
    if not os.path.isfile(fn):
        return None
    try:
        with h5py.File(fn, "r") as f:
            ub = f.userblock_size
            vs = {k: repr(h5dump.dump(f, "/" + k)) for k in f if k != "#refs#"}
            root = repr(sorted(f.attrs))
    except OSError:
        return None
    with open(fn, "rb") as f:
        return ub, f.read(ub), vs, root


def raw(fn):
    if os.path.isfile(fn):
        with open(fn, "rb") as f:
            return f.read()
    return "dir" if os.path.isdir(fn) else "link" if os.path.islink(fn) else None


NEW = {"n1": [np.arange(3), "q"], "n2": {"k": (1, 2.5)}}


def expect(before, isfile, p, empty=False):
    """(opens, userblock size, userblock after byte 128, header, variables, truncates) by the model."""
    if empty and p["writable"] and before is None:
        # an empty file may be taken for one without a userblock (h5py does)
        before = (0, b"", {}, "[]")
    ub = before[0] if before else None
    if not p["writable"]:
        return ("ro",) if before else ("error",)
    if p["truncate_existing"] or not isfile:
        trunc = True
    elif before is None:
        return ("error",)
    else:
        trunc = p["matlab_compatible"] and p["truncate_invalid_matlab"] and ub < 128
    if trunc:
        return ("rw", 512, bytes(512), p["matlab_compatible"], {}, True)
    return ("rw", ub, before[1], p["matlab_compatible"] and ub >= 128, dict(before[2]), False)


def open_(fn, p, how):
    kw = dict(p)
    if how == "options":
        kw["options"] = hdf5storage.Options(matlab_compatible=kw.pop("matlab_compatible"))
    elif how == "default":
        for k, v in (("matlab_compatible", True), ("truncate_existing", False), ("truncate_invalid_matlab", False),
                     ("writable", False)):
            if kw[k] is v:
                del kw[k]
    return hdf5storage.File(fn, **kw)


def verify(fn, exp, label, bad):
    got = content(fn)
    if got is None:
        bad("unreadable", label + ": the file is not readable afterwards")
        return
    if got[0] != exp[1]:
        bad("ubsize", "%s: the userblock has %d bytes instead of %d" % (label, got[0], exp[1]))
        return
    if exp[3]:
        p = header_problem(got[1])
        if p:
            bad("header", "%s: wrong MATLAB header: %s" % (label, p))
        if got[1][128:] != exp[2][128:]:
            bad("ubrest", label + ": the rest of the userblock changed")
    elif got[1] != exp[2]:
        bad("userblock", "%s: the userblock changed from %r to %r" % (label, exp[2][:130], got[1][:130]))
    if set(got[2]) != set(exp[4]):
        bad("variables", "%s: has %s instead of %s" % (label, sorted(got[2]), sorted(exp[4])))
    for k in exp[4]:
        if k in got[2] and got[2][k] != exp[4][k]:
            bad("changed", "%s: variable %s changed" % (label, k))


class Holder:
    """Somebody else who has the file open or locked."""

    def __init__(self, how, fn):
        self.f = None
        if how in ("r", "a"):
            self.f = h5py.File(fn, how)
        elif how:
            self.f = open(fn, "rb")
            fcntl.flock(self.f, (fcntl.LOCK_SH if how == "flock_sh" else fcntl.LOCK_EX) | fcntl.LOCK_NB)

    def close(self):
        if self.f is not None:
            self.f.close()


def seq_case(res, case):
    """a sequence of openings with writes in between."""
    kind, ps, how, holder = case["kind"], case["ps"], case.get("how", "keywords"), case.get("holder")
    d = os.path.join(common.scratch(), "d9")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    fn = os.path.join(d, "x.mat")
    label = "%s, openings %s%s%s" % (kind, [tuple(int(v) for v in p.values()) for p in ps],
                                     "" if how == "keywords" else " by " + how, " held %s" % holder if holder else "")

    def bad(k, msg):
        res.bad("%s:%s" % (k, label), msg, case)

    held = None
    try:
        make(kind, fn)
        held = Holder(holder, fn)
        for i, p in enumerate(ps):
            before = content(fn) if not holder else content_held(fn, held)
            rb = raw(fn)
            exp = expect(before, os.path.isfile(fn), p, rb == b"")
            lab = "%s, opening %d" % (label, i + 1)
            res.count("transitions")
            res.count("evaluations")
            res.seen("states", (before, exp, tuple(p.items())))
            try:
                f = open_(fn, p, how)
            except Exception as e:
                if not isinstance(e, OSError):
                    bad("exc", "%s raised %s" % (lab, common.exc_str(e)))
                if exp[0] != "error" and not holder and kind not in ("dir", "dangling", "empty0"):
                    bad("refused", "%s: refused with %s" % (lab, common.exc_str(e)))
                if exp[0] != "rw" or not exp[5] or kind == "dir":
                    if raw(fn) != rb and not (holder and holder in "ra"):
                        bad("failedwrite", lab + ": changed the file though it failed")
                    if content(fn) != before and not holder:
                        bad("failedwrite", lab + ": changed the file though it failed")
                continue
            try:
                if exp[0] == "error" and holder == "a" and before is None:
                    continue  # could not be looked at
                if exp[0] == "error":
                    bad("accepted", lab + ": was accepted")
                    f.close()
                    continue
                names = set(list(f))
                if exp[0] == "ro":
                    if names - {"#refs#"} != set(before[2]):
                        bad("listing", "%s: lists %s" % (lab, sorted(names)))
                    for k in names:
                        # 2d arrays only with the dimension order of writing
                        if k != "old" or p["matlab_compatible"] == (kind != "python"):
                            f.read(k)
                    try:
                        f.write(1, "n3")
                        bad("wrote", lab + ": could be written into")
                    except OSError:
                        pass
                    f.flush()
                else:
                    if names != set(exp[4]):
                        bad("listing", "%s: lists %s instead of %s" % (lab, sorted(names), sorted(exp[4])))
            finally:
                f.close()
            if holder:
                held.close()
                held = None
            if exp[0] == "ro":
                if raw(fn) != rb and holder != "a":
                    bad("readonly", lab + ": changed the file")
                break_ = False
            else:
                verify(fn, exp, lab, bad)
                # and with something written
                with open_(fn, dict(p, truncate_existing=False), how) as f:
                    f.write(NEW["n%d" % (i % 2 + 1)], "n%d" % (i % 2 + 1))
                now = content(fn)
                e2 = list(exp)
                if now is not None:
                    e2[4] = dict(exp[4])
                    k = "n%d" % (i % 2 + 1)
                    if k not in now[2]:
                        bad("notwritten", lab + ": what was written is not there")
                    else:
                        e2[4][k] = now[2][k]
                verify(fn, tuple(e2), lab + " and writing", bad)
        for k in ("/proc/self/fd/" + x for x in os.listdir("/proc/self/fd")):
            try:
                if held is None and os.readlink(k).startswith(d):
                    bad("open", label + ": files were left open")
            except OSError:
                pass
    finally:
        if held is not None:
            held.close()
        shutil.rmtree(d, ignore_errors=True)
    res.count("traces")


def content_held(fn, held):
    """the same while somebody has it open."""
    tmp = fn + ".copy"
    if isinstance(held.f, h5py.File):
        held.f.flush()
    shutil.copyfile(fn, tmp)
    try:
        return content(tmp)
    finally:
        os.unlink(tmp)


def args_case(res, case):
    d = os.path.join(common.scratch(), "d9a")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    old = os.getcwd()
    os.chdir(d)
    n = 0
    O = hdf5storage.Options
    wrong = [({k: v}, TypeError) for k in ("writable", "truncate_existing", "truncate_invalid_matlab")
             for v in (None, 0, 1, "True", [], 1.0)]
    wrong += [({"filename": v}, TypeError) for v in (None, b"x.mat", 3, ["x.mat"])]
    wrong += [({"options": v}, TypeError) for v in (3, {}, "x", O)]
    wrong += [({"options": O(), k: v}, ValueError) for k, v in (("matlab_compatible", False), ("nosuch", 1))]
    try:
        for kind in ("matlab", "none", "noublock"):
            for base in PARAMS[:8]:
                for kw, exc in wrong:
                    fn = os.path.join(d, "x.mat")
                    if os.path.exists(fn):
                        os.unlink(fn)
                    make(kind, fn)
                    rb = raw(fn)
                    a = dict(base, filename=fn)
                    if "options" in kw:
                        del a["matlab_compatible"]
                    a.update(kw)
                    n += 1
                    label = "File(%s) on %s" % ({k: v for k, v in a.items() if k != "filename"}, kind)
                    try:
                        hdf5storage.File(**a).close()
                        res.bad("args:" + label, label + " was accepted", case)
                    except exc:
                        pass
                    except Exception as e:
                        res.bad("args:" + label, "%s raised %s" % (label, common.exc_str(e)), case)
                    if raw(fn) != rb:
                        res.bad("args:" + label, label + " changed the file", case)
                    if kind == "none" and os.listdir(d):
                        res.bad("args:" + label, "%s left %s" % (label, os.listdir(d)), case)
                        for x in os.listdir(d):
                            os.unlink(x)
        # the default file name
        with hdf5storage.File(writable=True) as f:
            f.write(1, "a")
        n += 1
        if "data.h5" not in os.listdir(d) or header_problem(raw("data.h5")[:128]):
            res.bad("default", "the default file name is not data.h5 or it has no header", case)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    res.count("evaluations", n)


# ------------------------------------------------------------- with the shim

def driver(jobs):
    """Runs under the shim: opens files and says how far the log got."""
    shim = tracing.Shim()
    log = os.environ["HMC_LOG"]

    def pos():
        return os.path.getsize(log) if os.path.exists(log) else 0

    out = []
    for j in jobs:
        if "time" in j:
            shim.time(j["time"])
            try:
                with hdf5storage.File(j["fn"], writable=True, truncate_existing=True):
                    pass
                with open(j["fn"], "rb") as f:
                    out.append(f.read(128).hex())
            finally:
                shim.time(0)
            continue
        a = pos()
        shim.record(True)
        err = None
        f = None
        try:
            f = open_(j["fn"], j["p"], "keywords")
        except Exception as e:
            err = common.exc_str(e)
        b = pos()
        if f is not None:
            f.close()
        shim.record(False)
        out.append([a, b, pos(), err])
    print("RESULT" + json.dumps(out))
    sys.stdout.flush()


def call(jobs, d, log, extra=None):
    r = tracing.run("c09:driver", json.dumps(jobs), d, log, extra=extra)
    lines = [x for x in r.stdout.splitlines() if x.startswith("RESULT")]
    if not lines:
        raise RuntimeError("the driver failed: " + r.stderr[-800:])
    return json.loads(lines[0][6:])


def cuts(op, fine):
    n = len(op[3])
    if n <= 1:
        return []
    if fine and n <= 600:
        return range(1, n)
    if n <= 600:
        return sorted({1, 4, 7, 8, 9, n // 2, n - 1} | set(range(16, n, 16)))
    return sorted({1, 8, n // 4, n // 2, n - 1} | set(range(512, n, 512)))


def crash_case(res, case):
    d = os.path.join(common.scratch(), "d9c")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    log = os.path.join(common.scratch(), "log9")
    common.rmfile(log)
    fn = os.path.join(d, "x.mat")
    chk = os.path.join(common.scratch(), "chk9.mat")
    kind, p = case["kind"], case["p"]
    label = "%s, opening %s" % (kind, tuple(int(v) for v in p.values()))
    try:
        make(kind, fn)
        before = content(fn)
        rb = raw(fn)
        exp = expect(before, True, p)
        target = os.path.realpath(fn)
        (a, b, c, err), = call([{"fn": fn, "p": p}], d, log)
        with open(log, "rb") as f:
            data = f.read()
        ops = tracing.parse(data[a:c])
        opened = len(tracing.parse(data[a:b]))
        # replaying everything gives what is there
        end = {target: rb}
        for op in ops:
            tracing.apply(end, resolve(op, fn, target))
        if end.get(target) != raw(fn):
            raise RuntimeError("the recorded operations do not lead to the file")
        res.count("traces")
        if exp[0] == "rw" and exp[5]:
            return
        seen = set()
        for what, st in tracing.states({target: rb}, [resolve(o, fn, target) for o in ops],
                                       lambda o: cuts(o, case["fine"])):
            res.count("transitions")
            img = st.get(target)
            h = common.h64(img)
            if h in seen:
                continue
            seen.add(h)
            res.seen("states", (kind, h))
            res.count("evaluations")
            lab = "%s, crash %s of %d (%d for opening)" % (label, what, len(ops), opened)
            if img is None:
                res.bad("crash:" + lab, lab + ": there is no file", case)
                continue
            with open(chk, "wb") as f:
                f.write(img)
            got = content(chk)
            if got is None or got[2] != before[2] or got[0] != before[0]:
                res.bad("crash:" + lab, "%s: data are lost (%s)" % (lab, "unreadable" if got is None else sorted(got[2])),
                        case)
                continue
            if got[1][128:] != before[1][128:]:
                res.bad("crashub:" + lab, lab + ": the rest of the userblock changed", case)
            if not p["matlab_compatible"] or not p["writable"]:
                if got[1] != before[1]:
                    res.bad("crashub:" + lab, lab + ": the userblock changed", case)
            # everything works again afterwards
            try:
                with hdf5storage.File(chk, writable=True) as f:
                    for k in f:
                        if k != "old" or kind != "python":
                            f.read(k)
                    f.write(1, "again")
                got = content(chk)
                if set(got[2]) != set(before[2]) | {"again"} or (got[0] >= 128 and header_problem(got[1])):
                    res.bad("recover:" + lab, lab + ": not repaired by opening it again", case)
            except Exception as e:
                res.bad("recover:" + lab, "%s: opening it again: %s" % (lab, common.exc_str(e)), case)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        common.rmfile(log, chk)


def resolve(op, fn, target):
    return (op[0], target if op[1] == fn else op[1]) + tuple(op[2:])


def clock_case(res, case):
    d = os.path.join(common.scratch(), "d9t")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    log = os.path.join(common.scratch(), "log9t")
    try:
        jobs = [{"fn": os.path.join(d, "t.mat"), "time": t} for t in case["times"]]
        for t, h in zip(case["times"], call(jobs, d, log, {"TZ": case["tz"]})):
            res.count("evaluations")
            res.count("transitions")
            p = header_problem(bytes.fromhex(h), t)
            if p:
                lab = "header written at %s (TZ=%s)" % (datetime.datetime.fromtimestamp(t, datetime.timezone.utc),
                                                       case["tz"])
                res.bad("clock:" + lab, "%s: %s" % (lab, p), case)
        res.count("traces")
    finally:
        shutil.rmtree(d, ignore_errors=True)
        common.rmfile(log)


def times():
    out = []
    for y in (1999, 2023, 2024, 2038, 2100):
        for m in range(1, 13):
            for d, h in ((1, 0), (9, 9), (10, 12), (28, 23)):
                out.append(datetime.datetime(y, m, d, h, (m * 5) % 60, (d * 2 + 1) % 60))
    for i in range(14):
        out.append(datetime.datetime(2024, 2, 20, 23, 59, 59) + datetime.timedelta(days=i))
    return [int((x - datetime.datetime(1970, 1, 1)).total_seconds()) for x in out]


def cases(tier, seed):
    full = tier != "quick"
    out = [{"k": "args"}]
    for k in KINDS:
        for p in PARAMS:
            for how in ("keywords", "options", "default"):
                out.append({"k": "seq", "kind": k, "ps": [p], "how": how})
            for holder in ("r", "a", "flock_sh", "flock_ex"):
                if k in H5KINDS:
                    out.append({"k": "seq", "kind": k, "ps": [p], "holder": holder})
            for q in PARAMS:
                out.append({"k": "seq", "kind": k, "ps": [p, q]})
                if full and k in ("none", "matlab", "python", "noublock", "ub1024", "othermat"):
                    out += [{"k": "seq", "kind": k, "ps": [p, q, r]} for r in PARAMS]
            if k in H5KINDS and k not in ("latest", "nolatest"):
                out.append({"k": "crash", "kind": k, "p": p, "fine": full})
    t = times()
    for i in range(0, len(t), 64):
        out += [{"k": "clock", "times": t[i:i + 64], "tz": z} for z in ("UTC0", "AAA-9:30", "BBB8")]
    return out


RUN = {"seq": seq_case, "args": args_case, "crash": crash_case, "clock": clock_case}


def run_case(case):
    res = common.Res()
    RUN[case["k"]](res, case)
    res.samples.append({k: v for k, v in case.items() if k != "times"})
    return res


def coverage(res, tier):
    return common.cov_mc(res, rule="all parameter combinations on all kinds of prior files, sequences of two%s, holders, "
                                   "all crash states of each opening, the clock" % (" or three" if tier != "quick" else ""))
