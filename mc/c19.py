"""C19: what was flushed or closed is on file.

All histories up to a depth of operations on one file (writing, overwriting,
deleting, failing, reading, second handles, reopening, module functions) which
end with an operation that acknowledges (flush, close, leaving the context
normally or by exceptions, abandoning, the module functions).  When it
returns, the bytes which the kernel has are what a killed process leaves; they
have to hold exactly the acknowledged variables.  That these are the bytes a
killed process leaves is checked with real processes.
"""
import fcntl
import gc
import itertools
import json
import os
import shutil
import signal
import subprocess
import sys

import h5py
import numpy as np

import hdf5storage

from . import common, h5dump
from . import values as V

PROP = "C19"
LEVEL = "model_checking"
ASSUMPTIONS = ["a crash is the end of the process (SIGKILL, _exit): what the kernel was given is kept",
               "right after the acknowledgement: later unflushed operations may damage the file when the process is killed "
               "(HDF5 has no journal)"]

CONFIGS = {
    "matlab": dict(matlab_compatible=True),
    "plain": dict(matlab_compatible=False, delete_unused_variables=True),
    "filters": dict(matlab_compatible=True, compress=True, compress_size_threshold=0, shuffle_filter=True,
                    compressed_fletcher32_filter=True),
}
VAL = {
    "a": lambda: 1.5, "A": lambda: "newé", "b": lambda: np.arange(6000.0), "c": lambda: {"x": [1, None, {"y": "z"}], "q": (2, 3)},
    "C": lambda: {"x": [4], "n": {1, 2}}, "d": lambda: [np.arange(3), "s", b"t"], "e": lambda: [],
}
DATA = ["a", "A", "b", "c", "C", "d", "two", "-a", "-c", "bad", "r", "r2"]
ACK = ["flush", "close", "exit", "raise", "interrupt", "badexit", "gc", "cycle", "closeflush"]
SHUT = ["open", "mwrite", "mwrites", "savemat", "mbad", "again"]
CLOSING = set(ACK) - {"flush"}


class Bad(Exception):
    pass


def same(x, y):
    return V.eq(x, y) is None


class World:
    def __init__(self, fn, cfg):
        self.fn, self.cfg = fn, cfg
        self.model = {}
        self.acked = {}
        self.loose = set()
        self.f = None
        self.open()

    def open(self):
        self.f = hdf5storage.File(self.fn, writable=True, **CONFIGS[self.cfg])

    def put(self, var, val):
        self.model[var] = val
        self.loose.discard(var)

    def do(self, op):
        """Returns whether it acknowledges."""
        f, m = self.f, self.model
        if op in VAL:
            f.write(VAL[op](), op.lower())
            self.put(op.lower(), op)
        elif op == "two":
            f.writes({"a": VAL["a"](), "d": VAL["d"]()})
            self.put("a", "a")
            self.put("d", "d")
        elif op[0] == "-":
            del f[op[1:]]
            del m[op[1:]]
        elif op == "bad":
            self.loose.add("z")
            try:
                f.write([1, object()], "z")
            except Exception:
                pass
            else:
                raise Bad("writing an object() did not fail")
        elif op == "r":
            for k in list(f):
                f.read(k)
        elif op == "r2":
            with hdf5storage.File(self.fn, **CONFIGS[self.cfg]) as g:
                for k in list(g):
                    g.read(k)
        elif op == "flush":
            f.flush()
            self.acked = dict(m)
            return True
        elif op == "open":
            self.open()
            return False
        elif op in ("mwrite", "mwrites", "savemat", "mbad"):
            kw = dict(CONFIGS[self.cfg], filename=self.fn)
            if op == "mwrite":
                hdf5storage.write(VAL["A"](), "a", **kw)
                self.put("a", "A")
            elif op == "mwrites":
                hdf5storage.writes({"c": VAL["C"](), "e": VAL["e"]()}, **kw)
                self.put("c", "C")
                self.put("e", "e")
            elif op == "savemat":
                hdf5storage.savemat(self.fn, {"b": VAL["b"](), "d": VAL["d"]()}, appendmat=False, oned_as="row",
                                    store_python_metadata=True, truncate_existing=False, marshaller_collection=None,
                                    options=hdf5storage.Options(**CONFIGS[self.cfg]))
                self.put("b", "b")
                self.put("d", "d")
            else:
                self.loose.add("z")
                try:
                    hdf5storage.write([1, object()], "z", **kw)
                except Exception:
                    pass
                else:
                    raise Bad("writing an object() did not fail")
            self.acked = dict(m)
            return True
        elif op == "again":
            # reading and failing to write do not harm
            with hdf5storage.File(self.fn, **CONFIGS[self.cfg]) as g:
                for k in list(g):
                    g.read(k)
                g.flush()
                try:
                    g.write(1, "a")
                except OSError:
                    pass
                else:
                    raise Bad("wrote to a file opened for reading")
            return True
        else:
            self.f = None
            if op not in ("gc", "cycle"):
                # It must be closed although it is still referred to.
                self.kept = f
            if op == "close":
                f.close()
                f.close()
            elif op == "closeflush":
                f.close()
                try:
                    f.flush()
                except OSError:
                    pass
                else:
                    raise Bad("flush of a closed file was accepted")
                if not f.closed:
                    raise Bad("closed is False")
            elif op == "exit":
                with f as g:
                    if g is not f:
                        raise Bad("the context manager gives something else")
            elif op in ("raise", "interrupt"):
                exc = ZeroDivisionError if op == "raise" else KeyboardInterrupt
                try:
                    with f:
                        raise exc("x")
                except exc:
                    pass
                else:
                    raise Bad("the exception was swallowed")
            elif op == "badexit":
                self.loose.add("z")
                try:
                    with f:
                        f.write({"k": object()}, "z")
                except Exception:
                    pass
                else:
                    raise Bad("the exception was swallowed")
            elif op in ("gc", "cycle"):
                if op == "cycle":
                    x = [f]
                    x.append(x)
                    del x
                del f
                gc.collect()
                return True
            if not f.closed:
                raise Bad("closed is False")
            self.acked = dict(m)
            return True
        return False


def legal(hist):
    """Whether every operation can be done."""
    opened, vs = True, set()
    for op in hist:
        if opened == (op in SHUT):
            return False
        if op[0] == "-":
            if op[1:] not in vs:
                return False
            vs.discard(op[1:])
        elif op in VAL:
            vs.add(op.lower())
        elif op == "two":
            vs |= {"a", "d"}
        elif op == "mwrite":
            vs.add("a")
        elif op == "mwrites":
            vs |= {"c", "e"}
        elif op == "savemat":
            vs |= {"b", "d"}
        elif op == "open":
            opened = True
        elif op in CLOSING:
            opened = False
    return True


def check_image(res, img, w, opened, label, case, abandoned=False):
    """The file as a crash leaves it now."""
    chk = os.path.join(common.scratch(), "chk19.mat")

    def bad(k, msg):
        res.bad("%s:%s" % (k, label), "%s: %s" % (label, msg), case)

    h = (common.h64(img), repr(sorted(w.model.items())), repr(sorted(w.acked.items())), w.cfg, abandoned, repr(sorted(w.loose)))
    res.seen("states", h)
    if h in SEEN:
        return
    SEEN.add(h)
    res.count("evaluations")
    with open(chk, "wb") as f:
        f.write(img)
    try:
        try:
            with h5py.File(chk, "r") as h5:
                h5dump.Dumper(h5, filters=False).dump(h5["/"])
            with hdf5storage.File(chk, **CONFIGS[w.cfg]) as g:
                got = set(g) - w.loose
                if abandoned:
                    # with what was not flushed either way
                    must = {k for k in w.acked if w.model.get(k) == w.acked[k]}
                    may = set(w.acked) | set(w.model)
                    if not must <= got <= may:
                        return bad("variables", "has %s instead of %s or %s" % (sorted(got), sorted(w.acked), sorted(w.model)))
                elif got != set(w.model):
                    return bad("variables", "has %s instead of %s" % (sorted(got), sorted(w.model)))
                for k in sorted(got):
                    x = g.read(k)
                    want = [d[k] for d in ((w.model, w.acked) if abandoned else (w.model,)) if k in d]
                    if not any(same(x, VAL[v]()) for v in want):
                        bad("value", "%s is %.100r" % (k, x))
        except Exception as e:
            bad("exc", "cannot be read: %s" % common.exc_str(e))
    finally:
        common.rmfile(chk)


SEEN = set()


def leftovers(fn):
    """Whether somebody still has the file."""
    for x in os.listdir("/proc/self/fd"):
        try:
            if os.readlink("/proc/self/fd/" + x) == fn:
                return "the file was left open"
        except OSError:
            pass
    with open(fn, "rb") as f:
        try:
            fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
        except OSError:
            return "the file was left locked"
    return None


def hist_case(res, case):
    """All histories that begin with a prefix."""
    for tail in itertools.product(*case["tail"]):
        hist = list(case["head"]) + list(tail)
        if legal(hist):
            one(res, hist, case["cfg"], {"k": "hist", "head": hist, "tail": [], "cfg": case["cfg"]})


def one(res, hist, cfg, case):
    fn = os.path.join(common.scratch(), "f19.mat")
    common.rmfile(fn)
    label = "%s: %s" % (cfg, " ".join(hist))
    w = None
    try:
        w = World(fn, cfg)
        try:
            for i, op in enumerate(hist):
                res.count("transitions")
                ack = w.do(op)
        except Bad as e:
            return res.bad("bad:" + label, "%s: %s" % (label, e), case)
        except Exception as e:
            return res.bad("exc:" + label, "%s: operation %d raised %s" % (label, i + 1, common.exc_str(e)), case)
        if not ack:
            raise RuntimeError("not an acknowledgement: " + label)
        with open(fn, "rb") as f:
            img = f.read()
        check_image(res, img, w, w.f is not None, label, case, hist[-1] in ("gc", "cycle"))
        if w.f is None:
            p = leftovers(fn)
            if p:
                res.bad("left:" + label, "%s: %s" % (label, p), case)
    finally:
        if w is not None and w.f is not None:
            w.f.close()
        common.rmfile(fn)
    res.count("traces")


def kill_case(res, case):
    """The same with processes that die for real."""
    fn = os.path.join(common.scratch(), "k19.mat")
    for tail in itertools.product(*case["tail"]):
        hist = list(case["head"]) + list(tail)
        if not legal(hist):
            continue
        common.rmfile(fn)
        label = "%s: %s %s" % (case["cfg"], " ".join(hist), case["end"])
        one_ = dict(case, head=hist, tail=[])
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                w = World(fn, case["cfg"])
                for op in hist:
                    w.do(op)
                with open(fn, "rb") as f:
                    img = f.read()
                msg = json.dumps([w.model, w.acked, sorted(w.loose), common.h64(img)])
                os.write(wr, msg.encode())
                if case["end"] == "kill":
                    os.kill(os.getpid(), signal.SIGKILL)
                elif case["end"] == "segv":
                    signal.signal(signal.SIGSEGV, signal.SIG_DFL)
                    os.kill(os.getpid(), signal.SIGSEGV)
                os._exit(0)
            except BaseException as e:
                os.write(wr, json.dumps([common.exc_str(e)]).encode())
                os._exit(3)
        os.close(wr)
        msg = b""
        while True:
            x = os.read(r, 65536)
            if not x:
                break
            msg += x
        os.close(r)
        os.waitpid(pid, 0)
        msg = json.loads(msg)
        if len(msg) == 1:
            res.bad("exc:" + label, "%s: %s" % (label, msg[0]), one_)
            continue
        w = World.__new__(World)
        w.cfg, w.model, w.acked, w.loose = case["cfg"], msg[0], msg[1], set(msg[2])
        with open(fn, "rb") as f:
            img = f.read()
        res.count("transitions", len(hist))
        if common.h64(img) != msg[3]:
            # the process wrote when it died?
            res.bad("model:" + label, label + ": the file is not what it was at the acknowledgement", one_)
        check_image(res, img, w, False, label, one_, hist[-1] in ("gc", "cycle"))
        p = leftovers(fn)
        if p:
            res.bad("left:" + label, "%s: %s" % (label, p), one_)
        common.rmfile(fn)
        res.count("traces")


ENDINGS = {
    "end": "", "exit": "sys.exit(0)", "exit3": "sys.exit(3)", "exception": "raise ValueError('x')",
    "_exit": "KEEP[0].flush() if KEEP[0] is not None and not KEEP[0].closed else None; os._exit(0)",
    "kill": "KEEP[0].flush() if KEEP[0] is not None and not KEEP[0].closed else None; os.kill(os.getpid(), 9)",
}
SCRIPT = """
import sys, os, json
sys.path.insert(0, %(verif)r)
import numpy as np
import hdf5storage
from mc import c19
KEEP = [None]
def main():
    w = c19.World(%(fn)r, %(cfg)r)
    for op in %(hist)r:
        w.do(op)
    %(hold)s
    print("RESULT" + json.dumps([w.model, w.acked, sorted(w.loose)]))
    sys.stdout.flush()
    return w if %(local)r else None
res = main()
KEEP[0] = KEEP[0] or (res and res.f)
%(end)s
"""
HOLDS = {"global": ("KEEP[0] = w.f", False), "local": ("pass", False), "world": ("pass", True),
         "cycle": ("w.f.me = w.f", False), "module": ("np.keepit = w.f", False)}


def exit_case(res, case):
    """Processes which end in all ways without closing."""
    fn = os.path.join(common.scratch(), "x19.mat")
    common.rmfile(fn)
    hold, local = HOLDS[case["hold"]]
    label = "%s: %s, held by %s, %s" % (case["cfg"], " ".join(case["hist"]), case["hold"], case["end"])
    src = SCRIPT % dict(verif=common.VERIF, fn=fn, cfg=case["cfg"], hist=case["hist"], hold=hold, local=local,
                        end=ENDINGS[case["end"]])
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", src], capture_output=True, text=True, timeout=100,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    lines = [x for x in r.stdout.splitlines() if x.startswith("RESULT")]
    if not lines:
        return res.bad("exc:" + label, "%s: %s" % (label, r.stderr[-300:]), case)
    m = json.loads(lines[0][6:])
    w = World.__new__(World)
    w.cfg, w.model, w.acked, w.loose = case["cfg"], m[0], m[1], set(m[2])
    with open(fn, "rb") as f:
        img = f.read()
    res.count("transitions", len(case["hist"]) + 1)
    flushed = case["end"] in ("_exit", "kill") and case["hold"] in ("global", "world")
    if not flushed and case["end"] in ("_exit", "kill") and w.acked != w.model and case["hold"] in ("cycle", "module"):
        pass  # never flushed: nothing promised
    else:
        check_image(res, img, w, False, label, case, not flushed)
    common.rmfile(fn)
    res.count("traces")


CORE = ["a", "A", "b", "c", "C", "d", "-a", "-c", "bad"]
COREACK = ["flush", "close", "raise"]
CORESHUT = ["open", "mwrites"]


def cases(tier, seed):
    full = tier != "quick"
    out = []
    alla = DATA + ACK + SHUT
    last = ACK + [x for x in SHUT if x != "open"]
    core = CORE + COREACK + CORESHUT
    corelast = COREACK + ["mwrites"]
    for cfg in CONFIGS:
        out.append({"k": "hist", "head": [], "tail": [last], "cfg": cfg})
        out.append({"k": "hist", "head": [], "tail": [alla, last], "cfg": cfg})
        for x in DATA + ACK:
            out.append({"k": "hist", "head": [x], "tail": [alla, last], "cfg": cfg})
            if full:
                for y in alla:
                    out.append({"k": "hist", "head": [x, y], "tail": [alla, last], "cfg": cfg})
        for x in CORE + COREACK:
            for y in core:
                if not full:
                    out.append({"k": "hist", "head": [x, y], "tail": [core, corelast], "cfg": cfg})
                else:
                    for z in core:
                        out.append({"k": "hist", "head": [x, y, z], "tail": [core, corelast], "cfg": cfg})
        for end in ("kill", "_exit", "segv"):
            for x in DATA + ACK:
                if full:
                    out.append({"k": "kill", "head": [x], "tail": [alla, last], "cfg": cfg, "end": end})
                out.append({"k": "kill", "head": [x], "tail": [last], "cfg": cfg, "end": end})
        for end in ENDINGS:
            for hold in HOLDS:
                for hist in (["a", "c"], ["c", "flush"], ["b", "flush", "d"]) if full or cfg == "matlab" else (["b", "flush", "d"],):
                    out.append({"k": "exit", "hist": hist, "hold": hold, "end": end, "cfg": cfg})
    return out


RUN = {"hist": hist_case, "kill": kill_case, "exit": exit_case}


def run_case(case):
    res = common.Res()
    RUN[case["k"]](res, case)
    res.samples.append(case)
    return res


def coverage(res, tier):
    return common.cov_mc(res, rule="all histories of up to %d operations (%d for the core alphabet) which end with an "
                                   "acknowledgement, under %d configurations; real process deaths for the short ones"
                                   % (((4, 5) if tier != "quick" else (3, 4)) + (len(CONFIGS),)))
