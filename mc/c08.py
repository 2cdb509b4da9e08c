"""C08: read-only and closed files, all operation sequences on all session states."""
import copy
import itertools

import h5py
import numpy as np

import hdf5storage

from . import c06, common
from .fsmodel import ANY, Err, Model, match, norm, plain

PROP = "C08"
LEVEL = "model_checking"
ASSUMPTIONS = ["an operation on a read-only file that would not change anything (removing a missing name with a default, "
               "updating with nothing) may also behave as on a writable file"]

V = c06.VALS
# (operation, mutating)
OPS = [
    (("set", "a", "int"), 1), (("set", "new", "list"), 1), (("set", "/", "dict"), 1), (("write", "g/x", "int2"), 1), (("writes", ("n1", "int"), ("n2", "list")), 1),
    (("writes",), 1), (("update", ("u", "dict")), 1), (("update",), 0), (("del", "a"), 1), (("del", "missing"), 1), (("del", "g/x"), 1), (("pop", "a"), 1),
    (("pop", "missing"), 1), (("popd", "missing"), 0), (("popd", "b"), 1), (("popitem",), 1), (("clear",), 1),
    (("setdefault", "a", "int"), 0), (("setdefault", "sd", "int"), 1), (("get", "a"), 0), (("read", "b"), 0), (("reads", "a", "b"), 0),
    (("reads",), 0), (("get", "missing"), 0), (("getd", "missing"), 0), (("in", "a"), 0), (("in", "missing"), 0), (("len",), 0), (("iter",), 0), (("items",), 0),
    (("keys",), 0), (("values",), 0), (("get", "/"), 0), (("eq",), 0), (("flush",), 0),
]
SESSION = [("close",), ("exit",), ("exitexc",), ("open_ro",), ("open_w",), ("open_def",), ("delete",),
           ("open_trunc",), ("module",)]
CONTENTS = ["empty", "vars", "plainvars", "foreign", "noblock"]
CONFIGS = {"matlab": {"matlab_compatible": True}, "plain": {"matlab_compatible": False}}


def prepare(kind, fn):
    """Make the file; returns name -> value name (known contents)."""
    known = {}
    if kind in ("vars", "plainvars"):
        with hdf5storage.File(fn, writable=True, matlab_compatible=kind == "vars") as f:
            f["a"] = V["list"]
            f["b"] = V["int2"]
            f["g/x"] = V["int"]
        known = {"a": V["list"], "b": V["int2"]}
    elif kind == "empty":
        hdf5storage.File(fn, writable=True, matlab_compatible=False).close()
    else:
        with h5py.File(fn, "w", userblock_size=1024 if kind == "foreign" else 0) as f:
            f["a"] = np.int64(4)
            f["b"] = [1.0, 2.0]
            f.create_group("g")["x"] = np.arange(3)
        if kind == "foreign":
            with open(fn, "r+b") as h:
                h.write(b"some user block" * 10)
    return known


_start = {}


def start(cfg, kind):
    """Image of the file and its model."""
    if (cfg, kind) not in _start:
        opts = CONFIGS[cfg]
        fn = common.newfile()
        try:
            prepare(kind, fn)
            m = Model(delete_unused=hdf5storage.Options(**opts).delete_unused_variables)
            # The contents are learned through the package (their values are C01's and C04's matter).
            with hdf5storage.File(fn, **opts) as f:
                for k in list(f):
                    m.set(*(("g/x", f["g/x"]) if k == "g" else (k, f[k])))
            with open(fn, "rb") as h:
                _start[cfg, kind] = h.read(), m
        finally:
            common.rmfile(fn)
    return _start[cfg, kind]


class Sess:
    """One File object over its life."""

    def __init__(self, cfg, kind):
        self.opts = CONFIGS[cfg]
        self.fn = common.newfile()
        self.kind = kind
        img, m = start(cfg, kind)
        with open(self.fn, "wb") as h:
            h.write(img)
        self.m = copy.deepcopy(m)
        self.f = None
        self.state = "closed"
        self.open("ro")

    def open(self, how):
        self.bytes = self.image()
        kw = {"ro": {"writable": False}, "w": {"writable": True}, "def": {},
              "trunc": {"truncate_existing": True, "truncate_invalid_matlab": True}}[how]
        self.f = hdf5storage.File(self.fn, **kw, **self.opts)
        self.state = "w" if how == "w" else "ro"
        if self.state == "ro" and self.image() != self.bytes:
            raise AssertionError("opening read-only changed the file")

    def image(self):
        with open(self.fn, "rb") as h:
            return h.read()

    def end(self):
        if self.f is not None:
            try:
                self.f.close()
            except Exception:
                pass
        common.rmfile(self.fn)

    # what the operation gives on a writable file, as (result, changed)
    def expected(self, op):
        m, k = self.m, op[0]
        if k in ("set", "write"):
            return m.set(op[1], V[op[2]])
        if k in ("writes", "update"):
            for p, v in op[1:]:
                m.set(p, V[v])
            return None
        if k in ("get", "read"):
            return ANY if op[1] == "/" else m.get(op[1])
        if k == "reads":
            w = [m.get(p) for p in op[1:]]
            return Err(KeyError) if any(isinstance(x, Err) for x in w) else w
        if k == "del":
            return m.delete(op[1])
        if k == "pop":
            w = m.get(op[1])
            if not isinstance(w, Err):
                m.delete(op[1])
            return w
        if k == "popd":
            w = m.get(op[1])
            if isinstance(w, Err):
                return "dflt"
            m.delete(op[1])
            return w
        if k == "getd":
            w = m.get(op[1])
            return "dflt" if isinstance(w, Err) else w
        if k == "setdefault":
            w = m.get(op[1])
            if isinstance(w, Err):
                m.set(op[1], V[op[2]])
                return V[op[2]]
            return w
        if k == "in":
            return m.contains(op[1])
        if k == "len":
            return len(m.names())
        if k in ("iter", "keys"):
            return sorted(m.names())
        if k == "clear":
            m.root.ch.clear()
            return None
        if k == "popitem":
            return ANY if m.names() else Err(KeyError)
        return ANY if k in ("items", "values", "eq") else None

    def real(self, op):
        f, k = self.f, op[0]
        if k == "set":
            f[op[1]] = V[op[2]]
        elif k == "write":
            return f.write(V[op[2]], op[1])
        elif k == "writes":
            return f.writes({p: V[v] for p, v in op[1:]})
        elif k == "update":
            return f.update({p: V[v] for p, v in op[1:]})
        elif k == "get":
            return f[op[1]]
        elif k == "read":
            return f.read(op[1])
        elif k == "reads":
            return f.reads(list(op[1:]))
        elif k == "del":
            del f[op[1]]
        elif k == "pop":
            return f.pop(op[1])
        elif k == "popd":
            return f.pop(op[1], "dflt")
        elif k == "getd":
            return f.get(op[1], "dflt")
        elif k == "setdefault":
            return f.setdefault(op[1], V[op[2]])
        elif k == "in":
            return op[1] in f
        elif k == "len":
            return len(f)
        elif k == "iter":
            return sorted(f)
        elif k == "keys":
            return sorted(f.keys())
        elif k == "items":
            return list(f.items())
        elif k == "values":
            return list(f.values())
        elif k == "eq":
            return f == {}
        elif k == "clear":
            return f.clear()
        elif k == "popitem":
            r = f.popitem()
            if self.state == "w":
                self.m.delete(r[0])
            return r
        elif k == "flush":
            return f.flush()
        return None

    def module(self):
        """The module's reading functions (they open the file themselves)."""
        if self.state == "w":
            return None
        b, names = self.image(), sorted(self.m.names())
        want = [self.m.get(n) for n in names]
        kw = {"truncate_existing": True, "truncate_invalid_matlab": True}
        for label, got in (("reads", hdf5storage.reads(names, filename=self.fn, **kw, **self.opts)),
                           ("read", [hdf5storage.read(n, filename=self.fn, **kw, **self.opts) for n in names]),
                           ("loadmat", list(hdf5storage.loadmat(self.fn, appendmat=False).values()))):
            if self.image() != b:
                return "%s changed the file" % label
            if len(got) != len(names):
                return "%s gave %d variables of %d" % (label, len(got), len(names))
            if label != "loadmat" and not all(match(w, g) for w, g in zip(want, got)):
                return "%s gave %r" % (label, got)
        return None

    def do(self, op, mutating):
        k = op[0]
        if k in ("close", "exit", "exitexc", "delete"):
            if k == "close":
                self.f.close()
            elif k == "exit":
                with self.f as g:
                    if g is not self.f:
                        return "the context manager gave another object"
            elif k == "exitexc":
                try:
                    with self.f:
                        raise ZeroDivisionError
                    return "the context manager swallowed the exception"
                except ZeroDivisionError:
                    pass
            elif k == "delete":
                self.f.__del__()
            was, self.state = self.state, "closed"
            if not self.f.closed:
                return "closed is False after %s" % k
            if was == "ro" and self.image() != self.bytes:
                return "%r on a read-only file changed it" % (op,)
            return None
        if k == "module":
            return self.module()
        if k in ("open_ro", "open_w", "open_def", "open_trunc"):
            if self.state != "closed" and (k == "open_w" or self.state == "w"):
                self.f.close()
            old = self.f
            self.open(k[5:])
            old.close()
            return None
        if self.f.closed != (self.state == "closed"):
            return "closed is %r" % self.f.closed
        if self.state == "closed":
            if k in ("writes", "update", "reads") and len(op) == 1:
                if k == "update":
                    return None
            try:
                r = self.real(op)
            except OSError:
                return None
            except Exception as e:
                if k == "popd":
                    return None if isinstance(e, OSError) else "%r on a closed file raised %s" % (op, common.exc_str(e))
                return "%r on a closed file raised %s" % (op, common.exc_str(e))
            if k == "eq" and r is NotImplemented:
                return None
            return "%r on a closed file gave %r" % (op, r)
        if self.state == "ro":
            save = copy.deepcopy(self.m)
            before = c06.repr_state(self.m.root)
            w = self.expected(op)
            changes = k in ("set", "write", "writes", "del") or k == "popitem" and w is ANY or (
                before != c06.repr_state(self.m.root))
            self.m = save
            if changes or mutating:
                try:
                    r = self.real(op)
                except OSError:
                    r = None
                except Exception as e:
                    if not (isinstance(w, Err) and isinstance(e, w.kinds)):
                        return "%r on a read-only file raised %s" % (op, common.exc_str(e))
                else:
                    if changes:
                        return "%r on a read-only file gave %r" % (op, r)
                if self.image() != self.bytes:
                    return "%r on a read-only file changed it" % (op,)
                return None
        # Plain behaviour.
        want = None
        if k == "popitem" and self.m.names():
            self.real(op)
            return None
        want = self.expected(op)
        try:
            got = self.real(op)
        except Exception as e:
            if isinstance(want, Err) and isinstance(e, want.kinds):
                return None
            return "%r (%s) raised %s" % (op, self.state, common.exc_str(e))
        if isinstance(want, Err):
            return "%r (%s) did not fail but gave %r" % (op, self.state, got)
        if k == "reads":
            if len(got) != len(want) or not all(match(a, b) for a, b in zip(want, got)):
                return "%r (%s) gave %r" % (op, self.state, got)
        elif want is not None and not match(want, got):
            return "%r (%s) gave %r, expected %r" % (op, self.state, got, want)
        if self.state == "ro" and self.image() != self.bytes:
            return "%r on a read-only file changed it" % (op,)
        return None

    def final(self):
        """Read everything in a new file object."""
        if self.state == "ro" and self.image() != self.bytes:
            return "the read-only file changed"
        self.f.close()
        if self.state == "ro" and self.image() != self.bytes:
            return "closing the read-only file changed it"
        b = self.image()
        with hdf5storage.File(self.fn, **self.opts) as f:
            if set(f) != self.m.names():
                return "in the end %r, expected %r" % (sorted(f), sorted(self.m.names()))
            for n in self.m.names():
                w = self.m.get(n)
                if not match(w, f[n]):
                    return "in the end %r is %r, expected %r" % (n, f[n], w)
        if self.image() != b:
            return "reading changed the file"
        return None


ALL = OPS + [(s, 0) for s in SESSION]


def run_seq(cfg, kind, seq, res):
    key = "%s|%s|%r" % (cfg, kind, [ALL[i][0] for i in seq])
    s = Sess(cfg, kind)
    msg = None
    try:
        for i in seq:
            msg = s.do(*ALL[i])
            res.count("transitions")
            res.seen("states", (cfg, kind, s.state, c06.repr_state(s.m.root)))
            if msg:
                break
        msg = msg or s.final()
    except Exception as e:
        msg = common.exc_str(e)
    finally:
        s.end()
    if msg:
        res.bad(key, msg, {"cfg": cfg, "kind": kind, "seqs": [list(seq)]})
    else:
        res.count("traces")


def run_case(case):
    res = common.Res()
    if "seqs" in case:
        for q in case["seqs"]:
            run_seq(case["cfg"], case["kind"], q, res)
    else:
        import itertools
        for t in itertools.product(*case["slots"]):
            run_seq(case["cfg"], case["kind"], t, res)
        res.samples.append({"cfg": case["cfg"], "contents": case["kind"], "first": ALL[case["slots"][0][0]][0]})
    return res


CASE_TIMEOUT = 400


def cases(tier, seed):
    deep = tier == "thorough"
    every = list(range(len(ALL)))
    sess = list(range(len(OPS), len(ALL) - (0 if deep else 2)))
    out = []
    for cfg in CONFIGS:
        for kind in CONTENTS:
            for i in every:
                out.append({"cfg": cfg, "kind": kind, "slots": [[i], every]})
                # session change, operation, session change, operation
                if i in sess:
                    out.append({"cfg": cfg, "kind": kind, "slots": [[i], every, sess]})
                    if (cfg == "matlab") == (kind == "vars") or deep:
                        out.append({"cfg": cfg, "kind": kind, "slots": [[i], every if deep else every[::2], sess, every[::1 if deep else 7]]})
                if deep:
                    for j in every:
                        out.append({"cfg": cfg, "kind": kind, "slots": [[i], [j], every]})
    # Quadruples of session changes.
    for cfg in CONFIGS:
        out += [{"cfg": cfg, "kind": "vars", "slots": [[i], sess, sess, sess]} for i in sess]
    return out


def coverage(res, tier):
    return common.cov_mc(res, rule="every sequence of two of %d operations (all mapping, read, write and session operations) "
                         "and of up to four with session changes in between, on five kinds of file contents; the model has the "
                         "states read-only, writable and closed and the tree of variables; the file's bytes are compared after "
                         "every operation while it is read-only" % len(ALL))
