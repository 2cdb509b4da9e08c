"""C06: File as a mutable mapping; all operation sequences up to a depth on
the real File against a tree model."""
import itertools

import hdf5storage

from . import common, optsets
from .fsmodel import ANY, Err, Grp, Model, match, norm, plain

PROP = "C06"
LEVEL = "model_checking"
ASSUMPTIONS = ["a Group that was only created as part of a longer path has no defined value",
               "with a nested group for references the Groups leading to it are ordinary Groups"]

L = [1, "x"]
VALS = {"int": 1, "int2": 2, "list": L, "list2": [L, (3,)], "dict": {"p": [3]}, "dict2": {"q": 1, "!r": "s"}, "dict0": {}}

CONFIGS = {
    "matlab": {"matlab_compatible": True},
    "plain": {"matlab_compatible": False},
    "plaindel": {"matlab_compatible": False, "delete_unused_variables": True},
    "nometa": {"matlab_compatible": True, "store_python_metadata": True, "structs_as_dicts": True},
    "refs2": {"matlab_compatible": False, "group_for_references": "/refs"},
    "nested": {"matlab_compatible": False, "group_for_references": "/r/s"},
    "slash": {"matlab_compatible": False, "group_for_references": "//refs/../zz/"},
}
REFS = {"refs2": ("refs",), "nested": ("r", "s"), "slash": ("zz",)}


class Run:
    def __init__(self, cfg):
        self.cfg = cfg
        self.opts = CONFIGS[cfg]
        self.fn = common.newfile()
        self.f = hdf5storage.File(self.fn, writable=True, **self.opts)
        self.refs = REFS.get(cfg, ("#refs#",))
        o = hdf5storage.Options(**self.opts)
        self.m = Model(self.refs, o.delete_unused_variables)

    def close(self):
        try:
            self.f.close()
        finally:
            common.rmfile(self.fn)

    def reopen(self, writable=True):
        self.f.close()
        self.f = hdf5storage.File(self.fn, writable=writable, **self.opts)

    def names(self):
        """Names the mapping must list."""
        n = self.m.names()
        return n

    def extra(self):
        return {self.refs[0]} if len(self.refs) > 1 else set()

    def do(self, op):
        """Execute on both; returns a problem or None."""
        k = op[0]
        want = got = None
        f, m = self.f, self.m
        if k == "reopen":
            self.reopen()
            return None
        if k == "ro":
            self.reopen(False)
            self.reopen(True)
            return None
        # Model side.
        if k in ("set", "write"):
            want = m.set(op[1], VALS[op[2]])
        elif k in ("update", "writes"):
            for p, v in op[1:]:
                if m.reserved(norm(p), True):
                    want = Err(ValueError)
            if want is None:
                for p, v in op[1:]:
                    want = m.set(p, VALS[v])
                    if want is not None:
                        break
        elif k in ("get", "read"):
            want = m.get(op[1])
        elif k == "reads":
            want = [m.get(p) for p in op[1:]]
            e = [w for w in want if isinstance(w, Err)]
            if e:
                want = Err(ValueError, KeyError)
        elif k == "del":
            want = m.delete(op[1])
        elif k == "pop":
            want = m.get(op[1])
            if not isinstance(want, Err):
                w2 = m.delete(op[1])
                want = w2 if isinstance(w2, Err) else want
        elif k == "popd":
            if m.reserved(norm(op[1])):
                want = ANY
            else:
                want = m.get(op[1])
                if isinstance(want, Err):
                    want = "dflt"
                else:
                    m.delete(op[1])
        elif k == "getd":
            want = m.get(op[1])
            if isinstance(want, Err):
                want = "dflt" if not m.reserved(norm(op[1])) else ANY
        elif k == "setdefault":
            want = m.get(op[1])
            if isinstance(want, Err) and not m.reserved(norm(op[1])):
                r = m.set(op[1], VALS[op[2]])
                want = r if isinstance(r, Err) else VALS[op[2]]
        elif k == "in":
            want = m.contains(op[1])
        elif k == "clear":
            if self.extra():
                return None
            m.root.ch.clear()
        # Real side.
        try:
            if k == "set":
                f[op[1]] = VALS[op[2]]
            elif k == "write":
                f.write(VALS[op[2]], op[1])
            elif k == "update":
                f.update({p: VALS[v] for p, v in op[1:]})
            elif k == "writes":
                f.writes({p: VALS[v] for p, v in op[1:]})
            elif k == "get":
                got = f[op[1]]
            elif k == "read":
                got = f.read(op[1])
            elif k == "reads":
                got = f.reads(list(op[1:]))
            elif k == "del":
                del f[op[1]]
            elif k == "pop":
                got = f.pop(op[1])
            elif k == "popd":
                got = f.pop(op[1], "dflt")
            elif k == "getd":
                got = f.get(op[1], "dflt")
            elif k == "setdefault":
                got = f.setdefault(op[1], VALS[op[2]])
            elif k == "in":
                got = op[1] in f
            elif k == "clear":
                f.clear()
            elif k == "flush":
                f.flush()
            elif k == "popitem":
                if self.extra():
                    return None
                if not m.names():
                    want = Err(KeyError)
                    f.popitem()
                else:
                    a, b = f.popitem()
                    if a not in m.names():
                        return "popitem gave %r" % a
                    want, got = plain(m.root.ch.pop(a)), b
            elif k == "items":
                if len(self.refs) == 1:
                    got = dict(f.items())
                    want = {n: plain(c) for n, c in m.root.ch.items()}
                    if set(got) != set(want) or sorted(map(repr, f.values())) != sorted(map(repr, got.values())):
                        return "items() or values() wrong: %r" % (got,)
                    for n in want:
                        if not match(want[n], got[n]):
                            return "items()[%r] = %r, expected %r" % (n, got[n], want[n])
                    want = got = None
            else:
                raise AssertionError(op)
        except Exception as e:
            if isinstance(want, Err) and isinstance(e, want.kinds):
                return None
            if want is ANY and isinstance(e, (ValueError, KeyError)):
                return None
            return "%r raised %s, expected %r" % (op, common.exc_str(e), want)
        if isinstance(want, Err):
            return "%r did not raise %r but gave %r" % (op, want, got)
        if isinstance(want, list) and k == "reads":
            if len(got) != len(want) or not all(match(a, b) for a, b in zip(want, got)):
                return "%r gave %r, expected %r" % (op, got, want)
        elif want is None and got is not None or (want is not None and not match(want, got)):
            return "%r gave %r, expected %r" % (op, got, want)
        return None

    def check(self):
        """Compare everything observable."""
        f, m = self.f, self.m
        names = list(f)
        if len(names) != len(set(names)):
            return "duplicate names %r" % names
        if set(names) - self.extra() != m.names() - self.extra():
            return "names %r, expected %r" % (sorted(names), sorted(m.names()))
        if len(f) != len(names):
            return "len %d but %d names" % (len(f), len(names))
        if list(f.keys()) != names:
            return "keys() differs"
        refs = "/".join(self.refs)
        for p in (refs, "/" + refs, refs + "/a", "x/../" + refs):
            if p in f:
                return "%r is in the file" % p
            for what, op in (("read", lambda: f[p]), ("write", lambda: f.write(1, p)), ("del", lambda: f.__delitem__(p))):
                try:
                    op()
                    return "could %s %r" % (what, p)
                except (ValueError, KeyError):
                    pass
        todo = [((n,), c) for n, c in m.root.ch.items()]
        while todo:
            p, n = todo.pop()
            s = "/".join(p)
            if s not in f or "/" + s not in f:
                return "%r not in the file" % s
            if s + "/missing" in f or s + "2" in f and norm(s + "2") != norm(s) and not m.contains(s + "2"):
                return "something below or next to %r" % s
            if isinstance(n, Grp):
                todo += [(p + (k,), c) for k, c in n.ch.items()]
            if m.reserved(p, True):
                continue
            w = plain(n)
            try:
                g = f[s]
            except Exception as e:
                return "reading %r raised %s" % (s, common.exc_str(e))
            if not match(w, g):
                return "%r is %r, expected %r" % (s, g, w)
        for p in ("nope", "nope/x", "a/nope", "b/nope/z"):
            if not m.contains(p):
                try:
                    f[p]
                    return "%r could be read" % p
                except KeyError:
                    pass
                try:
                    del f[p]
                    return "%r could be deleted" % p
                except KeyError:
                    pass
        return None


def run_seq(cfg, seq, res):
    r = Run(cfg)
    try:
        msg = None
        for i, op in enumerate(seq):
            msg = r.do(op)
            res.count("transitions")
            if msg:
                break
        if not msg:
            msg = r.check()
        if not msg:
            before = repr_state(r.m.root)
            res.seen("states", (cfg, before))
            r.reopen(False)
            msg = r.check_ro() if hasattr(r, "check_ro") else None
            if not msg:
                r.reopen(True)
                msg = r.check()
                msg = msg and "after reopening: " + msg
        if msg:
            res.bad("%s:%r" % (cfg, seq), msg, {"cfg": cfg, "seqs": [list(map(list, seq))]})
        else:
            res.count("traces")
    except Exception as e:
        res.bad("%s:%r" % (cfg, seq), common.exc_str(e), {"cfg": cfg, "seqs": [list(map(list, seq))]})
    finally:
        r.close()


def repr_state(n):
    if isinstance(n, Grp):
        return (type(n).__name__, sorted((k, repr_state(v)) for k, v in n.ch.items()))
    return repr(n)


RICH = [("set", "a", "int"), ("set", "a", "list"), ("set", "a", "dict"), ("set", "b", "list2"), ("set", "g/x", "list"),
        ("set", "g", "dict2"), ("set", "a/p", "int2"), ("set", "!z", "list"), ("set", "/", "dict2"), ("set", "/", "dict"),
        ("write", "b/", "dict0"), ("writes", ("a", "list"), ("./b", "int")), ("update", ("b", "dict"), ("g/y", "int2")),
        ("writes", ("a", "int2"), ("#refs#", "int"), ("b", "int")), ("del", "a"), ("del", "b"), ("del", "g/x"), ("del", "g"),
        ("pop", "a"), ("popd", "g"), ("popitem",), ("clear",), ("setdefault", "a", "list2"), ("getd", "b"), ("read", "a"),
        ("reads", "a", "b"), ("items",), ("flush",), ("reopen",), ("ro",), ("del", "a/p"), ("set", "r/t", "int")]
CORE = [("set", "a", "list"), ("set", "a", "int"), ("set", "b", "list2"), ("set", "g/x", "list"), ("set", "a", "dict"),
        ("set", "/", "dict2"), ("del", "a"), ("del", "g"), ("clear",), ("reopen",), ("set", "g", "dict2"), ("popitem",)]


def tup(op):
    return tuple(tuple(x) if isinstance(x, list) else x for x in op)


def run_case(case):
    res = common.Res()
    cfg = case["cfg"]
    if "seqs" in case:
        for s in case["seqs"]:
            run_seq(cfg, tuple(tup(o) for o in s), res)
        return res
    ops = RICH if case["ops"] in ("rich", "mixed") else CORE[:8] if case["ops"] == "mini" else CORE
    pre = [ops[i] for i in case["prefix"]]
    n = case["depth"] - len(pre)
    for tail in itertools.product(CORE if case["ops"] == "mixed" else ops, repeat=n):
        run_seq(cfg, tuple(pre) + tail, res)
    res.samples.append({"cfg": cfg, "sequence": [list(o) for o in pre] + ["..."]})
    return res


CASE_TIMEOUT = 300


def cases(tier, seed):
    deep = tier == "thorough"
    out = []
    R, K = range(len(RICH)), range(len(CORE))
    for cfg in CONFIGS:
        out.append({"cfg": cfg, "ops": "rich", "prefix": [], "depth": 0})
        out.append({"cfg": cfg, "ops": "rich", "prefix": [], "depth": 1})
        out += [{"cfg": cfg, "ops": "rich", "prefix": [i], "depth": 2} for i in R]
        two = [[i, j] for i in R for j in R]
        if deep:
            out += [{"cfg": cfg, "ops": "rich", "prefix": p, "depth": 3} for p in two]
        elif cfg == "plain":
            out += [{"cfg": cfg, "ops": "mixed", "prefix": p, "depth": 3} for p in two]
        d = 3
        if deep:
            d = 5 if cfg in ("matlab", "plain") else 4
        out += [{"cfg": cfg, "ops": "core", "prefix": [i, j], "depth": d} for i in K for j in K]
        if cfg == "plain" or deep:
            d = (6 if cfg == "plain" else 5) if deep else 4
            out += [{"cfg": cfg, "ops": "mini", "prefix": [i, j], "depth": d} for i in range(8) for j in range(8)]
    return out


def coverage(res, tier):
    return common.cov_mc(res, rule="every sequence of File operations up to the stated depths (32 operations to depth "
                         "2-3, 12 core operations to depth 3-5, 8 to depth 4-6, per configuration) is run on a real file and on the "
                         "tree model; results, exceptions, names, length, membership and values are compared after "
                         "the sequence, in the same session and after reopening; states = distinct model states")
