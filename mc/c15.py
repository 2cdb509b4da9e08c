"""C15: several threads using File objects.

The real code runs under a scheduler which decides at every line (and every
opcode of the File methods) and every lock operation which thread goes on.  All
schedules up to a bound on preemptions are run; the results of all operations
and what is in the file at the end have to be those of some sequential order
(which respects the order of the operations of each thread and of operations
that did not overlap), as found by running the operations sequentially.
"""
import itertools
import os
import random
import shutil

import h5py
import numpy as np

import hdf5storage

from . import common, h5dump, sched
from . import values as V

PROP = "C15"
LEVEL = "model_checking"
ASSUMPTIONS = ["calls into h5py are atomic (it has a lock around everything)",
               "threads are switched between lines of the package (opcodes in the methods of File)"]
MAX_CASE_SECONDS = 300

sched.install(hdf5storage)

C = {"x": [1, None], "q": "z"}
OPS = {
    "w_new": lambda f: f.write(7, "n"),
    "w_over": lambda f: f.write({"y": [2, (3,)]}, "c"),
    "w_two": lambda f: f.writes({"a": 10, "b": [11]}),
    "w_grp": lambda f: f.__setitem__("g/h", "text"),
    "w_bad": lambda f: f.write([1, object()], "a"),
    "r_c": lambda f: f.read("c"),
    "r_two": lambda f: f.reads(["a", "b"]),
    "r_item": lambda f: f["a"],
    "r_none": lambda f: f.read("nosuch/x"),
    "del_a": lambda f: f.__delitem__("a"),
    "del_c": lambda f: f.__delitem__("c"),
    "in": lambda f: "a" in f,
    "len": lambda f: len(f),
    "iter": lambda f: slowiter(f),
    "flush": lambda f: f.flush(),
    "close": lambda f: f.close(),
    "exit": lambda f: f.__exit__(None, None, None),
    "closed": lambda f: f.closed,
}
PREP = {"a": 1, "b": [np.arange(3)], "c": C}
CFG = {"matlab": dict(matlab_compatible=True), "plain": dict(matlab_compatible=False, delete_unused_variables=True)}


def slowiter(f):
    out = []
    for k in f:
        out.append(k)
        if sched.CURRENT is not None and sched.CURRENT.me() is not None:
            sched.CURRENT.point()
    return out


def template(cfg):
    fn = os.path.join(common.scratch(), "t15_%s.mat" % cfg)
    if not os.path.exists(fn):
        tmp = "%s.%d" % (fn, os.getpid())
        with hdf5storage.File(tmp, writable=True, **CFG[cfg]) as f:
            f.writes(PREP)
        os.replace(tmp, fn)
    return fn


def outcome(fn):
    try:
        x = fn()
    except sched.Abort:
        raise
    except Exception as e:
        return ("raised", type(e).__name__)
    return ("gave", V.canon(x))


TREES = {}


def tree(fn):
    with open(fn, "rb") as f:
        h = common.h64(f.read())
    if h not in TREES:
        TREES[h] = tree_(fn)
    return TREES[h]


def tree_(fn):
    with h5py.File(fn, "r") as h:
        return repr(h5dump.Dumper(h, "/#refs#", filters=False).dump(h["/"]))


class Setup:
    """One file (or one for each thread), freshly made for every run."""

    def __init__(self, cfg, n, same=True, readonly=False):
        self.fns = []
        for i in range(1 if same else n):
            fn = os.path.join(common.scratch(), "f15_%d.mat" % i)
            common.rmfile(fn)
            shutil.copyfile(template(cfg), fn)
            self.fns.append(fn)
        if same:
            f = hdf5storage.File(self.fns[0], writable=not readonly, **CFG[cfg])
            self.fs = [f] * n
            self.all = [f]
        else:
            # they share what can be shared
            mc = hdf5storage.MarshallerCollection(lazy_loading=True)
            o = hdf5storage.Options(marshaller_collection=mc, **CFG[cfg])
            self.all = self.fs = [hdf5storage.File(fn, writable=not readonly, options=o) for fn in self.fns]

    def end(self):
        """The state at the end."""
        out = []
        for f in self.all:
            out.append(f.closed)
            f.close()
        for fn in self.fns:
            out.append(tree(fn))
            common.rmfile(fn)
        return tuple(out)


def sequential(case):
    """{(results, end state): order} for all orders."""
    progs = case["progs"]
    ids = [(t, i) for t, p in enumerate(progs) for i in range(len(p))]
    out = {}
    for order in set(itertools.permutations([t for t, _ in ids])):
        s = Setup(case["cfg"], len(progs), case["same"], case.get("ro", False))
        nxt = [0] * len(progs)
        got, seq = {}, []
        for t in order:
            op = progs[t][nxt[t]]
            got[(t, nxt[t])] = outcome(lambda: OPS[op](s.fs[t]))
            seq.append((t, nxt[t]))
            nxt[t] += 1
        out.setdefault((tuple(sorted(got.items())), s.end()), []).append(seq)
    return out


def run_case(case):
    res = common.Res()
    progs = case["progs"]
    seqs = sequential(case)
    label = "%s%s: %s" % (case["cfg"], "" if case["same"] else " (own files)", " | ".join(" ".join(p) for p in progs))

    def execute(plan):
        # stop after some violations
        random.seed(1)
        np.random.seed(1)
        s = Setup(case["cfg"], len(progs), case["same"], case.get("ro", False))
        got, began, ended = {}, {}, {}
        clock = itertools.count()

        def thread(t):
            for i, op in enumerate(progs[t]):
                began[(t, i)] = next(clock)
                got[(t, i)] = outcome(lambda: OPS[op](s.fs[t]))
                ended[(t, i)] = next(clock)

        sc = sched.Sched([lambda t=t: thread(t) for t in range(len(progs))], plan, case["bound"],
                         opcodes=("__init__.py",) if case["grain"] in ("op", "opline") else (),
                         lines=None if case["grain"] in ("line", "opline") else ("__init__.py",))
        sc.run()
        res.count("traces")
        res.count("evaluations")
        res.count("transitions", sc.steps)
        lab = "%s, schedule %s" % (label, " ".join("%s%d>%d" % tuple(x) for x in plan) or "default")
        rep = dict(case, plan=plan)
        if sc.free and not sc.dead:
            s.end()
            return sc
        if sc.dead:
            res.bad("dead:" + lab, "%s: %s" % (lab, sc.dead), rep)
            for f in s.all:
                # the locks may never be given back
                h = getattr(f, "_file", None)
                if isinstance(h, h5py.File):
                    h.close()
            raise Stop
        try:
            end = s.end()
        except Exception as e:
            res.bad("end:" + lab, "%s: at the end %s" % (lab, common.exc_str(e)), rep)
            raise Stop
        res.n["treesizes"] = len(TREES)
        res.seen("states", (label, tuple(sorted(got.items())), end))
        orders = seqs.get((tuple(sorted(got.items())), end))
        if orders is None:
            res.bad("order:" + lab, "%s: %s is not the outcome of any sequential order"
                    % (lab, "; ".join("%s: %.80s" % (progs[t][i], v[1]) for (t, i), v in sorted(got.items()))), rep)
            raise Stop
        if not any(all(ended[o[i]] > began[o[j]] for i in range(len(o)) for j in range(i) if False) or
                   all(not ended[o[j]] < began[o[i]] for i in range(len(o)) for j in range(i + 1, len(o)))
                   for o in orders):
            res.bad("order:" + lab, lab + ": takes effect before it began or after it ended", rep)
            raise Stop
        return sc

    class Stop(Exception):
        pass

    try:
        if "plan" in case:
            execute([tuple(x) for x in case["plan"]])
        else:
            if not sched.explore(execute, case["bound"], case.get("part")):
                res.count("uncontrolled")
    except Stop:
        pass
    res.samples.append({k: case[k] for k in ("progs", "cfg", "bound", "grain", "same") if k in case})
    return res


# longer programs and more threads
PROGS = [
    [["w_two", "r_two"], ["del_a", "in"]], [["w_over", "flush"], ["r_c", "close"]], [["len", "iter"], ["w_new", "del_c"]],
    [["r_two"], ["w_two"], ["del_a"]], [["close"], ["r_c"], ["w_grp"]], [["iter"], ["w_new"], ["len"]],
    [["in", "w_new"], ["close"]], [["w_bad", "r_item"], ["del_a", "w_two"]],
]
# on files of their own which share options and marshallers
OWN = [("w_over", "r_c"), ("w_over", "w_over"), ("r_c", "r_c"), ("w_two", "r_two"), ("w_grp", "del_c"), ("w_bad", "w_two")]


def cases(tier, seed):
    full = tier != "quick"
    out = []
    ops = sorted(OPS)

    def add(progs, cfg="matlab", bound=1, grain="op", same=True, **kw):
        out.append(dict(progs=[list(p) for p in progs], cfg=cfg, bound=bound, grain=grain, same=same, **kw))

    for x, y in itertools.combinations_with_replacement(ops, 2):
        n = 1 + ("w_" in x + y) + (x[:2] == y[:2] == "w_") * 2
        for i in range(n):
            add([[x], [y]], part=[i, n])
        if full:
            for i in range(n * 4):
                add([[x], [y]], cfg="plain", part=[i, n * 4], grain="opline")
                add([[x], [y]], bound=2, grain="coarse", part=[i, n * 4])
    for progs in PROGS:
        for i in range(4):
            add(progs, grain="coarse", part=[i, 4])
    for x, y in OWN:
        for i in range(8):
            add([[x], [y]], same=False, grain="line" if full or x == "w_over" else "coarse", part=[i, 8])
    if full:
        for progs in PROGS:
            for i in range(64):
                add(progs, grain="coarse", part=[i, 64], bound=2)
        for x, y, z in itertools.combinations_with_replacement(ops, 3):
            add([[x], [y], [z]], grain="coarse")
    return out


def coverage(res, tier):
    return common.cov_mc(res, exhaustive=not res.n.get("uncontrolled"),
                         rule="all schedules with one preemption%s of all pairs of operations, of the longer programs, of "
                              "three threads and of threads with files of their own; %d programs could not be controlled"
                              % (" (two at the lines of File)" if tier != "quick" else "", res.n.get("uncontrolled", 0)))
