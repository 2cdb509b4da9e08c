"""Shared infrastructure: environment, worker pool, reporting, evidence.

A check module defines PROP, LEVEL, cases(tier, seed) -> list of JSON-able
cases and run_case(case) -> Res.  The driver distributes the cases over
processes, merges the results, filters known findings and reports.
"""
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", VERIF)
REPO = os.environ.get("VERIF_REPO", "/repo")
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "src"))
warnings.simplefilter("ignore")

NPROC = min(8, os.cpu_count() or 1)
CASE_TIMEOUT = 60
_scratch = [None]


class CaseTimeout(BaseException):
    pass


def _scratch_root():
    for d in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return None


def scratch():
    """Per-process scratch directory (inside the run's own directory)."""
    if _scratch[0] is None or _scratch[0][0] != os.getpid():
        base = os.environ.get("VERIF_SCRATCH")
        if not base:
            base = tempfile.mkdtemp(prefix="hdf5mc-", dir=_scratch_root())
            os.environ["VERIF_SCRATCH"] = base
        d = tempfile.mkdtemp(prefix="w", dir=base)
        _scratch[0] = (os.getpid(), d)
    return _scratch[0][1]


_fcount = [0]


def newfile(suffix=".h5"):
    _fcount[0] += 1
    return os.path.join(scratch(), "f%d%s" % (_fcount[0], suffix))


def rmfile(*names):
    for n in names:
        with contextlib.suppress(OSError):
            os.unlink(n)


def h64(x):
    """Stable 64-bit hash of a repr-able object."""
    return int.from_bytes(
        hashlib.blake2b(repr(x).encode("utf-8", "surrogatepass"), digest_size=8).digest(), "big")


class Res:
    """Result of one case."""

    def __init__(self):
        self.n = {}
        self.distinct = {}
        self.problems = []  # (key, message, case or None)
        self.samples = []

    def count(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + k

    def seen(self, name, obj):
        self.distinct.setdefault(name, set()).add(h64(obj))

    def bad(self, key, msg, case=None):
        self.problems.append((key, str(msg)[:2000], case))

    def merge(self, other):
        for k, v in other.n.items():
            self.n[k] = self.n.get(k, 0) + v
        for k, v in other.distinct.items():
            self.distinct.setdefault(k, set()).update(v)
        self.problems.extend(other.problems)
        self.samples.extend(other.samples)


def exc_str(e):
    return "%s: %s" % (type(e).__name__, str(e)[:300])


@contextlib.contextmanager
def time_limit(seconds):
    def handler(signum, frame):
        raise CaseTimeout("no progress for %s s (hang or deadlock)" % seconds)

    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds, 1.0)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_one(mod, case):
    res = Res()
    try:
        with time_limit(getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT)):
            r = mod.run_case(case)
            if r is not None:
                res = r
    except CaseTimeout as e:
        res.bad("timeout:" + json.dumps(case, sort_keys=True), str(e), case)
    except Exception as e:
        tb = traceback.format_exc()
        where = [x for x in traceback.extract_tb(e.__traceback__)]
        res.bad("crash:" + json.dumps(case, sort_keys=True),
                "unexpected exception while running the case: " + tb[-1500:], case)
    res.problems = [(k, m, case if c is None else c) for k, m, c in res.problems]
    return res


def _worker(mod, conn):
    random.seed(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    try:
        while True:
            try:
                chunk = conn.recv()
            except EOFError:
                break
            if chunk is None:
                break
            out = Res()
            for i, case in chunk:
                conn.send(("start", i))
                out.merge(run_one(mod, case))
                if len(out.problems) > 200:
                    out.problems = out.problems[:200]
            out.samples = out.samples[:1]
            conn.send(("done", out))
    except (KeyboardInterrupt, BrokenPipeError):
        pass
    finally:
        if _scratch[0] is not None and _scratch[0][0] == os.getpid():
            shutil.rmtree(_scratch[0][1], ignore_errors=True)
        os._exit(0)


def run_pool(mod, cases, chunk=None, nproc=None):
    """Run all cases; returns merged Res.  Survives dying workers."""
    total = Res()
    cases = list(enumerate(cases))
    if os.environ.get("VERIF_FIRST"):
        random.shuffle(cases)
    n = nproc or getattr(mod, "NPROC", NPROC)
    if chunk is None:
        chunk = max(1, min(50, len(cases) // (n * 8) or 1))
    chunks = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
    chunks.reverse()
    scratch()
    ctx = mp.get_context("fork")
    workers = {}

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(mod, b), daemon=False)
        sys.stdout.flush()
        p.start()
        b.close()
        workers[a] = [p, None, None]
        return a

    def feed(a):
        w = workers[a]
        if chunks:
            c = chunks.pop()
            w[1] = c
            w[2] = None
            a.send(c)
        else:
            w[1] = None
            with contextlib.suppress(OSError):
                a.send(None)

    for _ in range(min(n, len(chunks)) or 1):
        feed(spawn())
    while any(w[1] is not None for w in workers.values()):
        for a in mpc.wait([a for a, w in workers.items() if w[1] is not None]):
            w = workers[a]
            try:
                kind, val = a.recv()
            except (EOFError, OSError):
                w[0].join()
                code = w[0].exitcode
                idx = w[2]
                chunkdone = w[1]
                del workers[a]
                rest = []
                for i, c in chunkdone:
                    if idx is not None and i == idx:
                        total.bad("died:" + json.dumps(c, sort_keys=True),
                                  "the process running the case died (exit code %s)" % code, c)
                    elif idx is None or i > idx:
                        rest.append((i, c))
                if rest:
                    chunks.append(rest)
                if chunks:
                    feed(spawn())
                continue
            if kind == "start":
                w[2] = val
            else:
                total.merge(val)
                total.samples = total.samples[:20]
                if total.problems and os.environ.get("VERIF_FIRST"):
                    # for development: the first violation is enough
                    for w in workers.values():
                        w[0].kill()
                    return total
                feed(a)
    for a, w in list(workers.items()):
        w[0].join(5)
        if w[0].is_alive():
            w[0].kill()
    return total


def load_known(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("#") or line.startswith("fixed:"):
                    continue
                e = json.loads(line)
                if e.get("property") == prop:
                    out.append(e)
    return out


def main(mod, tier, seed, replay=None):
    t0 = time.time()
    prop = mod.PROP
    random.seed(seed)
    if replay:
        with open(replay) as f:
            spec = json.load(f)
        res = run_one(mod, spec["case"])
        for k, m, c in res.problems:
            print("problem %s: %s" % (k, m))
        print("replayed: %d problem(s)" % len(res.problems))
        return 1 if res.problems else 0
    try:
        cases = mod.cases(tier, seed)
        if hasattr(mod, "run_all"):
            res = mod.run_all(cases, tier, seed)
        else:
            res = run_pool(mod, cases)
        known = load_known(prop)
        exact = {}
        for e in known:
            for k in e["keys"]:
                exact[k] = e
        new, hit = [], {}
        for k, m, c in res.problems:
            if k in exact:
                hit.setdefault(id(exact[k]), (exact[k], k))
            else:
                new.append((k, m, c))
        for e, k in hit.values():
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
        coverage = mod.coverage(res, tier)
        if "samples" not in coverage:
            coverage["samples"] = res.samples[:5]
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
            "coverage": coverage, "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - t0, 2), "violations": len(new),
        }
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        tmp = os.path.join(OUT, "evidence", ".%s.tmp" % prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(OUT, "evidence", prop + ".json"))
        if new:
            os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
            shown = int(os.environ.get("VERIF_SHOW", "5"))
            seen = set()
            for k, m, c in new:
                if k in seen:
                    continue
                seen.add(k)
                if len(seen) > shown:
                    continue
                rp = os.path.join(OUT, "replays", "%s-%016x.json" % (prop, h64(k)))
                with open(rp, "w") as f:
                    json.dump({"property": prop, "key": k, "message": m, "case": c}, f, indent=1,
                              default=str)
                print("%s: %s" % (k[:500], m[:1500]))
                print("VIOLATION property=%s replay=%s" % (prop, rp))
            print("%s: %d distinct violating keys" % (prop, len(seen)))
        brief = {k: v for k, v in coverage.items() if isinstance(v, (int, bool))}
        print("%s %s: %s in %.1fs" % (prop, tier, brief, time.time() - t0))
        return 1 if new else 0
    finally:
        base = os.environ.get("VERIF_SCRATCH")
        if base and os.path.basename(base).startswith("hdf5mc-"):
            shutil.rmtree(base, ignore_errors=True)


def cov_exploration(res, rule, exhaustive=True, **extra):
    d = {
        "evaluations": res.n.get("evaluations", 0),
        "distinct_nontrivial": len(res.distinct.get("nontrivial", ())),
        "rule": rule,
        "samples": res.samples[:5],
        "exhaustive": exhaustive,
    }
    d.update(extra)
    return d


def cov_mc(res, exhaustive=True, **extra):
    d = {
        "states": len(res.distinct.get("states", ())),
        "transitions": res.n.get("transitions", 0),
        "traces_validated_against_impl": res.n.get("traces", 0),
        "samples": res.samples[:5],
        "exhaustive": exhaustive,
    }
    d.update(extra)
    return d
