"""Worker of C25: does a job under the circumstances it is started in.

argv: job file, result file.  The job is JSON; the result is a pickled dict
item -> text (or its digest).
"""
import json
import os
import pickle
import sys


def main(jobfn, outfn):
    with open(jobfn, encoding="utf-8") as f:
        job = json.load(f)
    act = job["actions"]
    if "limits" in act:
        import resource
        resource.setrlimit(resource.RLIMIT_NOFILE, (40, 40))
    import h5py
    import numpy as np
    if "fork" in act or "thread" in act or "gc1" in act:
        import gc
    if "locale" in act:
        import locale
        locale.setlocale(locale.LC_ALL, "C")
    sys.path.insert(0, job["verif"])
    import warnings
    from mc import common
    warnings.resetwarnings()
    warnings.simplefilter("default" if "warnings" not in act else "always")
    if "utilfirst" in act:
        import hdf5storage.utilities  # noqa: F401
    import hdf5storage  # noqa: F401
    from mc import c25
    if "cwd" in act:
        d = os.path.join(os.path.dirname(outfn), "gone%d" % os.getpid())
        os.mkdir(d)
        os.chdir(d)
        os.rmdir(d)
    if "stdin" in act:
        for fd in (0, 1, 2):
            os.close(fd)
        for i in range(3):
            os.open(os.devnull, os.O_RDWR)
        sys.stdin = sys.stdout = sys.stderr = None
    if "seterr" in act:
        np.seterr(all="raise")
    if "printopts" in act:
        np.set_printoptions(precision=1, threshold=2, edgeitems=1, linewidth=20, suppress=True, floatmode="fixed",
                            nanstr="?", infstr="!")
    if "bufsize" in act:
        np.setbufsize(16)
    if "track" in act:
        h5py.get_config().track_order = True
    if "gc1" in act:
        gc.set_threshold(1, 1, 1)
    if "gcoff" in act:
        import gc
        gc.disable()
    if "switch" in act:
        sys.setswitchinterval(1e-6)
    if "decimal" in act:
        import decimal
        decimal.getcontext().prec = 2
        decimal.getcontext().traps[decimal.Inexact] = True
    if "umask" in act:
        os.umask(0o077)
    if "random" in act:
        import random
        random.seed(987)
        np.random.seed(3)
    if "recursion" in act:
        sys.setrecursionlimit(20000)
    if "digits" in act:
        sys.set_int_max_str_digits(0)
    if "trace" in act:
        sys.setprofile(lambda *a: None)
    out = {}

    def run():
        out.update(c25.work(job))

    if "thread" in act:
        import threading
        t = threading.Thread(target=run)
        t.start()
        t.join()
        if not out:
            raise SystemExit(3)
    elif "fork" in act:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                run()
                with os.fdopen(w, "wb") as f:
                    pickle.dump(out, f)
                os._exit(0)
            finally:
                os._exit(5)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            out = pickle.load(f)
        os.waitpid(pid, 0)
    else:
        run()
    with open(outfn + ".tmp", "wb") as f:
        pickle.dump(out, f)
    os.rename(outfn + ".tmp", outfn)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
