"""Recording what a process does to files, for crash checks (see shim.c)."""
import ctypes
import os
import struct
import subprocess
import sys

from . import common


def build():
    """The shim, compiled once per run."""
    base = os.path.dirname(common.scratch())
    so = os.path.join(base, "shim.so")
    if not os.path.exists(so):
        tmp = "%s.%d" % (so, os.getpid())
        for cc in ("gcc", "clang", "cc"):
            try:
                r = subprocess.run([cc, "-O1", "-w", "-shared", "-fPIC", "-o", tmp,
                                    os.path.join(common.VERIF, "mc", "shim.c"), "-ldl"], capture_output=True, text=True)
            except FileNotFoundError:
                continue
            if r.returncode == 0:
                os.replace(tmp, so)
                return so
            raise RuntimeError("cannot compile the shim: " + r.stderr[-500:])
        raise RuntimeError("no C compiler")
    return so


def run(code, arg, watch, log, timeout=100, extra=None):
    """Run Python code (a function name of a module of mc) with the shim."""
    env = dict(os.environ, LD_PRELOAD=build(), HMC_DIR=watch, HMC_LOG=log, PYTHONDONTWRITEBYTECODE="1",
               VERIF_SCRATCH=os.environ.get("VERIF_SCRATCH", ""), **(extra or {}))
    mod, fun = code.split(":")
    src = ("import sys, json; sys.path.insert(0, %r); from mc import common, %s; %s.%s(json.loads(sys.stdin.read()))"
           % (common.VERIF, mod, mod, fun))
    return subprocess.run([sys.executable, "-W", "ignore", "-c", src], input=arg, env=env, capture_output=True,
                          text=True, timeout=timeout)


class Shim:
    """Inside of the process."""

    def __init__(self):
        self.lib = ctypes.CDLL(None)
        self.lib.hmc_set_time.argtypes = [ctypes.c_int64]

    def record(self, v):
        self.lib.hmc_record(1 if v else 0)

    def time(self, t):
        self.lib.hmc_set_time(int(t))


def parse(data):
    out, i = [], 0
    while i < len(data):
        op = chr(data[i])
        nl, off, dl = struct.unpack_from("<iqq", data, i + 1)
        i += 21
        name = data[i:i + nl].decode()
        i += nl
        x = None
        if dl >= 0:
            x = data[i:i + dl]
            i += dl
        out.append((op, name, off, x))
    return out


def apply(files, op, torn=None):
    """Apply a recorded operation to {name: bytes}; torn: only that many bytes are written."""
    k, name, off, x = op
    if k == "T":
        files[name] = b""
    elif k == "C":
        files.setdefault(name, b"")
    elif k == "w":
        d = files.get(name, b"")
        if torn is not None:
            x = x[:torn]
        if len(d) < off:
            d = d + b"\0" * (off - len(d))
        files[name] = d[:off] + x + d[off + len(x):]
    elif k == "t":
        d = files.get(name, b"")
        files[name] = d[:off] + b"\0" * (off - len(d))
    elif k == "u":
        files.pop(name, None)
    elif k == "r":
        if name in files:
            files[x.decode()] = files.pop(name)


def states(files, ops, cuts):
    """All states a crash during ops can leave: after each operation, and inside of each write."""
    files = dict(files)
    yield "at the start", dict(files)
    for i, op in enumerate(ops):
        if op[0] == "w":
            for c in cuts(op):
                part = dict(files)
                apply(part, op, c)
                yield "inside of operation %d (%d bytes at %d, %d written)" % (i, len(op[3]), op[2], c), part
        before = dict(files)
        apply(files, op)
        if files != before or i == len(ops) - 1:
            yield "after operation %d (%s)" % (i, op[0]), dict(files)
