"""C10: path escaping and path equivalence, exhaustive over short strings."""
import itertools
import os
import pathlib
import re

import h5py
import numpy as np

import hdf5storage
from hdf5storage import pathesc

from . import common

PROP = "C10"
LEVEL = "exploration"
ASSUMPTIONS = ["strings longer than the bound behave like the enumerated ones"]

ESC_ALPHA = ["\\", "/", ".", "\x00", "x", "2", "e", "u", "U", "\xe9", "\n", "\U0001f600"]
UNESC_TOK = ["\\", "\\\\", "\\x41", "\\x5c", "\\x2F", "\\u0041", "\\u005C", "\\ud800", "\\U0001F600", "\\U0010ffff",
             "\\U00110000", "\\Uffffffff", "\\x4", "\\u004", "\\U0001F60", "x", "u", "U", "4", "g", ".", "\n", "/", "41"]
_HEX = "0123456789abcdefABCDEF"


def ref_unescape(s):
    """Reference decoder written from docs/source/paths.rst."""
    out = []
    i = 0
    while i < len(s):
        if s[i] != "\\":
            out.append(s[i])
            i += 1
            continue
        if i + 1 >= len(s):
            raise ValueError
        c = s[i + 1]
        if c == "\\":
            out.append("\\")
            i += 2
            continue
        n = {"x": 2, "u": 4, "U": 8}.get(c)
        if n is None:
            raise ValueError
        h = s[i + 2:i + 2 + n]
        if len(h) != n or any(d not in _HEX for d in h):
            raise ValueError
        v = int(h, 16)
        if v > 0x10FFFF:
            raise ValueError
        out.append(chr(v))
        i += 2 + n
    return "".join(out)


def check_escape(s, res, seen):
    res.count("evaluations")
    try:
        e = pathesc.escape_path(s)
        u = pathesc.unescape_path(e)
    except Exception as ex:
        res.bad("escape:%r" % s, common.exc_str(ex))
        return
    msg = None
    if type(e) is not str or type(u) is not str:
        msg = "types"
    elif u != s:
        msg = "unescape(escape(s)) = %r" % u
    elif "/" in e or "\x00" in e or e in (".", "..") or (e == "" and s != ""):
        msg = "escaped to an unusable name %r" % e
    elif seen.setdefault(e, s) != s:
        msg = "collides with %r" % seen[e]
    elif s != "" and not any(c in s for c in "\\/\x00") and s[0] != "." and e != s:
        msg = "needlessly escaped to %r" % e
    else:
        if e != s:
            res.seen("nontrivial", s)
        try:
            b = s.encode("utf-8")
        except UnicodeEncodeError:
            b = None
        if b is not None and (pathesc.escape_path(b) != e or pathesc.unescape_path(e.encode("utf-8")) != s):
            msg = "bytes and str are escaped differently"
    if msg is None and s != "":
        for seq in ((s,), [s], ("g", s), (s, "g")):
            g, t = pathesc.process_path(seq)
            want = [x for x in (e if x is s else x for x in seq)]
            got = [x for x in (g + "/" + t).split("/") if x not in ("", ".")]
            if got != want:
                msg = "process_path(%r) = %r" % (seq, (g, t))
    if msg:
        res.bad("escape:%r" % s, msg)


def check_unescape(s, res):
    res.count("evaluations")
    try:
        want = ref_unescape(s)
    except ValueError:
        want = ValueError
    for x in (s, s.encode("utf-8", "surrogatepass")):
        try:
            got = pathesc.unescape_path(x)
        except UnicodeDecodeError:
            got = want
        except ValueError:
            got = ValueError
        except Exception as ex:
            got = common.exc_str(ex)
        if got != want:
            res.bad("unescape:%r" % s, "got %r, expected %r" % (got, want))
            return
    if want is ValueError or want != s:
        res.seen("nontrivial", s)


# ----- paths: every spelling of the same location is the same location
PARTS = ["a", "b", "a b", "\\", "/", ".", "..", ".a", "...", "\x00", "x/y", "\xe9", "\\x41", "#refs#2", "~"]


def spellings(parts, outside=True):
    """Every spelling of the path with the given (raw) parts."""
    esc = [pathesc.escape_path(p) for p in parts]
    j = "/".join(esc)
    out = [("str", j), ("abs", "/" + j), ("dslash", "//" + j), ("trail", j + "/"), ("dot", "./" + j),
           ("mid", "/./".join(esc)), ("dup", "//".join(esc)), ("updown", "zz/../" + j), ("up", "/../" + j),
           ("bytes", j.encode()), ("absbytes", ("/" + j).encode()),
           ("pure", pathlib.PurePosixPath(j)), ("pureabs", pathlib.PurePosixPath("/" + j)),
           ("tuple", tuple(parts)), ("list", list(parts)), ("btuple", tuple(p.encode() for p in parts)),
           ("mixed", tuple(p.encode() if i % 2 else p for i, p in enumerate(parts)))]
    # A path as an element of a sequence is one name.
    if all(str(pathlib.PurePosixPath(p)) == p for p in parts):
        out.append(("puretuple", tuple(pathlib.PurePosixPath(p) for p in parts)))
    if "\\" not in j:
        out.append(("win", pathlib.PureWindowsPath(j.replace("/", "\\"))))
        out.append(("winabs", pathlib.PureWindowsPath("\\" + j.replace("/", "\\"))))
    return [(k, v) for k, v in out]


ROOTS = [".", "/", "", "//", "./", "/.", "a/..", "/..", b"/", b"", b".", pathlib.PurePosixPath("."),
         pathlib.PurePosixPath("/"), pathlib.PurePosixPath(""), pathlib.PureWindowsPath("\\"), (), [], ("",)]


def run_paths(parts, res, idx):
    parts = tuple(parts)
    sp = spellings(parts)
    esc = [pathesc.escape_path(p) for p in parts]
    fn = common.newfile()
    try:
        with hdf5storage.File(fn, writable=True, matlab_compatible=False) as f:
            for n, (k, p) in enumerate(sp):
                if n % 3 != idx:
                    continue
                val = "v%d" % n
                f.write("decoy", "other")
                f[p] = val
                # The object is where h5py says it is.
                for k2, q in sp:
                    res.count("evaluations")
                    key = "path:%r:%s:%s" % (parts, k, k2)
                    try:
                        if q not in f:
                            res.bad(key, "%r not in the file" % (q,))
                        if f[q] != val or f.read(q) != val or f.reads([q]) != [val]:
                            res.bad(key, "%r reads something else" % (q,))
                    except Exception as ex:
                        res.bad(key, "%r: %s" % (q, common.exc_str(ex)))
                if f.read("other") != "decoy":
                    res.bad("path:%r:%s" % (parts, k), "another object changed")
                k2, q = sp[(n * 7 + 3) % len(sp)]
                try:
                    del f[q]
                except Exception as ex:
                    res.bad("path:%r:%s:del:%s" % (parts, k, k2), common.exc_str(ex))
                if any(q2 in f for _, q2 in sp):
                    res.bad("path:%r:%s:del:%s" % (parts, k, k2), "still there after deletion")
                res.seen("nontrivial", (parts, k))
                f[p] = val
        with h5py.File(fn, "r") as h:
            g = h
            for e in esc[:-1]:
                if e not in list(g.keys()):
                    res.bad("path:%r:h5" % (parts,), "link %r missing" % e)
                    return
                g = g[e]
            if esc[-1] not in list(g.keys()):
                res.bad("path:%r:h5" % (parts,), "link %r missing" % esc[-1])
            if set(h.keys()) - {"other", esc[0], "#refs#"}:
                res.bad("path:%r:h5" % (parts,), "stray links %r" % list(h.keys()))
    finally:
        common.rmfile(fn)


def run_roots(res):
    fn = common.newfile()
    try:
        for p in ROOTS:
            res.count("evaluations")
            with hdf5storage.File(fn, writable=True, matlab_compatible=False, truncate_existing=True) as f:
                try:
                    f.write({"a": 1}, p)
                    ok = [f.read(q) == {"a": 1} for q in ROOTS] + [q in f for q in ROOTS] + [f["a"] == 1]
                    if not all(ok):
                        res.bad("root:%r" % (p,), "not the root: %r" % ok)
                except Exception as ex:
                    res.bad("root:%r" % (p,), common.exc_str(ex))
            res.seen("nontrivial", ("root", repr(p)))
        for p in (None, 1, 1.5, {"a"}, (1,), ("a", None), object()):
            res.count("evaluations")
            with hdf5storage.File(fn, writable=True, matlab_compatible=False, truncate_existing=True) as f:
                for what, op in (("read", lambda: f.read(p)), ("write", lambda: f.write(1, p))):
                    try:
                        op()
                        res.bad("badpath:%r" % (p,), what + " accepted it")
                    except TypeError:
                        pass
                    except Exception as ex:
                        res.bad("badpath:%r" % (p,), what + ": " + common.exc_str(ex))
                if len(f) != 0:
                    res.bad("badpath:%r" % (p,), "changed the file")
    finally:
        common.rmfile(fn)


def run_case(case):
    res = common.Res()
    kind = case["kind"]
    if kind == "escape":
        seen = {}
        pre = case["prefix"]
        for n in range(case["len"] + 1):
            for t in itertools.product(ESC_ALPHA, repeat=n):
                check_escape(pre + "".join(t), res, seen)
        for s in case.get("extra", ()):
            check_escape(s, res, seen)
        res.samples.append({"kind": "escape", "prefix": pre})
    elif kind == "short":
        seen = {}
        for c in range(0x110000):
            if c % case["mod"] == case["i"]:
                check_escape(chr(c), res, seen)
                if c < 256 and not 0xd800 <= c < 0xe000:
                    check_unescape("\\" + chr(c) + "41", res)
                    check_unescape("\\x" + chr(c) + "1", res)
                    check_unescape("\\x4" + chr(c), res)
    elif kind == "unescape":
        pre = case["prefix"]
        for n in range(case["len"] + 1):
            for t in itertools.product(UNESC_TOK, repeat=n):
                check_unescape(pre + "".join(t), res)
        res.samples.append({"kind": "unescape", "prefix": pre})
    elif kind == "paths":
        run_paths(case["parts"], res, case["idx"])
        res.samples.append({"kind": "paths", "parts": case["parts"]})
    elif kind == "roots":
        run_roots(res)
    for f in (pathesc.escape_path, pathesc.unescape_path):
        for bad in (None, 1, ["a"], bytearray(b"a")):
            try:
                f(bad)
                res.bad("type:%s:%r" % (f.__name__, bad), "accepted")
            except TypeError:
                pass
            except Exception as ex:
                res.bad("type:%s:%r" % (f.__name__, bad), common.exc_str(ex))
    return res


def cases(tier, seed):
    deep = tier == "thorough"
    out = [{"kind": "escape", "prefix": "", "len": 1, "extra": ["", "\\" * 9, "." * 9]}]
    for a in ESC_ALPHA:
        for b in ESC_ALPHA:
            out.append({"kind": "escape", "prefix": a + b, "len": 4 if deep else 3})
    for a in UNESC_TOK:
        for b in (UNESC_TOK if deep else [""]):
            out.append({"kind": "unescape", "prefix": a + b, "len": 3})
    for i in range(16):
        out.append({"kind": "short", "mod": 16, "i": i})
    out.append({"kind": "roots"})
    combos = [(p,) for p in PARTS] + [(p, q) for p in PARTS for q in PARTS]
    if deep:
        combos += [(p, q, r) for p in PARTS for q in PARTS[:8] for r in PARTS]
    for c in combos:
        for idx in range(3):
            out.append({"kind": "paths", "parts": list(c), "idx": idx})
    return out


def coverage(res, tier):
    return common.cov_exploration(
        res, "all strings up to length %d over a 12-character alphabet and every single code point (escape), all "
        "sequences of up to %d tokens of 24 escape fragments (unescape, against a reference parser), all paths of "
        "one or two awkward names in every spelling (File level); non-trivial = the string changes when escaped "
        "or unescaped, or the (path, spelling) was written and read through every other spelling"
        % (6 if tier == "thorough" else 5, 5 if tier == "thorough" else 4))
