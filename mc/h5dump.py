"""Complete description of what is stored at a path in an HDF5 file."""
import hashlib

import h5py
import numpy as np


def dt_desc(dt):
    if h5py.check_dtype(ref=dt) is not None:
        return "ref"
    v = h5py.check_dtype(vlen=dt)
    if v is not None:
        return ("vlen", v.__name__ if isinstance(v, type) else dt_desc(np.dtype(v)))
    if h5py.check_dtype(enum=dt) is not None:
        return ("enum", dt.newbyteorder("=").str, tuple(sorted(h5py.check_dtype(enum=dt).items())))
    if dt.subdtype is not None:
        return ("sub", dt_desc(dt.subdtype[0]), dt.subdtype[1])
    if dt.names is not None:
        return tuple((n, dt_desc(dt.fields[n][0])) for n in dt.names)
    return dt.str


def val_desc(v):
    if isinstance(v, (str, bytes)):
        return (type(v).__name__, v)
    if isinstance(v, h5py.Empty):
        return ("empty", dt_desc(v.dtype))
    a = np.asarray(v)
    if a.dtype == object:
        return ("O", a.shape, tuple(val_desc(x) for x in a.ravel().tolist()))
    return (dt_desc(a.dtype), a.shape, a.tobytes())


def attrs_desc(o, skip=()):
    return tuple(sorted((k, val_desc(v)) for k, v in o.attrs.items() if k not in skip))


class Dumper:
    """Dump of an object and all it refers to.  The paths inside the group for
    references are not a part of the description."""

    def __init__(self, f, refs="/#refs#", filters=True, where=True):
        self.f, self.refs, self.filters, self.where = f, refs.rstrip("/"), filters, where
        self.stack = []

    def inrefs(self, name):
        return name == self.refs or name.startswith(self.refs + "/")

    def dump(self, o):
        if o.id in self.stack or len(self.stack) > 40:
            return "CYCLE"
        self.stack.append(o.id)
        try:
            at = []
            for k, v in o.attrs.items():
                d = val_desc(v)
                # The names of elements are chosen at random.
                if k == "H5PATH" and isinstance(v, (bytes, np.bytes_)) and bytes(v).startswith(
                        self.refs.encode() + b"/"):
                    d = ("H5PATH inside", bytes(v)[len(self.refs) + 1:].count(b"/"))
                at.append((k, d))
            at = tuple(sorted(at))
            if isinstance(o, h5py.Group):
                return ("G", at, tuple((k, self.dump(o[k])) for k in sorted(o)
                                       if o.name.rstrip("/") + "/" + k != self.refs))
            if isinstance(o, h5py.Datatype):
                return ("T", at, dt_desc(o.dtype))
            fl = ()
            if self.filters:
                fl = (o.compression, o.compression_opts, o.shuffle, o.fletcher32, o.scaleoffset, o.chunks, o.maxshape)
            return ("D", at, dt_desc(o.dtype), o.shape, fl, self.data(o))
        finally:
            self.stack.pop()

    def data(self, o):
        if o.shape is None:
            return "null"
        v = o[()]
        if h5py.check_dtype(ref=o.dtype) is not None:
            out = []
            for r in np.asarray(v).ravel().tolist():
                if not r:
                    out.append("NULLREF")
                    continue
                t = self.f[r]
                # (finding the name of an object is slow in big files)
                out.append((self.where and self.inrefs(t.name or "?"), self.dump(t)))
            return tuple(out)
        if o.dtype.hasobject:
            return val_desc(v)
        if isinstance(v, bytes):
            v = v.ljust(o.dtype.itemsize, b"\x00")
            return v if len(v) < 4096 else hashlib.blake2b(v).hexdigest()
        a = np.asarray(v)
        return a.tobytes() if a.nbytes < 4096 else hashlib.blake2b(a.tobytes()).hexdigest()


def dump(fn_or_f, path, refs="/#refs#", filters=True, where=True):
    if isinstance(fn_or_f, str):
        with h5py.File(fn_or_f, "r") as f:
            return dump(f, path, refs, filters, where)
    if path not in fn_or_f:
        return None
    return Dumper(fn_or_f, refs, filters, where).dump(fn_or_f[path])


def diff(a, b, at=""):
    """Where two dumps differ (None if they don't)."""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
        if a[0] in ("G", "D") and b[0] == a[0]:
            da, db = dict(a[1]), dict(b[1])
            for k in sorted(set(da) | set(db)):
                if da.get(k) != db.get(k):
                    return "%s attribute %s is %s, expected %s" % (at, k, str(db.get(k))[:150], str(da.get(k))[:150])
            if a[0] == "G":
                ga, gb = dict(a[2]), dict(b[2])
                if set(ga) != set(gb):
                    return "%s has %r, expected %r" % (at, sorted(gb), sorted(ga))
                for k in ga:
                    d = diff(ga[k], gb[k], at + "/" + k)
                    if d:
                        return d
            for i, w in ((2, "dtype"), (3, "shape"), (4, "filters")):
                if a[i:i + 1] != b[i:i + 1]:
                    return "%s %s is %s, expected %s" % (at, w, str(b[i])[:200], str(a[i])[:200])
            if isinstance(a[5], tuple) and isinstance(b[5], tuple) and len(a[5]) == len(b[5]):
                for i, (x, y) in enumerate(zip(a[5], b[5])):
                    if x != y:
                        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == 2 == len(y):
                            return diff(x[1], y[1], "%s[%d]" % (at, i)) or "%s[%d] in or out of refs" % (at, i)
                        return "%s[%d]: %s, expected %s" % (at, i, str(y)[:100], str(x)[:100])
            return "%s data is %s, expected %s" % (at, str(b[5])[:100], str(a[5])[:100])
    return "%s: %s, expected %s" % (at, str(b)[:200], str(a)[:200])
