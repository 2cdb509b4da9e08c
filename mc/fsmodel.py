"""Reference model of a File as a tree of variables, and operations on both."""
import collections
import posixpath

from . import values as V


class Grp:
    """A Group made by writing below it."""

    def __init__(self):
        self.ch = {}


class Dct(Grp):
    """A stored dict."""


class Err:
    def __init__(self, *kinds):
        self.kinds = kinds

    def __repr__(self):
        return "Err(%s)" % ", ".join(k.__name__ for k in self.kinds)


ANY = object()
REFS_ERR = (ValueError, KeyError)


def norm(p):
    p = posixpath.normpath("/" + p).lstrip("/")
    return () if p in ("", ".") else tuple(p.split("/"))


def plain(n):
    """Value expected from reading a node (ANY for implicit Groups)."""
    if isinstance(n, Dct):
        return {k: plain(v) for k, v in n.ch.items()}
    if isinstance(n, Grp):
        return ANY
    return n


def match(want, got):
    if want is ANY:
        return True
    if isinstance(want, dict) and isinstance(got, dict):
        return (type(got) is dict and set(want) == set(got)
                and all(type(k) in (str,) for k in got)
                and all(match(want[k], got[k]) for k in want))
    return V.canon(want) == V.canon(got)


class Model:
    def __init__(self, refs=("#refs#",), delete_unused=False, matlab=False):
        self.root = Grp()
        self.refs = tuple(refs)
        self.delete_unused = delete_unused

    def find(self, parts):
        n = self.root
        for p in parts:
            if not isinstance(n, Grp) or p not in n.ch:
                return None
            n = n.ch[p]
        return n

    def reserved(self, parts, modify=False):
        r = self.refs
        return parts[:len(r)] == r or (modify and len(parts) and r[:len(parts)] == parts)

    def build(self, val, old):
        if type(val) is dict:
            d = Dct()
            if isinstance(old, Grp) and not self.delete_unused:
                d.ch.update(old.ch)
            for k, v in val.items():
                d.ch[k] = self.build(v, old.ch.get(k) if isinstance(old, Grp) else None)
            return d
        return val

    def set(self, path, val):
        parts = norm(path)
        if self.reserved(parts, True):
            return Err(*REFS_ERR)
        n = self.root
        if not parts:
            if type(val) is not dict:
                return Err(Exception)
            new = self.build(val, self.root)
            self.root = new
            return None
        for p in parts[:-1]:
            if p not in n.ch:
                n.ch[p] = Grp()
            n = n.ch[p]
            if not isinstance(n, Grp):
                return Err(Exception)
        n.ch[parts[-1]] = self.build(val, n.ch.get(parts[-1]))
        return None

    def get(self, path):
        parts = norm(path)
        if self.reserved(parts):
            return Err(*REFS_ERR)
        n = self.find(parts)
        if n is None:
            return Err(KeyError)
        return plain(n)

    def delete(self, path):
        parts = norm(path)
        if self.reserved(parts, True):
            return Err(*REFS_ERR)
        if not parts:
            return Err(Exception)
        n = self.find(parts[:-1])
        if not isinstance(n, Grp) or parts[-1] not in n.ch:
            return Err(KeyError)
        del n.ch[parts[-1]]
        return None

    def contains(self, path):
        parts = norm(path)
        return not self.reserved(parts) and self.find(parts) is not None

    def names(self):
        return set(self.root.ch)
