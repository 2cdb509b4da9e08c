"""C12: MarshallerCollection against an explicit model, all histories.

A case is a collection configuration (priority order, lazy or eager loading)
with a group of user marshallers; every history of operations up to the depth
is executed on a fresh collection and after it every key (type, type string,
MATLAB class) is looked up and compared with the model: a plain list of
registrations.  Other cases install sets of plugin distributions on disk and
ask a fresh interpreter, or read and write files with user marshallers whose
modules are missing, loadable or loaded.
"""
import importlib
import itertools
import json
import os
import shutil
import subprocess
import sys

import h5py
import numpy as np

import hdf5storage
import hdf5storage.Marshallers as HM

from . import common

PROP = "C12"
LEVEL = "model_checking"
ASSUMPTIONS = ["module availability does not change during a history except by imports",
               "the order among plugins is not specified, so plugins do not overlap with one another",
               "the table of builtin marshallers is taken from a collection without user marshallers and checked "
               "for completeness against the classes of hdf5storage.Marshallers"]

MODULES = {
    "hmcok": "X = 1\n", "hmcok2": "X = 1\n",
    "hmcpkg/__init__": "", "hmcpkg/sub": "X = 1\n", "hmcpkg/badsub": "import hmc_not_there\n",
    "hmcbad": "raise ImportError('no')\n",
    "hmcerr": "raise RuntimeError('broken')\n",
    "hmcsyn": "def f(:\n",
    "hmcattr": "import sys\nsys.no_such_attribute\n",
}


def fixture():
    d = os.path.join(common.scratch(), "mods")
    if not os.path.isdir(d):
        for n, src in MODULES.items():
            p = os.path.join(d, n + ".py")
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(src)
    if d not in sys.path:
        sys.path.insert(0, d)
        importlib.invalidate_caches()
    return d


def unload():
    for n in [n for n in sys.modules if n.startswith("hmc")]:
        del sys.modules[n]


class T1:
    pass


class T2:
    pass


class T3:
    pass


def tn(t):
    return t.__module__ + "." + t.__name__


# types, type strings, MATLAB classes, required parents, required modules, usable?
SPECS = {
    "plain": ((T1, "hmx.U"), ("hmc.T1", "hmx.U"), ("hmcc",), (), (), True),
    "over": ((tn(T1), int, T2), ("hmc.T1", "int", "hmc.T2"), ("int64", "hmcd"), (), (), True),
    "ok": ((T1, "hmx.U", dict), ("hmc.T1", "hmx.U", "dict"), ("hmcc", "struct"), ("hmcok",), ("hmcok",), True),
    "ok2": ((T2, T3), ("hmc.T2", "hmc.T3"), ("hmcd", "hmce"), ("hmcok2",), ("hmcok2",), True),
    "sub": ((T1, T3), ("hmc.T1", "hmc.T3"), ("hmcc", "hmce"), ("hmcpkg",), ("hmcpkg", "hmcpkg.sub"), True),
    "badsub": ((T1, T3, int), ("hmc.T1", "hmc.T3", "int"), ("hmcc", "hmce", "int64"), ("hmcpkg",),
               ("hmcpkg", "hmcpkg.badsub"), False),
    "noparent": ((T2, T1), ("hmc.T2", "hmc.T1"), ("hmcd", "hmcc"), ("hmc_missing",), (), False),
    "missing": ((T1, T2, dict), ("hmc.T1", "hmc.T2", "dict"), ("hmcc", "hmcd", "struct"), (), ("hmc_missing",),
                False),
    "half": ((T3, T1), ("hmc.T3", "hmc.T1"), ("hmce", "hmcc"), ("hmcok",), ("hmcok", "hmc_missing2"), False),
    "imperr": ((T2, T1), ("hmc.T2", "hmc.T1"), ("hmcd", "hmcc"), ("hmcbad",), ("hmcbad",), False),
    "runerr": ((T1, T3), ("hmc.T1", "hmc.T3"), ("hmcc", "hmce"), ("hmcerr",), ("hmcerr",), False),
    "synerr": ((T2, T3), ("hmc.T2", "hmc.T3"), ("hmcd", "hmce"), ("hmcsyn",), ("hmcsyn",), False),
    "atterr": ((T1, T2), ("hmc.T1", "hmc.T2"), ("hmcc", "hmcd"), (), ("hmcattr",), False),
    "loaded": ((T1, T2), ("hmc.T1", "hmc.T2"), ("hmcc", "hmcd"), ("json",), ("json", "json.decoder"), True),
    "parenterr": ((T1, T3), ("hmc.T1", "hmc.T3"), ("hmcc", "hmce"), ("hmcerr.x",), (), False),
    "nothing": ((), (), (), (), (), True),
}
GROUPS = [("plain", "over", "ok"), ("ok", "missing", "sub"), ("noparent", "half", "over"),
          ("imperr", "runerr", "plain"), ("synerr", "ok2", "atterr"), ("loaded", "badsub", "ok2"),
          ("parenterr", "nothing", "sub")]
GROUPS4 = [("plain", "over", "missing", "ok"), ("runerr", "half", "ok2", "over"), ("sub", "badsub", "imperr", "plain"),
           ("loaded", "noparent", "atterr", "ok")]


def make(name):
    s = SPECS[name]

    class M(HM.TypeMarshaller):
        def __init__(self):
            HM.TypeMarshaller.__init__(self)
            self.types, self.python_type_strings, self.matlab_classes = s[0], s[1], s[2]
            self.required_parent_modules, self.required_modules = s[3], s[4]
            self.update_type_lookups()
    M.__name__ = "M_" + name
    return M()


_BT = {}


def builtin_table():
    """key -> class of the builtin marshaller, from a plain collection."""
    if not _BT:
        mc = hdf5storage.MarshallerCollection()
        cls = [c for c in vars(HM).values() if isinstance(c, type) and issubclass(c, HM.TypeMarshaller)]
        for c in cls:
            m = c()
            for t in m.types:
                _BT.setdefault(("t", t if isinstance(t, str) else tn(t)), set()).add(c)
            for t in m.python_type_strings:
                _BT.setdefault(("s", t), set()).add(c)
            for t in m.matlab_classes:
                _BT.setdefault(("m", t), set()).add(c)
        for k in _BT:
            g, ok = look(mc, k)
            if type(g) not in _BT[k] or not ok:
                raise AssertionError("the builtin marshaller for %r is %r, %r" % (k, g, ok))
            _BT[k] = type(g)
    return _BT


def look(mc, key):
    kind, k = key
    if kind == "t":
        return mc.get_marshaller_for_type(k)
    if kind == "s":
        return mc.get_marshaller_for_type_string(k)
    return mc.get_marshaller_for_matlab_class(k)


def keys_of(m):
    out = [("t", t if isinstance(t, str) else tn(t)) for t in m.types]
    return out + [("s", t) for t in m.python_type_strings] + [("m", t) for t in m.matlab_classes]


ALLT = {tn(t): t for t in (T1, T2, T3, int, dict, str, list, np.ndarray, np.uint8)}
# keys that are looked up after every history
KEYS = ([("t", t) for t in list(ALLT) + ["hmx.U", "hmx.none", ""]]
        + [("s", t) for t in ("hmc.T1", "hmc.T2", "hmc.T3", "hmx.U", "int", "dict", "numpy.ndarray", "list",
                              "hmx.none", "", tn(T1))]
        + [("m", t) for t in ("hmcc", "hmcd", "hmce", "int64", "struct", "cell", "char", "hmx.none", "")])


def model_lookup(order, key):
    for group in order:
        for m in group:
            if isinstance(m, dict):
                if key in m:
                    return m[key]
            elif key in keys_of(m):
                return m
    return None


def alphabet(g):
    ops = [("add", (i,)) for i in range(len(g))]
    ops += [("rem", (i,)) for i in range(len(g))]
    ops += [("add", (1, 0)), ("add", (0, 2)), ("rem", (2, 0)), ("clear", ()), ("bad", (1,)), ("lookup", ()),
            ("addgen", (2, 1)), ("remnew", ())]
    return ops


def apply_model(users, op, ms, bad):
    kind, idx = op
    if kind in ("add", "addgen"):
        for i in idx:
            if ms[i] not in users:
                users.append(ms[i])
    elif kind == "rem":
        for i in idx:
            if ms[i] in users:
                users.remove(ms[i])
    elif kind == "clear":
        del users[:]


def apply_real(mc, op, ms, other):
    kind, idx = op
    if kind == "add":
        mc.add_marshaller(ms[idx[0]] if len(idx) == 1 else [ms[i] for i in idx])
    elif kind == "addgen":
        mc.add_marshaller(ms[i] for i in idx)
    elif kind == "rem":
        mc.remove_marshaller(ms[idx[0]] if len(idx) == 1 else tuple(ms[i] for i in idx))
    elif kind == "remnew":
        mc.remove_marshaller(other)
    elif kind == "clear":
        mc.clear_marshallers()
    elif kind == "bad":
        try:
            mc.add_marshaller([ms[idx[0]], object()])
        except TypeError:
            return
        raise AssertionError("adding something that isn't a marshaller was accepted")
    elif kind == "lookup":
        for k in KEYS:
            look(mc, k)


def usable(m):
    return SPECS[type(m).__name__[2:]][5]


def mods_of(m):
    return [n for n in SPECS[type(m).__name__[2:]][4] if n.startswith("hmc")]


def run_history(res, cfg, hist, ctor):
    prio, lazy, g = cfg["prio"], cfg["lazy"], cfg["group"]
    unload()
    ms = [make(n) for n in g]
    other = make(g[0])
    users = []
    label = "prio=%s lazy=%s group=%s history=%s%s" % ("/".join(prio), lazy, "/".join(g), hist,
                                                       " ctor" if ctor else "")

    def bad(kind, msg):
        res.bad("history:%s:%s" % (kind, label), label + ": " + msg, dict(cfg, hist=hist, ctor=ctor))

    try:
        if ctor:
            first, hist = hist[0], hist[1:]
            mc = hdf5storage.MarshallerCollection(lazy_loading=lazy, priority=prio,
                                                  marshallers=[ms[i] for i in first[1]])
            apply_model(users, first, ms, False)
        else:
            mc = hdf5storage.MarshallerCollection(lazy_loading=lazy, priority=prio)
        looked = False
        for op in hist:
            apply_real(mc, op, ms, other)
            apply_model(users, op, ms, False)
            looked |= op[0] == "lookup"
            res.count("transitions")
        if tuple(mc.priority) != tuple(prio):
            bad("priority", "the priority attribute is %r" % (mc.priority,))
        bt = builtin_table()
        order = [bt if p == "builtin" else [] if p == "plugin" else users for p in prio]
        order = [[o] if isinstance(o, dict) else o for o in order]
        if lazy and not looked:
            for n in MODULES:
                n = n.replace("/__init__", "").replace("/", ".")
                # packages may be imported to find what is inside of them
                if n in sys.modules and n != "hmcpkg" and not any(n in s[3] for s in map(SPECS.get, g)):
                    bad("lazy", "module %s was loaded before it was needed" % n)
        if not lazy:
            for m in users:
                if usable(m):
                    for n in mods_of(m):
                        if n not in sys.modules:
                            bad("eager", "module %s of a registered marshaller is not loaded" % n)
        for rnd in (0, 1):
            for k in (KEYS if rnd == 0 else KEYS[::-1]):
                q = [k[1]]
                if k[0] == "t" and k[1] in ALLT:
                    q.append(ALLT[k[1]])
                for kk in q:
                    exp = model_lookup(order, k)
                    got = look(mc, (k[0], kk))
                    res.count("evaluations")
                    if not isinstance(got, tuple) or len(got) != 2:
                        bad("shape", "lookup of %r returned %r" % (kk, got))
                        continue
                    m, ok = got
                    if exp is None:
                        if m is not None or ok is not False:
                            bad("extra", "lookup of %s %r gave %r instead of nothing" % (k[0], kk, got))
                        continue
                    if isinstance(exp, type):
                        if type(m) is not exp or ok is not True:
                            bad("builtin", "lookup of %s %r gave %r instead of the builtin %s"
                                % (k[0], kk, got, exp.__name__))
                        continue
                    if m is not exp:
                        bad("which", "lookup of %s %r gave %s instead of %s"
                            % (k[0], kk, type(m).__name__, type(exp).__name__))
                        continue
                    if ok is not usable(exp):
                        bad("usable", "lookup of %s %r: modules of %s reported as %r" % (k[0], kk, type(exp).__name__, ok))
                    if usable(exp):
                        for n in mods_of(exp):
                            if n not in sys.modules:
                                bad("notloaded", "module %s was not loaded by the lookup of %r" % (n, kk))
        res.seen("states", (prio, lazy, g, tuple(type(m).__name__ for m in users)))
    except Exception as e:
        bad("exc", common.exc_str(e))
    res.count("traces")


# ----------------------------------------------------------------- plugins

PLUG = {
    # module body, entry point lines, (names of marshallers which must be registered)
    "good": ("""
from hmcplugbase import mk
def get(ver):
    import hdf5storage
    assert ver == hdf5storage.__version__, ver
    return (mk('A', ['hmp.A', 'builtins.int'], ['pA', 'int'], ['cA', 'int64']),
            mk('A2', ['hmp.A', 'hmp.A2'], ['pA', 'pA2'], ['cA', 'cA2']))
""", ["1.0 = %s:get"], ["A", "A2"]),
    "gen": ("""
from hmcplugbase import mk
def get(ver):
    yield mk('B', ['hmp.B'], ['pB'], ['cB', 'struct'])
    yield object()
    yield None
    yield mk('B2', ['hmp.B2', 'builtins.dict'], ['pB2', 'dict'], ['cB2'], mods=['hmc_missing'])
    yield 3
""", ["1.0 = %s:get"], ["B", "B2"]),
    "obj": ("""
from hmcplugbase import mk
class Get:
    def __call__(self, ver):
        return [mk('C', ['hmp.C'], ['pC'], ['cC'], mods=['hmcok'])]
get = Get()
""", ["1.0 = %s:get", "2.0 = %s:get2"], ["C"]),
    "sub": ("""
from hmcplugbase import mk
class N:
    @staticmethod
    def get(ver):
        return {mk('D', ['hmp.D'], ['pD'], ['cD'], parents=['hmc_missing']): 1}
""", ["1.0 = %s:N.get"], ["D"]),
    "imperr": ("import hmc_not_there\n", ["1.0 = %s:get"], []),
    "runerr": ("raise RuntimeError('broken plugin')\n", ["1.0 = %s:get"], []),
    "synerr": ("def get(:\n", ["1.0 = %s:get"], []),
    "noattr": ("x = 1\n", ["1.0 = %s:get"], []),
    "nocall": ("get = 5\n", ["1.0 = %s:get"], []),
    "raises": ("def get(ver):\n    raise KeyError('x')\n", ["1.0 = %s:get"], []),
    "noargs": ("def get():\n    return ()\n", ["1.0 = %s:get"], []),
    "none": ("def get(ver):\n    return None\n", ["1.0 = %s:get"], []),
    "geniter": ("def get(ver):\n    raise OSError('x')\n    yield 1\n", ["1.0 = %s:get"], []),
    "otherver": ("""
from hmcplugbase import mk
def get(ver):
    return [mk('E', ['hmp.E', 'hmp.A'], ['pE', 'pA'], ['cE', 'cA'])]
""", ["2.0 = %s:get", "1 = %s:get", "x = %s:get"], []),
    "missingmod": (None, ["1.0 = %s:get"], []),
    "clsret": ("""
import hdf5storage
def get(ver):
    return [hdf5storage.Marshallers.TypeMarshaller]
""", ["1.0 = %s:get"], []),
}
PLUGBASE = """
import hdf5storage.Marshallers as HM
class PM(HM.TypeMarshaller):
    pass
def mk(name, types, strings, classes, mods=(), parents=()):
    m = PM()
    m.name = name
    m.types, m.python_type_strings, m.matlab_classes = tuple(types), tuple(strings), tuple(classes)
    m.required_modules, m.required_parent_modules = tuple(mods), tuple(parents)
    m.update_type_lookups()
    return m
"""
PLUGM = {  # the same as a model: name -> (types, strings, classes, usable)
    "A": (("hmp.A", "builtins.int"), ("pA", "int"), ("cA", "int64"), True),
    "A2": (("hmp.A", "hmp.A2"), ("pA", "pA2"), ("cA", "cA2"), True),
    "B": (("hmp.B",), ("pB",), ("cB", "struct"), True),
    "B2": (("hmp.B2", "builtins.dict"), ("pB2", "dict"), ("cB2",), False),
    "C": (("hmp.C",), ("pC",), ("cC",), True),
    "D": (("hmp.D",), ("pD",), ("cD",), False),
    "U": (("hmp.A", "hmp.U", "builtins.int"), ("pB", "pU", "dict"), ("cC", "cU", "int64"), True),
}
PKEYS = sorted({(k, x) for v in list(PLUGM.values()) + [(("hmp.E", "builtins.list"), ("pE", "list"), ("cE", "cell"),
                                                        True)]
                for k, xs in zip("tsm", v) for x in xs})
PLUGDRV = r"""
import json, sys
import hdf5storage
import hdf5storage.Marshallers as HM
from hmcplugbase import mk
out = []
for cfg in json.loads(sys.argv[1]):
    try:
        kw = {}
        U = mk('U', *cfg['U'])
        if cfg['ctor']:
            kw['marshallers'] = U
        if cfg['plugins'] is not None:
            kw['load_plugins'] = cfg['plugins']
        mc = hdf5storage.MarshallerCollection(lazy_loading=cfg['lazy'], priority=cfg['prio'], **kw)
        if cfg['hist'] == 'addremove':
            mc.add_marshaller(U)
            mc.remove_marshaller(U)
        elif cfg['hist'] == 'clear':
            mc.add_marshaller(U)
            mc.clear_marshallers()
        elif cfg['hist'] == 'add':
            mc.add_marshaller([U])
        r = {}
        for k, x in cfg['keys']:
            f = {'t': mc.get_marshaller_for_type, 's': mc.get_marshaller_for_type_string,
                 'm': mc.get_marshaller_for_matlab_class}[k]
            m, ok = f(x)
            r[k + ':' + x] = [None if m is None else getattr(m, 'name', type(m).__name__), ok]
        out.append(r)
    except Exception as e:
        out.append('%s: %s' % (type(e).__name__, e))
loaded = [n for n in sys.modules if n.startswith('hmcplug_')]
print('RESULT' + json.dumps([out, loaded]))
"""


def install_plugins(d, names):
    os.makedirs(d)
    with open(os.path.join(d, "hmcplugbase.py"), "w") as f:
        f.write(PLUGBASE)
    for i, n in enumerate(names):
        body, eps, _ = PLUG[n]
        mod = "hmcplug_%s" % n
        if body is not None:
            with open(os.path.join(d, mod + ".py"), "w") as f:
                f.write(body)
        di = os.path.join(d, "hmcdist_%s-1.0.dist-info" % n)
        os.makedirs(di)
        with open(os.path.join(di, "METADATA"), "w") as f:
            f.write("Metadata-Version: 2.1\nName: hmcdist-%s\nVersion: 1.0\n" % n)
        with open(os.path.join(di, "entry_points.txt"), "w") as f:
            f.write("[hdf5storage.marshallers.plugins]\n" + "".join(e % mod + "\n" for e in eps))


def plugin_case(res, case):
    names, prios = case["plugins"], case["prios"]
    d = os.path.join(common.scratch(), "plug")
    shutil.rmtree(d, ignore_errors=True)
    install_plugins(d, names)
    cfgs = []
    for p in prios:
        for lazy in (True, False):
            for ctor, hist in ((True, ""), (False, "add"), (True, "addremove"), (False, "clear"), (False, "")):
                cfgs.append(dict(prio=p, lazy=lazy, ctor=ctor, hist=hist, keys=PKEYS, U=PLUGM["U"][:3],
                                 plugins=True))
    cfgs.append(dict(prio=prios[0], lazy=True, ctor=True, hist="", keys=PKEYS, U=PLUGM["U"][:3], plugins=False))
    cfgs.append(dict(prio=prios[-1], lazy=False, ctor=True, hist="", keys=PKEYS, U=PLUGM["U"][:3], plugins=None))
    try:
        for part in (cfgs, cfgs[-2:]):
            env = dict(os.environ, PYTHONPATH=os.pathsep.join([d, fixture(), os.path.join(common.REPO, "src")]),
                       PYTHONDONTWRITEBYTECODE="1")
            r = subprocess.run([sys.executable, "-W", "ignore", "-c", PLUGDRV, json.dumps(part)], env=env,
                               capture_output=True, text=True, timeout=50)
            lines = [x for x in r.stdout.splitlines() if x.startswith("RESULT")]
            if not lines:
                res.bad("plugins:crash", "plugins %s: %s" % (names, r.stderr[-600:]))
                return
            outs, loaded = json.loads(lines[0][6:])
            if part is not cfgs and loaded:
                res.bad("plugins:unasked", "plugins %s: load_plugins is False, but %s were loaded" % (names, loaded))
            for c, o in zip(part, outs):
                check_plugin(res, names, c, o)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res.count("traces")


def check_plugin(res, names, c, o):
    label = "plugins %s, %s" % (names, {k: v for k, v in c.items() if k not in ("keys", "U")})
    res.count("transitions")
    if isinstance(o, str):
        res.bad("plugins:exc:" + label, label + ": " + o)
        return
    bt = builtin_table()
    plg = [PLUGM[m] + (m,) for n in names for m in PLUG[n][2]] if c["plugins"] else []
    usr = [PLUGM["U"] + ("U",)] if (c["ctor"] and c["hist"] != "addremove") or c["hist"] == "add" else []
    res.seen("states", ("plugins", tuple(c["prio"]), c["lazy"], tuple(x[4] for x in plg), len(usr)))
    for k, x in PKEYS:
        exp = [None, False]
        for p in c["prio"]:
            if p == "builtin":
                if (k, x) in bt:
                    exp = [bt[(k, x)].__name__, True]
                    break
                continue
            hit = [e for e in (plg if p == "plugin" else usr) if x in e["tsm".index(k)]]
            if hit:
                exp = [hit[0][4], hit[0][3]]
                break
        res.count("evaluations")
        if o[k + ":" + x] != exp:
            res.bad("plugins:lookup:%s:%s%s" % (label, k, x), "%s: lookup of %s %s gave %s instead of %s" % (label, k, x, o[k + ":" + x], exp))


# ------------------------------------------------------------------- files

class Thing:
    def __init__(self, v):
        self.v = v


def file_marshaller(log, tag, parents, mods, types, strings, classes, base=HM.TypeMarshaller):
    class FM(base):
        def __init__(self):
            base.__init__(self)
            self.types, self.python_type_strings, self.matlab_classes = types, strings, classes
            self.required_parent_modules, self.required_modules = parents, mods
            self.update_type_lookups()

        def write(self, f, grp, name, data, type_string):
            log.append((tag, "write"))
            if name in grp:
                del grp[name]
            grp.create_dataset(name, data=np.int64(data.v))
            self.write_metadata(f, grp[name], data, type_string, {"MATLAB_class": ("string", classes[0])})
            return grp[name]

        def read(self, f, dsetgrp, attributes):
            log.append((tag, "read"))
            return (tag, "read")

        def read_approximate(self, f, dsetgrp, attributes):
            log.append((tag, "approx"))
            return (tag, "approx")
    return FM()


STATES = {"none": ((), (), True), "loadable": (("hmcok",), ("hmcok", "hmcok2"), True),
          "parentmissing": (("hmc_missing",), (), False), "modmissing": (("hmcok",), ("hmc_missing",), False),
          "moderror": ((), ("hmcerr",), False), "absent": None}


def file_case(res, case):
    """user marshallers for a type string, a MATLAB class and a type."""
    st = case["states"]  # states of the marshallers of string, class, type
    lazy = case["lazy"]
    log = []
    fixture()

    def bad(kind, msg):
        res.bad("file:%s:%s" % (kind, json.dumps(case, sort_keys=True)), "%s: %s" % (case, msg), case)

    class DT(Thing):
        pass

    tname = tn(DT)
    keys = [(("hms.X",), ("hmS",), ("hmS",)), (("hms.Y",), ("hmY",), ("hmC",)), ((DT,), ("hmT",), ("hmT",))]
    ms = []
    for tag, s, k in zip("SCT", st, keys):
        if STATES[s] is not None:
            ms.append((tag, STATES[s][2], file_marshaller(log, tag, STATES[s][0], STATES[s][1], *k)))
    fn = common.newfile()
    try:
        with h5py.File(fn, "w") as f:
            for kind in "dg":
                for s in ("hmS", "hmNo", None):
                    for c in ("hmC", "hmNo", None):
                        n = "%s_%s_%s" % (kind, s, c)
                        o = f.create_dataset(n, data=np.arange(3)) if kind == "d" else f.create_group(n)
                        if s:
                            o.attrs["Python.Type"] = s
                        if c:
                            o.attrs["MATLAB_class"] = np.bytes_(c)
        unload()
        mc = hdf5storage.MarshallerCollection(lazy_loading=lazy, priority=case["prio"],
                                              marshallers=[m for _, _, m in ms])
        use = {tag: ok for tag, ok, _ in ms}
        opts = hdf5storage.Options(marshaller_collection=mc)
        with hdf5storage.File(fn, writable=True, options=opts) as hf:
            for kind in "dg":
                for s in ("hmS", "hmNo", None):
                    for c in ("hmC", "hmNo", None):
                        n = "%s_%s_%s" % (kind, s, c)
                        del log[:]
                        try:
                            v = hf.read(n)
                        except Exception as e:
                            v = e
                        tag = "S" if s == "hmS" else "C" if s is None and c == "hmC" else None
                        exp = [(tag, "read" if use[tag] else "approx")] if tag in use else []
                        res.count("evaluations")
                        if log != exp or (exp and v != exp[0]):
                            bad("read", "reading %s used %s and returned %r; it should use %s" % (n, log, v, exp))
                        if not exp and kind == "d" and s is None and c is None and not (
                                isinstance(v, np.ndarray) and v.tolist() == [0, 1, 2]):
                            bad("fallback", "reading %s returned %r" % (n, v))
            for path in ("new", "d_None_None", "x/y"):
                del log[:]
                try:
                    hf.write(DT(4), path)
                    e = None
                except Exception as ex:
                    e = ex
                res.count("evaluations")
                if use.get("T"):
                    if log != [("T", "write")] or e is not None:
                        bad("write", "writing used %s and raised %r" % (log, e))
                    del log[:]
                    v = hf.read(path)
                    if v != ("T", "read") or log != [("T", "read")]:
                        bad("readback", "reading it back returned %r using %s" % (v, log))
                else:
                    if log or not isinstance(e, NotImplementedError):
                        bad("write", "writing used %s and raised %r" % (log, e))
        with h5py.File(fn, "r") as f:
            if not use.get("T") and ("new" in f or f["d_None_None"][()].tolist() != [0, 1, 2]):
                bad("residue", "a refused write changed the file")
        res.seen("states", ("file", tuple(st), lazy, tuple(case["prio"])))
        res.count("transitions", 21)
    finally:
        common.rmfile(fn)
        unload()
    res.count("traces")
    _ = tname


def args_case(res):
    MC = hdf5storage.MarshallerCollection
    n = 0
    P = ("builtin", "plugin", "user")

    def expect(exc, **kw):
        nonlocal n
        n += 1
        try:
            MC(**kw)
        except exc:
            return
        except Exception as e:
            res.bad("args:" + "MarshallerCollection(%r) raised %s instead of %s" % (kw, common.exc_str(e), exc), "MarshallerCollection(%r) raised %s instead of %s" % (kw, common.exc_str(e), exc))
            return
        res.bad("args:" + "MarshallerCollection(%r) was accepted" % (kw,), "MarshallerCollection(%r) was accepted" % (kw,))

    for a in ("load_plugins", "lazy_loading"):
        for v in (None, 0, 1, "True", [], 1.0):
            expect(TypeError, **{a: v})
    for v in (None, 3, set(P), {p: 1 for p in P}, iter(P)):
        expect(TypeError, priority=v)
    import itertools as it
    for k in range(5):
        for v in it.product(("builtin", "plugin", "user", "x", ""), repeat=k) if k < 4 else [P + ("user",),
                                                                                             P + ("x",)]:
            if sorted(v) == sorted(P):
                for t in (tuple, list):
                    n += 1
                    m = MC(priority=t(v))
                    if m.priority != tuple(v):
                        res.bad("args:" + "priority %r became %r" % (v, m.priority), "priority %r became %r" % (v, m.priority))
            else:
                expect(ValueError, priority=v)
                expect(ValueError, priority=list(v))
    for v in (3, object(), "abc", b"ab", [None], [make("plain"), 3], HM.TypeMarshaller, [HM.TypeMarshaller], {1: 2},
              (object(),), None):
        expect(TypeError, marshallers=v)
        mc = MC(marshallers=make("over"))
        before = [look(mc, k) for k in KEYS]
        n += 1
        try:
            mc.add_marshaller(v)
        except TypeError:
            pass
        except Exception as e:
            res.bad("args:" + "add_marshaller(%r) raised %s" % (v, common.exc_str(e)), "add_marshaller(%r) raised %s" % (v, common.exc_str(e)))
        else:
            res.bad("args:" + "add_marshaller(%r) was accepted" % (v,), "add_marshaller(%r) was accepted" % (v,))
        mc.remove_marshaller([])
        if [look(mc, k) for k in KEYS] != before:
            res.bad("args:" + "a refused add_marshaller(%r) changed the collection" % (v,), "a refused add_marshaller(%r) changed the collection" % (v,))
    # independence of the collections and of the default one
    o1 = hdf5storage.Options()
    a, b = MC(), MC()
    m = make("plain")
    a.add_marshaller(m)
    for c in (b, MC()):
        n += 1
        if look(c, ("t", tn(T1)))[0] is not None or look(c, ("s", "hmc.T1"))[0] is not None:
            res.bad("shared", "adding a marshaller to one collection added it to another")
    try:
        hdf5storage.make_new_default_marshaller_collection(marshallers=m, priority=P[::-1])
        o2 = hdf5storage.Options()
        n += 4
        if o1.marshaller_collection.get_marshaller_for_type(T1)[0] is not None:
            res.bad("default", "a new default collection changed existing options")
        if o2.marshaller_collection.get_marshaller_for_type(T1)[0] is not m:
            res.bad("default", "a new default collection is not used by new options")
        if o2.marshaller_collection is not hdf5storage.get_default_marshaller_collection():
            res.bad("default", "get_default_marshaller_collection returns something else")
        if o2.marshaller_collection.priority != P[::-1]:
            res.bad("default", "the arguments were not passed on")
        hdf5storage.get_default_marshaller_collection().remove_marshaller(m)
        if o2.marshaller_collection.get_marshaller_for_type(T1)[0] is not None:
            res.bad("default", "the default collection is not shared with the options using it")
    finally:
        hdf5storage.make_new_default_marshaller_collection()
    res.count("evaluations", n)


PRIOS = list(itertools.permutations(("builtin", "plugin", "user")))


def cases(tier, seed):
    out = [{"args": 1}]
    depth = 3 if tier == "quick" else 4
    groups = GROUPS if tier == "quick" else GROUPS + GROUPS4
    for g in groups:
        for p in PRIOS:
            if tier == "quick" and p.index("plugin") == 1 and g != GROUPS[0]:
                continue  # without plugins only the order of builtin and user matters
            for lazy in (True, False):
                for k in range(len(alphabet(g))):
                    out.append({"group": g, "prio": p, "lazy": lazy, "first": k,
                                "depth": depth if len(g) == 3 or tier == "quick" else 3})
    bad = [n for n in PLUG if not PLUG[n][2]]
    good = [n for n in PLUG if PLUG[n][2]]
    sets = [()] + [(n,) for n in PLUG]
    sets += [s for r in range(2, 5) for s in itertools.combinations(good, r)]
    sets += [(g, b) for g in good for b in bad] + [tuple(PLUG)]
    sets += [tuple(x for x in PLUG if x != b) for b in PLUG]
    if tier != "quick":
        sets += [(b, c, g) for b, c in itertools.combinations(bad, 2) for g in good]
        sets += [tuple(bad), ]
    for s in sorted(set(sets)):
        out.append({"plugins": s, "prios": PRIOS})
    for st in itertools.product(STATES, repeat=3):
        for lazy in (True, False):
            for p in (PRIOS[0], PRIOS[-1]):
                if tier == "quick" and (p == PRIOS[0]) != lazy:
                    continue
                out.append({"states": st, "lazy": lazy, "prio": p})
    return out


def run_case(case):
    res = common.Res()
    fixture()
    builtin_table()
    if "args" in case:
        args_case(res)
    elif "plugins" in case:
        plugin_case(res, case)
    elif "states" in case:
        file_case(res, case)
    elif "hist" in case:
        run_history(res, case, [tuple(map(lambda x: tuple(x) if isinstance(x, list) else x, o))
                                for o in case["hist"]], case["ctor"])
    else:
        g = tuple(case["group"])
        cfg = {"group": g, "prio": tuple(case["prio"]), "lazy": case["lazy"]}
        al = alphabet(g)
        # operations that leave everything as it was are only explored once per position
        for d in range(0, case["depth"]):
            for rest in itertools.product(al, repeat=d):
                hist = [al[case["first"]]] + list(rest)
                run_history(res, cfg, hist, False)
                if hist[0][0] == "add":
                    run_history(res, cfg, hist, True)
        if case["first"] == 0:
            run_history(res, cfg, [], False)
        res.samples.append({"priority": cfg["prio"], "lazy": cfg["lazy"], "marshallers": g, "history": hist})
    return res


def coverage(res, tier):
    return common.cov_mc(res, lookups_checked=res.n.get("evaluations", 0),
                         rule="all histories of add, remove, clear, refused add and lookup up to depth %d over "
                              "overlapping marshallers; all states of three marshallers at file level; "
                              "plugin sets" % (3 if tier == "quick" else 4))
