"""C16: marshaller selection against a reference model of the documented priority."""
import collections
import importlib
import itertools
import os
import shutil
import sys
import tempfile

import h5py
import hdf5storage as hs
import numpy as np
from hypothesis import strategies as st

from hx import core, values as V
from hx.core import Sub, Trivial, Violation, lib, raises

PROPERTY = "C16"
RULE = ("lookups: a collection with any priority, plugins or not and lazy or eager loading, and a history of adding, "
        "removing and clearing marshallers that overlap in types (given as classes or names), type strings and MATLAB "
        "classes and need modules that are present, missing or failing; after every step every lookup is compared "
        "with a reference model. use: values and stored objects of those types written and read (nested too) with "
        "such collections, given explicitly or made the default; which marshaller was used and how is compared with "
        "the model. Non-trivial: distinct histories in which two marshallers claim the same key, or modules are "
        "missing.")

TM = hs.Marshallers.TypeMarshaller


class Ax:
    def __eq__(self, o):
        return type(o) is Ax

    def __hash__(self):
        return 1


class Bx(Ax):
    pass


def tname(t):
    return t if isinstance(t, str) else t.__module__ + "." + t.__name__


AXN, BXN = tname(Ax), tname(Bx)
TYPES = [Ax, Bx, AXN, BXN, int, "builtins.int", "builtins.str", np.uint8, np.float64, "numpy.float64",
         collections.deque, "collections.deque", "absent.Type", dict, "builtins.dict", list]
TYPE_KEYS = sorted({tname(t) for t in TYPES} | {"builtins.object", "", "no.Such", "builtins.float", "numpy.str_", "int", "hx.A", "struct",
                                            "float"})
STRINGS = ["hx.A", "hx.B", "int", "dict", "numpy.uint8", "absent", "collections.deque", "str"]
STRING_KEYS = STRINGS + ["", "no such", "float", "numpy.matrix", "builtins.dict", "builtins.int", AXN, "struct",
                         "numpy.float64", "collections.OrderedDict", "builtins.object"]
CLASSES = ["struct", "double", "hxclass", "cell", "char"]
CLASS_KEYS = CLASSES + ["", "no such", "uint8", "logical", "FileWrapper__", "int", "dict", "builtins.dict"]

# modules: name -> (parents that must be there, modules needed, findable, importable)
MODULES = {
    "none": ((), (), True, True),
    "ok": (("hxq_ok",), ("hxq_ok",), True, True),
    "sub": (("hxq_pkg",), ("hxq_pkg", "hxq_pkg.sub"), True, True),
    "missing": (("hxq_missing",), ("hxq_missing",), False, False),
    "missing_sub": (("hxq_pkg",), ("hxq_pkg", "hxq_pkg.gone"), True, False),
    "import_error": (("hxq_bad",), ("hxq_bad",), True, False),
    "other_error": (("hxq_worse",), ("hxq_worse",), True, False),
    "one_of_two": (("hxq_ok", "hxq_missing"), ("hxq_ok", "hxq_missing"), False, False),
    "dotted": (("hxq_missing.sub",), ("hxq_missing.sub",), False, False),
    "gone_parent": (("hxq_pkg.gone",), ("hxq_ok",), False, False),
    "sub_parent": (("hxq_pkg.sub", "hxq_pkg"), ("hxq_pkg.sub",), True, True),
    "std": (("fractions",), ("fractions",), True, True),
}
SOURCES = {"hxq_ok.py": "", "hxq_pkg/__init__.py": "", "hxq_pkg/sub.py": "", "hxq_bad.py": "import hxq_not_there\n",
           "hxq_worse.py": "raise ValueError('no')\n"}

_dirs = {}


def environment():
    """Modules of this check and a plugin, on the module path of this process."""
    pid = os.getpid()
    if _dirs.get("pid") != pid:
        d = tempfile.mkdtemp(prefix=core.RUN_TAG, dir=core.SCRATCH_BASE)
        for n, s in SOURCES.items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(s)
        for k in "ab":
            info = os.path.join(d, "hxplugin_%s-1.0.dist-info" % k)
            os.makedirs(info)
            with open(os.path.join(info, "METADATA"), "w") as f:
                f.write("Metadata-Version: 2.1\nName: hxplugin-%s\nVersion: 1.0\n" % k)
            with open(os.path.join(info, "entry_points.txt"), "w") as f:
                f.write("[hdf5storage.marshallers.plugins]\n1.0 = hxplugin_%s:get\n9.9 = hxplugin_%s:future\n" % (k, k))
            with open(os.path.join(d, "hxplugin_%s.py" % k), "w") as f:
                f.write("import builtins\ndef get(v):\n    return builtins.HX_PLUGINS[%r](v)\n"
                        "def future(v):\n    raise SystemExit('future')\n" % k)
        sys.path.insert(0, d)
        importlib.invalidate_caches()
        import pkg_resources
        pkg_resources.working_set.add_entry(d)
        _dirs.update(pid=pid, dir=d)
    for n in [n for n in sys.modules if n.startswith("hxq_")]:
        del sys.modules[n]


class Tag(TM):
    """A marshaller that says which it is."""

    def __init__(self, ident, spec):
        super().__init__()
        types, strings, classes, mods = spec
        self.ident = ident
        self.types, self.python_type_strings, self.matlab_classes = tuple(types), tuple(strings), tuple(classes)
        self.required_parent_modules, self.required_modules = MODULES[mods][:2]
        self.mods = mods
        self.update_type_lookups()

    def __repr__(self):
        return "Tag(%r, %r)" % (self.ident, (self.types, self.python_type_strings, self.matlab_classes, self.mods))

    def write(self, f, grp, name, data, type_string):
        if name in grp:
            del grp[name]
        d = grp.create_dataset(name, data=np.uint8(self.ident))
        if self.python_type_strings:
            d.attrs["Python.Type"] = np.bytes_(self.python_type_strings[0])
        if self.matlab_classes:
            d.attrs["MATLAB_class"] = np.bytes_(self.matlab_classes[0])
        if self.mods != "none" and not all(m in sys.modules for m in MODULES[self.mods][1]):
            raise AssertionError("used without the modules it needs")
        return d

    def read(self, f, dsetgrp, attributes):
        if self.mods != "none" and not all(m in sys.modules for m in MODULES[self.mods][1]):
            raise AssertionError("read without the modules it needs")
        return ("read", self.ident)

    def read_approximate(self, f, dsetgrp, attributes):
        return ("approximate", self.ident)


specs = st.tuples(st.lists(st.sampled_from(TYPES), max_size=3, unique_by=tname),
                  st.lists(st.sampled_from(STRINGS), max_size=2, unique=True),
                  st.lists(st.sampled_from(CLASSES), max_size=2, unique=True),
                  st.sampled_from(sorted(MODULES) + ["none"] * 6))
priorities = st.sampled_from(list(itertools.permutations(["builtin", "plugin", "user"])))
steps = st.one_of(
    st.tuples(st.just("add"), st.sampled_from(["one", "list", "tuple", "iter", "set1"]),
              st.lists(st.integers(0, 5), min_size=1, max_size=3)),
    st.tuples(st.just("addbad"), st.sampled_from(["list", "iter", "tuple", "one"]),
              st.lists(st.integers(0, 5), max_size=2), st.integers(0, 4)),
    st.tuples(st.just("remove"), st.sampled_from(["one", "list", "tuple", "iter"]),
              st.lists(st.integers(0, 5), min_size=1, max_size=3)),
    st.tuples(st.just("add"), st.sampled_from(["list", "tuple"]), st.lists(st.integers(0, 5), min_size=1, max_size=4)),
    st.just(("clear",)),
    st.tuples(st.just("odd"), st.sampled_from(["types", "none", "strings", "classes", "add", "remove"]),
              st.lists(st.integers(0, 5), max_size=3), st.integers(0, 3)),
    st.tuples(st.just("look"), st.integers(0, 3), st.integers(0, 60)))


class Model:
    """The documented behaviour."""

    def __init__(self, priority, plugins, base):
        self.priority, self.base = priority, base
        self.plugins, self.user = plugins, []

    def find(self, kind, key):
        """('builtin', name), a Tag, or None."""
        for p in self.priority:
            if p == "builtin":
                m = self.base[kind].get(key)
                if m is not None:
                    return ("builtin", m)
                continue
            for t in (self.plugins if p == "plugin" else self.user):
                have = {"type": [tname(x) for x in t.types], "string": t.python_type_strings,
                        "class": t.matlab_classes}[kind]
                if key in have:
                    return t
        return None

    def contested(self):
        n = collections.Counter()
        for t in self.plugins + self.user:
            n.update([("t", tname(x)) for x in t.types] + [("s", x) for x in t.python_type_strings]
                     + [("c", x) for x in t.matlab_classes])
        for (k, x), c in n.items():
            if c > 1 or x in self.base[{"t": "type", "s": "string", "c": "class"}[k]]:
                return True
        return False


def baseline():
    """What the builtin marshallers declare (class names; no key is declared twice)."""
    out = {"type": {}, "string": {}, "class": {}}
    import inspect
    for n, c in inspect.getmembers(hs.Marshallers, inspect.isclass):
        if issubclass(c, TM):
            m = c()
            for k, keys in (("type", map(tname, m.types)), ("string", m.python_type_strings),
                            ("class", m.matlab_classes)):
                for x in keys:
                    if out[k].setdefault(x, n) != n:
                        out[k][x] = None  # claimed by two builtins: either will do
    return out


_base = []


def judge(got, want, what):
    m, has = got
    if want is None:
        if m is not None or has:
            raise Violation("%s gave %r, expected none" % (what, got))
        return
    if isinstance(want, tuple):
        if type(m).__module__ != "hdf5storage.Marshallers" or not has or type(m).__name__ != want[1]:
            raise Violation("%s gave %r, expected the builtin %s" % (what, got, want[1]))
        return
    if m is not want:
        raise Violation("%s gave %r, expected %r" % (what, m, want))
    if has is not MODULES[want.mods][3]:
        raise Violation("%s says the modules (%s) are there: %r" % (what, want.mods, has))
    if has and not all(x in sys.modules for x in MODULES[want.mods][1]):
        raise Violation("%s: the modules were not loaded" % what)


CLS = {tname(t): t for t in TYPES if not isinstance(t, str)}


def look(mc, model, kind, key, as_class=False):
    want = model.find(kind, key)
    if kind == "type":
        arg = CLS[key] if as_class and key in CLS else key
        judge(lib(mc.get_marshaller_for_type, arg), want, "get_marshaller_for_type(%r)" % (arg,))
    elif kind == "string":
        judge(lib(mc.get_marshaller_for_type_string, key), want, "get_marshaller_for_type_string(%r)" % key)
    else:
        judge(lib(mc.get_marshaller_for_matlab_class, key), want, "get_marshaller_for_matlab_class(%r)" % key)


def everything(mc, model):
    for k in TYPE_KEYS:
        look(mc, model, "type", k)
        if k in CLS:
            look(mc, model, "type", k, True)
    for k in STRING_KEYS:
        look(mc, model, "string", k)
    for k in CLASS_KEYS:
        look(mc, model, "class", k)


class Stop(Exception):
    pass


def failing(how, l, pos):
    """What makes a modification fail halfway: a marshaller that can't be used or a broken iterator."""
    if how in ("add", "remove"):
        def gen():
            yield from l
            raise Stop
        return gen()
    t = Tag(99, ((Ax, "hx.odd"), ("hx.odd",), ("hxodd",), "none"))
    if how == "types":
        t.types = (Bx, 5)
    elif how == "none":
        t.types = None
    elif how == "strings":
        t.python_type_strings = ("hx.A", [])
    else:
        t.matlab_classes = 7
    return l[:pos] + [t] + l[pos:]


BAD = [5, "marshaller", None, TM, object()]


def shape(l, how):
    return {"list": lambda: list(l), "tuple": lambda: tuple(l), "iter": lambda: iter(l),
            "one": lambda: l[0], "set1": lambda: {l[0]}}[how]()


def setup(pool_specs, plug_specs, priority, load, lazy):
    environment()
    import builtins
    if not _base:
        _base.append(baseline())
    pool = [Tag(i, s) for i, s in enumerate(pool_specs)]
    plugs = [Tag(100 + i, s) for i, s in enumerate(plug_specs)]
    half = (len(plugs) + 1) // 2

    def first(v):
        if v != hs.__version__:
            raise SystemExit("wrong version given to the plugin")
        return plugs[:half] + ["not a marshaller", 5]
    builtins.HX_PLUGINS = {"a": first, "b": lambda v: tuple(plugs[half:])}
    model = Model(priority, plugs if load else [], _base[0])
    return pool, plugs, model


def no_early_import(mc, model, lazy):
    """Lazy loading leaves modules alone until they are needed."""
    # (To find a submodule, Python has to load its package.)
    if lazy and any(n.startswith("hxq_") and n != "hxq_pkg" for n in sys.modules):
        raise Violation("modules were loaded before they were needed: %r"
                        % [n for n in sys.modules if n.startswith("hxq_")])
    if not lazy:
        for t in model.plugins + model.user:
            for x in MODULES[t.mods][1]:
                if MODULES[t.mods][3] and x not in sys.modules:
                    raise Violation("%s was not loaded right away" % x)


def check_lookups(case, ctx):
    pool_specs, plug_specs, priority, load, lazy, start, history = case
    pool, plugs, model = setup(pool_specs, plug_specs, priority, load, lazy)
    first = [pool[i % len(pool)] for i in start]
    mc = lib(hs.MarshallerCollection, load_plugins=load, lazy_loading=lazy, priority=list(priority), marshallers=first)
    model.user = list(dict.fromkeys(first))
    no_early_import(mc, model, lazy)
    if tuple(mc.priority) != tuple(priority):
        raise Violation("priority %r" % (mc.priority,))
    contested = model.contested()
    looked = False
    for s in history:
        if s[0] == "add":
            l = [pool[i % len(pool)] for i in s[2]]
            l = l[:1] if s[1] in ("one", "set1") else l
            lib(mc.add_marshaller, shape(l, s[1]))
            model.user += [m for m in dict.fromkeys(l) if m not in model.user]
        elif s[0] == "addbad":
            l = [pool[i % len(pool)] for i in s[2]] + [BAD[s[3]]]
            l = l[-1:] if s[1] == "one" else l
            raises(TypeError, mc.add_marshaller, shape(l, s[1]))
        elif s[0] == "remove":
            l = [pool[i % len(pool)] for i in s[2]]
            l = l[:1] if s[1] == "one" else l
            lib(mc.remove_marshaller, shape(l, s[1]))
            model.user = [m for m in model.user if m not in l]
        elif s[0] == "odd":
            l = failing(s[1], [pool[i % len(pool)] for i in s[2]], s[3])
            raises(Exception, mc.remove_marshaller if s[1] == "remove" else mc.add_marshaller, l)
            ctx.label("modification that fails: " + s[1])
        elif s[0] == "clear":
            lib(mc.clear_marshallers)
            model.user = []
        else:
            kind, keys = [("type", TYPE_KEYS), ("type", TYPE_KEYS), ("string", STRING_KEYS), ("class", CLASS_KEYS)][s[1]]
            look(mc, model, kind, keys[s[2] % len(keys)], s[1] == 1)
            looked = True
            continue
        contested |= model.contested()
        if not looked:
            no_early_import(mc, model, lazy)
            if s[0] == "addbad":
                continue
        everything(mc, model)
        looked = True
    everything(mc, model)
    ctx.label(*("modules " + m.mods for m in model.user + model.plugins))
    if not contested and all(m.mods == "none" for m in pool + plugs):
        return None
    return repr(case)


# ---------------------------------------------------------------- reading and writing
VALUES = {AXN: Ax, BXN: Bx, "builtins.int": lambda: 7, "builtins.str": lambda: "s", "numpy.uint8": lambda: np.uint8(3),
          "numpy.float64": lambda: np.float64(2.5), "collections.deque": lambda: collections.deque([np.int16(1)]),
          "builtins.dict": lambda: {"k": np.int16(2)}, "builtins.list": lambda: [np.int16(4)],
          "builtins.float": lambda: 1.5, "builtins.bytes": lambda: b"by"}


def check_use(case, ctx):
    pool_specs, plug_specs, priority, load, lazy, start, what, nested, default, foreign = case
    pool, plugs, model = setup(pool_specs, plug_specs, priority, load, lazy)
    first = [pool[i % len(pool)] for i in start]
    kw = dict(load_plugins=load, lazy_loading=lazy, priority=priority, marshallers=first)
    old = hs.get_default_marshaller_collection()
    try:
        if default:
            lib(hs.make_new_default_marshaller_collection, **kw)
            mc = hs.get_default_marshaller_collection()
            if mc is old:
                raise Violation("the default collection was not replaced")
            o = hs.Options(matlab_compatible=False)
        else:
            mc = lib(hs.MarshallerCollection, **kw)
            o = hs.Options(matlab_compatible=False, marshaller_collection=mc)
        if o.marshaller_collection is not mc:
            raise Violation("Options do not have the collection")
        model.user = list(dict.fromkeys(first))
        return use(model, what, nested, foreign, o, ctx, repr(case))
    finally:
        hs._default_marshaller_collection[0] = old


def expected_read(model, ts, cls, dtype_name, want_builtin):
    """What reading a dataset tagged so gives, by the documented lookup order."""
    if ts is not None:
        m = model.find("string", ts)
    elif cls is not None:
        m = model.find("class", cls)
    else:
        m = model.find("type", dtype_name)
    if m is None:
        m = model.find("type", "numpy.uint8")
    if isinstance(m, tuple):
        return want_builtin
    return ("read" if MODULES[m.mods][3] else "approximate", m.ident)


ANY = object()


def use(model, what, nested, foreign, o, ctx, key):
    f = ctx.file()
    used = 0
    for i, tn in enumerate(what):
        v = VALUES[tn]()
        path = "/v%d" % i
        m = model.find("type", tn)
        wrap = None
        if nested:
            # the container and the parts builtins need must not be claimed themselves
            if isinstance(model.find("type", "builtins.tuple"), tuple):
                wrap = v, None
        data = v if wrap is None else wrap
        ok = m is not None and (isinstance(m, tuple) or MODULES[m.mods][3])
        if isinstance(m, tuple) and tn not in ("numpy.uint8", "numpy.float64", "builtins.float"):
            # written by a builtin through other types which may be claimed
            continue
        if not ok:
            raises(NotImplementedError, hs.write, data, path, filename=f, options=o)
            used += 1
            continue
        lib(hs.write, data, path, filename=f, options=o)
        if isinstance(m, tuple):
            continue
        used += 1
        ts = m.python_type_strings[0] if m.python_type_strings else None
        cl = m.matlab_classes[0] if m.matlab_classes else None
        want = expected_read(model, ts, cl, "numpy.uint8", ANY)
        with h5py.File(f, "r") as h:
            d = h[path]
            if wrap is not None:
                d = h[d[0]]
            if int(d[()]) != m.ident:
                raise Violation("%s was written by marshaller %d, expected %r" % (tn, int(d[()]), m))
        if want is ANY:
            continue
        if wrap is not None and not isinstance(model.find("string", "tuple"), tuple):
            continue
        got = lib(hs.read, path, filename=f, options=o)
        if wrap is not None:
            if type(got) is not tuple or len(got) != 2:
                raise Violation("read %r" % (got,))
            got = got[0]
        if got != want:
            raise Violation("%s was read by %r, expected %r" % (tn, got, want))
    # objects of other software
    for i, (ts, cl, dt) in enumerate(foreign):
        with h5py.File(f, "a") as h:
            d = h.create_dataset("f%d" % i, data=np.array(5, dt))
            if ts is not None:
                d.attrs["Python.Type"] = np.bytes_(ts)
            if cl is not None:
                d.attrs["MATLAB_class"] = np.bytes_(cl)
        want = expected_read(model, ts, cl, "numpy." + np.dtype(dt).name, ANY)
        if want is ANY:
            continue
        used += 1
        got = lib(hs.read, "/f%d" % i, filename=f, options=o)
        if got != want:
            raise Violation("an object with type string %r, class %r and dtype %s was read by %r, expected %r"
                            % (ts, cl, dt, got, want))
    ctx.label(*("write " + t for t in what))
    return key if used else None


common = (st.lists(specs, min_size=1, max_size=6), st.lists(specs, max_size=3), priorities, st.booleans(), st.booleans())

SUBS = [
    Sub("lookups", lambda: st.tuples(*common, st.lists(st.integers(0, 5), max_size=3),
                                     st.lists(steps, max_size=8)), check_lookups, 8000),
    Sub("use", lambda: st.tuples(*common, st.lists(st.integers(0, 5), min_size=1, max_size=5),
                                 st.lists(st.sampled_from(sorted(VALUES)), min_size=1, max_size=4), st.booleans(),
                                 st.booleans(),
                                 st.lists(st.tuples(st.one_of(st.none(), st.sampled_from(STRING_KEYS)),
                                                    st.one_of(st.none(), st.sampled_from(CLASS_KEYS)),
                                                    st.sampled_from(["u1", "f8", "i2"])), max_size=3)),
        check_use, 8000),
]
