"""C12: misuse is reported by the documented exception and has no other effect."""
import collections
import copy
import os

import h5py
import hdf5storage as hs
import numpy as np
from hypothesis import strategies as st

from hx import core, mat, model, opts, raw, values as V
from hx.canon import canon, diff
from hx.core import Sub, Trivial, Violation, lib, raises

PROPERTY = "C12"
QUICK_SCALE = 1.5
RULE = ("unsupported: a value of an unsupported type put at a random place in a generated value and "
        "written with every writing function over or next to other objects; matlab: values holding "
        "types MATLAB does not know under the three actions, against the storage model; state: every "
        "method of closed, read-only and open Files with existing and missing paths; arguments: wrong "
        "types and values for every parameter; files: missing, foreign and damaged files. The rest of "
        "the file is compared before and after. Non-trivial: distinct cases in which something was "
        "refused.")

TypeErr = hs.exceptions.TypeNotMatlabCompatibleError


class Alien:
    def __repr__(self):
        return "Alien()"


class MyInt(int):
    pass


class MyDict(dict):
    pass


class MyList(list):
    pass


def func():
    pass


ALIENS = {"object": object, "alien": Alien, "int": lambda: MyInt(3), "dict": lambda: MyDict(a=1),
          "list": lambda: MyList([1]), "type": lambda: int, "func": lambda: func, "module": lambda: np,
          "memoryview": lambda: memoryview(b"ab"), "iterator": lambda: iter([1]),
          "generator": lambda: (x for x in [1]), "masked": lambda: np.ma.array([1, 2], mask=[0, 1]),
          "defaultdict": lambda: collections.defaultdict(int, a=1), "array": lambda: __import__("array").array("i", [1]),
          "namedtuple": lambda: collections.namedtuple("P", "x y")(1, 2), "super": lambda: Exception("x")}


def bury(v, where, alien):
    """``alien`` as an element of (a copy of) the containers of ``v``."""
    v = copy.deepcopy(v) if where else v
    for w in where:
        k, arg = w
        alien = {"list": lambda: [1, alien, "z"][: 2 + arg % 2], "tuple": lambda: (alien, 2),
                 "dict": lambda: {"p": 1, "a": alien, "q": [v]}, "kv": lambda: {3: alien, "x": 2},
                 "deque": lambda: collections.deque([v, alien]), "order": lambda: collections.OrderedDict(z=alien),
                 "array": lambda: objs([v, alien]), "chain": lambda: collections.ChainMap({"a": alien}, {}),
                 "struct": lambda: struct(alien)}[k]()
    return alien


def objs(l):
    a = np.zeros(len(l), object)
    for i, x in enumerate(l):
        a[i] = x
    return a


def struct(x):
    a = np.zeros(2, [("f", "i4"), ("g", object)])
    a["g"][0] = x
    return a


WHERE = st.lists(st.tuples(st.sampled_from(["list", "tuple", "dict", "kv", "deque", "order", "array", "chain",
                                            "struct"]), st.integers(0, 3)), max_size=3)


def snapshot(filename, refs, skip=()):
    return raw.read(filename, "/", refs, skip=skip)


def without(tree, names):
    """A dump without the paths ``names`` and the groups made for them."""
    for p in names:
        parts = p.strip("/").split("/")
        t, chain = tree, []
        for x in parts[:-1]:
            if t[0] != "G" or x not in t[1]:
                break
            chain.append((t, x))
            t = t[1][x]
        else:
            if t[0] == "G":
                t[1].pop(parts[-1], None)
        for g, x in reversed(chain):
            if g[1][x] == ("G", {}, {}):
                del g[1][x]
    return tree


def plain_options():
    return st.one_of(opts.matlab(), opts.plain(refs=["/#refs#", "/refs", "/zz"])).map(
        lambda k: dict(k, action_for_matlab_incompatible="ignore", delete_unused_variables=True))


KEEP = {"/keep": [1, "two", {3: 4}], "/g/keep": {"a": 1, "b": np.arange(3)}, "/t/old": "old"}


def check_unsupported(case, ctx):
    kw, v, where, name, fn, target = case
    f = ctx.file()
    o = hs.Options(**kw)
    refs = model.full(kw)["group_for_references"]
    if fn == "savemat" and refs != "/#refs#":
        raise Trivial
    lib(hs.writes, KEEP, filename=f, options=o)
    before = without(snapshot(f, refs), [target])
    bad = bury(v, where, ALIENS[name]())
    with lib(hs.File, f, writable=True, options=o) as h:
        if fn == "hs.write":
            h.close()
            raises(NotImplementedError, hs.write, bad, target, filename=f, options=o)
        elif fn == "savemat":
            h.close()
            raises(NotImplementedError, hs.savemat, f, {target: bad}, appendmat=False,
                   action_for_matlab_incompatible="ignore")
        else:
            call = {"write": lambda: h.write(bad, target), "set": lambda: h.__setitem__(target, bad),
                    "writes": lambda: h.writes({target: bad}), "update": lambda: h.update({target: bad}),
                    "default": lambda: h.setdefault(target, bad)}[fn]
            if fn == "default" and target in KEEP:
                raise Trivial
            raises(NotImplementedError, call)
            # The File stays usable.
            if target != "/keep" and canon(lib(h.read, "/keep")) != canon(lib(hs.read, "/keep", filename=f,
                                                                            options=o)):
                raise Violation("reading after the failure")
            if lib(h.__contains__, "/g/keep") is not True:
                raise Violation("/g/keep is gone")
            if not where and target not in KEEP and target in h:
                raise Violation("%s is there after the failed write" % target)
            if not where and target in KEEP:
                d = diff(canon(lib(h.read, target)), canon(lib(hs.read, target, filename=f, options=o)))
                if d:
                    raise Violation("%s: %s" % (target, d))
            lib(h.write, [5], "/after")
    after = without(snapshot(f, refs), [target, "/after"])
    d = raw.diff(after, before)
    if d:
        raise Violation("the failed write changed the file: %s" % d)
    if not where and target in KEEP:
        g = ctx.file("g.h5")
        lib(hs.writes, KEEP, filename=g, options=o)
        d = raw.diff(raw.read(f, target, refs), raw.read(g, target, refs), target)
        if d:
            raise Violation("the failed write changed the object at its path: %s" % d)
    return repr((sorted(kw.items()), where, name, fn, target)), canon(v)


# --- types MATLAB does not know

ODD = st.one_of(st.integers(0, 5).map(np.float16), V.num_arrays(dtypes=st.just(np.dtype("f2"))),
                V.void_scalars(), V.void_arrays(), V.struct_arrays())


def odd_values():
    leaf = V.pick(ODD, ODD, V.py_scalars(), V.num_arrays())
    keyed = st.dictionaries(st.sampled_from(["a", "b", "c", "\u03b1"]), leaf, max_size=3)
    return V.pick(leaf, keyed, st.lists(leaf, min_size=1, max_size=3), keyed.map(lambda d: [d]),
                  st.dictionaries(st.sampled_from(["a", "b"]), keyed, min_size=1, max_size=2),
                  st.dictionaries(st.integers(0, 3), leaf, max_size=2), V.struct_arrays())


def check_matlab(case, ctx):
    vals, action, py, comp, fns = case
    kw = dict(comp, matlab_compatible=True, store_python_metadata=py, action_for_matlab_incompatible=action)
    o, m = hs.Options(**kw), model.full(kw)
    f = ctx.file()
    lib(hs.writes, KEEP, filename=f)
    before = snapshot(f, "/#refs#")
    now, odd = None, 0
    for v, fn in zip(vals, fns):
        try:
            want = model.store(v, m, "/x")
            refused = False
        except model.Incompatible:
            refused = True
            odd += 1
        with lib(hs.File, f, writable=True, options=o) as h:
            if fn == "savemat":
                h.close()
                call = lambda: hs.savemat(f, {"x": v}, appendmat=False, store_python_metadata=py,
                                          action_for_matlab_incompatible=action)
                if comp:
                    raise Trivial
            else:
                call = {"write": lambda: h.write(v, "/x"), "set": lambda: h.__setitem__("/x", v),
                        "writes": lambda: h.writes({"/x": v})}[fn]
            if refused:
                raises(TypeErr, call)
            else:
                lib(call)
        if refused:
            now = "unknown" if core_container(v) else now
        elif want is not None:
            now = want
            odd += repr(want) != repr(model.store(v, dict(m, action_for_matlab_incompatible="ignore"), "/x"))
        else:
            odd += 1
        with h5py.File(f, "r") as h:
            there = "x" in h
        if now is None and there:
            raise Violation("an incompatible value was written")
        if now not in (None, "unknown"):
            if not there:
                raise Violation("nothing was written")
            d = raw.diff(raw.read(f, "/x"), now, "/x")
            if d:
                raise Violation("after %s of %s with action %r: %s" % (fn, core.short(v), action, d))
            lib(hs.read, "/x", filename=f, options=o)
    d = raw.diff(without(snapshot(f, "/#refs#"), ["/x"]), before)
    if d:
        raise Violation("the rest of the file changed: %s" % d)
    return (repr((action, py, fns)), [canon(v) for v in vals]) if odd else None


def core_container(v):
    return isinstance(v, (dict, list, tuple, set, frozenset, collections.deque, collections.ChainMap)) \
        or isinstance(v, (np.ndarray, np.void)) and (v.dtype == object or v.dtype.names is not None)


# --- states of a File

OPS = ["read", "item", "reads", "get", "in", "len", "iter", "keys", "items", "values", "write", "set", "writes",
       "del", "pop", "popdef", "popitem", "clear", "update", "setdefault", "flush", "close", "with", "reads0", "writes0"]
WRITES = {"writes0", "write", "set", "writes", "del", "pop", "popitem", "clear", "update", "setdefault"}


def call_op(h, op, path):
    return {"read": lambda: h.read(path), "item": lambda: h[path], "reads": lambda: h.reads(["/keep", path]),
            "get": lambda: h.get(path, 77), "in": lambda: path in h, "len": lambda: len(h),
            "iter": lambda: list(h), "keys": lambda: list(h.keys()), "items": lambda: list(h.items()),
            "values": lambda: list(h.values()), "write": lambda: h.write([1], path),
            "set": lambda: h.__setitem__(path, [1]), "writes": lambda: h.writes({"/new": 2, path: [1]}),
            "del": lambda: h.__delitem__(path), "pop": lambda: h.pop(path), "popdef": lambda: h.pop(path, 77),
            "popitem": lambda: h.popitem(), "clear": lambda: h.clear(), "update": lambda: h.update({path: 1}),
            "setdefault": lambda: h.setdefault(path, [1]), "flush": lambda: h.flush(), "close": lambda: h.close(),
            "reads0": lambda: h.reads([]), "writes0": lambda: h.writes({}),
            "with": lambda: h.__enter__().__exit__(None, None, None)}[op]


def check_state(case, ctx):
    kw, mode, ops = case
    f = ctx.file()
    o = hs.Options(**kw)
    refs = model.full(kw)["group_for_references"]
    lib(hs.writes, KEEP, filename=f, options=o)
    before = snapshot(f, refs)
    with open(f, "rb") as b:
        content = b.read()
    keep = {k: canon(lib(hs.read, k, filename=f, options=o)) for k in KEEP}
    h = lib(hs.File, f, writable=mode == "writable", options=o)
    closed, n = False, 0
    try:
        if mode == "closed":
            lib(h.close)
            closed = True
        for op, path in ops:
            call = call_op(h, op, path)
            exists = path in KEEP
            if h.closed is not closed:
                raise Violation("closed is %r after %r" % (h.closed, op))
            if op in ("close", "with"):
                lib(call)
                closed = True
                continue
            if closed:
                raises(OSError, call)
                n += 1
                continue
            if op in WRITES or op == "popdef":
                if mode == "writable":
                    if not exists and op in ("pop", "del"):
                        raises(KeyError, call)
                        n += 1
                        if "/new" in h:
                            raise Violation("/new")
                    elif not exists and op == "popdef":
                        if lib(call) != 77:
                            raise Violation("pop with a default")
                    continue  # what succeeds is the matter of other checks
                n += 1
                if op == "pop" and not exists:
                    raises((KeyError, OSError), call)
                elif op == "popdef" and not exists:
                    if lib(call) != 77:
                        raise Violation("pop with a default")
                elif op == "setdefault" and exists:
                    lib(call)
                else:
                    raises(OSError, call)
                continue
            if op in ("read", "item", "reads") and not exists:
                raises(KeyError, call)
                n += 1
                continue
            got = lib(call)
            if op in ("read", "item", "get"):
                want = keep[path] if exists else canon(77)
                if canon(got) != want:
                    raise Violation("%s(%r): %s" % (op, path, diff(canon(got), want)))
            elif op == "reads" and [canon(x) for x in got] != [keep["/keep"], keep[path]]:
                raise Violation("reads after failures")
            elif op == "in" and got is not exists:
                raise Violation("%r in File is %r" % (path, got))
            elif op == "reads0" and got != []:
                raise Violation("a read of no paths gives %r" % (got,))
            elif op in ("len",) and got != 3:
                raise Violation("len %r" % got)
    finally:
        h.close()
    if lib(lambda: h.closed) is not True:
        raise Violation("not closed after close")
    if mode == "writable":
        d = raw.diff(snapshot(f, refs), before)
        if d:
            raise Violation("the file changed: %s" % d)
    else:
        with open(f, "rb") as b:
            if b.read() != content:
                raise Violation("the bytes of the file changed")
    return repr((sorted(kw.items()), mode, ops)) if n else None


PATHS = ["/keep", "/g/keep", "/t/old", "/none", "/g/none", "/none/x", "/keep/none", "/t/old/x/y", "/g/keep/none"]

# --- arguments

BADTYPE = [None, 3, 2.5, b"x", [], {}, "x", (), object(), 1, 0, np.bool_(True)]
PARAMS = {"filename": str, "writable": bool, "truncate_existing": bool, "truncate_invalid_matlab": bool,
          "options": hs.Options}


class Items:
    def items(self):
        return [("/new", 1)]


class Duck(Items):
    def keys(self):
        return ["/new"]

    def __getitem__(self, k):
        return 1

    def __iter__(self):
        return iter(["/new"])

    def __len__(self):
        return 1

    def __contains__(self, k):
        return k == "/new"


DUCKS = [x for x in BADTYPE if not isinstance(x, dict)] + [
    Items(), Duck(), [("/new", 1)], (("/new", 1),), {"/new"}, {"/new": 1}.items(), iter([("/new", 1)]), dict, "/new"]


def check_arguments(case, ctx):
    what, i, j, exists, writable = case
    f = ctx.file()
    if exists:
        lib(hs.writes, KEEP, filename=f)
        with open(f, "rb") as b:
            content = b.read()
    kw = dict(filename=f, writable=writable)
    bad = BADTYPE[j % len(BADTYPE)]
    exc = TypeError
    if what in PARAMS:
        if isinstance(bad, PARAMS[what]) or (what == "options" and bad is None):
            raise Trivial
        kw[what] = bad
        if what == "options" or i % 2:
            kw["truncate_existing" if what != "truncate_existing" else "writable"] = True
        call = lambda: hs.File(**kw)
    elif what == "both":
        exc = ValueError
        kw.update(options=hs.Options(), truncate_existing=True,
                  **[{"compress": True}, {"matlab_compatible": False}, {"nothing": 1}][i % 3])
        call = lambda: hs.File(**kw)
    elif what == "reads":
        if isinstance(bad, (str, bytes, list, dict, tuple)):
            raise Trivial
        if not exists:
            raise Trivial
        call = lambda: hs.reads(bad, filename=f)
    elif what == "writes":
        bad = DUCKS[(i * 12 + j) % len(DUCKS)]
        if not exists:
            raise Trivial
        with lib(hs.File, f, writable=True) as h:
            raises(TypeError, h.writes, bad)
            if lib(h.read, "/t/old") != "old":
                raise Violation("File unusable")
        d = raw.diff(snapshot(f, "/#refs#"), good(ctx))
        if d:
            raise Violation(d)
        return what, (i * 12 + j) % len(DUCKS)
    elif what == "bulkpath":
        # A mapping with an invalid path is rejected as a whole.
        badp = [3, None, ("a", 2), 2.5, "/#refs#", "/#refs#/b", ("#refs#",)][j % 7]
        items = [("/new", 1), ("/t/old", "overwritten"), ("/n/e/w", [1, (2,)]), ("/g/n", {"a": 1}), ("/keep", None)]
        items = items[j // 2 % 5:] + items[:j // 2 % 5]
        items = items[:1 + (j + writable) % 5]
        items.insert(i % (len(items) + 1), (badp, 2))
        if not exists:
            raise Trivial
        with lib(hs.File, f, writable=True) as h:
            raises((TypeError, ValueError), [h.writes, h.update][0], dict(items))
            raises((TypeError, ValueError), h.reads, ["/t/old", badp])
            if "/new" in h or "/n" in h or "/g/n" in h or lib(h.read, "/t/old") != "old":
                raise Violation("items of the rejected mapping were written")
        d = raw.diff(snapshot(f, "/#refs#"), good(ctx))
        if d:
            raise Violation(d)
        return what, i, j, writable
    elif what == "format":
        exc = (ValueError, TypeError)
        call = lambda: hs.savemat(f, {"a": 1}, appendmat=False, format=["bogus", "", None, "7,3"][i % 4],
                                  truncate_existing=True)
    else:
        raise AssertionError(what)
    raises(exc, call)
    if exists:
        with open(f, "rb") as b:
            if b.read() != content:
                raise Violation("the rejected call changed the file")
    elif os.path.exists(f):
        raise Violation("the rejected call made the file")
    return what, i % 6, j % len(BADTYPE), exists, writable


def good(ctx):
    g = ctx.file("good.h5")
    lib(hs.writes, KEEP, filename=g)
    return snapshot(g, "/#refs#")


# --- files

def check_files(case, ctx):
    kind, n, fn, mat_ = case
    f = ctx.file("f.mat")
    lib(hs.writes, KEEP, filename=ctx.file("good.h5"))
    with open(ctx.file("good.h5"), "rb") as b:
        data = b.read()
    content = {"missing": None, "empty": b"", "text": b"not HDF5\n" * (n % 99 + 1), "nodir": None, "dir": None,
               "nosig": data[:512] + b"\0" * 64 + data[576:], "block": data[:1 + n % 511],
               "user": data[:512]}[kind]
    if kind == "nodir":
        f = os.path.join(ctx.dir, "none", "f.mat")
    elif kind == "dir":
        os.mkdir(f)
    elif content is not None:
        with open(f, "wb") as b:
            b.write(content)
    kw = {} if mat_ else {"matlab_compatible": False}
    writing = fn in ("File-w", "hs.write", "hs.writes", "savemat", "File-wt")
    if writing and kind in ("missing",):
        raise Trivial
    call = {"File-r": lambda: hs.File(f, **kw), "File-w": lambda: hs.File(f, writable=True, **kw),
            "File-wt": lambda: hs.File(f, writable=True, truncate_invalid_matlab=True, **kw),
            "hs.read": lambda: hs.read("/x", filename=f, **kw), "hs.reads": lambda: hs.reads(["/x"], filename=f, **kw),
            "hs.write": lambda: hs.write(1, "/x", filename=f, **kw),
            "hs.writes": lambda: hs.writes({"/x": 1}, filename=f, **kw),
            "savemat": lambda: hs.savemat(f, {"x": 1})}[fn]
    # An empty file is made into an HDF5 file by h5py or refused.
    try:
        r = call()
    except OSError:
        pass
    except Exception as e:
        raise Violation("%s on %s raised %s (%s) instead of OSError" % (fn, kind, type(e).__name__, e)) from e
    else:
        if hasattr(r, "close"):
            r.close()
        if not (kind == "empty" and writing):
            raise Violation("%s on %s returned %s" % (fn, kind, core.short(r)))
        return kind, fn, mat_
    if content is not None:
        with open(f, "rb") as b:
            if b.read() != content:
                raise Violation("the failed %s changed the file (%s)" % (fn, kind))
    elif kind == "dir":
        if os.listdir(f):
            raise Violation("directory")
    elif os.path.exists(f):
        raise Violation("the failed %s made a file" % fn)
    return kind, fn, mat_, n if kind in ("block", "text") else 0


FILES = st.tuples(st.sampled_from(["missing", "empty", "text", "nodir", "dir", "nosig", "block", "user"]),
                  st.integers(0, 600),
                  st.sampled_from(["File-r", "File-w", "File-wt", "hs.read", "hs.reads", "hs.write", "hs.writes",
                                   "savemat"]), st.booleans())

SUBS = [
    Sub("unsupported", lambda: st.tuples(
        plain_options(), V.leaves(), WHERE, st.sampled_from(sorted(ALIENS)),
        st.sampled_from(["write", "set", "writes", "update", "default", "hs.write", "savemat"]),
        st.sampled_from(["/new", "/g/new", "/n/e/w", "/t/old", "/keep"])), check_unsupported, 2400),
    Sub("matlab", lambda: st.tuples(
        st.lists(odd_values(), min_size=1, max_size=3), st.sampled_from(["error", "discard", "discard", "ignore"]),
        st.booleans(), st.one_of(st.just({}), opts.compression()),
        st.tuples(*[st.sampled_from(["write", "set", "writes", "savemat"])] * 3)), check_matlab, 2400),
    Sub("state", lambda: st.tuples(
        plain_options(), st.sampled_from(["closed", "readonly", "readonly", "writable"]),
        st.lists(st.tuples(st.sampled_from(OPS), st.sampled_from(PATHS)), min_size=1, max_size=8)),
        check_state, 2400),
    Sub("arguments", lambda: st.tuples(
        st.sampled_from(sorted(PARAMS) + ["both", "reads", "writes", "writes", "bulkpath", "bulkpath", "bulkpath", "format"]),
        st.integers(0, 5), st.integers(0, 11), st.booleans(), st.booleans()), check_arguments, 1300),
    Sub("files", lambda: FILES, check_files, 1000),
]
