"""C13: reading never changes the file, writing never changes its arguments."""
import collections
import contextlib
import copy
import os
import pathlib

import h5py
import hdf5storage as hs
import numpy as np
from hypothesis import strategies as st

from checks import c03
from hx import core, foreign, mat, model, opts, raw, values as V
from hx.canon import canon, diff
from hx.core import Sub, Trivial, Violation, lib, raises

PROPERTY = "C13"
RULE = ("reads: a file of objects written by the library under several options and by plain h5py, read through "
        "read-only and writable Files, module functions and loadmat under varying options, in varying order; the "
        "bytes (or the HDF5 content) and the results stay the same. writes: values in several memory layouts with "
        "shared parts, paths, dicts and options are compared (bytes, strides, flags, identity of the parts) before "
        "and after every writing function. links: everything mutable in written and in read values is overwritten "
        "afterwards. Non-trivial: distinct cases with a successful read of, or a write of, something.")


# --- reads

READS = ["read", "item", "reads", "get", "in", "len", "iter", "items", "keys", "values", "missing", "flush",
         "getdefault", "popmissing"]
FUNCS = ["hs.read", "hs.reads", "loadmat", "loadmat-names"]
PATHS = ["/x", "/y", "/g/x", "/g/y", "/\u03b1", "/.h/z"]


@st.composite
def read_cases(draw):
    objs = []
    for p in draw(st.lists(st.sampled_from(PATHS), min_size=1, max_size=4, unique=True)):
        if draw(st.integers(0, 3)):
            objs.append(("lib", p, draw(c03.options()), draw(c03.values())))
        else:
            objs.append(("foreign", p, draw(foreign.kinds)))
    extras = draw(st.lists(st.sampled_from(c03.EXTRAS), max_size=2, unique=True))
    names = [o[1] for o in objs] * 3 + PATHS[:2] + ["/g", "/none"]
    sessions = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(["ro", "ro", "rw", "func"]))
        ops = draw(st.lists(st.tuples(st.sampled_from(FUNCS if kind == "func" else READS),
                                      st.sampled_from(names)), min_size=1, max_size=5))
        sessions.append((kind, draw(read_options()), ops))
    return objs, extras, sessions


@V.memo
def read_options():
    return st.tuples(c03.options(), st.booleans()).map(lambda t: dict(t[0], structs_as_dicts=t[1]))


def outcome(fn):
    """What a call gives, as comparable data; exceptions by type."""
    try:
        return canon(fn())
    except Exception as e:
        return ("raised", type(e).__name__)


def check_reads(case, ctx):
    objs, extras, sessions = case
    f = ctx.file()
    for s in objs:
        if s[0] == "lib":
            with contextlib.suppress(Exception):
                hs.write(s[3], path=s[1], filename=f, options=hs.Options(**s[2]))
        else:
            with h5py.File(f, "a") as h, contextlib.suppress(Exception):
                foreign.put(h, s[1], s[2])
    if extras:
        with h5py.File(f, "a") as h:
            for e in extras:
                with contextlib.suppress(ValueError):
                    c03.add_extra(h, e)
    with open(f, "rb") as b:
        content = b.read()
    tree = c03.dump(f)
    seen, good = {}, 0
    for kind, kw, ops in sessions:
        o = hs.Options(**kw)
        before = options_of(o)
        key0 = repr(sorted(kw.items()))
        with contextlib.ExitStack() as stack:
            h = None
            if kind != "func":
                h = lib(hs.File, f, writable=kind == "rw", options=o)
                stack.callback(h.close)
            for op, p in ops:
                call = {"read": lambda: h.read(p), "item": lambda: h[p], "reads": lambda: h.reads([p, p]),
                        "get": lambda: h.get(p), "in": lambda: p in h, "len": lambda: len(h),
                        "iter": lambda: list(h), "items": lambda: list(h.items()), "keys": lambda: list(h.keys()),
                        "values": lambda: list(h.values()), "missing": lambda: h["/no/" + p],
                        "flush": lambda: h.flush(), "getdefault": lambda: h.get("/no", [1]),
                        "popmissing": lambda: h.pop("/no/such", 3),
                        "hs.read": lambda: hs.read(p, filename=f, options=o),
                        "hs.reads": lambda: hs.reads([p, p], filename=f, options=o),
                        "loadmat": lambda: hs.loadmat(f, options=o, appendmat=False),
                        "loadmat-names": lambda: hs.loadmat(f, options=o, variable_names=[p, "/none"],
                                                            appendmat=False)}[op]
                got = outcome(call)
                good += got[0] != "raised" if isinstance(got, tuple) else 1
                k = (op, p, key0)
                if k in seen and seen[k] != got:
                    raise Violation("%s(%r) gave another result the second time: %s" % (op, p, diff(got, seen[k])))
                seen[k] = got
                if op == "reads" and ("read", p, key0) in seen and got[0] != "raised":
                    one = seen["read", p, key0]
                    if one[0] == "raised":
                        raise Violation("reads of %r gave a result, read raised %s" % (p, one[1]))
        if options_of(o) != before:
            raise Violation("reading changed the options")
        if kind == "rw":
            after = c03.dump(f)
            if after != tree:
                c03.compare(tree, after, [], set(tree))
                raise Violation("reading changed the file: %r" % sorted(set(after) ^ set(tree)))
            with open(f, "rb") as b:
                content = b.read()
        else:
            with open(f, "rb") as b:
                if b.read() != content:
                    raise Violation("reading changed the bytes of the file")
    return repr((extras, sessions, [(s[:3], canon(s[3]) if s[0] == "lib" else None) for s in objs])) if good else None


def options_of(o):
    return {k: repr(getattr(o, k)) for k in model.DEFAULTS} | {
        "marshallers": id(o.marshaller_collection)} | {k: id(v) for k, v in vars(o).items() if "marsh" in k}


# --- writes

def state(x, seen=None):
    """Everything there is to see of a value: identity of its mutable parts, bytes, layout, flags."""
    if isinstance(x, np.ndarray):
        own = (id(x), type(x), canon_dtype(x.dtype), x.shape, x.strides, x.flags.num, id(x.base),
               x.__array_interface__["data"])
        if x.dtype.hasobject and x.dtype.names is None:
            return own, tuple(state(y) for y in np.asarray(x).ravel())
        if x.dtype.hasobject:
            return own, tuple(state(np.asarray(x[n])[i]) if np.asarray(x[n]).dtype == object
                              else np.asarray(x[n])[i].tobytes()
                              for n in x.dtype.names for i in np.ndindex(*x.shape))
        return own, np.asarray(x).tobytes(), None if x.base is None or not isinstance(x.base, np.ndarray) \
            or x.base.dtype.hasobject else np.asarray(x.base).tobytes()
    if isinstance(x, np.generic):
        return id(x), type(x), x.dtype.str, canon(x)
    if isinstance(x, (list, tuple, collections.deque)):
        return id(x), type(x), tuple(state(y) for y in x), getattr(x, "maxlen", None)
    if isinstance(x, (set, frozenset)):
        return id(x), type(x), tuple(state(y) for y in x)
    if isinstance(x, collections.ChainMap):
        return id(x), type(x), tuple(state(m) for m in x.maps)
    if isinstance(x, dict):
        return id(x), type(x), tuple((state(k), state(v)) for k, v in x.items())
    return id(x), type(x), canon(x)


def canon_dtype(d):
    return id(d) if d.names is None else (id(d), repr(d), d.names)


def mutate(x):
    """Overwrite all that is mutable in a value."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for y in np.asarray(x).ravel():
                mutate(y)
        if not x.flags.writeable:
            return
        with contextlib.suppress(Exception):
            a = np.asarray(x)
            if a.dtype.hasobject:
                a.reshape(-1)[:] = np.zeros(1, a.dtype)[0] if a.dtype.names else "changed"
            else:
                a[...] = np.frombuffer(b"\x5a" * a.dtype.itemsize, a.dtype)[0]
    elif isinstance(x, (list, collections.deque)):
        for y in list(x):
            mutate(y)
        x.clear()
        x.append("changed")
    elif isinstance(x, tuple):
        for y in x:
            mutate(y)
    elif isinstance(x, set):
        x.clear()
    elif isinstance(x, bytearray):
        x[:] = b"changed"
    elif isinstance(x, collections.ChainMap):
        for m in x.maps:
            mutate(m)
    elif isinstance(x, dict):
        for y in list(x.values()):
            mutate(y)
        x.clear()
        x["changed"] = 1


WFN = ["File.write", "setitem", "writes", "update", "setdefault", "hs.write", "hs.writes", "savemat"]
FORMS = ["str", "bytes", "list", "tuple", "pathlib", "bytearray-list"]


def path_form(parts, form):
    if form == "list":
        return [p if i % 2 else p.encode() for i, p in enumerate(parts)]
    return {"str": "/" + "/".join(parts), "bytes": ("/" + "/".join(parts)).encode(), "tuple": tuple(parts),
            "pathlib": pathlib.PurePosixPath("/" + "/".join(parts)), "bytearray-list": list(parts)}[form]


def share(v, w, how):
    """Values with shared parts."""
    if how == 0:
        return v
    if how == 1:
        return [v, w, v]
    if how == 2:
        return {"a": v, "b": [v], "c": w}
    a = np.zeros(2, object)
    a[0], a[1] = v, w
    return a if how == 3 else (a, {"x": a})


def savemat(f, d, o):
    hs.savemat(f, d, appendmat=False, oned_as=o.oned_as, store_python_metadata=o.store_python_metadata,
               action_for_matlab_incompatible="ignore")


def put(fn, f, h, v, p, o, kw):
    if fn == "File.write":
        h.write(v, p)
    elif fn == "setitem":
        h[p] = v
    elif fn == "writes":
        h.writes({p: v})
    elif fn == "update":
        h.update({p: v})
    elif fn == "setdefault":
        h.setdefault(p, v)
    elif fn == "hs.write":
        hs.write(v, p, filename=f, options=o)
    elif fn == "hs.writes":
        hs.writes({p: v}, filename=f, options=o)


def check_writes(case, ctx):
    v, w, how, lay, kw, fn, form, parts, fail = case
    v = share(V.relayout(v, lay), w, how)
    if fail:
        v = [v, {"q": v, "alien": object()}, v]
    p = path_form(parts, form)
    if isinstance(p, list) and fn not in ("File.write", "setitem", "hs.write", "setdefault"):
        p = tuple(p)
    f = ctx.file("f.mat")
    o = hs.Options(**kw)
    o0, p0, s0 = options_of(o), repr(p), state(v)
    want = canon(v) if not fail else None
    ok = lib if not fail else lambda g, *a, **k: raises(NotImplementedError, g, *a, **k)
    if fn == "savemat":
        d = {"/".join(parts): v, "other": w}
        d0 = state(d)
        ok(savemat, f, d, o)
        if state(d) != d0:
            raise Violation("savemat changed its mdict")
    elif fn.startswith("hs."):
        ok(put, fn, f, None, v, p, o, kw)
    else:
        with lib(hs.File, f, writable=True, options=o) as h:
            if fn == "setdefault" and fail:
                fn = "File.write"
            ok(put, fn, f, h, v, p, o, kw)
    if options_of(o) != o0:
        raise Violation("writing changed the options")
    if repr(p) != p0:
        raise Violation("writing changed the path")
    if state(v) != s0:
        if want is not None:
            raise Violation("writing changed the value: %s" % (diff(canon(v), want) or "layout, flags or identity"))
        raise Violation("the failed write changed the value")
    return s_key(v, kw, fn, form, parts, lay, how, fail)


def s_key(v, kw, *more):
    return repr((sorted(kw.items()), more)), canon(v) if not any(
        type(x) is object for x in V.subvalues(v)) else repr(type(v))


def check_links(case, ctx):
    v, w, how, lay, kw, fn = case
    v = share(V.relayout(v, lay), w, how)
    f = ctx.file("f.mat")
    o = hs.Options(**kw)
    v2 = copy.deepcopy(v)  # its sets may be in another order
    lib(hs.write, v2, "/y", filename=ctx.file("g.mat"), options=o)
    want2 = canon(lib(hs.read, "/y", filename=ctx.file("g.mat"), options=o))
    if fn == "savemat":
        if not model.full(kw)["matlab_compatible"]:
            raise Trivial
        lib(savemat, f, {"x": v}, o)
        fn = "File.write"
        h = lib(hs.File, f, writable=True, options=o)
    else:
        h = lib(hs.File, f, writable=True, options=o)
        if fn.startswith("hs."):
            h.close()
        lib(put, fn, f, h, v, "/x", o, kw)
        if fn.startswith("hs."):
            h = lib(hs.File, f, writable=True, options=o)
    with h:
        first = lib(h.read, "/x")
        want = canon(first)
        second = lib(h.read, "/x")
        if canon(second) != want:
            raise Violation("second read: %s" % diff(canon(second), want))
        mutate(v)
        if canon(first) != want:
            raise Violation("changing the written value changed the value read")
        mutate(first)
        if canon(second) != want:
            raise Violation("changing a value read changed another one: %s" % diff(canon(second), want))
        third = lib(h.read, "/x")
        if canon(third) != want:
            raise Violation("changing values changed the stored one: %s" % diff(canon(third), want))
        # The options given are not the File's.
        o.oned_as = "column" if o.oned_as == "row" else "row"
        o.structs_as_dicts = not o.structs_as_dicts
        o.store_python_metadata = not o.store_python_metadata
        lib(h.write, v2, "/y")
        fourth = lib(h.read, "/y")
        if canon(fourth) != want2:
            raise Violation("changing the options given to the File changed what it does: %s"
                            % diff(canon(fourth), want2))
    with lib(hs.File, f, options=hs.Options(**kw)) as h:
        a = lib(h.read, "/x")
        if canon(a) != want:
            raise Violation("reopened: %s" % diff(canon(h.read("/x")), want))
        b = lib(h.read, "/x")
        mutate(a)
        if canon(b) != want:
            raise Violation("changing a value read from a read-only File changed another: %s" % diff(canon(b), want))
        mutate(b)
        c, d = lib(h.reads, ["/x", "/x"])
        if canon(c) != want:
            raise Violation("after changing values read from a read-only File: %s" % diff(canon(c), want))
        mutate(c)
        if canon(d) != want:
            raise Violation("changing a value of a bulk read changed another: %s" % diff(canon(d), want))
    return s_key(v2, kw, fn, lay, how)


@V.memo
def values():
    return V.pick(V.leaves(), V.arrays(), V.nest(V.leaves()), V.dicts(V.leaves()), V.obj_struct_arrays(V.leaves()))


PARTS = st.lists(st.sampled_from(["x", "y", "\u03b1", "a b"]), min_size=1, max_size=3)

SUBS = [
    Sub("reads", read_cases, check_reads, 2400),
    Sub("writes", lambda: st.tuples(values(), V.py_scalars(), st.integers(0, 4), V.layouts, c03.options(),
                                    st.sampled_from(WFN), st.sampled_from(FORMS), PARTS,
                                    st.sampled_from([False, False, False, True])), check_writes, 4000),
    Sub("links", lambda: st.tuples(values(), V.py_scalars(), st.integers(0, 4), V.layouts, c03.options(),
                                   st.sampled_from(WFN)), check_links, 1800),
]
