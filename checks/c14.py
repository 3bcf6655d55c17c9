"""C14: dict-like objects keep every key, value, pairing and order in both storage forms."""
import collections

import h5py
import hdf5storage as hs
from hypothesis import strategies as st

from hx import core, model, opts, values as V
from hx.canon import as_group, canon, diff, mismatch
from hx.core import Excluded, Sub, Violation, lib

PROPERTY = "C14"
QUICK_SCALE = 1.5
RULE = ("A case is a dict-like object (or a history of them written to one path) whose keys are drawn from "
        "variations of a few texts (types, escapes, configured names) and from the other hashable types, and "
        "options with Python metadata and any two distinct configured names.  Each object is read back with "
        "other configured names, compared for type, keys, values, pairing and order at every level, and its "
        "storage form and member names are compared with the ones the documentation gives.  Non-trivial: "
        "distinct (object, options) with at least one key.")

TEXTS = ["a", "keys", "values", "k", "v", "a/b", "a\\b", ".", "..", "", "a\0", "\0", "\\x2f", "a\\x2fb", "\\\\x2f",
         "start", "\u0430", "\xe9", "e\u0301", "\U0001f600", "\ud800", "#refs#", "Python.Fields", "a b", " ",
         "MATLAB_class", "...", "./a", "../x", "/", "//", "\\", "\\x", "\\u0041", "A", "\ufeffa", "n" * 70, "0", "1",
         "None", "\n", "'", "\"", "\uffff"]


def forms(t):
    """Keys that are, or look like, the text ``t``."""
    import numpy as np
    out = [t, t, np.str_(t), model.escape(t)]
    try:
        b = t.encode("utf-8")
        out += [b, b, np.bytes_(b), model.escape(t).encode(), t.encode("utf-16-le"), b + b"\xff"]
    except UnicodeEncodeError:
        out += [t.encode("utf-8", "surrogatepass")]
    if t and t[0] not in "./":
        out += [t + "\0", "./" + t, t + "/"]
    out += [(t,), frozenset([t]), (b"",), 0, 1.5, None]
    return out


@V.memo
def keylists(other):
    """Lists of keys: forms of few texts, possibly with other hashables."""
    txt = st.one_of(st.sampled_from(TEXTS), V.text(1, 4, trail=True))

    @st.composite
    def mixed(draw):
        base = draw(st.lists(txt, min_size=1, max_size=3, unique=True))
        n = draw(st.integers(1, 6))
        out = []
        for _ in range(n):
            if other and draw(st.integers(0, 5)) == 0:
                out.append(draw(V.hashables))
                continue
            f = forms(base[draw(st.integers(0, len(base) - 1))])
            k = draw(st.integers(0, len(f) - 1))
            out.append(f[k] if other else f[min(k, 6)])
        return out
    plain = st.lists(st.sampled_from(TEXTS), min_size=1, max_size=6, unique=True)
    typed = st.lists(st.tuples(st.sampled_from(TEXTS), st.integers(0, 6)), min_size=1, max_size=6).map(
        lambda l: [forms(t)[i % len(forms(t))] for t, i in l])
    return V.pick(mixed(), mixed(), plain, typed)


@V.memo
def likes(depth=1):
    """dict, OrderedDict, Counter and ChainMap."""
    leaf = V.pick(V.ints, V.text(0, 3), V.num_arrays(), V.py_scalars(), V.leaves())
    vals = leaf if depth == 0 else V.pick(leaf, leaf, leaf, likes(depth - 1), V.nest(leaf))
    keys = V.pick(keylists(True), keylists(False), keylists(False))

    @st.composite
    def one(draw, kind=None):
        kind = kind or draw(st.sampled_from(["dict", "dict", "dict", "ordered", "counter", "chain"]))
        if kind == "chain":
            maps = [draw(one(k)) for k in draw(st.lists(st.sampled_from(["dict", "ordered", "dict", "counter"]),
                                                        min_size=1, max_size=3))]
            return collections.ChainMap(*maps)
        ks = draw(keys) if draw(st.integers(0, 19)) else []
        d = collections.OrderedDict()
        for k in ks:
            d[k] = draw(V.ints if kind == "counter" else vals)
        return {"dict": dict, "ordered": collections.OrderedDict, "counter": collections.Counter}[kind](d)
    return one()


@V.memo
def names():
    return st.lists(st.one_of(st.sampled_from(["keys", "values", "k", "v"]), st.sampled_from([t for t in TEXTS if t and t != "\ud800" and "\0" not in t]),
                              V.text(1, 4, nul=False)), min_size=2, max_size=2, unique=True)


@V.memo
def options():
    return st.builds(lambda o, n, r: (dict(o, dict_like_keys_name=n[0], dict_like_values_name=n[1]),
                                      dict(o, dict_like_keys_name=r[0], dict_like_values_name=r[1])),
                     opts.python_any(), st.one_of(names(), names(), st.just(["keys", "values"])), names())


def order(x):
    """The keys of every mapping in ``x``, in order."""
    out = []
    for y in V.subvalues(x):
        if isinstance(y, dict):
            out.append(tuple(canon(k) for k in y))
    return out


def check_raw(f, path, d, kw):
    """The storage form of one mapping at ``path``."""
    o = model.full(kw)
    kn = model.dict_keys(d, o)
    g = f[path]
    if not isinstance(g, h5py.Group):
        raise Violation("%r is stored as a %s" % (core.short(d), type(g)))
    want = ([model.escape(o["dict_like_keys_name"]), model.escape(o["dict_like_values_name"])]
            if kn is None else kn[0])
    if set(g) != set(want):
        raise Violation("members %r, expected %r" % (sorted(g), sorted(want)))
    how = bytes(g.attrs["Python.dict.StoredAs"]).decode() if "Python.dict.StoredAs" in g.attrs else None
    if how != ("keys_values" if kn is None else "individually"):
        raise Violation("Python.dict.StoredAs is %r" % how)
    return kn


def judge(f, path, value, kw, rkw, what=""):
    got = lib(hs.read, path=path, filename=f, options=hs.Options(**rkw))
    d = mismatch(got, value, kw)
    if d:
        raise Violation("%sread back %s, wrote %s\n%s" % (what, core.short(got), core.short(value), d))
    if order(got) != order(value):
        raise Violation("%sorder of keys: %s" % (what, diff(order(got), order(value))))


def flat(v, path):
    """The mappings stored as Groups at known paths."""
    if isinstance(v, dict):
        yield path, v


def check(case, ctx):
    value, (kw, rkw) = case
    f = ctx.file()
    lib(hs.write, value, path="/d", filename=f, options=hs.Options(**kw))
    judge(f, "/d", value, kw, rkw)
    if isinstance(value, collections.ChainMap):
        ctx.label("ChainMap")
        if not any(len(m) for m in value.maps):
            return None
        return canon(value), sorted(kw.items())
    with h5py.File(f, "r") as h:
        kn = check_raw(h, "/d", value, kw)
    ctx.label(type(value).__name__ + (" keys_values" if kn is None else " individually"))
    if not value:
        return None
    o = model.full(kw)
    loose = as_group(kw)
    if kn is not None:  # every member can be read by its key
        with lib(hs.File, f, writable=False, options=hs.Options(**kw)) as h:
            for k, v in value.items():
                g = lib(h.read, ("d", k))
                if canon(g, loose) != canon(v, loose) and mismatch(g, v, kw):
                    raise Violation("member %r: %s" % (k, mismatch(g, v, kw)))
    else:
        for n, want in ((o["dict_like_keys_name"], tuple(value)), (o["dict_like_values_name"], tuple(value.values()))):
            g = lib(hs.read, path=("d", n), filename=f, options=hs.Options(**kw))
            if mismatch(g, want, kw):
                raise Violation("sequence %r: %s" % (n, mismatch(g, want, kw)))
    return canon(value), sorted(kw.items())


def check_history(case, ctx):
    steps, (kw, rkw), inside = case
    f = ctx.file()
    kw, rkw = dict(kw, delete_unused_variables=True), dict(rkw, delete_unused_variables=True)
    swap = dict(kw, dict_like_keys_name=kw["dict_like_values_name"], dict_like_values_name=kw["dict_like_keys_name"])
    path = "/g/" + model.escape(kw["dict_like_keys_name"]) if inside else "/d"
    done = []
    for value, how in steps:
        k = (kw, rkw, swap)[how]
        lib(hs.write, value, path=path, filename=f, options=hs.Options(**k))
        done.append(canon(value))
        judge(f, path, value, k, (swap, kw, rkw)[how], "after %d writes: " % len(done))
        if isinstance(value, dict):
            with h5py.File(f, "r") as h:
                check_raw(h, path, value, k)
    if len(set(done)) < 2:
        return None
    return done, sorted(kw.items()), inside


def related(n=4):
    """Dict-likes of which neighbours often share keys, names or both."""
    @st.composite
    def hist(draw):
        out = [draw(likes(0))]
        while len(out) < draw(st.integers(2, n)):
            k = draw(st.integers(0, 3))
            if k == 0:
                out.append(draw(likes(0)))
            else:
                c = [x for x in V.variants(out[-1]) if isinstance(x, (dict, collections.ChainMap)) and V.supported(x)]
                out.append(c[draw(st.integers(0, len(c) - 1))] if c else {1: 2})
        return [(v, draw(st.sampled_from([0, 0, 0, 1, 2]))) for v in out]
    return hist()


def check_wide(case, ctx):
    n, form, kw = case
    d = {(("k%d" % i) if form != "bytes" else b"k%d" % i): i for i in range(n)}
    if form == "mixed":
        d = {(k.encode() if i % 3 else k): v for i, (k, v) in enumerate(d.items())}
    if form == "int":
        d = {i: v for i, v in enumerate(d.values())}
    f = ctx.file()
    try:
        hs.write(d, path="/d", filename=f, options=hs.Options(**kw))
    except OSError as e:
        if n > 4000 and form != "int" and "too large" in str(e):
            raise Excluded() from None
        raise
    judge(f, "/d", d, kw, kw)
    return n, form, sorted(kw.items())


SUBS = [
    Sub("single", lambda: st.tuples(likes(0), options()), check, 4000),
    Sub("nested", lambda: st.tuples(likes(1), options()), check, 2500),
    Sub("history", lambda: st.tuples(related(), options(), st.booleans()), check_history, 2400),
    Sub("wide", lambda: st.tuples(st.sampled_from([300, 1000, 2000, 4000, 4500]),
                                  st.sampled_from(["str", "bytes", "mixed", "int"]), opts.python_any()),
        check_wide, 24, 300),
]
