"""C10: an open File behaves like a dictionary of the objects in its root group."""
import collections
import types

import h5py
import hdf5storage as hs
import numpy as np
from hypothesis import strategies as st

from hx import core, model, opts, raw, values as V
from hx.canon import canon, diff
from hx.core import Sub, Trivial, Violation, lib, raises

PROPERTY = "C10"
RULE = ("history: up to 30 operations of the mapping interface and bulk reads and writes on paths of "
        "one to three names that meet often, with reopenings, against a nested dict; everything in the "
        "file is compared at the end and after each reopening, also through h5py. mapping: update, "
        "items, values, keys, popitem and clear with any values under any names. bulk: writes and "
        "reads against single calls in order, unsupported values among them. Non-trivial: distinct "
        "histories with at least three operations that change or find something.")

NAMES = ["a", "b", "c", "a b", "\u03b1", ".d", "x/y", "#refs#2", "#refs", "refs2", "zzz", "aa"]
LEAF = [0, 1, -5, 2.5, "s", "", b"bb", None, True, [1, "z"], (2, [3]), [], np.arange(3),
        np.array([["u", "vw"]]), {"k", 4}, 1 + 2j, np.float32(1.5), [{1: 2}]]


def leaf():
    return st.sampled_from(range(len(LEAF))).map(lambda i: LEAF[i])


def value():
    d = st.dictionaries(st.sampled_from(["a", "b", "c", ".d", "x/y"]), leaf(), max_size=3)
    return V.pick(leaf(), leaf(), d, st.dictionaries(st.sampled_from(["a", "b"]), d, max_size=2))


def path():
    return st.lists(st.sampled_from(NAMES), min_size=1, max_size=3).map(tuple)


def paths():
    return V.pick(st.sampled_from([("a",), ("b",), ("a", "b"), ("a", "c"), ("b", "a", "c")]), path(),
                  st.sampled_from(NAMES).map(lambda x: (x,)))


def spell(p, how):
    """A path as the user might give it."""
    esc = [model.escape(x) for x in p]
    return {0: tuple(p), 1: "/" + "/".join(esc), 2: "/".join(esc), 3: ("/" + "/".join(esc)).encode(),
            4: tuple(p)}[how]


def op():
    p = st.tuples(paths(), st.integers(0, 4))
    items = st.lists(st.tuples(paths(), st.integers(0, 4), value()), max_size=3)
    return V.pick(
        st.tuples(st.just("set"), p, value()), st.tuples(st.just("set"), p, value()),
        st.tuples(st.just("write"), p, value()), st.tuples(st.just("set"), p, value()),
        st.tuples(st.just("del"), p), st.tuples(st.just("pop"), p, st.booleans()),
        st.tuples(st.just("get"), p), st.tuples(st.just("in"), p), st.tuples(st.just("look"), p),
        st.tuples(st.just("setdefault"), p, value()),
        st.tuples(st.just("reads"), st.lists(p, max_size=3)),
        st.tuples(st.just("writes"), items), st.tuples(st.just("update"), items),
        st.just(("list",)), st.just(("list",)), st.just(("popitem",)), st.just(("clear",)),
        st.just(("flush",)), st.just(("reopen",)), st.just(("readonly",)))


# The model: a dict of dicts.  A value that is a dict with such keys is a Python dict in the file;
# groups made on the way to an object are Plain.
class Plain(dict):
    pass


class Missing(Exception):
    pass


def grow(v):
    if type(v) is dict and all(type(k) is str for k in v):
        return {k: grow(x) for k, x in v.items()}
    return Leaf(v)


class Leaf:
    def __init__(self, v):
        self.v = v


def find(tree, p):
    for x in p:
        if isinstance(tree, Leaf) or x not in tree:
            raise Missing
        tree = tree[x]
    return tree


def put(tree, p, v):
    """False if an object that is no group is on the way (groups up to it are made all the same)."""
    for x in p[:-1]:
        if isinstance(tree, Leaf):
            return False
        tree = tree.setdefault(x, Plain())
    if isinstance(tree, Leaf):
        return False
    tree[p[-1]] = grow(v)
    return True


def equal(got, node, where):
    if isinstance(node, Leaf):
        d = diff(canon(got), canon(node.v))
        if d:
            raise Violation("%s: %s" % (where, d))
    elif isinstance(node, Plain):
        names = got.dtype.names if isinstance(got, np.ndarray) else got
        if sorted(names or ()) != sorted(node):
            raise Violation("%s: group with %r, expected %r" % (where, names, sorted(node)))
    else:
        if type(got) is not dict or set(got) != set(node):
            raise Violation("%s: %s, expected a dict with keys %r" % (where, core.short(got), sorted(node)))
        for k in node:
            equal(got[k], node[k], "%s[%r]" % (where, k))


def check_read(fn, tree, p):
    try:
        node = find(tree, p)
    except Missing:
        raises(KeyError, fn)
        return False
    equal(lib(fn), node, "/".join(p))
    return True


def check_root(f, tree):
    if lib(len, f) != len(tree):
        raise Violation("len is %d, expected %d" % (len(f), len(tree)))
    ks = lib(list, f)
    from hdf5storage.pathesc import unescape_path
    got = sorted(unescape_path(k) for k in ks)
    if got != sorted(tree) or any(type(k) is not str for k in ks):
        raise Violation("names %r, expected %r" % (ks, sorted(tree)))
    if list(f.keys()) != ks:
        raise Violation("keys() %r, iteration %r" % (list(f.keys()), ks))
    items = lib(lambda: list(f.items()))
    vals = lib(lambda: list(f.values()))
    if [k for k, _ in items] != ks or len(vals) != len(ks):
        raise Violation("items() lists %r, iteration %r" % ([k for k, _ in items], ks))
    for (k, v), w in zip(items, vals):
        equal(v, tree[unescape_path(k)], "items()[%r]" % k)
        equal(w, tree[unescape_path(k)], "values()[%r]" % k)
    for x in set(NAMES) | set(tree):
        if lib(f.__contains__, (x,)) is not (x in tree):
            raise Violation("%r in File is %r" % (x, x not in tree))


def check_members(f, tree):
    """Membership at every depth and below what has no members."""
    for p, node in list(every(tree))[:8]:
        if lib(f.__contains__, p) is not True:
            raise Violation("%r in File is not True" % (p,))
        below = [("a",), ("a", "b"), (".d",)] if isinstance(node, Leaf) else [
            (x,) for x in ("a", "b", "new") if x not in node] + [("new", "a")]
        for q in below:
            if lib(f.__contains__, p + q) is not False:
                raise Violation("%r in File is not False" % (p + q,))
        raises(KeyError, f.__getitem__, p + below[0])
        raises(KeyError, f.__delitem__, p + below[-1])


def every(tree, p=()):
    for k, v in tree.items():
        yield p + (k,), v
        if not isinstance(v, Leaf):
            yield from every(v, p + (k,))


def check_raw(filename, tree, refs):
    with h5py.File(filename, "r") as h:
        def walk(g, t, w):
            names = {k for k in g if g.name.rstrip("/") + "/" + k != refs}
            want = {model.escape(k): v for k, v in t.items()}
            if names != set(want):
                raise Violation("in the file %s holds %r, expected %r" % (w, sorted(names), sorted(want)))
            for k, v in want.items():
                if not isinstance(v, Leaf):
                    if not isinstance(g[k], h5py.Group):
                        raise Violation("%s/%s is not a group" % (w, k))
                    walk(g[k], v, w + "/" + k)
        walk(h, tree, "")


def check(case, ctx):
    kw, ops = case
    filename = ctx.file()
    refs = model.full(kw)["group_for_references"]
    o = hs.Options(**kw)
    tree, effect = {}, 0
    f = lib(hs.File, filename, writable=True, options=o)
    try:
        for step in ops:
            k = step[0]
            if k in ("set", "write", "setdefault"):
                (p, how), v = step[1:]
                s = spell(p, how)
                if k == "setdefault":
                    try:
                        node = find(tree, p)
                    except Missing:
                        pass
                    else:
                        equal(lib(f.setdefault, s, v), node, "setdefault")
                        continue
                if put(tree, p, v):
                    effect += 1
                    if k == "set":
                        f_ = f.__setitem__
                        lib(f_, s, v)
                    elif k == "write":
                        lib(f.write, v, s)
                    elif canon(lib(f.setdefault, s, v)) != canon(v):
                        raise Violation("setdefault gives another value")
                else:
                    fn = {"set": lambda: f.__setitem__(s, v), "write": lambda: f.write(v, s),
                          "setdefault": lambda: f.setdefault(s, v)}[k]
                    raises(Exception, fn)
            elif k in ("del", "pop"):
                p, how = step[1]
                s = spell(p, how)
                try:
                    node = find(tree, p)
                except Missing:
                    if k == "pop" and step[2]:
                        if lib(f.pop, s, "dflt") != "dflt":
                            raise Violation("pop of a missing path with a default")
                    else:
                        raises(KeyError, f.pop if k == "pop" else f.__delitem__, s)
                    continue
                effect += 1
                if k == "del":
                    lib(f.__delitem__, s)
                else:
                    equal(lib(f.pop, s, *(["dflt"] if step[2] else [])), node, "pop")
                del find(tree, p[:-1])[p[-1]]
            elif k in ("get", "look", "in"):
                p, how = step[1]
                s = spell(p, how)
                try:
                    node = find(tree, p)
                except Missing:
                    node = None
                if k == "in":
                    if lib(f.__contains__, s) is not (node is not None):
                        raise Violation("%r in File is %r" % (s, node is None))
                elif k == "get":
                    got = lib(f.get, s, core)
                    if node is None:
                        if got is not core:
                            raise Violation("get(%r) of a missing path gives %r" % (s, got))
                    else:
                        equal(got, node, "get")
                else:
                    effect += check_read(lambda: f[s], tree, p)
            elif k == "reads":
                ss = [spell(p, how) for p, how in step[1]]
                nodes = []
                try:
                    nodes = [find(tree, p) for p, _ in step[1]]
                except Missing:
                    raises(KeyError, f.reads, ss)
                    continue
                got = lib(f.reads, ss)
                if type(got) is not list or len(got) != len(nodes):
                    raise Violation("reads(%r) gives %r" % (ss, got))
                for g, n in zip(got, nodes):
                    equal(g, n, "reads")
            elif k in ("writes", "update"):
                d = collections.OrderedDict()
                for p, how, v in step[1]:
                    s = spell(p, how)
                    d[s] = (p, v)
                ok = True
                for p, v in d.values():
                    if not put(tree, p, v):
                        ok = False
                        break
                    effect += 1
                m = {s: v for s, (_, v) in d.items()}
                fn = f.writes if k == "writes" else f.update
                if ok:
                    lib(fn, m)
                else:
                    raises(Exception, fn, m)
            elif k == "list":
                check_root(f, tree)
                check_members(f, tree)
            elif k == "popitem":
                if not tree:
                    raises(KeyError, f.popitem)
                    continue
                name, v = lib(f.popitem)
                n = hs.pathesc.unescape_path(name)
                if n not in tree:
                    raise Violation("popitem gives %r" % name)
                equal(v, tree.pop(n), "popitem")
                effect += 1
            elif k == "clear":
                lib(f.clear)
                tree = {}
            elif k == "flush":
                lib(f.flush)
            else:
                lib(f.close)
                if k == "readonly":
                    with lib(hs.File, filename, options=o) as g:
                        check_root(g, tree)
                        for p, node in every(tree):
                            equal(lib(g.__getitem__, p), node, "read-only " + "/".join(p))
                check_raw(filename, tree, refs)
                f = lib(hs.File, filename, writable=True, options=o)
                check_root(f, tree)
        check_root(f, tree)
        for p, node in every(tree):
            equal(lib(f.__getitem__, p), node, "/".join(p))
    finally:
        f.close()
    check_raw(filename, tree, refs)
    with lib(hs.File, filename, options=o) as f:
        check_root(f, tree)
    return repr((sorted(kw.items()), ops)) if effect >= 3 else None


def options():
    return st.one_of(
        st.just({}), st.just({"oned_as": "column"}),
        st.fixed_dictionaries(dict(matlab_compatible=st.just(False), delete_unused_variables=st.just(True),
                                   group_for_references=st.sampled_from(["/#refs#", "/zz"]),
                                   reverse_dimension_order=st.booleans(),
                                   structured_numpy_ndarray_as_struct=st.booleans()))
    ).map(lambda d: dict(d, action_for_matlab_incompatible="ignore"))


# --- any values

def names():
    return st.one_of(st.sampled_from(NAMES), V.text(min_size=1)).filter(lambda s: s != "#refs#")


def check_mapping(case, ctx):
    kw, d, order, kind = case
    refs = model.full(kw)["group_for_references"]
    if refs.strip("/") in d:
        raise Trivial
    f = ctx.file()
    esc = {(k,): v for k, v in d.items()}
    given = {"dict": dict, "ordered": collections.OrderedDict, "chain": lambda m: collections.ChainMap({}, m),
             "proxy": types.MappingProxyType}[kind](esc)
    with lib(hs.File, f, writable=True, options=hs.Options(**kw)) as h:
        lib(h.update if order % 2 else h.writes, given)
        singles = {k: canon(lib(h.read, (k,))) for k in d}
    for w in (False, True):
        with lib(hs.File, f, writable=w, options=hs.Options(**kw)) as h:
            if lib(len, h) != len(d):
                raise Violation("len %d, written %d" % (len(h), len(d)))
            items = {hs.pathesc.unescape_path(k): canon(v) for k, v in lib(lambda: list(h.items()))}
            bulk = dict(zip(d, map(canon, lib(h.reads, list(esc)))))
            vals = [canon(v) for v in lib(lambda: list(h.values()))]
            for got, n in ((items, "items()"), (bulk, "reads()")):
                if set(got) != set(d):
                    raise Violation("%s has %r, expected %r" % (n, sorted(got), sorted(d)))
                for k in d:
                    if got[k] != singles[k]:
                        raise Violation("%s[%r]: %s" % (n, k, diff(got[k], singles[k])))
            if vals != list(items.values()):
                raise Violation("values() and items() differ")
            if w:
                n = len(d)
                left = dict(singles)
                while n and order > 1:
                    k, v = lib(h.popitem)
                    k = hs.pathesc.unescape_path(k)
                    if left.pop(k, None) != canon(v):
                        raise Violation("popitem %r" % k)
                    n -= 1
                    if lib(len, h) != n or (k,) in h:
                        raise Violation("len %d after popitem, expected %d" % (len(h), n))
                    order -= 2
                lib(h.clear)
                if lib(len, h) or lib(list, h):
                    raise Violation("not empty after clear()")
    with h5py.File(f, "r") as h:
        if [k for k in h if "/" + k != refs]:
            raise Violation("in the file after clear(): %r" % list(h))
    return repr(sorted(kw.items())), canon(d), kind


def check_nested(case, ctx):
    """The names in a File whose references group is further down."""
    refs, ops, kw = case
    top = refs.split("/")[1]
    f = ctx.file()
    kw = dict(kw, group_for_references=refs, matlab_compatible=False)
    user, n = set(), 0
    for sess in ops:
        with lib(hs.File, f, writable=True, options=hs.Options(**kw)) as h:
            for name, v in sess:
                if v is None:
                    if name in user:
                        lib(h.__delitem__, (name,))
                        user.discard(name)
                        n += 1
                else:
                    lib(h.write, v, (name,))
                    user.add(name)
                    n += 1
                names = lib(list, h)
                seen = {hs.pathesc.unescape_path(x) for x in names}
                if lib(len, h) != len(names) or len(seen) != len(names):
                    raise Violation("len %d of %r" % (len(h), names))
                if not user <= seen or not seen <= user | {top}:
                    raise Violation("names %r, expected %r and perhaps %r" % (names, sorted(user), top))
                if any(((x,) in h) is not (x in seen) for x in list(NESTED) + [top]):
                    raise Violation("a name is listed but not in the File, or the other way: %r" % names)
        with h5py.File(f, "r") as g:
            want = list(g)
        for w in (True, False):
            with lib(hs.File, f, writable=w, options=hs.Options(**kw)) as h:
                names = lib(list, h)
                if sorted(names) != sorted(want) or lib(len, h) != len(want):
                    raise Violation("len %d, names %r, in the file %r" % (len(h), names, want))
    return repr(case) if n > 1 else None


NESTED = ["a", "b", "c", "refs", "#refs#", "x/y"]


def nested():
    v = st.sampled_from([1, [1, 2], [[3]], {1: 2}, "s", None, None, {"k": [1]}, []])
    refs = st.sampled_from(["/r/refs", "/r/refs/refs", "/r s/#refs#", "/zz/a", "/α/b/c/d", "/r/#refs#"])
    return st.tuples(refs, st.lists(st.lists(st.tuples(st.sampled_from(NESTED), v), min_size=1, max_size=5),
                                    min_size=1, max_size=3),
                     st.fixed_dictionaries(dict(store_python_metadata=st.booleans(), delete_unused_variables=st.booleans())))


class Unsupported:
    pass


def check_bulk(case, ctx):
    kw, first, items, bad = case
    a, b = ctx.file("a.h5"), ctx.file("b.h5")
    m = collections.OrderedDict((tuple(p), v) for p, v in items)
    if bad is not None and m:
        keys = list(m)
        m[keys[bad % len(keys)]] = Unsupported()
    o = hs.Options(**kw)
    refs = model.full(kw)["group_for_references"]
    out = []
    for f, bulk in ((a, True), (b, False)):
        err = None
        with lib(hs.File, f, writable=True, options=o) as h:
            lib(h.writes, {("a", "b"): first})
            try:
                if bulk:
                    h.writes(m)
                else:
                    for p, v in m.items():
                        h.write(v, p)
            except Exception as e:
                err = type(e)
            reads = []
            for p in m:
                try:
                    reads.append((p, canon(h.reads([p, p])[1] if bulk else h.read(p))))
                except Exception as e:  # missing, or spoilt by what was written inside
                    reads.append((p, type(e).__name__))
        out.append((err, reads))
    if out[0][0] is not out[1][0]:
        raise Violation("bulk raises %r, single calls %r" % (out[0][0], out[1][0]))
    d = raw.diff(raw.read(a, "/", refs), raw.read(b, "/", refs))
    if d:
        raise Violation("bulk and single writes: %s" % d)
    if out[0][1] != out[1][1]:
        raise Violation("bulk and single reads: %s" % diff(out[0][1], out[1][1]))
    if len(m) < 2:
        return None
    return repr(sorted(kw.items())), [(p, repr(v) if isinstance(v, Unsupported) else canon(v))
                                      for p, v in m.items()], bad


def anything():
    return V.pick(V.leaves(), V.arrays(), V.nest(V.leaves(), 4), V.dicts(V.leaves(), 3))


def any_options():
    # A references group further down has a group of the user's above it.
    return opts.python_any().map(lambda k: dict(
        k, delete_unused_variables=True, **({"group_for_references": "/zz"} if k.get(
            "group_for_references", "/x").count("/") > 1 else {})))


SUBS = [
    Sub("history", lambda: st.tuples(options(), st.lists(op(), min_size=2, max_size=30)), check, 2400),
    Sub("mapping", lambda: st.tuples(any_options(), st.dictionaries(names(), anything(), max_size=4),
                                     st.integers(0, 5), st.sampled_from(["dict", "ordered", "chain",
                                                                         "proxy"])),
        check_mapping, 1600),
    Sub("nested", nested, check_nested, 500),
    Sub("bulk", lambda: st.tuples(any_options(), value(),
                                  st.lists(st.tuples(paths(), anything()), max_size=4),
                                  st.one_of(st.none(), st.integers(0, 3))), check_bulk, 1600),
]
