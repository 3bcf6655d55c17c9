"""C11: the reference group is protected and referenced objects stay intact."""
import h5py
import hdf5storage as hs
import numpy as np
from hypothesis import strategies as st

from hx import core, model, opts, raw, values as V
from hx.canon import canon, diff, mismatch
from hx.core import Sub, Trivial, Violation, lib, raises

PROPERTY = "C11"
RULE = ("history: sessions writing, overwriting and deleting containers next to the references group "
        "(paths that are siblings, prefixes and extensions of its name), for several locations of the "
        "group, with forbidden reads and writes in many spellings and functions in between; all stored "
        "containers are read again, every reference in the file must point into the group and no two "
        "to the same object. many: containers of hundreds of elements over several sessions. "
        "Non-trivial: distinct histories with at least two containers.")

REFS = ["/#refs#", "/zz", "/a/refs", "/a/b/c", "/#refs#x", "/r s/\u03b1", "/refs."]


def neighbours(refs):
    """Paths that are not in the group and do not contain it."""
    head, tail = refs.rsplit("/", 1)
    out = ["/x", "/x/y", head + "/" + tail + "x", head + "/x" + tail, head + "/" + tail[:-1] + "_",
           "/x" + refs, "/x" + refs + "/a", head + "/" + tail + " ", head + "/" + tail.upper() + "1",
           head + "/o", "/" + refs.replace("/", "|"), head + "/n/" + tail, "/." + tail]
    if len(tail) > 1:
        out.append(head + "/" + tail[:-1])
    return [p for p in out if p != refs and not p.startswith(refs + "/") and not refs.startswith(p + "/")]


@V.memo
def container():
    leaf = V.pick(st.integers(-3, 3), st.sampled_from(["", "a", b"", b"z", None, 1.5, "\u03b1"]),
                  V.py_scalars(), V.num_arrays())
    return st.recursive(st.lists(leaf, max_size=3), lambda x: st.one_of(
        st.lists(st.one_of(leaf, x), min_size=1, max_size=3),
        st.lists(st.one_of(leaf, x), min_size=1, max_size=3).map(tuple),
        st.dictionaries(st.sampled_from(["k", "l", "#refs#", "refs", "zz"]), st.one_of(leaf, x),
                        max_size=2),
        st.dictionaries(st.integers(0, 3), st.one_of(leaf, x), max_size=2)), max_leaves=5)


@V.memo
def values():
    return V.pick(container(), container(), V.nest(V.leaves(), 5), V.dicts(V.nest(V.leaves(), 3)),
                  V.obj_arrays(V.leaves()), V.leaves())


BAD_FN = ["write", "set", "writes", "read", "item", "reads", "get", "hs.write", "hs.writes", "hs.read",
          "hs.reads", "bulk"]
SPELL = ["str", "bytes", "tuple", "list", "double", "dots", "rel", "trail"]


def spelled(p, how):
    parts = [x for x in p.split("/") if x]
    if how in ("tuple", "list"):
        if any(model.escape(x) != x for x in parts):
            how = "str"
        else:
            return tuple(parts) if how == "tuple" else parts
    return {"str": p, "bytes": p.encode(), "double": "//" + "//".join(parts), "trail": p + "/",
            "dots": "/x/.." + p, "rel": "/".join(parts)}[how]


@st.composite
def sessions(draw):
    out = []
    n = draw(st.integers(1, 3))
    several = draw(st.integers(0, 3)) == 0
    locs = draw(st.lists(st.sampled_from(REFS), min_size=2, max_size=2)) if several else \
        [draw(st.sampled_from(REFS))]
    for _ in range(n):
        refs = draw(st.sampled_from(locs))
        if refs == "/#refs#" and draw(st.booleans()):
            kw = dict(draw(opts.matlab(True)))
        else:
            kw = dict(draw(opts.plain(True)), group_for_references=refs)
        paths = [p for p in neighbours(refs)]
        for r in locs:
            paths = [p for p in paths if p in neighbours(r) or not (p + "/").startswith(r + "/")
                     and not (r + "/").startswith(p + "/")]
        ops = []
        for _ in range(draw(st.integers(1, 5))):
            k = draw(st.sampled_from(["write", "write", "write", "write", "delete", "bad", "bad", "dels"]))
            if k == "write":
                ops.append((k, draw(st.sampled_from(paths)), draw(values())))
            elif k == "delete":
                ops.append((k, draw(st.integers(0, 9))))
            elif k == "dels":
                if draw(st.integers(0, 2)) == 0:
                    ops.append((k,))
            elif k == "bad":
                ops.append((k, draw(st.sampled_from(BAD_FN)), draw(st.integers(0, 5)),
                            draw(st.sampled_from(SPELL))))
        out.append((dict(kw, delete_unused_variables=True, action_for_matlab_incompatible="ignore"), ops))
    return locs, out


def canonical(t):
    """The canonical empty, as any software may have stored it."""
    return (isinstance(t, h5py.Dataset) and t.shape == (2,) and t.dtype.kind == "u" and not t[...].any()
            and t.attrs.get("MATLAB_class") == EMPTY and t.attrs.get("MATLAB_empty") == 1)


def under(p, q):
    return q == p or q.startswith(p + "/")


def audit(filename, locs):
    """Every reference must point to an object of its own directly inside a references group."""
    with h5py.File(filename, "r") as h:
        seen = {}

        def visit(name, obj):
            if not raw.is_ref(obj):
                return
            for i, r in enumerate(np.asarray(obj[...]).ravel()):
                if not r:
                    raise Violation("/%s[%d] is a null reference" % (name, i))
                try:
                    t = h[r]
                    tn = t.name
                except Exception as e:
                    raise Violation("/%s[%d] does not resolve: %r" % (name, i, e)) from None
                if tn is None or tn.rsplit("/", 1)[0] not in locs:
                    raise Violation("/%s[%d] refers to %r, outside the references group" % (name, i, tn))
                if canonical(t):
                    continue
                if tn in seen:
                    raise Violation("/%s[%d] and %s refer to the same object %s" % (name, i, seen[tn], tn))
                seen[tn] = "/%s[%d]" % (name, i)
        h.visititems(visit)
        return len(seen)


def dump(filename):
    """Everything in the file, the references groups included (object identity by address)."""
    out = {}
    with h5py.File(filename, "r") as h:
        def visit(name, obj):
            o = h5py.h5o.get_info(obj.id)
            a = raw.attrs(obj)
            if isinstance(obj, h5py.Dataset):
                out[name] = (o.addr, "D", raw.dt(obj.dtype) if obj.dtype.kind != "O" else str(obj.dtype),
                             obj.shape, obj.id.get_offset() if obj.chunks is None else obj.chunks,
                             obj[...].tobytes() if obj.shape is not None and obj.dtype.kind != "O" else None,
                             a)
            else:
                out[name] = (o.addr, "G", a)
        h.visititems(visit)
    return out


def forbidden(f, filename, kw, op):
    _, fn, where, how = op
    refs = model.full(kw)["group_for_references"]
    head = refs.rsplit("/", 1)[0]
    inside = [refs, refs + "/a", refs + "/new", refs + "/a/b"]
    if fn in ("read", "item", "reads", "get", "hs.read", "hs.reads"):
        p = inside[where % 4]
    else:
        above = []
        while head:
            above.append(head)
            head = head.rsplit("/", 1)[0]
        c = inside + above
        p = c[where % len(c)]
    s = spelled(p, how)
    t = tuple(s) if isinstance(s, list) else s
    o = dict(filename=filename, options=hs.Options(**kw))
    if fn.startswith("hs."):
        f.close()
    before = None
    if f.closed:
        before = dump(filename)
    call = {"write": lambda: f.write(1, s), "set": lambda: f.__setitem__(s, [1]),
            "writes": lambda: f.writes({"/new1": [1], t: 2, "/new2": 2}), "read": lambda: f.read(s),
            "item": lambda: f[s], "reads": lambda: f.reads([s, s]),
            "get": lambda: f.get(s), "hs.write": lambda: hs.write([1], s, **o),
            "hs.writes": lambda: hs.writes({t: 1}, **o), "hs.read": lambda: hs.read(s, **o),
            "hs.reads": lambda: hs.reads([s], **o), "bulk": lambda: f.update({t: [1]})}[fn]
    raises(ValueError, call)
    if before is not None and dump(filename) != before:
        raise Violation("the rejected %s of %r changed the file" % (fn, s))
    if not f.closed and ("/new1" in f or "/new2" in f):
        raise Violation("the rejected bulk write of %r wrote the others" % (s,))


def compare(f, live):
    for p, c in live.items():
        d = diff(canon(lib(f.read, p)), c)
        if d:
            raise Violation("%s: %s" % (p, d))


def check(case, ctx):
    locs, ss = case
    filename = ctx.file()
    live, n = {}, 0
    for kw, ops in ss:
        o = hs.Options(**kw)
        f = lib(hs.File, filename, writable=True, options=o)
        try:
            for op in ops:
                if f.closed:
                    f = lib(hs.File, filename, writable=True, options=o)
                if op[0] == "write":
                    p, v = op[1:]
                    if any(under(q, p) and q != p for q in live):
                        continue  # below another object
                    for q in [q for q in live if under(p, q)]:
                        del live[q]
                    lib(f.write, v, p)
                    got = lib(f.read, p)
                    d = mismatch(got, v, kw)
                    if d:
                        raise Violation("%s right after writing it: %s" % (p, d))
                    live[p] = canon(got)
                    n += 1
                elif op[0] == "delete" and live:
                    p = sorted(live)[op[1] % len(live)]
                    lib(f.__delitem__, p)
                    del live[p]
                elif op[0] == "dels":
                    # The user may get rid of everything, the references group included.
                    for q in sorted(live):
                        lib(f.__delitem__, q)
                    live = {}
                    refs = model.full(kw)["group_for_references"]
                    if lib(f.__contains__, refs):
                        lib(f.__delitem__, refs)
                    else:
                        raises(KeyError, f.__delitem__, refs)
                    if lib(f.__contains__, refs):
                        raise Violation("%s is there after deleting it" % refs)
                elif op[0] == "bad":
                    forbidden(f, filename, kw, op)
            if f.closed:
                f = lib(hs.File, filename, writable=True, options=o)
            compare(f, live)
            refs = model.full(kw)["group_for_references"]
            if refs.count("/") == 1:
                names = lib(list, f)
                if refs[1:] in names or lib(len, f) != len(names):
                    raise Violation("the File lists the references group: %r" % names)
        finally:
            f.close()
        audit(filename, locs)
    for p, c in live.items():
        kw = ss[-1][0]
        d = diff(canon(lib(hs.read, p, filename=filename, options=hs.Options(**kw))), c)
        if d:
            raise Violation("%s: %s" % (p, d))
    return repr((locs, [(sorted(k.items()), [(o[:2], canon(o[2])) if o[0] == "write" else o for o in ops])
                        for k, ops in ss])) if n >= 2 else None


@st.composite
def one_reading(draw):
    """Sessions that all store the same way (only compression, the location and names differ)."""
    locs, ss = draw(sessions())
    keep = {k: ss[0][0][k] for k in opts.TRANSFORMS + ["complex_names", "oned_as", "matlab_compatible",
                                                       "dict_like_keys_name", "dict_like_values_name"]
            if k in ss[0][0]}
    out = []
    for kw, ops in ss:
        kw = {k: v for k, v in kw.items() if k not in opts.TRANSFORMS + [
            "complex_names", "oned_as", "dict_like_keys_name", "dict_like_values_name"]}
        kw.update(keep)
        if kw.get("matlab_compatible", True) and "group_for_references" in kw:
            if kw["group_for_references"] != "/#refs#":
                kw = dict(ss[0][0])
            kw.pop("group_for_references", None)
        out.append((kw, ops))
    fixed = []
    for kw, ops in out:
        refs = model.full(kw)["group_for_references"]
        paths = [p for p in neighbours(refs)]
        fixed.append((kw, [o for o in ops if o[0] != "write" or (
            not under(refs, o[1]) and not under(o[1], refs))]))
        if refs not in locs:
            locs = locs + [refs]
    # No path may be inside any of the groups used, or above one.
    fixed = [(kw, [o for o in ops if o[0] != "write" or not any(
        under(r, o[1]) or under(o[1], r) for r in locs)]) for kw, ops in fixed]
    return locs, fixed


EMPTY = np.bytes_("canonical empty")
CANONICAL = [(np.zeros(2, np.uint64), EMPTY, np.uint8(1)), (np.zeros(2, np.uint64), EMPTY, np.uint8(1)),
             (np.zeros(2, np.uint8), EMPTY, np.int32(1)),
             (np.array([0, 3], np.uint64), EMPTY, np.uint8(1)), (np.array([5, 0], np.uint64), EMPTY, np.uint8(1)),
             (np.array([2, 3], np.uint64), EMPTY, np.uint8(1)), (np.zeros(2, np.uint64), EMPTY, np.uint8(0)),
             (np.zeros(2, np.uint64), EMPTY, None), (np.zeros(3, np.uint64), EMPTY, np.uint8(1)),
             (np.zeros((2, 1), np.uint64), EMPTY, np.uint8(1)), (np.zeros(2), EMPTY, np.uint8(1)),
             (np.zeros(2, np.int64), np.bytes_("double"), np.uint8(1)),
             (np.zeros(2, np.uint64), np.bytes_("double"), np.uint8(1))]
MEMBERS = ["a", "a", "a", "a", "b", "c", "d", "10", "aa", "f", "x", "0" * 15 + "b", "B"]


def check_taken(case, ctx):
    """A references group that other software made, and elements MATLAB can't have that are discarded."""
    members, refs, where, ops, kw = case
    f = ctx.file()
    matlab = refs == "/#refs#" and where % 2 == 0
    kw = dict(kw, matlab_compatible=matlab, **({} if matlab else {"group_for_references": refs}))
    with h5py.File(f, "w", userblock_size=512) as h:
        if members is not None:
            g = h.create_group(refs)
            for i, (m, kind) in enumerate(members):
                if kind == 0:
                    g[m] = np.full((2, 1), i * 10.0)
                elif kind == 1:
                    g[m] = np.zeros(2, np.uint64)
                    g[m].attrs["MATLAB_class"] = np.bytes_("uint64")
                elif kind == 2:
                    g.create_group(m)["x"] = i
                else:
                    # The canonical empty, in three styles, and things that are almost it.
                    data, cls, empty = CANONICAL[kind - 3]
                    g[m] = data
                    g[m].attrs["MATLAB_class"] = cls
                    if empty is not None:
                        g[m].attrs["MATLAB_empty"] = empty
            if members:
                d = h.create_dataset("pre", (len(members), 1), h5py.ref_dtype)
                for i, (m, _) in enumerate(members):
                    d[i, 0] = g[m].ref
                d.attrs["MATLAB_class"] = np.bytes_("cell")

    def pre():
        with h5py.File(f, "r") as h:
            out = []
            for i, (m, kind) in enumerate(members or ()):
                o = h[h["pre"][i, 0]]
                out.append((o.name, int(o["x"][()]) if kind == 2 else o[...].tolist(), dict(raw.attrs(o))))
            return repr(out)
    before = pre()
    live, n = {}, 0
    o = hs.Options(**dict(kw, action_for_matlab_incompatible="discard"))
    for sess in ops:
        with lib(hs.File, f, writable=True, options=o) as h:
            for i, v in sess:
                p = "/v%d" % i
                n += 1
                if v is None:
                    if p in live:
                        lib(h.__delitem__, p)
                        del live[p]
                    continue
                lib(h.write, v, p)
                live[p] = v
            for p, v in live.items():
                got = lib(h.read, p)
                want = expected(v, kw)
                if want is not None and canon(got) != canon(want):
                    raise Violation("%s: %s" % (p, diff(canon(got), canon(want))))
    for p, v in live.items():
        want = expected(v, kw)
        if want is not None:
            d = diff(canon(lib(hs.read, p, filename=f, options=o)), canon(want))
            if d:
                raise Violation("%s: %s" % (p, d))
    if pre() != before:
        raise Violation("objects in the references group changed: %s, before %s" % (pre(), before))
    audit(f, [refs])
    return repr(case) if n else None


def expected(v, kw):
    """What is read of lists and dicts of ints and np.float16 numbers of which MATLAB compatible files discard the latter."""
    if isinstance(v, list):
        out = [expected(x, kw) for x in v]
        if None in out:
            if not kw["store_python_metadata"]:
                return None
            return [np.zeros((0, 0)) if x is None else x for x in out]
        if not kw["store_python_metadata"]:
            return None
        return out
    if isinstance(v, np.float16):
        return None if kw["matlab_compatible"] else v
    return v if kw["store_python_metadata"] else None


def taken():
    leaf = st.one_of(st.integers(0, 9), st.integers(0, 9), st.just(np.float16(2)), st.just("s"))
    v = st.lists(st.one_of(leaf, leaf, st.lists(leaf, max_size=3)), max_size=5)
    members = st.lists(st.tuples(st.sampled_from(MEMBERS), st.one_of(
        st.integers(0, 3), st.integers(3, 2 + len(CANONICAL)))), max_size=4, unique_by=lambda t: t[0])
    return st.tuples(st.one_of(st.none(), members, members), st.sampled_from(["/#refs#", "/#refs#", "/zz", "/a/refs"]),
                     st.integers(0, 1), st.lists(st.lists(st.tuples(st.integers(0, 3), st.one_of(v, v, v, st.none())),
                                                          min_size=1, max_size=4),
                                                 min_size=1, max_size=3),
                     st.fixed_dictionaries(dict(store_python_metadata=st.booleans())))


def check_many(case, ctx):
    kw, sizes, seed, nested = case
    f = ctx.file()
    vals = []
    for i, n in enumerate(sizes):
        v = [(seed * 31 + i * 7 + j) if (j + seed) % 3 else [j, str(j), i] for j in range(n)]
        if nested:
            v = {"a": v[:n // 2], 7: tuple(v[n // 2:])}
        with lib(hs.File, f, writable=True, options=hs.Options(**kw)) as h:
            lib(h.write, v, "/v%d" % (i % 4))
        vals.append(v)
        if len(vals) > 4:
            vals[i % 4] = vals.pop()
    for i, v in enumerate(vals[:4]):
        if lib(hs.read, "/v%d" % i, filename=f, options=hs.Options(**kw)) != v:
            raise Violation("/v%d of %d elements" % (i, len(v)))
    n = audit(f, [model.full(kw)["group_for_references"]])
    if n < sum(len(v) for v in vals[:4] if isinstance(v, list)):
        raise Violation("only %d objects are referred to" % n)
    return repr((sorted(kw.items()), sizes, seed, nested))


def many():
    return st.tuples(st.one_of(st.just({}), st.just(dict(matlab_compatible=False,
                                                         group_for_references="/a/refs"))),
                     st.lists(st.one_of(st.integers(1, 12), st.integers(30, 150)), min_size=2, max_size=6),
                     st.integers(0, 50), st.booleans())


SUBS = [
    Sub("history", one_reading, check, 1900),
    Sub("taken", taken, check_taken, 1400),
    Sub("many", many, check_many, 120),
]
