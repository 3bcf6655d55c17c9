"""C03: operations at one path leave the rest of the file untouched."""
import contextlib

import h5py
import hdf5storage as hs
import numpy as np
from hypothesis import strategies as st

from checks import c12
from hx import canon as cn, core, foreign, model, opts, raw, values as V
from hx.core import Sub, Trivial, Violation, lib

PROPERTY = "C03"
RULE = ("A file is filled with objects of all kinds (values written by the library under several options, "
        "objects made with plain h5py, links, group attributes, objects in the references group); sessions of "
        "writes, deletes, reads, listings and failing calls at random paths follow. After each session every "
        "object that is not under a path written or deleted must be the same object (address, type, shape, "
        "storage, attributes, data, what its references point at), and nothing new may have appeared besides "
        "what was written and plain parent groups. Non-trivial: distinct cases in which a modification took "
        "place next to at least one other object.")

PATHS = ["/x", "/xx", "/y", "/g/x", "/g/xx", "/g/y", "/g/h/x", "/g/h/y", "/k/l/m", "/\u03b1", "/.x", "/g/.x",
         "/#refs#x", "/a b", "/G/x", "/zz2", "/x/deep", "/g"]
LOCS = ["/#refs#", "/refs", "/zz"]


def members(v, path, depth=3):
    """Paths of things inside a value and next to them."""
    if depth and isinstance(v, dict):
        for k, x in list(v.items())[:4]:
            if type(k) is str and k and "\0" not in k:
                p = path + "/" + hs.pathesc.escape_path(k)
                yield from [p, p, p + "/new"] if isinstance(x, dict) else [p]
                yield from members(x, p, depth - 1)


@st.composite
def cases(draw):
    start = []
    for p in draw(st.lists(st.sampled_from(PATHS), min_size=1, max_size=5, unique=True)):
        if draw(st.integers(0, 2)):
            start.append(("lib", p, draw(options()), draw(values())))
        else:
            start.append(("foreign", p, draw(foreign.kinds)))
    below = [q for s in start if s[0] == "lib" for q in members(s[3], s[1])]
    extras = draw(st.lists(st.sampled_from(EXTRAS), max_size=3, unique=True))
    sessions = []
    for _ in range(draw(st.integers(1, 3))):
        ops = [(draw(st.sampled_from(OPS)), draw(st.sampled_from(PATHS[:12] + [s[1] for s in start] * 2 if not below or draw(st.integers(0, 2))
                                     else below)),
                draw(V.pick(deep(), values())), draw(st.sampled_from(sorted(c12.ALIENS))), draw(c12.WHERE))
               for _ in range(draw(st.integers(1, 4)))]
        sessions.append((draw(options()), ops))
    return start, extras, sessions


OPS = ["write", "write", "write", "write", "item", "writes2", "delete", "pop", "alien", "alien", "odd", "read",
       "readall", "list", "missing", "update", "setdefault", "popitem", "hs.write", "hs.read", "savemat", "flush"]
EXTRAS = ["refs-a", "refs-own", "refs-group", "root-attrs", "group-attrs", "soft", "dangling", "hard", "refdata",
          "external", "vlen", "enum", "regionref"]


@V.memo
def deep():
    """Dicts in dicts in dicts."""
    leaf = st.sampled_from([1, "s", b"bb", None, [1, "z"], {}, True]) | V.leaves()
    keys = st.sampled_from(["a", "b", "c", "x"])
    d = st.dictionaries(keys, leaf, min_size=1, max_size=2)
    for _ in range(2):
        d = st.dictionaries(keys, V.pick(d, d, leaf), min_size=1, max_size=2)
    return d


@V.memo
def values():
    return V.pick(deep(), V.leaves(), V.arrays(), V.nest(V.leaves()), V.dicts(V.leaves()), V.nest(V.py_scalars(), 3))


@V.memo
def options():
    return st.one_of(opts.matlab(), opts.plain(refs=LOCS)).map(
        lambda k: dict(k, action_for_matlab_incompatible="ignore"))


def add_extra(h, what):
    """Objects only other software makes."""
    r = h.require_group("/#refs#")
    if what == "refs-a" and "a" not in r:
        d = r.create_dataset("a", data=np.arange(3.0))
        d.attrs["MATLAB_class"] = np.bytes_("double")
        h.create_dataset("/ra", data=np.array([[d.ref]], object), dtype=h5py.ref_dtype)
        h["/ra"].attrs["MATLAB_class"] = np.bytes_("cell")
    elif what == "refs-own":
        for n in ("b", "c", "10", "zzz"):
            if n not in r:
                r[n] = np.arange(4)
                r[n].attrs["who"] = "other"
    elif what == "refs-group" and "d" not in r:
        g = r.create_group("d")
        g["in"] = 5
        g.attrs["who"] = "other"
    elif what == "root-attrs":
        h.attrs["title"] = "data"
        h.attrs["Python.Type"] = np.bytes_("dict")
    elif what == "group-attrs":
        for p in ("/g", "/g/h"):
            if isinstance(h.get(p), h5py.Group) or h.get(p) is None and isinstance(
                    h.get(p.rsplit("/", 1)[0] or "/"), h5py.Group):
                g = h.require_group(p)
                g.attrs["units"] = "m"
                g.attrs["MATLAB_class"] = np.bytes_("struct")
                g.attrs["MATLAB_fields"] = np.array([b"x"], "S1")
    elif what == "soft":
        h["/soft"] = h5py.SoftLink("/g/x")
    elif what == "dangling":
        h["/dangling"] = h5py.SoftLink("/nowhere/at/all")
    elif what == "external":
        h["/external"] = h5py.ExternalLink("none.h5", "/x")
    elif what == "hard":
        h["/one"] = np.arange(5)
        h.require_group("/two")["other"] = h["/one"]
    elif what == "refdata":
        h["/t1"] = np.arange(3)
        h.create_dataset("/rd", data=np.array([h["/t1"].ref, h["/t1"].ref], object), dtype=h5py.ref_dtype)
    elif what == "vlen":
        h.create_dataset("/vl", data=np.array(["a", "bcd"], object), dtype=h5py.string_dtype())
        d = h.create_dataset("/vi", (2,), dtype=h5py.vlen_dtype("i4"))
        d[0], d[1] = [1, 2], [3]
    elif what == "enum":
        h.create_dataset("/en", data=[0, 1], dtype=h5py.enum_dtype({"A": 0, "B": 1}, "i1"))
        h["/op"] = np.void(b"opaque")
    elif what == "regionref":
        d = h.create_dataset("/rr1", data=np.arange(4))
        h.create_dataset("/rr2", data=np.array([d.regionref[1:3]], object), dtype=h5py.regionref_dtype)


def text(x):
    return repr(x)


def record(o):
    """One object without its members."""
    info = h5py.h5o.get_info(o.id)
    at = raw.attrs(o)
    if isinstance(o, h5py.Group):
        return (info.addr, "G", at)
    if isinstance(o, h5py.Datatype):
        return (info.addr, "T", text(o.dtype), at)
    tid = o.id.get_type()
    p = o.id.get_create_plist()
    if raw.is_ref(o) and o.shape is not None and h5py.check_dtype(ref=o.dtype) is h5py.Reference:
        data = []
        for x in np.asarray(o[...]).ravel():
            if not x:
                data.append(None)
                continue
            t = o.file[x]
            data.append((h5py.h5o.get_info(t.id).addr,
                         None if t.name == "/" else raw.node(t, skip=())))
    elif o.shape is None:
        data = None
    elif o.dtype.kind == "O":
        data = text([np.asarray(x).tolist() if isinstance(x, np.ndarray) else str(x)
                     if "eference" in type(x).__name__ else x for x in np.asarray(o[...]).ravel()])
    else:
        a = o[...]
        data = (cn.dt(a.dtype), cn.arrdata(a))
    return (info.addr, "D", tid.encode() if not tid.committed() else None, o.shape, raw.filters(o), o.chunks,
            o.maxshape, p.get_alloc_time(), data, at)


def dump(f, own=None):
    """path -> record of every object reached by hard links, links as such; of the members of the
    references groups only those in ``own`` (None: all)."""
    out = {}
    with h5py.File(f, "r") as h:
        out["/"] = record(h["/"])

        def walk(g, path):
            for n in g:
                p = path + "/" + n
                link = g.get(n, getlink=True)
                if not isinstance(link, h5py.HardLink):
                    out[p] = ("L", type(link).__name__, link.path)
                    continue
                o = g[n]
                if own is not None and path in LOCS and p not in own:
                    continue
                out[p] = record(o)
                if isinstance(o, h5py.Group):
                    walk(o, p)
        walk(h["/"], "")
    return out


def under(p, q):
    return p == q or p.startswith(q + "/")


def compare(before, after, touched, own):
    for p, r in before.items():
        if any(under(p, t) for t in touched):
            continue
        if any(under(p, l) for l in LOCS) and p not in own:
            continue
        if p not in after:
            raise Violation("%s is gone (touched: %r)" % (p, touched))
        if after[p] != r:
            for x, y in zip(after[p], r):
                if x != y:
                    raise Violation("%s changed (touched: %r): %.500r, was %.500r" % (p, touched, x, y))
            raise Violation("%s changed (touched: %r)" % (p, touched))
    for p, r in after.items():
        if p in before or any(under(p, t) for t in touched) or any(under(p, l) for l in LOCS):
            continue
        if not any(under(t, p) for t in touched):
            raise Violation("%s appeared (touched: %r)" % (p, touched))
        if r[1:] != ("G", {}):
            raise Violation("parent group %s is not plain: %r" % (p, r))


def check(case, ctx):
    start, extras, sessions = case
    f = ctx.file()
    for s in start:
        if s[0] == "lib":
            # A path through something that is not a Group cannot be written.
            with contextlib.suppress(Exception):
                hs.write(s[3], path=s[1], filename=f, options=hs.Options(**s[2]))
        else:
            with h5py.File(f, "a") as h, contextlib.suppress(Exception):
                foreign.put(h, s[1], s[2])
    with h5py.File(f, "a") as h:
        for e in extras:
            with contextlib.suppress(ValueError):
                add_extra(h, e)
    own = {p for p in dump(f) if any(p.startswith("/#refs#" + x) for x in (
        "/a", "/b", "/c", "/10", "/zzz", "/d"))} if extras else set()
    with h5py.File(f, "r") as h:
        own = {p for p in own if h[p].attrs.get("who") == "other" or p.endswith("/d/in")
               or p.endswith("/a") and "refs-a" in extras}
        groups = {}
        h.visititems(lambda n, o: groups.__setitem__("/" + n, isinstance(o, h5py.Group)))
    changed = 0
    for kw, ops in sessions:
        before = dump(f, own)
        touched = set()
        o = hs.Options(**kw)
        h = lib(hs.File, f, writable=True, options=o)
        try:
            for op, p, v, alien, where in ops:
                ctx.label(op)
                parent, nongroup = p.rsplit("/", 1)[0], False
                while parent:
                    with contextlib.suppress(KeyError):
                        nongroup |= not isinstance(h5py_get(f, h, parent), h5py.Group)
                    parent = parent.rsplit("/", 1)[0]
                ref = model.full(kw)["group_for_references"]
                if op in ("write", "item", "hs.write", "update", "setdefault", "savemat", "writes2"):
                    touched.add(p)
                    if op == "writes2":
                        touched.add("/new/second")
                    if op in ("hs.write", "savemat"):
                        h.close()
                    call = {"write": lambda: h.write(v, p), "item": lambda: h.__setitem__(p, v),
                            "update": lambda: h.update({p: v}), "setdefault": lambda: h.setdefault(p, v),
                            "writes2": lambda: h.writes({p: v, "/new/second": v}),
                            "hs.write": lambda: hs.write(v, p, filename=f, options=o),
                            "savemat": lambda: hs.savemat(f, {p: v}, appendmat=False,
                                                          action_for_matlab_incompatible="ignore")}[op]
                    if nongroup or op == "setdefault":
                        with contextlib.suppress(Exception):
                            call()
                    else:
                        lib(call)
                        changed += 1
                elif op == "alien":
                    touched.add(p)
                    with contextlib.suppress(Exception):
                        h.write(c12.bury(v, where, c12.ALIENS[alien]()), p)
                elif op == "odd":
                    touched.add(p)
                    with hs_closed(h):
                        with contextlib.suppress(hs.exceptions.TypeNotMatlabCompatibleError, TypeError,
                                                 AttributeError, ValueError):
                            hs.write({"a": v, "b": np.float16(3)}, p, filename=f,
                                     action_for_matlab_incompatible="error")
                elif op in ("delete", "pop"):
                    # A missing path is refused and nothing happens.
                    there = lib(h.__contains__, p) if not nongroup else False
                    if there:
                        touched.add(p)
                        changed += 1
                    with contextlib.suppress(Exception):
                        h.pop(p) if op == "pop" else h.__delitem__(p)
                elif op == "popitem":
                    names = list(h)
                    if extras or any("/" + n in LOCS or "~" in n for n in names):
                        continue  # what others refer to may go
                    with contextlib.suppress(Exception):
                        h.popitem()
                        changed += 1
                    gone = set(names) - set(h)
                    if len(gone) > 1:
                        raise Violation("popitem removed %r" % gone)
                    touched |= {"/" + x for x in gone}
                elif op == "missing":
                    for call in (lambda: h["/no/such"], lambda: h.__delitem__("/no/such"),
                                 lambda: h.get("/no"), lambda: h.read("/no/such"), lambda: h.pop("/q", None),
                                 lambda: h.write(1, ref), lambda: h.writes({"/new": 1, ref + "/b": 2})):
                        with contextlib.suppress(Exception):
                            call()
                else:
                    with contextlib.suppress(Exception):
                        {"read": lambda: h.read(p), "readall": lambda: list(h.values()),
                         "list": lambda: (list(h), len(h), p in h, list(h.keys())), "flush": h.flush,
                         "hs.read": lambda: h.read(p)}[op]()
                if h.closed:
                    h = lib(hs.File, f, writable=True, options=o)
        finally:
            h.close()
        after = dump(f, own)
        compare(before, after, touched, own)
    if not changed:
        return None
    return repr([(s[:3], cn.canon(s[3]) if s[0] == "lib" else None) for s in start]), extras, \
        repr([(sorted(k.items()), [(q[0], q[1], cn.canon(q[2]), q[3:]) for q in x]) for k, x in sessions])


def h5py_get(f, h, path):
    """The object at a path as another opener in this process sees it."""
    h.flush()
    with h5py.File(f, "r+") as g:
        return g[path] if not isinstance(g.get(path), h5py.Group) else g


@contextlib.contextmanager
def hs_closed(h):
    h.close()
    yield


SUBS = [
    Sub("sessions", cases, check, 2400),
]
