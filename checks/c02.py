"""C02: the last write at a path wins."""
import contextlib

import h5py
import hdf5storage as hs
from hypothesis import strategies as st

from hx import core, foreign, model, opts, raw, values as V
from hx.canon import canon, diff
from hx.core import Sub, Trivial, Violation, lib

PROPERTY = "C02"
RULE = ("A case is a history of sessions on one path: writes (of values often near misses of the "
        "ones before), deletes, objects put there by plain h5py and attributes spoilt, under options "
        "varying by session, ending in a write; and of a value and the plain array stored the same way. The object in the file and what is read are compared "
        "with those of a fresh file holding only the last write. Non-trivial: distinct histories "
        "with at least one object at the path before the last write.")


@V.memo
def values():
    return V.pick(V.leaves(), V.arrays(), V.nest(V.leaves()), V.dicts(V.leaves()))


@st.composite
def history(draw, vals, most=4):
    path = draw(st.sampled_from(["/x", "/x", "/g/x", "/a b/\u03b1", "/g/.x"]))
    n = draw(st.integers(2, most))
    vs = draw(V.related(vals, n))
    sessions, cur = [], None
    kw = draw(options())
    for i, v in enumerate(vs):
        if cur is None or draw(st.integers(0, 2)) == 0:
            if sessions:
                k = draw(st.integers(0, 3))
                kw = draw(options()) if k == 0 else draw(opts.near(kw)) if k == 1 else kw
            cur = []
            sessions.append((kw, cur))
        how = draw(st.sampled_from(["write", "write", "write", "item", "delete", "foreign"]))
        if i == n - 1 or how in ("write", "item"):
            cur.append((how if how == "item" else "write", v))
        elif how == "delete":
            cur.append((how, None))
        else:
            sessions.append((None, [("foreign", draw(foreign.kinds))]))
            cur = None
    return path, sessions


@V.memo
def options():
    return st.one_of(opts.matlab(), opts.plain()).map(
        lambda k: dict(k, delete_unused_variables=True, action_for_matlab_incompatible="ignore"))


@st.composite
def filtered(draw):
    """Like arrays one after the other, under options that are almost alike and filters that matter."""
    vs = draw(V.related(V.pick(V.num_arrays(), V.num_arrays(), V.arrays()), draw(st.integers(1, 2))))
    kw = dict(draw(options()), compress_size_threshold=draw(st.sampled_from([0, 0, 8, 64])))
    sessions = []
    for i in range(draw(st.integers(2, 4))):
        sessions.append((kw, [("write", vs[draw(st.integers(0, len(vs) - 1))])]))
        kw = draw(opts.near(kw))
    return "/x", sessions


def session(filename, kw, ops, path, strict=False):
    with hs.File(filename, writable=True, options=hs.Options(**kw)) as f:
        for how, v in ops:
            if how == "delete":
                with contextlib.suppress(KeyError):
                    del f[path]
            elif how == "item":
                f[path] = v
            else:
                f.write(v, path=path)


def inspect(filename, kw, path):
    o = model.full(kw)
    return (raw.read(filename, path, model.refs(o)),
            lib(hs.read, path=path, filename=filename, options=hs.Options(**kw)))


def check(case, ctx):
    path, sessions = case
    f, g = ctx.file("h.h5"), ctx.file("fresh.h5")
    before = 0
    kw, ops = sessions[-1]
    try:
        session(g, kw, ops[-1:], path)
    except Exception as e:
        raise Violation("the last write alone fails: %r" % e) from e
    for kw2, ops2 in sessions:
        before += sum(h != "delete" for h, _ in ops2)
        if kw2 is None:
            with h5py.File(f, "a") as h:
                foreign.put(h, path, ops2[0][1])
        else:
            lib(session, f, kw2, ops2, path)
    want, rw = inspect(g, kw, path)
    got, rg = inspect(f, kw, path)
    d = raw.diff(got, want, path)
    if d:
        raise Violation("in the file: %s" % d)
    d = diff(canon(rg), canon(rw))
    if d:
        raise Violation("read: %s" % d)
    if before < 2:
        return None
    return path, [(sorted(k.items()) if k else None, [(h, canon(v) if h != "foreign" else repr(v))
                                                      for h, v in o]) for k, o in sessions]


def merge(old, new):
    """What delete_unused_variables = False leaves: members not written stay."""
    if old is None or old[0] != "G" or new[0] != "G":
        return new
    return ("G", dict({n: x for n, x in old[1].items() if n not in new[1]},
                      **{n: merge(old[1].get(n), x) for n, x in new[1].items()}), new[2])


def check_keep(case, ctx):
    path, sessions = case
    kw, ops = sessions[-1]
    sessions = sessions[:-1] + [(kw, ops[:-1]), (kw, ops[-1:])]
    f, g = ctx.file("h.h5"), ctx.file("fresh.h5")
    o = model.full(kw)
    if any(model.as_dict(x) is not None and model.dict_keys(model.as_dict(x), o) is None
           for x in V.subvalues(ops[-1][1])):
        raise Trivial  # keys and values are not variables to keep others next to
    try:
        session(g, kw, ops[-1:], path)
    except Exception as e:
        raise Violation("the last write alone fails: %r" % e) from e
    new = raw.read(g, path, o["group_for_references"])
    for i, (kw2, ops2) in enumerate(sessions):
        if i == len(sessions) - 1:
            old = None
            with contextlib.suppress(KeyError, OSError):
                old = raw.read(f, path, o["group_for_references"])
        if kw2 is None:
            with h5py.File(f, "a") as h:
                foreign.put(h, path, ops2[0][1])
        else:
            lib(session, f, kw2, ops2, path)
    want = merge(old, new)
    d = raw.diff(raw.read(f, path, o["group_for_references"]), want, path)
    if d:
        raise Violation("in the file: %s" % d)
    if want == new:
        return None
    return path, repr([(k, [(h, canon(v) if h != "foreign" else v) for h, v in o2])
                       for k, o2 in sessions])


def keep_history():
    """Histories ending in a write that keeps what it does not write."""
    vals = V.pick(V.dicts(V.py_scalars()), V.struct_arrays(), V.dicts(V.dicts(V.leaves())))
    return st.tuples(history(vals), opts.plain()).map(
        lambda t: (t[0][0], t[0][1][:-1]
                   + [(dict(t[1], delete_unused_variables=False), t[0][1][-1][1])]))


@st.composite
def twins(draw):
    v = draw(V.pick(V.leaves(), V.str_arrays(), V.num_arrays(shape=st.sampled_from([(0,), (0, 0), (0, 3), (2, 0, 3), (3, 0)])),
                    V.arrays()))
    kw = draw(opts.plain() if draw(st.integers(0, 3)) else opts.matlab())
    kw = dict(kw, delete_unused_variables=True, action_for_matlab_incompatible="ignore")
    if not kw["matlab_compatible"] and draw(st.integers(0, 3)):
        kw["make_atleast_2d"] = False
        kw.setdefault("store_shape_for_empty", draw(st.booleans()))
    return v, kw, draw(opts.near(kw)) if draw(st.integers(0, 3)) == 0 else kw, draw(st.booleans())


def check_twins(case, ctx):
    """A value and the plain array that has the same stored form, one after the other."""
    v, kw, kw2, swap = case
    f = ctx.file("probe.h5")
    lib(hs.write, v, path="/x", filename=f, options=hs.Options(**kw))
    with h5py.File(f, "r") as h:
        d = h["x"]
        if not isinstance(d, h5py.Dataset) or d.dtype.hasobject or d.shape is None:
            raise Trivial
        a = d[()]
    if model.full(kw)["reverse_dimension_order"]:
        a = a.T if a.ndim else a
    if not V.supported(a):
        raise Trivial
    first, last = (a, v) if swap else (v, a)
    return check(("/x", [(kw, [("write", first)]), (kw2, [("write", last)])]), ctx)


SUBS = [
    Sub("arrays", lambda: history(V.arrays()), check, 3000),
    Sub("any", lambda: history(values()), check, 4000),
    Sub("long", lambda: history(values(), 8), check, 800),
    Sub("filters", filtered, check, 1500),
    Sub("twins", twins, check_twins, 1500),
    Sub("keep", keep_history, check_keep, 2000),
]
