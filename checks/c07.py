"""C07: Options objects stay consistent under any sequence of settings."""
import copy
import posixpath

import hdf5storage as hs
from hypothesis import strategies as st

from hx import core, opts, raw, values as V
from hx.canon import canon, diff
from hx.core import Sub, Violation, lib

PROPERTY = "C07"
RULE = ("settings: a constructor call with any keywords followed by up to 14 settings of options to "
        "valid and invalid values, and copies; all 24 options are compared with a model after each "
        "step. calls: the same keywords given to a function or a File directly, as an Options and by "
        "setting attributes must give the same file and the same values. isolated: an Options changed "
        "while a File opened with it is in use. Non-trivial: distinct cases with at least one "
        "setting that changes an option.")

BOOLS = ["store_python_metadata", "structs_as_dicts", "compress", "shuffle_filter",
         "compressed_fletcher32_filter", "uncompressed_fletcher32_filter"]
DEP = ["delete_unused_variables", "structured_numpy_ndarray_as_struct", "make_atleast_2d",
       "convert_numpy_bytes_to_utf16", "convert_numpy_str_to_utf16", "convert_bools_to_uint8",
       "reverse_dimension_order", "store_shape_for_empty"]
FORCED = dict({d: True for d in DEP}, complex_names=("real", "imag"),
              group_for_references="/#refs#", compression_algorithm="gzip")
DEFAULTS = dict({d: False for d in DEP}, store_python_metadata=True, structs_as_dicts=False,
                action_for_matlab_incompatible="error", complex_names=("r", "i"),
                group_for_references="/#refs#", oned_as="row", dict_like_keys_name="keys",
                dict_like_values_name="values", compress=True, compress_size_threshold=16384,
                compression_algorithm="gzip", gzip_compression_level=7, shuffle_filter=True,
                compressed_fletcher32_filter=True, uncompressed_fletcher32_filter=False,
                matlab_compatible=False)
NAMES = sorted(DEFAULTS)
CHOICES = dict(action_for_matlab_incompatible=["ignore", "discard", "error"],
               oned_as=["row", "column"], compression_algorithm=["gzip", "lzf", "szip"])


def norm(path):
    parts = []
    for p in path.split("/"):
        if p == "..":
            parts = parts[:-1]
        elif p not in ("", "."):
            parts.append(p)
    return "/" + "/".join(parts)


def accept(name, v):
    """(accepted, normalised value) by the documentation."""
    if name in BOOLS or name in DEP or name == "matlab_compatible":
        return type(v) is bool, v
    if name in CHOICES:
        return type(v) is str and v in CHOICES[name], v
    if name == "complex_names":
        return type(v) is tuple and len(v) == 2 and all(type(x) is str for x in v), v
    if name == "group_for_references":
        if type(v) is not str or not v.startswith("/"):
            return False, v
        return norm(v) != "/", norm(v)
    if name in ("dict_like_keys_name", "dict_like_values_name"):
        return type(v) is str, v
    if name == "compress_size_threshold":
        return type(v) is int and v >= 0, v
    return type(v) is int and 0 <= v <= 9, v


def setting(state, name, v):
    ok, v = accept(name, v)
    if not ok:
        return state
    state = dict(state, **{name: v})
    if name == "matlab_compatible":
        if v:
            state.update(FORCED)
    elif name in FORCED and v != FORCED[name]:
        state["matlab_compatible"] = False
    return state


def construct(kw):
    s = dict(DEFAULTS)
    for k, v in kw.items():
        if k in DEFAULTS and k != "matlab_compatible":
            s = setting(s, k, v)
    return setting(s, "matlab_compatible", kw.get("matlab_compatible", True))


def state(o):
    return {k: getattr(o, k) for k in NAMES}


def same(o, want, when):
    got = state(o)
    for k in NAMES:
        if type(got[k]) is not type(want[k]) or got[k] != want[k]:
            raise Violation("%s: %s is %r, expected %r" % (when, k, got[k], want[k]))
    if o.marshaller_collection is not hs.get_default_marshaller_collection():
        raise Violation("%s: marshaller_collection" % when)


JUNK = st.one_of(
    st.none(), st.sampled_from([1.5, b"gzip", "", "maybe", "Row", "GZIP", "/", "relative/path", "//",
                                "/..", "/a/../..", (), ("r",), ("a", "b", "c"), ("r", 1), ["r", "i"],
                                -1, 10, 1 << 70, -5, {}, {1}, object, 0.0, "True", b"/refs", "gzip ",
                                ("real", b"imag"), "./x", "#refs#", 5.0]),
    st.integers(-20, 20), st.text(max_size=4))
CNAME = st.one_of(
    st.sampled_from([("Real", "Imag"), ("REAL", "IMAG"), ("real", "Imag"), ("re", "im"), ("Re", "Im"), ("R", "I"),
                     ("real", "imaginary"), ("imag", "real"), ("i", "r"), ("real", "i"), ("real", "real"), ("", ""),
                     ("real ", "imag "), ("r", "j")]),
    st.tuples(*[st.sampled_from(["r", "i", "re", "im", "real", "imag", "Real", "Imag"])] * 2))
GOOD = {k: st.booleans() for k in BOOLS + DEP + ["matlab_compatible"]}
GOOD.update({k: st.sampled_from(v) for k, v in CHOICES.items()})
GOOD.update(
    complex_names=st.one_of(st.sampled_from([("r", "i"), ("real", "imag"), ("Real", "imag")]),
                            CNAME, st.tuples(st.text(max_size=3), st.text(max_size=3))),
    group_for_references=st.one_of(
        st.sampled_from(["/#refs#", "/#refs#/", "/a/../#refs#", "//#refs#", "/refs", "/a//b", "/a/./b/",
                         "///x", "/..x", "/a/b/../c", "/#refs#/.", "/ ", "/.../..."]),
        st.lists(st.sampled_from(["a", "..", ".", "", "#refs#", "b c"]), min_size=1, max_size=5)
        .map(lambda x: "/" + "/".join(x))),
    dict_like_keys_name=st.text(max_size=4), dict_like_values_name=st.text(max_size=4),
    compress_size_threshold=st.one_of(st.integers(0, 10), st.integers(0, 1 << 40)),
    gzip_compression_level=st.integers(0, 9))


@st.composite
def one(draw):
    name = draw(st.sampled_from(NAMES + ["matlab_compatible"] * 3))
    v = draw(GOOD[name] if draw(st.integers(0, 3)) else JUNK)
    if isinstance(v, bool) and name in ("compress_size_threshold", "gzip_compression_level"):
        v = 3  # whether bools are ints here is not specified
    return name, v


@st.composite
def history(draw):
    kw = {}
    for name, v in draw(st.lists(one(), max_size=5)):
        if name == "matlab_compatible" and type(v) is not bool:
            continue  # what an invalid value leaves in a new Options is not specified
        kw[name] = v
    if draw(st.integers(0, 4)) == 0:
        kw["no_such_option"] = draw(JUNK)
    return kw, draw(st.lists(V.pick(one(), one(), one(), one(), st.just(("copy", None))), max_size=14))


def check(case, ctx):
    kw, steps = case
    want = construct(kw)
    try:
        o = hs.Options(**kw)
    except (TypeError, ValueError):
        if all(accept(k, v)[0] for k, v in kw.items() if k in DEFAULTS):
            raise Violation("Options(**%r) raised" % kw) from None
        o, want = lib(hs.Options), construct({})
    same(o, want, "Options(**%r)" % kw)
    aside, n = [], 0
    for name, v in steps:
        if name == "copy":
            aside.append((o, want))
            o = copy.copy(o)
            continue
        try:
            setattr(o, name, v)
        except (TypeError, ValueError):
            if accept(name, v)[0]:
                raise Violation("%s = %r raised" % (name, v)) from None
        new = setting(want, name, v)
        n += new != want
        want = new
        same(o, want, "after %s = %r" % (name, v))
        if want["matlab_compatible"] and any(want[k] != x for k, x in FORCED.items()):
            raise Violation("matlab_compatible with another value of a forced option")
    for p, w in aside:
        same(p, w, "the original after changing its copy")
    return (repr(sorted(kw.items())), repr(steps)) if n or kw else None


# --- functions

def kws():
    one_kw = st.sampled_from(NAMES).flatmap(lambda n: st.tuples(st.just(n), GOOD[n]))
    few = st.lists(one_kw, max_size=4).map(dict)

    def fix(kw):
        kw = {k: v for k, v in kw.items() if not (k == "compression_algorithm" and v == "szip")}
        if kw.get("complex_names", ("r", "i"))[0] == kw.get("complex_names", ("r", "i"))[1] \
                or "" in kw.get("complex_names", ()):
            kw.pop("complex_names")
        for k in ("dict_like_keys_name", "dict_like_values_name"):
            if not kw.get(k, "x") or "\0" in kw.get(k, "x") or any(
                    0xD800 <= ord(c) < 0xE000 for c in kw.get(k, "x")):
                kw.pop(k)
        if kw.get("dict_like_keys_name", "keys") == kw.get("dict_like_values_name", "values"):
            kw.pop("dict_like_keys_name", None)
            kw.pop("dict_like_values_name", None)
        if not all(c.isalnum() and c.isascii() for n in kw.get("complex_names", ()) for c in n):
            kw.pop("complex_names")
        kw["action_for_matlab_incompatible"] = "ignore"
        return kw
    return few.map(fix)


SENSITIVE = st.sampled_from([
    1 + 2j, True, "ab", b"ab", {1: 2}, {"a": 1}, [1, 2], []])


def vals():
    return V.pick(SENSITIVE, V.arrays(), V.struct_arrays(), V.nest(V.leaves(), 3))


def by_attributes(kw):
    o = hs.Options(matlab_compatible=False)
    for k, v in kw.items():
        if k != "matlab_compatible":
            setattr(o, k, v)
    o.matlab_compatible = kw.get("matlab_compatible", True)
    return o


def dump(f, kw):
    # Where the references are kept is part of the comparison.
    refs = construct(kw)["group_for_references"]
    import h5py
    with h5py.File(f, "r") as h:
        n = raw.node(h, refs)
        return n, refs in h


def check_calls(case, ctx):
    kw, v, how = case
    files = [ctx.file("%d.h5" % i) for i in range(3)]
    given = [dict(kw), dict(options=hs.Options(**kw)), dict(options=by_attributes(kw))]
    want = construct(kw)
    same(given[1]["options"], want, "Options(**%r)" % kw)
    same(given[2]["options"], want, "by attributes %r" % kw)
    dumps, reads = [], []
    for f, g in zip(files, given):
        if how == "File":
            with lib(hs.File, f, writable=True, **g) as h:
                lib(h.write, v, "/data")
        elif how == "writes":
            lib(hs.writes, {"/data": v}, filename=f, **g)
        else:
            lib(hs.write, v, "/data", filename=f, **g)
        dumps.append(dump(f, kw))
    # Reading functions leave MATLAB compatibility off unless it is asked for.
    rkw = dict(kw)
    rkw.setdefault("matlab_compatible", False)
    rgiven = [dict(kw), dict(options=hs.Options(**rkw)), dict(options=by_attributes(rkw))]
    if how == "File":
        rgiven[0] = dict(rkw)
    for g in rgiven:
        if how == "File":
            with lib(hs.File, files[0], **g) as h:
                reads.append(lib(h.read, "/data"))
        elif how == "writes":
            reads.append(lib(hs.reads, ["/data"], filename=files[0], **g)[0])
        else:
            reads.append(lib(hs.read, "/data", filename=files[0], **g))
    for i, g in enumerate(given[1:]):
        same(g["options"], want, "after writing with it")
        same(rgiven[i + 1]["options"], construct(rkw), "after reading with it")
    for i in (1, 2):
        if dumps[i] != dumps[0]:
            raise Violation("%s with %s differs from keywords: %s" % (
                how, ("Options", "attributes")[i - 1], raw.diff(dumps[i][0], dumps[0][0])))
        if canon(reads[i]) != canon(reads[0]):
            raise Violation("read with %s: %s" % (("Options", "attributes")[i - 1],
                                                  diff(canon(reads[i]), canon(reads[0]))))
    if kw and how != "writes":
        core.raises((ValueError, TypeError), hs.read, "/data", filename=files[0],
                    options=hs.Options(), **kw)
    return repr(sorted(kw.items())), canon(v), how


def check_isolated(case, ctx):
    kw, v, changes, v2 = case
    f, g = ctx.file("a.h5"), ctx.file("b.h5")
    o = hs.Options(**kw)
    with lib(hs.File, g, writable=True, options=hs.Options(**kw)) as h:
        lib(h.writes, {"/data": v, "/more": v2})
        want_read = lib(h.reads, ["/data", "/more"])
    with lib(hs.File, f, writable=True, options=o) as h:
        for p, x in (("/data", v), ("/more", v2)):
            for k, y in changes:
                try:
                    setattr(o, k, y)
                except (TypeError, ValueError):
                    pass
            s = state(o)
            lib(h.write, x, p)
            if state(o) != s:
                raise Violation("writing changed the options given to the File")
        got_read = lib(h.reads, ["/data", "/more"])
    o = hs.Options(**kw)
    with lib(hs.File, g, options=o) as h:
        ro = [lib(h.read, "/data")]
        for k, y in changes:
            try:
                setattr(o, k, y)
            except (TypeError, ValueError):
                pass
        s = state(o)
        ro.append(lib(h.read, "/more"))
        ro += lib(h.reads, ["/data", "/more"])
        if state(o) != s:
            raise Violation("reading changed the options given to the File")
    if [canon(x) for x in ro] != [canon(x) for x in list(want_read) * 2]:
        raise Violation("changing the options of an open read-only File changed what it reads: %s"
                        % diff(tuple(canon(x) for x in ro), tuple(canon(x) for x in list(want_read) * 2)))
    if dump(f, kw) != dump(g, kw):
        raise Violation("changing the options of an open File changed what it writes: %s"
                        % raw.diff(dump(f, kw)[0], dump(g, kw)[0]))
    if canon(got_read) != canon(want_read):
        raise Violation("changing the options of an open File changed what it reads: %s"
                        % diff(canon(got_read), canon(want_read)))
    return repr(sorted(kw.items())), canon(v), canon(v2), repr(changes)


SUBS = [
    Sub("settings", history, check, 12000),
    Sub("calls", lambda: st.tuples(kws(), vals(), st.sampled_from(["write", "writes", "File"])),
        check_calls, 1200),
    Sub("isolated", lambda: st.tuples(kws(), vals(), st.lists(one(), min_size=1, max_size=6), vals()),
        check_isolated, 1200),
]
