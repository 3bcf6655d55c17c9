"""C09: path escaping is lossless and all equivalent path forms name the same object."""
import collections
import pathlib

import h5py
import hdf5storage as hs
import hdf5storage.pathesc as pe
import numpy as np
from hypothesis import strategies as st

from hx import core, model, values as V
from hx.core import Sub, Trivial, Violation, lib, raises

PROPERTY = "C09"
RULE = ("escape: generated names full of dots, slashes, nulls, backslashes and hex digits, in pairs of "
        "near misses; unescape: generated text of escapes, valid and not, against an independent "
        "parser. forms: a sequence of names addressed in all forms a path can have, by writing with "
        "one and reading, testing, deleting and bulk operations with others; distinct: two or three "
        "sequences that nearly agree must be different objects; types: things that are not paths. "
        "Non-trivial: distinct cases in which something needs escaping or there is more than one form.")

TRICKY = "....//\\\\\\\0xuU2f0e5cab1n \u00e9\u4e2d\U0001F600"


def names(min_size=1):
    return st.lists(st.one_of(st.sampled_from(TRICKY), st.sampled_from(TRICKY),
                              st.characters(exclude_categories=("Cs",))),
                    min_size=min_size, max_size=7).map("".join)


FRAG = ["\\x2f", "\\x2e", "\\\\", "\\\\", "\\u0041", "\\U0001F600", "\\x00", "\\u4E2d", "\\XFF", "\\n",
        "\\", "\\x", "\\x4", "\\xg1", "\\u", "\\u12", "\\u123", "\\u123g", "\\U0000", "\\U0000004",
        "\\U00110000", "\\Uffffffff", "\\U80000000", "\\ud800", "\\U0010FFFF", "\n", "\\\n", "\\xff\n",
        "\\x1", "\\ "]
ESCAPED = st.lists(st.one_of(st.sampled_from(FRAG), st.sampled_from("\\\\\\xuU0aF9g./b\u00e9\u0661\uff11"),
                             st.sampled_from("\\xuU0aF9"), st.characters()),
                   max_size=7).map("".join)
HEX = "0123456789abcdefABCDEF"


def parse(s):
    """Unescape by the documentation; None where it must raise ValueError."""
    out, i = [], 0
    while i < len(s):
        if s[i] != "\\":
            out.append(s[i])
            i += 1
            continue
        c = s[i + 1:i + 2]
        if c == "\\":
            out.append("\\")
            i += 2
            continue
        n = {"x": 2, "u": 4, "U": 8}.get(c)
        if n is None:
            return None
        h = s[i + 2:i + 2 + n]
        if len(h) < n or any(k not in HEX for k in h) or int(h, 16) > 0x10FFFF:
            return None
        out.append(chr(int(h, 16)))
        i += 2 + n
    return "".join(out)


def near(s, op, i, c):
    """A name that differs from ``s`` in little."""
    i %= len(s) + 1
    return {"insert": s[:i] + c + s[i:], "drop": s[:i] + s[i + 1:], "escape": model.escape(s),
            "swap": s[:i] + c + s[i + 1:], "double": s.replace("\\", "\\\\")}[op]


def check_escape(case, ctx):
    s, *mut = case
    t = near(s, *mut)
    for x in (s, t):
        e = lib(pe.escape_path, x)
        if type(e) is not str or "/" in e or "\0" in e or e.startswith(".") or (x and not e):
            raise Violation("%r escapes to %r" % (x, e))
        if e != model.escape(x):
            raise Violation("%r escapes to %r, documented %r" % (x, e, model.escape(x)))
        if lib(pe.unescape_path, e) != x:
            raise Violation("%r escapes to %r, which unescapes to %r" % (x, e, pe.unescape_path(e)))
        if lib(pe.escape_path, x.encode()) != e or lib(pe.unescape_path, e.encode()) != x:
            raise Violation("bytes of %r" % x)
    if s != t and pe.escape_path(s) == pe.escape_path(t):
        raise Violation("%r and %r escape to the same" % (s, t))
    if s and len(s.encode()) < 200:
        f = h5py.File("x.h5", "w", driver="core", backing_store=False)
        e = pe.escape_path(s)
        f.create_group("g")[e] = 1
        if list(f["g"]) != [e] or f["g/" + e][()] != 1:
            raise Violation("%r escapes to %r, stored as %r" % (s, e, list(f["g"])))
        f.close()
    return (s, t) if pe.escape_path(s) != s else None


def check_unescape(s, ctx):
    want = parse(s)
    for x in (s, s.encode("utf-8", "surrogatepass")):
        try:
            if isinstance(x, bytes):
                x.decode("utf-8")
        except UnicodeDecodeError:
            continue
        if want is None:
            raises(ValueError, pe.unescape_path, x)
        else:
            got = lib(pe.unescape_path, x)
            if got != want or type(got) is not str:
                raise Violation("%r unescapes to %r, expected %r" % (x, got, want))
    if want is None:
        ctx.label("invalid")
    return s if "\\" in s else None


# --- forms of paths

def parts():
    return st.lists(V.pick(names(), st.sampled_from(["a", "b", ".", "..", "a/b", "a\\", "\\x2f", "...",
                                                      "a b", "\u03b1"])),
                    min_size=1, max_size=3)


class Str(str):
    pass


def element(x, kind):
    """One element of a separated path; falls back to str where the kind cannot express it."""
    if kind == "bytes":
        return x.encode()
    if kind == "np":
        return np.str_(x) if not x.endswith("\0") else x
    if kind == "npb":
        return np.bytes_(x.encode()) if not x.endswith("\0") else x
    if kind == "pure" and "\0" not in x and str(pathlib.PurePosixPath(x)) == x:
        return pathlib.PurePosixPath(x)
    if kind == "path" and "\0" not in x and str(pathlib.Path(x)) == x:
        return pathlib.Path(x)
    if kind == "win" and "\0" not in x and str(pathlib.PureWindowsPath(x)) == x:
        return pathlib.PureWindowsPath(x)
    if kind == "sub":
        return Str(x)
    return x


SEQ = {"list": list, "tuple": tuple, "deque": collections.deque}
KINDS = ["str", "bytes", "np", "npb", "pure", "path", "win", "sub"]
JOIN = ["/", "//", "/./", "///", "/zz/../"]


def form(p, how):
    """The path of the sequence ``p`` in the form ``how``; None if it has no such form."""
    kind, arg = how
    esc = [model.escape(x) for x in p]
    if kind in SEQ:
        return SEQ[kind](element(x, arg[i % len(arg)]) for i, x in enumerate(p))
    if kind in ("pure", "path", "win"):
        if kind == "win" and any("\\" in x or ":" in x for x in esc):
            return None
        cls = {"pure": pathlib.PurePosixPath, "path": pathlib.Path, "win": pathlib.PureWindowsPath}[kind]
        lead = "/" if arg[0] in ("bytes", "np") else ""
        if arg[0] == "pure":
            return cls(*esc)
        return cls(lead + "/".join(esc))
    lead, glue, trail = arg
    s = lead + glue.join(esc) + trail
    return {"str": s, "bytes": s.encode(), "sub": Str(s),
            "np": np.str_(s) if not s.endswith("\0") else s}[kind]


def hows():
    return st.one_of(
        st.tuples(st.sampled_from(sorted(SEQ)), st.lists(st.sampled_from(KINDS), min_size=1, max_size=3)),
        st.tuples(st.sampled_from(["pure", "path", "win"]),
                  st.lists(st.sampled_from(KINDS), min_size=1, max_size=1)),
        st.tuples(st.sampled_from(["str", "bytes", "sub", "np"]),
                  st.tuples(st.sampled_from(["", "/", "//", "///", "./", "/./", "/../"]),
                            st.sampled_from(JOIN), st.sampled_from(["", "/", "//", "/.", "/zz/.."]))))


def where(path):
    g, t = lib(pe.process_path, path)
    if type(g) is not str or type(t) is not str:
        raise Violation("process_path(%r) gives %r" % (path, (g, t)))
    return [x for x in (g + "/" + t).split("/") if x not in ("", ".")]


OPS = ["read", "item", "reads", "in", "write", "set", "writes", "delete", "get", "pop"]


def hashable(p):
    return tuple(p) if isinstance(p, (list, collections.deque)) else p


def check_forms(case, ctx):
    p, forms, ops, extra = case
    esc = [model.escape(x) for x in p]
    if esc[0] == "#refs#" or sum(len(e.encode()) for e in esc) > 300:
        raise Trivial
    ways = [w for w in (form(p, h) for h in forms) if w is not None]
    if not ways:
        raise Trivial
    for w in ways:
        if where(w) != esc:
            raise Violation("process_path(%r) is %r, expected %r" % (w, pe.process_path(w), esc))
    f = ctx.file()
    full = "/".join(esc)
    o = dict(options=hs.Options(matlab_compatible=False)) if extra else {}
    val, n = None, 0
    with lib(hs.File, f, writable=True, **o) as h:
        for i, (op, k) in enumerate(ops):
            w = ways[k % len(ways)]
            if op in ("write", "set", "writes"):
                n += 1
                val = n
                if op == "write":
                    lib(h.write, n, w)
                elif op == "set":
                    lib(h.__setitem__, w, n)
                else:
                    lib(h.writes, {hashable(w): n})
            elif op == "in":
                if lib(h.__contains__, w) is not (val is not None):
                    raise Violation("%r in File is %r" % (w, val is None))
            elif op in ("delete", "pop"):
                if val is None:
                    raises(KeyError, h.__delitem__ if op == "delete" else h.pop, w)
                elif op == "delete":
                    lib(h.__delitem__, w)
                elif lib(h.pop, w) != val:
                    raise Violation("pop(%r)" % w)
                val = None
            else:
                fn = {"read": lambda: h.read(w), "item": lambda: h[w], "reads": lambda: h.reads([w])[0],
                      "get": lambda: h.get(w)}[op]
                if val is None and op != "get":
                    raises(KeyError, fn)
                else:
                    got = lib(fn)
                    if got != val:
                        raise Violation("%s(%r) gives %r, written %r" % (op, w, got, val))
        w = ways[-1]
        if val is None:
            lib(h.write, 99, w)
            val = 99
    with h5py.File(f, "r") as h:
        seen = []
        h.visititems(lambda name, obj: seen.append(name) if isinstance(obj, h5py.Dataset) else None)
        seen = [x for x in seen if not x.startswith("#refs#")]
        if seen != [full]:
            raise Violation("stored at %r, expected %r" % (seen, full))
    for w in ways:
        if lib(hs.read, w, filename=f, **o) != val or lib(hs.reads, [w, w], filename=f, **o) != [val, val]:
            raise Violation("hdf5storage.read(%r)" % w)
        lib(hs.write, val + 1, w, filename=f, **o)
        lib(hs.writes, {hashable(w): val + 2}, filename=f, **o)
        val += 2
    if lib(hs.read, ways[0], filename=f, **o) != val:
        raise Violation("hdf5storage.write with other forms")
    return p, repr(ways), repr(ops)


def check_distinct(case, ctx):
    base, muts, hows_ = case
    seqs = [list(base)]
    for (k, op, i, c, glue) in muts:
        s = list(seqs[-1])
        if glue == "split" and len(s[k % len(s)]) > 1:
            x = s[k % len(s)]
            j = 1 + i % (len(x) - 1)
            s[k % len(s):k % len(s) + 1] = [x[:j], x[j:]]
        elif glue == "join" and len(s) > 1:
            j = k % (len(s) - 1)
            s[j:j + 2] = [s[j] + "/" + s[j + 1]]
        else:
            s[k % len(s)] = near(s[k % len(s)], op, i, c)
        if all(s) and s not in seqs:
            seqs.append(s)
    locs = [where(form(s, ("list", [hows_[i % len(hows_)]]))) for i, s in enumerate(seqs)]
    for i, s in enumerate(seqs):
        if locs[i] != [model.escape(x) for x in s]:
            raise Violation("%r is at %r" % (s, locs[i]))
        if locs[i] in locs[:i]:
            raise Violation("%r and %r are at %r" % (s, seqs[locs.index(locs[i])], locs[i]))
    if len(seqs) < 2:
        return None
    # Keep those of which none contains another.
    keep = [s for s in seqs if not any(t != s and t == s[:len(t)] for t in seqs)
            and s[0] != "#refs#" and sum(len(x.encode()) for x in s) < 200]
    f = ctx.file()
    lib(hs.writes, {tuple(s): i for i, s in enumerate(keep)}, filename=f)
    got = lib(hs.reads, [tuple(s) for s in keep], filename=f)
    if got != list(range(len(keep))):
        raise Violation("%r hold %r" % (keep, got))
    return repr(seqs)


NOT_PATHS = [None, 3, 2.5, True, {"a"}, {"a": 1}, object, ("a", 3), ["a", None], [["a"]], (b"a", 1.5),
             frozenset("a"), bytearray(b"a"), range(2), np.array(["a"]), ({},), ("a", ("b",))]
FNS = ["process", "read", "item", "reads", "write", "set", "writes", "del", "hs.read", "hs.reads",
       "hs.write", "hs.writes", "in"]


def check_types(case, ctx):
    i, fn, writable = case
    p = NOT_PATHS[i]
    if fn in ("writes", "hs.writes"):
        try:
            hash(p)
        except TypeError:
            raise Trivial from None
    f = ctx.file()
    lib(hs.writes, {"/a": 1, "/d/b": [1, "z"]}, filename=f)
    with open(f, "rb") as b:
        before = b.read()
    if fn == "process":
        raises(TypeError, pe.process_path, p)
    elif fn.startswith("hs."):
        fn = fn[3:]
        raises(TypeError, getattr(hs, fn), *{"read": (p,), "reads": ([p],), "write": (1, p),
                                             "writes": ({p: 1} if fn == "writes" else 0,)}[fn], filename=f)
    else:
        writes = fn in ("write", "set", "writes", "del")
        with lib(hs.File, f, writable=writes or writable) as h:
            if fn == "in":
                if lib(h.__contains__, p) is not False:
                    raise Violation("%r in File" % (p,))
            else:
                raises(TypeError, *{
                    "read": (h.read, p), "item": (h.__getitem__, p), "reads": (h.reads, ["/a", p]),
                    "write": (h.write, 1, p), "set": (h.__setitem__, p, 1), "del": (h.__delitem__, p),
                    "writes": (h.writes, {"/new": 1, p: 1} if fn == "writes" else 0)}[fn])
                if lib(h.reads, ["/a", "/d/b"]) != [1, [1, "z"]] or "/new" in h:
                    raise Violation("the File changed")
    if fn in ("read", "reads", "item", "in", "process") and not writable:
        with open(f, "rb") as b:
            if b.read() != before:
                raise Violation("the file changed")
    return i, fn, writable


MUT = st.tuples(st.sampled_from(["insert", "drop", "escape", "swap", "double"]), st.integers(0, 7),
                st.sampled_from("./\\\0x2fa"))

SUBS = [
    Sub("escape", lambda: st.tuples(names(0), MUT).map(lambda t: (t[0],) + t[1]), check_escape, 8000),
    Sub("unescape", lambda: ESCAPED, check_unescape, 16000),
    Sub("forms", lambda: st.tuples(parts(), st.lists(hows(), min_size=2, max_size=4),
                                   st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 3)),
                                            min_size=3, max_size=8), st.booleans()),
        check_forms, 2400),
    Sub("distinct", lambda: st.tuples(
        parts(), st.lists(st.tuples(st.integers(0, 3), st.sampled_from(["insert", "drop", "escape", "swap",
                                                                        "double"]),
                                    st.integers(0, 7), st.sampled_from("./\\\0x2fa"),
                                    st.sampled_from(["split", "join", "near", "near"])),
                          min_size=1, max_size=3),
        st.lists(st.sampled_from(KINDS), min_size=1, max_size=3)), check_distinct, 3000),
    Sub("types", lambda: st.tuples(st.integers(0, len(NOT_PATHS) - 1), st.sampled_from(FNS),
                                   st.booleans()), check_types, 800),
]
