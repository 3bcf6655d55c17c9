"""C15: savemat and loadmat against a model of a directory of MAT files."""
import os
import sys
import types

import h5py
import hdf5storage as hs
import numpy as np
from hypothesis import strategies as st

from hx import core, mat, model, raw, values as V
from hx.canon import canon, diff, mismatch
from hx.core import Sub, Trivial, Violation, lib, raises

from .c04 import userblock

PROPERTY = "C15"
RULE = ("A case is a history of savemat and loadmat calls with generated variables, file names and arguments over a "
        "directory that may hold MAT files, files made by MATLAB, other HDF5 files and files that are not HDF5. "
        "After every call the files there, their variables, the stored form of each and what loadmat returns are "
        "compared with a model of the documented behaviour; calls for other formats must reach (a stand-in for) "
        "SciPy with the arguments given. Non-trivial: distinct histories with a successful savemat and a loadmat.")

TypeErr = hs.exceptions.TypeNotMatlabCompatibleError


# ---------------------------------------------------------------- a recorder in the place of SciPy
class Recorder:
    def __init__(self):
        self.calls = []
        self.answer = None

    def savemat(self, *a, **k):
        self.calls.append(("savemat", a, k))

    def loadmat(self, *a, **k):
        self.calls.append(("loadmat", a, k))
        return self.answer


REC = Recorder()


def standin():
    io = types.ModuleType("scipy.io")
    io.savemat, io.loadmat = REC.savemat, REC.loadmat
    sp = types.ModuleType("scipy")
    sp.io = io
    sys.modules["scipy"], sys.modules["scipy.io"] = sp, io
    REC.calls.clear()
    REC.answer = object()


def bound(call):
    """The arguments of a recorded call by name."""
    name, a, k = call
    order = {"savemat": ["file_name", "mdict", "appendmat", "format", "long_field_names", "do_compression", "oned_as"],
             "loadmat": ["file_name", "mdict", "appendmat"]}[name]
    return dict(zip(order, a), **k)


# ---------------------------------------------------------------- a type only a user marshaller knows
class Money:
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return type(o) is Money and o.n == self.n

    def __repr__(self):
        return "Money(%r)" % self.n


class MoneyMarshaller(hs.Marshallers.TypeMarshaller):
    def __init__(self):
        super().__init__()
        self.types = (Money,)
        self.python_type_strings = ("c15.Money",)
        self.matlab_classes = ()
        self.update_type_lookups()

    def write(self, f, grp, name, data, type_string):
        d = f.write_data(grp, name, np.float64(data.n), None)
        self.write_metadata(f, d, data, type_string)
        return d

    def read(self, f, dsetgrp, attributes):
        return Money(float(np.asarray(dsetgrp[...]).reshape(-1)[0]))

    def read_approximate(self, f, dsetgrp, attributes):
        return self.read(f, dsetgrp, attributes)


def collection():
    return hs.MarshallerCollection(marshallers=[MoneyMarshaller()])


# ---------------------------------------------------------------- cases
FILES = ["a", "a.mat", "b.MAT", "a.mat.mat", "c.h5", "d e", "\u00e9.mat", "x.matx", "amat", "mat", ".mat", "a."]
ODD = [np.float16(1.5), np.zeros((2, 2), np.float16), np.void(b"abc"), np.array([b"ab", b"cd"], "V2")]


@V.memo
def variables():
    name = st.one_of(mat.names, st.sampled_from(["a", "b", "x", "y1"]), st.sampled_from(["a", "b", "x", "y1"]))
    key = V.pick(name, name, name, name, name.map(lambda n: (n,)), name.map(lambda n: "/" + n), name.map(str.encode),
                 st.sampled_from([("a/b",), ("..",), (".x",), ("p\\q",), "\u03b1", ("z\0",)]),
                 st.tuples(st.sampled_from(["g", "h"]), name))
    value = V.pick(V.leaves(), V.leaves(), V.num_arrays(), V.num_arrays(), V.text(0, 4), V.nest(V.leaves(), 4),
                   V.struct_arrays(), st.sampled_from(ODD), st.just("money"))
    return st.lists(st.tuples(key, value), max_size=4, unique_by=lambda t: tuple(split(t[0]))).map(prefixes)


def prefixes(l):
    """Without variables below other variables."""
    ps = [tuple(split(k)) for k, _ in l]
    return [(k, v) for (k, v), p in zip(l, ps) if not any(q != p and q == p[:len(q)] for q in ps)]


def split(key):
    """The names (escaped) a key stands for."""
    if isinstance(key, tuple):
        return [model.escape(x) for x in key]
    if isinstance(key, bytes):
        key = key.decode()
    return [x for x in key.split("/") if x]


@V.memo
def saves():
    return st.fixed_dictionaries(dict(op=st.just("save"), name=names(), vars=variables()), optional=dict(
        appendmat=st.booleans(), oned_as=st.sampled_from(["row", "column"]), store_python_metadata=st.booleans(),
        action_for_matlab_incompatible=st.sampled_from(["ignore", "ignore", "discard", "error"]),
        truncate_existing=st.sampled_from([False, False, True]), truncate_invalid_matlab=st.booleans(),
        marshaller_collection=st.booleans(), long_field_names=st.booleans(),
        format=st.sampled_from(["7.3", "7.3", "5", "4", 7.3])))


@V.memo
def loads():
    return st.fixed_dictionaries(dict(op=st.just("load"), name=names(), how=st.integers(0, 3)), optional=dict(
        appendmat=st.booleans(), mdict=st.dictionaries(st.sampled_from(["a", "b", "zz"]), st.just("before"), max_size=2),
        variable_names=st.lists(st.integers(0, 20), max_size=5), seq=st.booleans(),
        chars_as_strings=st.booleans()))


@V.memo
def makes():
    return V.pick(
        st.tuples(st.just("matlab"), st.lists(st.tuples(mat.names, mat.values(3)), max_size=3, unique_by=lambda t: t[0]),
                  mat.STYLES),
        st.tuples(st.just("plain"), st.sampled_from([0, 0, 512, 1024])),
        st.tuples(st.just("junk"), st.sampled_from([b"", b"MATLAB 5.0 MAT-file" + b" " * 105 + b"\0\1IM", b"x" * 2000])),
        st.just(("gone",))).flatmap(
            lambda m: st.fixed_dictionaries(dict(op=st.just("make"), name=names(), what=st.just(m))))


@V.memo
def names():
    return st.one_of(st.sampled_from(FILES[:2]), st.sampled_from(FILES[:2]), st.sampled_from(FILES))


def histories():
    return st.lists(V.pick(saves(), saves(), saves(), loads(), makes()), min_size=2, max_size=7)


# ---------------------------------------------------------------- model
class H5:
    """An HDF5 file: variables by escaped path, each (kind, ...)."""

    def __init__(self, block):
        self.block = block
        self.vars = {}
        self.header = False


def resolve(name, appendmat):
    return name + ".mat" if appendmat and not name.endswith(".mat") else name


def real(v):
    return Money(3) if isinstance(v, str) and v == "money" else v


def put(h, path, entry):
    """An object at ``path`` replaces what is there, below it, and objects it would be inside of."""
    for q in list(h.vars):
        if q[:len(path)] == path:
            del h.vars[q]
    if entry is not None:
        h.vars[path] = entry


def blocked(h, path):
    """Whether ``path`` is inside something that is a variable itself."""
    return any(q != path and q == path[:len(q)] for q in h.vars)


def check(case, ctx):
    standin()
    files, done, saved, loaded = {}, [], 0, 0
    d = os.path.join(ctx.dir, "w")
    os.mkdir(d)
    mc = collection()
    for step in case:
        s = dict(step)
        op, name = s.pop("op"), s.pop("name")
        where = os.path.join(d, name)
        what = "step %d (%s): " % (len(done) + 1, core.short(step, 300))
        try:
            if op == "make":
                make(files, name, where, s["what"])
            elif op == "save":
                saved += save(files, d, name, s, mc, ctx)
            else:
                loaded += load(files, d, name, s, mc, ctx)
        except Violation as e:
            raise Violation(what + str(e)) from None
        done.append(op)
        if set(os.listdir(d)) != set(files):
            raise Violation("%sfiles %r, expected %r" % (what, sorted(os.listdir(d)), sorted(files)))
        for n, h in files.items():
            if isinstance(h, bytes):
                with open(os.path.join(d, n), "rb") as fh:
                    if fh.read() != h:
                        raise Violation(what + "the file %r, not HDF5, was changed" % n)
    for n, h in files.items():
        if isinstance(h, H5):
            verify(os.path.join(d, n), h)
            loaded += load_all(os.path.join(d, n), h, mc)
    return repr(case) if saved and loaded else None


def make(files, name, where, what):
    if os.path.exists(where):
        os.unlink(where)
    files.pop(name, None)
    if what[0] == "matlab":
        style = dict(what[2], refs="#refs#")
        mat.build(where, what[1], style)
        h = files[name] = H5(512)
        h.header = True
        for n, m in what[1]:
            h.vars[(n,)] = ("m", m, style)
    elif what[0] == "plain":
        with h5py.File(where, "w", userblock_size=what[1]) as f:
            f["old"] = np.arange(4.0)
        h = files[name] = H5(what[1])
        h.vars[("old",)] = ("plain", np.arange(4.0))
    elif what[0] == "junk":
        with open(where, "wb") as f:
            f.write(what[1])
        files[name] = what[1]


def save(files, d, name, s, mc, ctx):
    s = dict(s)
    items = [(k, real(v)) for k, v in s.pop("vars")]
    mdict = dict(items)
    fmt = s.get("format", "7.3")
    if "marshaller_collection" in s:
        s["marshaller_collection"] = mc if s["marshaller_collection"] else None
    kw = dict(s)
    arg = os.path.join(d, name)
    if float(fmt) < 7.3:
        n = len(REC.calls)
        lib(hs.savemat, arg, mdict, **kw)
        if len(REC.calls) != n + 1 or REC.calls[-1][0] != "savemat":
            raise Violation("format %r did not go to SciPy" % fmt)
        b = bound(REC.calls[-1])
        want = dict(file_name=arg, appendmat=s.get("appendmat", True), format=fmt, oned_as=s.get("oned_as", "row"))
        if "long_field_names" in s:
            want["long_field_names"] = s["long_field_names"]
        if b.pop("mdict", None) is not mdict or b != want:
            raise Violation("SciPy got %r, expected %r" % (b, want))
        return 0
    n = len(REC.calls)
    target = resolve(name, s.get("appendmat", True))
    path = os.path.join(d, target)
    old = files.get(target)
    o = model.full(dict(matlab_compatible=True, oned_as=s.get("oned_as", "row"),
                        store_python_metadata=s.get("store_python_metadata", True),
                        action_for_matlab_incompatible=s.get("action_for_matlab_incompatible", "error")))
    if old == b"":
        old = H5(0)  # taken for an HDF5 file with nothing in it
    if isinstance(old, bytes) and not s.get("truncate_existing", False):
        raises(OSError, hs.savemat, arg, mdict, **kw)
        return 0
    if old is None or s.get("truncate_existing", False) or isinstance(old, bytes) \
            or s.get("truncate_invalid_matlab", False) and old.block < 128:
        h = H5(512)
    else:
        h = old
    has_mc = s.get("marshaller_collection") is not None
    # what the outcome is
    bad = None
    for k, v in items:
        if type(v) is Money:
            if not has_mc:
                bad = bad or NotImplementedError
            continue
        try:
            model.store(v, o)
        except model.Incompatible:
            bad = bad or TypeErr
    if any(blocked(h, tuple(split(k))) for k, _ in items):
        raise Trivial  # inside another variable: not a variable of the file
    before = raw.read(path, "/") if bad and h is old and os.path.getsize(path) else None
    if bad is NotImplementedError and any(type(v) is Money for _, v in items) or bad is TypeErr:
        raises((NotImplementedError, TypeErr), hs.savemat, arg, mdict, **kw)
        files[target] = h
        h.header = h.header or h.block >= 128
        for k, v in items:  # what became of the others is not said
            put(h, tuple(split(k)), ("unknown", ))
        settle(path, h)
        if before is not None:
            mine = {split(k)[0] for k, _ in items}
            after = raw.read(path, "/")
            for q in before[1]:
                if q not in mine and q not in after[1]:
                    raise Violation("the failed savemat lost %r" % q)
        ctx.label("refused")
        return 0
    lib(hs.savemat, arg, mdict, **kw)
    if len(REC.calls) != n:
        raise Violation("format 7.3 went to SciPy")
    files[target] = h
    h.header = h.header or h.block >= 128
    for k, v in items:
        p = tuple(split(k))
        if type(v) is Money:
            put(h, p, ("money", o))
            continue
        node = model.store(v, o, "/" + "/".join(p))
        if node is not None:
            put(h, p, ("v", v, o, node))
    verify(path, h)
    ctx.label("saved over" if h is old else "saved new" if old is None else "truncated")
    return 1


def settle(path, h):
    """Forget the variables of a failed call that are not there."""
    with h5py.File(path, "r") as f:
        for p, e in list(h.vars.items()):
            if e[0] == "unknown" and "/".join(p) not in f:
                del h.vars[p]


def verify(path, h):
    """The file against the model, by other means than the library."""
    with h5py.File(path, "r") as f:
        block = f.userblock_size
        tops = set(f) - {"#refs#"}
    if block != h.block:
        raise Violation("user block of %d bytes, expected %d" % (block, h.block))
    if h.header and block == 512:
        userblock(path)
    want = {p[0] for p in h.vars}
    unsure = {p[0] for p, e in h.vars.items() if e[0] == "unknown"} | {"g", "h"}
    if (tops ^ want) - unsure:
        raise Violation("variables %r, expected %r" % (sorted(tops), sorted(want)))
    for p, e in h.vars.items():
        if e[0] == "v":
            d = raw.diff(raw.read(path, "/" + "/".join(p)), e[3], "/" + "/".join(p))
            if d:
                raise Violation("stored form: %s" % d)


def expect(e, as_dicts=False, mc=True):
    """(judge, text) for the value of a variable."""
    if e[0] == "unknown":
        return lambda got: None
    if e[0] == "m":
        return lambda got: diff(canon(got), canon(mat.to_numpy(e[1], e[2], as_dicts)))
    if e[0] == "plain":
        return lambda got: diff(canon(got), canon(e[1]))
    if e[0] == "money":
        if e[1]["store_python_metadata"] and mc:
            return lambda got: None if got == Money(3) else "got %r, expected Money(3)" % (got,)
        return lambda got: None if np.asarray(got).reshape(-1)[0] == 3 and type(got) is not Money \
            else "got %r, expected 3.0" % (got,)
    _, v, o, node = e
    if o["action_for_matlab_incompatible"] == "discard" and \
            repr(model.store(v, dict(o, action_for_matlab_incompatible="ignore"))) != repr(model.store(v, o)):
        return lambda got: None  # parts were left out
    if o["store_python_metadata"]:
        if as_dicts and any(isinstance(x, (np.ndarray, np.void)) and x.dtype.names is not None
                            for x in V.subvalues(v)):
            return lambda got: None  # structs, as dicts
        return lambda got: mismatch(got, v, o)
    try:
        m = mat.decode_names(mat.from_value(v, o))
    except mat.Incompatible:
        return lambda got: None
    return lambda got: diff(canon(got), canon(mat.to_numpy(m, dict(fields=True), as_dicts)))


def top(h, as_dicts, mc):
    """{variable name as returned: judge} for the root level."""
    out = {}
    for p, e in h.vars.items():
        n = model.unescape(p[0])
        out[n] = expect(e, as_dicts, mc) if len(p) == 1 else (lambda got: None)
    return out


def compare(got, want, optional=()):
    if (set(got) ^ set(want)) - set(optional):
        raise Violation("loadmat returned %r, expected %r" % (sorted(map(repr, got)), sorted(map(repr, want))))
    for n, judge in want.items():
        d = judge(got[n]) if n in got else None
        if d:
            raise Violation("variable %r: %s" % (n, d))


def slack(h):
    return {model.unescape(p[0]) for p, e in h.vars.items() if e[0] == "unknown"} | {"g", "h"}


def load_all(path, h, mc):
    got = lib(hs.loadmat, path, appendmat=False, marshaller_collection=mc)
    compare(got, top(h, False, True), slack(h))
    return 1 if h.vars else 0


def load(files, d, name, s, mc, ctx):
    s = dict(s)
    how, wanted, seq = s.pop("how"), s.pop("variable_names", None), s.pop("seq", False)
    given = s.get("mdict")
    if given is not None:
        before = dict(given)
        given = s["mdict"] = dict(given)
    target = resolve(name, s.get("appendmat", True))
    h = files.get(target)
    arg = os.path.join(d, name)
    as_dicts, has_mc = False, False
    if how == 1:
        s["marshaller_collection"], has_mc = mc, True
    elif how == 2:
        as_dicts = True
        s["options"] = hs.Options(structs_as_dicts=True)
        s["marshaller_collection"] = mc  # the options override it
    elif how == 3:
        s["options"], has_mc = hs.Options(marshaller_collection=mc), True
    pool, judges = [], {}
    if isinstance(h, H5):
        for p, e in h.vars.items():
            n = model.unescape(p[0])
            forms = [tuple(map(model.unescape, p)), "/".join(p), "/" + "/".join(p), "/".join(p).encode()]
            for q in forms:
                pool.append(q)
                judges[q] = (e, expect(e, as_dicts, has_mc))
    pool += ["missing", ("missing", "x"), "a", b"zz", "old/none", "b"]
    sel = None
    if wanted is not None:
        sel = [pool[i % len(pool)] for i in wanted]
        s["variable_names"] = tuple(sel) if seq else sel
    n = len(REC.calls)
    if not isinstance(h, H5):
        REC.answer = object()
        r = lib(hs.loadmat, arg, **s)
        if r is not REC.answer or len(REC.calls) != n + 1:
            raise Violation("a file that is not HDF5 did not go to SciPy (returned %s)" % core.short(r))
        b = bound(REC.calls[-1])
        want = dict(file_name=arg, mdict=given, appendmat=s.get("appendmat", True),
                    variable_names=s.get("variable_names"))
        if "chars_as_strings" in s:
            want["chars_as_strings"] = s["chars_as_strings"]
        if b != want or b["mdict"] is not given:
            raise Violation("SciPy got %r, expected %r" % (b, want))
        return 0
    got = lib(hs.loadmat, arg, **s)
    if len(REC.calls) != n:
        raise Violation("an HDF5 file went to SciPy")
    if given is not None and got is not given:
        raise Violation("the given mdict was not returned")
    if type(got) is not dict:
        raise Violation("returned a %s" % type(got))
    if sel is None:
        want = top(h, as_dicts, has_mc)
        opt = set(slack(h))
    else:
        want, opt = {}, {q for q in sel if q in judges and judges[q][0][0] == "unknown"}
        for q in sel:
            if q in judges:
                want[q] = judges[q][1]
            elif tuple(split(q)) in h.vars:
                want[q] = expect(h.vars[tuple(split(q))], as_dicts, has_mc)
    for k in before if given is not None else ():
        if k not in want:
            want[k] = lambda x: None if isinstance(x, str) and x == "before" else "the given mdict lost %r" % k
    compare(got, want, opt)
    ctx.label("loaded some" if sel is not None else "loaded all")
    return 1 if want else 0


SUBS = [Sub("histories", histories, check, 6000)]
