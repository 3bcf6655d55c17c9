"""MATLAB v7.3 values: a grammar, a writer that makes files with plain h5py, what they convert to.

M ::= ("num", array) | ("logical", array) | ("char", uint16 array) | ("empty", class, shape)
    | ("cell", shape, (M, ...)) | ("struct", ((name, M), ...)) | ("structarr", shape, names,
      ((M, ...) per element)) | ("emptystruct", shape, names)
"""
import h5py
import numpy as np
from hypothesis import strategies as st
from hypothesis.extra import numpy as hnp

CLASS = {"b1": "logical", "u1": "uint8", "u2": "uint16", "u4": "uint32", "u8": "uint64",
         "i1": "int8", "i2": "int16", "i4": "int32", "i8": "int64", "f4": "single",
         "f8": "double", "c8": "single", "c16": "double"}
NP = {"logical": "?", "uint8": "u1", "uint16": "u2", "uint32": "u4", "uint64": "u8", "int8": "i1",
      "int16": "i2", "int32": "i4", "int64": "i8", "single": "f4", "double": "f8", "char": "U1",
      "cell": "O"}

shapes2 = st.one_of(
    st.sampled_from([(1, 1), (1, 3), (2, 1), (2, 3), (3, 2, 2)]),
    st.lists(st.integers(1, 4), min_size=2, max_size=4).map(tuple))
small = st.sampled_from([(1, 1), (1, 2), (2, 1), (2, 3), (1, 3, 2)])
eshapes = st.one_of(st.sampled_from([(0, 0), (0, 3), (1, 0), (2, 0, 3), (0, 1), (3, 0)]),
                    st.sampled_from([(0, 255), (0, 256), (300, 0), (70000, 0), (5, 0, 65536), (0,) * 5]))


@st.composite
def nums(draw):
    d = np.dtype(draw(st.sampled_from([k for k in CLASS if k != "b1"])))
    shape = draw(shapes2)
    base = d if d.kind != "c" else np.dtype("f%d" % (d.itemsize // 2))

    def part(salt):
        if base.kind == "f":
            el = st.one_of(st.integers(-5, 300).map(float), st.floats(width=base.itemsize * 8),
                           st.sampled_from([np.nan, np.inf, -np.inf, -0.0, 1e30]))
        else:
            i = np.iinfo(base)
            el = st.one_of(st.sampled_from([0, 1, int(i.max), int(i.min)]),
                           st.integers(int(i.min), int(i.max)))
        seed = draw(st.lists(el, min_size=1, max_size=3))
        n = int(np.prod(shape))
        a = np.zeros(n, base)
        a[:] = np.arange(salt, salt + n) % 120
        a[:min(n, len(seed))] = seed[:n]
        return a.reshape(shape)
    a = part(0)
    if d.kind == "c":
        c = np.zeros(shape, d)
        c.real, c.imag = a, part(3)
        a = c
    return ("num", a)


@st.composite
def logicals(draw):
    shape = draw(shapes2)
    n = int(np.prod(shape))
    bits = draw(st.lists(st.booleans(), min_size=1, max_size=5))
    return ("logical", np.array([bits[i % len(bits)] for i in range(n)], bool).reshape(shape))


_ch = st.one_of(st.integers(32, 126), st.integers(32, 126),
                st.sampled_from([0, 9, 10, 0x100, 0x80, 0xE9, 0x3B1, 0x4E2D, 0xFEFF, 0xFFFD, 0xFFFF,
                                 0xD7FF, 0xE000, 0x2028]))


@st.composite
def charsv(draw):
    """Rows of a char array; surrogates only as pairs inside a row."""
    shape = draw(st.sampled_from([(1,), (1,), (1,), (2,), (3,), (2, 2), (1, 3)]))
    width = draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(1, 6), st.sampled_from([40, 200])))
    n = int(np.prod(shape))
    rows = []
    for _ in range(n):
        r = draw(st.lists(_ch, min_size=min(width, 6), max_size=min(width, 6)))
        r = (r * (width // 6 + 1))[:width]
        if width >= 2 and draw(st.integers(0, 4)) == 0:
            i = draw(st.integers(0, width - 2))
            cp = draw(st.sampled_from([0x10000, 0x1F600, 0x10FFFF])) - 0x10000
            r[i], r[i + 1] = 0xD800 + (cp >> 10), 0xDC00 + (cp & 0x3FF)
        rows.append(r)
    return ("char", np.array(rows, np.uint16).reshape(shape + (width,)))


empties = st.one_of(st.tuples(st.just("empty"), st.sampled_from(sorted(NP)), eshapes),
                    st.just(("empty", "double", (0, 0))))
names = st.one_of(st.sampled_from(["a", "b", "field", "x1", "A_b", "Zz9", "keys", "a", "n" * 31]),
                  st.from_regex(r"[A-Za-z][A-Za-z0-9_]{0,10}", fullmatch=True))


def leaves():
    return st.one_of(nums(), logicals(), charsv(), empties,
                     st.tuples(st.just("emptystruct"), eshapes,
                               st.lists(names, max_size=3, unique=True).map(tuple)))


def _cell(kids):
    return small.flatmap(lambda s: st.lists(kids, min_size=int(np.prod(s)), max_size=int(np.prod(s)))
                         .map(lambda l: ("cell", s, tuple(l))))


def _struct(kids):
    return st.lists(st.tuples(names, kids), max_size=4, unique_by=lambda t: t[0]).map(
        lambda l: ("struct", tuple(l)))


@st.composite
def _structarr(draw, kids):
    shape = draw(small.filter(lambda s: np.prod(s) > 1))
    ns = tuple(draw(st.lists(names, min_size=1, max_size=3, unique=True)))
    n = int(np.prod(shape))
    cols = []
    for _ in ns:
        if draw(st.booleans()):  # the same kind of value in every element
            a = draw(nums())[1]
            cols.append([("num", np.roll(a, i)) for i in range(n)])
        else:
            cols.append(draw(st.lists(kids, min_size=n, max_size=n)))
    return ("structarr", shape, ns, tuple(tuple(c[i] for c in cols) for i in range(n)))


def values(max_leaves=8):
    return st.recursive(leaves(), lambda k: st.one_of(_cell(k), _struct(k), _structarr(k)),
                        max_leaves=max_leaves)


# ---------------------------------------------------------------- writing with h5py alone

STYLES = st.fixed_dictionaries(dict(
    h5path=st.booleans(), vlen_class=st.booleans(), chunked=st.booleans(), big=st.booleans(),
    fields=st.booleans(), creation=st.booleans(), refs=st.sampled_from(["#refs#", "#refs#", "other"]),
    complex_order=st.booleans(), canonical=st.booleans()))


class Writer:
    def __init__(self, f, style, refs="#refs#"):
        self.f, self.s, self.refs, self.n = f, style, refs, 0

    def attrs(self, obj, cls, parent, **extra):
        if self.s["vlen_class"]:
            obj.attrs["MATLAB_class"] = cls  # variable length UTF-8
        else:
            obj.attrs.create("MATLAB_class", np.bytes_(cls))
        if self.s["h5path"] and parent != "/":
            obj.attrs["H5PATH"] = np.bytes_(parent.encode())
        for k, v in extra.items():
            obj.attrs[k] = v

    def fields(self, obj, ns):
        if not ns or not self.s["fields"]:
            return
        dt = h5py.special_dtype(vlen=np.dtype("S1"))
        a = np.zeros(len(ns), object)
        for i, n in enumerate(ns):
            a[i] = np.array([c.encode() for c in n], "S1")
        obj.attrs.create("MATLAB_fields", a, (len(ns),), dtype=dt)

    def data(self, g, name, a):
        if self.s["big"] and a.dtype.kind in "iuf":
            a = a.astype(a.dtype.newbyteorder(">"))
        kw = {}
        if self.s["chunked"] and a.size and a.ndim:
            kw = dict(compression="gzip", shuffle=True)
        return g.create_dataset(name, data=a, **kw)

    def ref(self, m):
        g = self.f.require_group(self.refs)
        if m == ("empty", "double", (0, 0)) and self.s.get("canonical"):
            if "a" not in g:  # as MATLAB stores the [] in cells
                g["a"] = np.zeros(2, np.uint64)
                g["a"].attrs["MATLAB_class"] = np.bytes_("canonical empty")
                g["a"].attrs["MATLAB_empty"] = np.uint8(1)
            return g["a"].ref
        name = "r%d" % self.n
        self.n += 1
        return self.put(g, name, m).ref

    def reftable(self, g, name, shape, items):
        a = np.zeros(shape, object)
        dt = h5py.special_dtype(ref=h5py.Reference)
        b = np.zeros(shape, dt)
        a = a.reshape(-1)
        for i, m in enumerate(items):
            b.reshape(-1)[i] = self.ref(m)
        return g.create_dataset(name, data=b.T, dtype=dt)

    def put_fresh(self, g, name, m):
        """``put`` into a file whose references group may be in use."""
        used = self.f.get(self.refs)
        while used is not None and "r%d" % self.n in used:
            self.n += 1
        self.n += 100000 * bool(self.n)
        return self.put(g, name, m)

    def put(self, g, name, m):
        k = m[0]
        if k == "num":
            a = m[1]
            cls = CLASS[a.dtype.newbyteorder("=").str[1:]]
            if a.dtype.kind == "c":
                r = a.real.dtype
                c = np.zeros(a.shape, [("real", r), ("imag", r)])
                c["real"], c["imag"] = a.real, a.imag
                a = c
            d = self.data(g, name, a.T)
            self.attrs(d, cls, g.name)
        elif k == "logical":
            d = self.data(g, name, m[1].astype("u1").T)
            self.attrs(d, "logical", g.name, MATLAB_int_decode=np.int32(1))
        elif k == "char":
            d = self.data(g, name, m[1].T)
            self.attrs(d, "char", g.name, MATLAB_int_decode=np.int32(2))
        elif k == "empty":
            d = self.data(g, name, np.array(m[2], np.uint64))
            extra = dict(MATLAB_empty=np.uint8(1))
            if m[1] in ("logical", "char"):
                extra["MATLAB_int_decode"] = np.int32(1 if m[1] == "logical" else 2)
            self.attrs(d, m[1], g.name, **extra)
        elif k == "emptystruct":
            d = self.data(g, name, np.array(m[1], np.uint64))
            self.attrs(d, "struct", g.name, MATLAB_empty=np.uint8(1))
            self.fields(d, m[2])
        elif k == "cell":
            d = self.reftable(g, name, m[1], m[2])
            self.attrs(d, "cell", g.name)
        elif k == "struct":
            d = g.create_group(name, track_order=self.s["creation"])
            self.attrs(d, "struct", g.name)
            self.fields(d, [n for n, _ in m[1]])
            for n, x in m[1]:
                self.put(d, n, x)
        elif k == "structarr":
            d = g.create_group(name, track_order=self.s["creation"])
            self.attrs(d, "struct", g.name)
            self.fields(d, m[2])
            for j, n in enumerate(m[2]):
                t = self.reftable(d, n, m[1], [e[j] for e in m[3]])
                if self.s["h5path"]:
                    t.attrs["H5PATH"] = np.bytes_(d.name.encode())
        return d


def build(filename, variables, style):
    """A MAT v7.3 file with the named M values."""
    with h5py.File(filename, "w", userblock_size=512) as f:
        w = Writer(f, style, style["refs"])
        for n, m in variables:
            w.put(f, n, m)
    with open(filename, "r+b") as fb:
        fb.write(userblock())


def userblock(text=b"MATLAB 7.3 MAT-file, Platform: GLNXA64, Created on: Mon Jan 01 00:00:00 2024"
                   b" HDF5 schema 1.00 ."):
    return text.ljust(116, b" ") + b"\0" * 8 + b"\x00\x02IM" + b"\0" * (512 - 128)


# ---------------------------------------------------------------- documented conversion

def _field(vals, shape):
    """(dtype, subshape) of a field holding ``vals``, one per element."""
    if not vals or not all(type(v) is np.ndarray for v in vals) \
            or any(v.dtype != vals[0].dtype or v.shape != vals[0].shape for v in vals):
        return ("O",)
    return (vals[0].dtype, vals[0].shape)


def _structured(shape, cols):
    """Structured array from [(name, values per element)]."""
    d = np.dtype([(n,) + _field(v, shape) for n, v in cols])
    if d.itemsize == 0:
        a = np.zeros(shape, "i1").astype(d)
    else:
        a = np.zeros(shape, d)
    for n, v in cols:
        f = a[n]
        if f.size == 0:
            continue
        for i, ix in enumerate(np.ndindex(*shape)):
            f[ix] = v[i]
    return a


def plain(obj, f, refs):
    """What an HDF5 object without any metadata is read as: its plain NumPy equivalent."""
    from .model import unescape
    if isinstance(obj, h5py.Dataset):
        a = obj[...]
        if h5py.check_dtype(ref=obj.dtype) is None:
            return a
        out = np.zeros(a.shape, object)
        for i, r in enumerate(a.reshape(-1)):
            out.reshape(-1)[i] = plain(f[r], f, refs)
        return out
    members = [obj[n] for n in obj if obj[n].name != refs]
    cols = sorted((unescape(m.name.rsplit("/", 1)[1]), plain(m, f, refs)) for m in members)
    table = bool(members) and all(
        isinstance(m, h5py.Dataset) and h5py.check_dtype(ref=m.dtype) is not None
        for m in members) and len({m.shape for m in members}) == 1
    if table:
        return _structured(cols[0][1].shape, [(n, list(v.reshape(-1))) for n, v in cols])
    return _structured((1,), [(n, [v]) for n, v in cols])


def decode_names(m):
    """The M value with its field names unescaped (fields in order of name if not ASCII)."""
    from .model import unescape
    k = m[0]
    if k == "cell":
        return (k, m[1], tuple(decode_names(x) for x in m[2]))
    if k == "emptystruct":
        return (k, m[1], tuple(unescape(n) for n in m[2]))
    if k == "struct":
        p = [(unescape(n), decode_names(x)) for n, x in m[1]]
        if not all(n.isascii() for n, _ in m[1]):
            p.sort(key=lambda t: t[0])
        return (k, tuple(p))
    if k == "structarr":
        ns = [unescape(n) for n in m[2]]
        order = list(range(len(ns)))
        if not all(n.isascii() for n in m[2]):
            order.sort(key=lambda i: ns[i])
        return (k, m[1], tuple(ns[i] for i in order),
                tuple(tuple(decode_names(e[i]) for i in order) for e in m[3]))
    return m


def to_numpy(m, style, as_dicts=False):
    k = m[0]
    if k in ("num", "logical", "bytes"):
        return m[1]
    if k == "char":
        a = m[1]
        w = a.shape[-1]
        if a.dtype == np.uint32:  # as stored for what is not UTF-16
            s = ["".join(map(chr, x)) for x in a.reshape(-1, w)]
        else:
            s = [x.astype("<u2").tobytes().decode("utf-16-le") for x in a.reshape(-1, w)]
        return np.array(s, "U").reshape(a.shape[:-1] + (1,))
    if k == "empty":
        return np.zeros(m[2], NP[m[1]])
    if k == "emptystruct":
        if not m[2] or not style["fields"]:
            return np.zeros(m[1], "O")
        return np.zeros(m[1], [(n, "O") for n in m[2]])
    if k == "cell":
        a = np.zeros(m[1], object)
        for i, x in enumerate(m[2]):
            a.reshape(-1)[i] = to_numpy(x, style, as_dicts)
        return a
    if k == "struct":
        items = [(n, to_numpy(x, style, as_dicts)) for n, x in m[1]]
        if as_dicts:
            return dict(items)
        if not style["fields"]:
            items.sort()
        return _structured((1,), [(n, [v]) for n, v in items])
    if k == "structarr":
        cols = [(n, [to_numpy(e[j], style, as_dicts) for e in m[3]]) for j, n in enumerate(m[2])]
        if as_dicts:
            out = {}
            for n, v in cols:
                out[n] = np.zeros(m[1], object)
                for i, x in enumerate(v):
                    out[n].reshape(-1)[i] = x
            return out
        if not style["fields"]:
            cols.sort(key=lambda c: c[0])
        return _structured(m[1], cols)
    raise AssertionError(k)


# ---------------------------------------------------------------- decoding by MATLAB's rules

class NotMatlab(Exception):
    """The object is not one MATLAB can load."""


MATLAB_ATTRS = {"MATLAB_class", "MATLAB_int_decode", "MATLAB_fields", "MATLAB_object_decode"}


def _s(a):
    return bytes(a).decode("ascii") if isinstance(a, (bytes, np.ndarray)) else str(a)


def _fields(obj):
    if "MATLAB_fields" not in obj.attrs:
        return None
    v = obj.attrs["MATLAB_fields"]
    if not isinstance(v, np.ndarray) or v.ndim != 1 or (v.dtype != object and v.size):
        raise NotMatlab("MATLAB_fields is not a vector of variable length strings")
    out = []
    for x in v:
        if not isinstance(x, np.ndarray) or x.dtype != np.dtype("S1"):
            raise NotMatlab("MATLAB_fields holds %r" % (x,))
        out.append(b"".join(c or b"\0" for c in x.tolist()).decode("ascii"))
    return out


def parse(obj, f, refs="/#refs#", field=False):
    """What MATLAB sees in an HDF5 object (Python.* attributes are not looked at)."""
    if "MATLAB_class" not in obj.attrs:
        raise NotMatlab("no MATLAB_class on %s" % obj.name)
    cls = _s(obj.attrs["MATLAB_class"])
    if isinstance(obj, h5py.Group):
        if cls != "struct":
            raise NotMatlab("a Group of class %s" % cls)
        members = [n for n in obj if obj[n].name != refs]
        want = _fields(obj)
        if want is not None and (sorted(want) != sorted(members)):
            raise NotMatlab("MATLAB_fields %r, members %r" % (want, members))
        ns = want if want is not None else sorted(members)
        table = bool(ns) and all(
            isinstance(obj[n], h5py.Dataset) and h5py.check_dtype(ref=obj[n].dtype) is not None
            and not set(obj[n].attrs) & MATLAB_ATTRS for n in ns)
        if not table:
            return ("struct", tuple((n, parse(obj[n], f, refs)) for n in ns))
        cols = [_deref(obj[n], f, refs) for n in ns]
        if len({c[0] for c in cols}) != 1:
            raise NotMatlab("fields of different shapes")
        return ("structarr", cols[0][0], tuple(ns), tuple(zip(*(c[1] for c in cols))))
    empty = "MATLAB_empty" in obj.attrs and int(obj.attrs["MATLAB_empty"]) == 1
    if empty:
        a = obj[...]
        if a.dtype != np.uint64 or a.ndim != 1 or not (a == 0).any():
            raise NotMatlab("an empty with %r" % (a,))
        shape = tuple(int(x) for x in a)
        if cls == "canonical empty":
            cls = "double"
        if cls == "struct":
            return ("emptystruct", shape, tuple(_fields(obj) or ()))
        if cls not in NP:
            raise NotMatlab("class %s" % cls)
        _int_decode(obj, cls, a.dtype, True)
        return ("empty", cls, shape)
    if obj.ndim < 2:
        raise NotMatlab("%s has %d dimensions" % (obj.name, obj.ndim))
    if cls == "cell":
        if h5py.check_dtype(ref=obj.dtype) is None:
            raise NotMatlab("a cell of %s" % obj.dtype)
        shape, items = _deref(obj, f, refs)
        return ("cell", shape, items)
    a = obj[...].T
    if cls == "char":
        _int_decode(obj, cls, a.dtype, False)
        if a.dtype.kind == "S":  # not ASCII, cannot be a MATLAB string
            return ("bytes", a)
        if a.dtype.newbyteorder("=") not in (np.uint16, np.uint32):
            raise NotMatlab("char of %s" % a.dtype)
        return ("char", a)
    if cls == "logical":
        _int_decode(obj, cls, a.dtype, False)
        if a.dtype != np.uint8 or (a > 1).any():
            raise NotMatlab("logical of %s" % a.dtype)
        return ("logical", a.astype(bool))
    if cls not in NP or cls == "struct":
        raise NotMatlab("a Dataset of class %s" % cls)
    if a.dtype.names is not None:
        if a.dtype.names != ("real", "imag"):
            raise NotMatlab("fields %r" % (a.dtype.names,))
        c = np.zeros(a.shape, {"f4": "c8", "f8": "c16"}[a.dtype["real"].newbyteorder("=").str[1:]])
        c.real, c.imag = a["real"], a["imag"]
        if CLASS[c.dtype.str[1:]] != cls:
            raise NotMatlab("%s of class %s" % (c.dtype, cls))
        return ("num", c)
    if CLASS.get(a.dtype.newbyteorder("=").str[1:]) != cls:
        raise NotMatlab("%s of class %s" % (a.dtype, cls))
    return ("num", a)


def _int_decode(obj, cls, d, empty):
    if cls not in ("char", "logical"):
        return
    v = obj.attrs.get("MATLAB_int_decode")
    if v is None or np.asarray(v).dtype.kind not in "iu" or np.asarray(v).ndim:
        raise NotMatlab("MATLAB_int_decode of %s is %r" % (cls, v))
    want = 1 if cls == "logical" or d.kind == "S" else d.itemsize
    if not empty and int(v) != want:
        raise NotMatlab("MATLAB_int_decode of %s %s is %r" % (cls, d, v))


def _deref(obj, f, refs):
    a = obj[...].T
    out = []
    for r in a.reshape(-1):
        x = f[r]
        if not x.name.startswith(refs + "/"):
            raise NotMatlab("reference to %s" % x.name)
        out.append(parse(x, f, refs))
    return a.shape, tuple(out)


def mcanon(m):
    """Comparable form of an M value."""
    from .canon import arrdata, dt
    k = m[0]
    if k in ("num", "logical", "char", "bytes"):
        d = dt(m[1].dtype) if k != "char" else "char"
        a = m[1].astype(np.uint32) if k == "char" else m[1]
        return (k, d, m[1].shape, arrdata(a))
    if k == "cell":
        return (k, m[1], tuple(mcanon(x) for x in m[2]))
    if k == "struct":
        return (k, tuple((n, mcanon(x)) for n, x in m[1]))
    if k == "structarr":
        return (k, m[1], m[2], tuple(tuple(mcanon(x) for x in e) for e in m[3]))
    return m


# ---------------------------------------------------------------- Python value -> M value

class Incompatible(Exception):
    pass


def from_value(v, o):
    """The MATLAB value a Python value stands for (escaped names; ``o`` full options)."""
    from . import model
    d = model.as_dict(v)
    if d is not None:
        kn = model.dict_keys(d, o)
        if kn is None:
            pairs = [(model.escape(o["dict_like_keys_name"]), tuple(d)),
                     (model.escape(o["dict_like_values_name"]), tuple(d.values()))]
        else:
            pairs = list(zip(kn[0], d.values()))
        pairs = [(n, from_value(x, o)) for n, x in pairs]
        if kn is None or not all(n.isascii() for n, _ in pairs):
            pairs.sort(key=lambda p: p[0])
        return ("struct", tuple(pairs))
    a = model.as_numpy(v)
    return from_numpy(a, o)


def two(a, o):
    if a.ndim == 1 and o["oned_as"] == "column":
        return a.reshape(-1, 1)
    return np.atleast_2d(a)


def from_numpy(a, o):
    from . import model
    b = np.asarray(a)
    t = a.dtype
    if t.names is not None:
        ns = [model.escape(n) for n in t.names]
        ascii_ = all(n.isascii() for n in ns)
        if t.type is np.record:
            b = b.view(np.dtype((np.void, b.dtype)), np.ndarray)
        b = two(b, o)
        if b.size == 0:
            return ("emptystruct", b.shape, tuple(ns) if ascii_ else ())
        order = list(range(len(ns)))
        if not ascii_:
            order.sort(key=lambda i: ns[i])
        els = [[from_value(e[t.names[i]], o) for i in order] for e in b.reshape(-1)]
        on = [ns[i] for i in order]
        if b.size == 1 or not on:
            return ("struct", tuple(zip(on, els[0] if els else ())))
        return ("structarr", b.shape, tuple(on), tuple(map(tuple, els)))
    k = t.kind
    if k == "O":
        b = two(b, o)
        if b.size == 0:
            return ("empty", "cell", b.shape)
        return ("cell", b.shape, tuple(from_value(x, o) for x in b.reshape(-1)))
    if k in "US":
        width = t.itemsize // (4 if k == "U" else 1)
        if a.size == 0 or width == 0:
            return ("empty", "char", (1, 0))
        content = a[:] if isinstance(a, np.generic) else None
        units = []
        for s in ([content] if content is not None else b.reshape(-1)):
            u = list(s) if k == "S" else [ord(c) for c in s]
            units.append(u + [0] * (width - len(u)))
        u = np.array(units, np.uint32).reshape((b.shape[:-1] if b.ndim else ()) + (-1,))
        if k == "S" and (u > 127).any():
            return ("bytes", np.atleast_2d(b) if b.ndim != 1 else two(b, o))
        return ("char", np.atleast_2d(u))
    if b.size == 0:
        cls = {"b": "logical"}.get(k) or CLASS.get(t.newbyteorder("=").str[1:])
        if cls is None:
            raise Incompatible(t)
        return ("empty", cls, two(b, o).shape)
    if k == "b":
        return ("logical", two(b, o))
    if t.newbyteorder("=").str[1:] not in CLASS:
        raise Incompatible(t)
    return ("num", two(b, o))
