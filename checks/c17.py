"""C17: the conversion utilities against Python's codecs and recursive definitions."""
import ast
import math

import h5py
import hdf5storage.utilities as U
import numpy as np
from hypothesis import strategies as st

from hx import core, values as V
from hx.canon import canon, diff
from hx.core import Sub, Violation, lib, raises

PROPERTY = "C17"
RULE = ("scalars: strings over all of Unicode (surrogates and nulls too) given as every supported type, byte order and "
        "layout, converted to every other and compared with Python's codecs. arrays: arrays of strings and bytes to "
        "code units and back. uints: arrays of unsigned integers (encoded strings, damaged ones, random) grouped to "
        "any length. complex: encode_complex and decode_complex compared with a model, bit for bit. dtypes: text "
        "round trip and predicates compared with recursive definitions. attrs: histories of setting attributes "
        "compared with h5py. types: unsupported values are refused. Inputs must come out unchanged. Non-trivial: "
        "distinct cases of non-empty input.")

ENC = {"uint8": "utf-8", "uint16": "utf-16", "uint32": "utf-32"}


def exact(got, want, what):
    d = diff(canon(got), canon(want))
    if d:
        raise Violation("%s: %s" % (what, d))


def bits(a):
    a = np.asarray(a)
    b = np.ascontiguousarray(a.astype(a.dtype.newbyteorder("="))).ravel().view(np.uint8)
    if a.dtype.char in "gG":  # 10 of 16 bytes are used
        b = b.reshape(-1, 16)[:, :10]
    return str(a.dtype.newbyteorder("=")), a.shape, b.tobytes()


def either(fn, want, what, *args, **kw):
    """``want`` is a value or an exception class; the exact type of values counts."""
    if isinstance(want, type) and issubclass(want, Exception):
        raises(want, fn, *args, **kw)
    else:
        exact(lib(fn, *args, **kw), want, what)


def attempt(fn):
    try:
        return fn()
    except UnicodeError:
        return UnicodeError


def then(f, x):
    return x if isinstance(x, type) else f(x)


# ------------------------------------------------------------------ scalars
FORMS = ["str", "np.str_", "bytes", "bytearray", "np.bytes_", "U", "S", "uint8", "uint16", "uint32", "one8", "one16",
         "one32"]


def make(text, form, order, lay):
    """The input in a form and its (str or exception) value, or None if it has no such form."""
    if form == "str":
        return text, text
    if form == "np.str_":
        return np.str_(text), text
    if form == "U":
        return np.array(text.rstrip("\0"), order + "U%d" % (len(text) + 1)), text.rstrip("\0")
    raw = text.encode("utf-8", "surrogatepass")
    dec = attempt(lambda: raw.decode("utf-8"))
    if form == "bytes":
        return raw, dec
    if form == "bytearray":
        return bytearray(raw), dec
    if form == "np.bytes_":
        return np.bytes_(raw), dec
    if form == "S":
        return np.array(raw.rstrip(b"\0"), "S%d" % (len(raw) + 1)), then(lambda x: x.rstrip("\0"), dec)
    if form.startswith("uint"):
        e = ENC[form] + ("" if form == "uint8" else "-be" if order == ">" else "-le")
        raw = text.encode(e, "surrogatepass")
        a = np.frombuffer(raw, np.dtype(form).newbyteorder(order))
        return V.relayout(a, lay), attempt(lambda: raw.decode(e, "strict"))
    t = np.dtype("uint" + form[3:]).type
    n = ord(text[0]) if text else 0
    if n > np.iinfo(t).max:
        return None
    if form == "one8":
        v = chr(n) if n < 128 else UnicodeError
    else:
        v = chr(n) if not 0xd800 <= n < 0xe000 else UnicodeError
    return t(n), v


def check_scalars(case, ctx):
    text, form, order, lay = case
    made = make(text, form, order, lay)
    if made is None:
        return None
    x, value = made
    before = canon(x)
    raw = then(lambda v: attempt(lambda: v.encode("utf-8")), value)
    kind = form.rstrip("0123456789")
    # To str
    got = attempt(lambda: lib_unicode(U.convert_to_str, x))
    if kind in "US":  # padding is kept
        got = then(lambda v: v.rstrip("\0"), got)
    if got is UnicodeError or value is UnicodeError:
        if got is not value:
            raise Violation("convert_to_str gave %s for %s" % (core.short(got), core.short(value)))
    elif type(got) is not str or got != value:
        raise Violation("convert_to_str gave %s for %s" % (core.short(got), core.short(value)))
    # To numpy.str_ (arrays of 32 bit code units may hold surrogates)
    want = value
    if form in ("uint32", "one32"):
        want = text if form == "uint32" else chr(ord(text[0]) if text else 0)
    if kind == "U":
        either(U.convert_to_numpy_str, x, "convert_to_numpy_str", x)
    elif kind == "S":
        either(U.convert_to_numpy_str, then(lambda v: np.array(v, "U%d" % x.dtype.itemsize), want),
               "convert_to_numpy_str", x)
    elif kind == "uint":
        either(U.convert_to_numpy_str, then(lambda v: np.array([v]), want), "convert_to_numpy_str", x)
    else:
        scalar(U.convert_to_numpy_str, np.str_, want, x)
    # To numpy.bytes_ (bytes are taken to be UTF-8 already)
    if form in ("bytes", "bytearray", "np.bytes_"):
        scalar(U.convert_to_numpy_bytes, np.bytes_, bytes(x), x)
    elif form == "S":
        either(U.convert_to_numpy_bytes, x, "convert_to_numpy_bytes", x)
    elif kind == "U":
        either(U.convert_to_numpy_bytes, then(lambda v: np.array(v, "S%d" % x.dtype.itemsize), raw),
               "convert_to_numpy_bytes", x)
    elif form == "uint8":
        either(U.convert_to_numpy_bytes, np.array([x.tobytes()], "S%d" % max(1, x.size)), "convert_to_numpy_bytes", x)
    elif kind == "uint":
        either(U.convert_to_numpy_bytes,
               then(lambda v: np.array([v], "S%d" % max(1, x.size, len(v))), raw), "convert_to_numpy_bytes", x)
    elif form == "one8":
        scalar(U.convert_to_numpy_bytes, np.bytes_, x.tobytes(), x)
    else:
        scalar(U.convert_to_numpy_bytes, np.bytes_, raw, x)
    # To code units
    if form == "np.str_":
        # NumPy takes trailing nulls for padding.
        e = attempt(lambda: text.rstrip("\0").encode("utf-16-le").ljust(2 * len(text), b"\0"))
        either(U.convert_numpy_str_to_uint16, then(lambda v: np.frombuffer(v, "<u2"), e), "to uint16", x)
        exact(lib(U.convert_numpy_str_to_uint32, x),
              np.frombuffer(text.encode("utf-32-le", "surrogatepass"), "<u4"), "to uint32")
    exact_same(x, before)
    return (text, form, order, lay) if text else None


def lib_unicode(fn, x):
    try:
        return fn(x)
    except UnicodeError:
        raise
    except Exception as e:
        raise Violation("unexpected %s: %s" % (type(e).__name__, e)) from e


def scalar(fn, t, want, x):
    if want is UnicodeError:
        raises(UnicodeError, fn, x)
        return
    got = lib(fn, x)
    plain = got.encode("utf-32", "surrogatepass").decode("utf-32", "surrogatepass") if t is np.str_ else \
        bytes.__add__(got, b"")
    if type(got) is not t or (plain != want and plain.rstrip(type(want)(b"\0") if t is np.bytes_ else "\0") !=
                              want.rstrip(b"\0" if t is np.bytes_ else "\0")):
        raise Violation("%s gave %s for %s" % (fn.__name__, core.short(got), core.short(want)))


def exact_same(x, before):
    d = diff(canon(x), before)
    if d:
        raise Violation("the input was changed: %s" % d)


@V.memo
def any_text():
    weird = st.sampled_from("\ud800\udbff\udc00\udfff\0\ufeff\ufffe\uffff\U00010000\U0010ffff\x80\x7f߿ࠀ")
    return V.pick(V.text(0, 8, trail=True), st.lists(weird, max_size=5).map("".join),
                  st.lists(V.pick(weird, V.chars()), max_size=6).map("".join),
                  st.text(st.characters(), max_size=6))


def scalars():
    return st.tuples(any_text(), st.sampled_from(FORMS), st.sampled_from("<>"), V.layouts)


# ------------------------------------------------------------------ arrays of strings
def units(s, enc):
    return s.encode(enc + "-le", "surrogatepass" if enc == "utf-32" else "strict")


def reference_units(a, enc):
    """Code units of an array of strings: rows of equally long null padded chunks."""
    size = {"utf-16": 2, "utf-32": 4}[enc]
    dt = "<u%d" % size
    if a.nbytes == 0:
        return np.zeros((0,), dt), 0
    b = np.atleast_1d(np.asarray(a))
    enc_items = [units(str(x), enc) for x in b.ravel()]
    width = max([a.dtype.itemsize // 4] + [len(x) // size for x in enc_items])
    flat = np.frombuffer(b"".join(x.ljust(width * size, b"\0") for x in enc_items), dt)
    return flat.reshape(b.shape[:-1] + (b.shape[-1] * width,)), width


def check_arrays(case, ctx):
    a, lay = case
    a = V.relayout(a, lay)
    items = np.asarray(a).ravel().tolist()  # character arrays strip whitespace
    before = canon(a)
    if a.dtype.kind == "U":
        for enc, fn in (("utf-16", U.convert_numpy_str_to_uint16), ("utf-32", U.convert_numpy_str_to_uint32)):
            want = attempt(lambda: reference_units(a, enc))
            if want is UnicodeError:
                raises(UnicodeEncodeError, fn, a)
                continue
            got = lib(fn, a)
            exact(got, want[0], fn.__name__)
            if type(got) is not np.ndarray:
                raise Violation("%s gave a %s" % (fn.__name__, type(got)))
            if a.nbytes:
                back = lib(U.convert_to_numpy_str, got, length=want[1])
                if back.shape != np.atleast_1d(a).shape or (back != np.atleast_1d(np.asarray(a))).any():
                    raise Violation("%s was not inverted: %s" % (fn.__name__, core.short(back)))
                d = V.relayout(got.astype(got.dtype.newbyteorder(">")), lay)
                exact(lib(U.convert_to_numpy_str, d, length=want[1]), back, "byte swapped units")
        want = attempt(lambda: [x.encode() for x in items])
        if want is UnicodeError:
            raises(UnicodeEncodeError, U.convert_to_numpy_bytes, a)
        else:
            got = lib(U.convert_to_numpy_bytes, a)
            exact(got, np.array(want, "S%d" % max(1, a.dtype.itemsize)).reshape(a.shape), "convert_to_numpy_bytes")
            same_text(lib(U.convert_to_numpy_str, got), a)
        if lib(U.convert_to_numpy_str, a) is not a:
            raise Violation("convert_to_numpy_str did not return the array unchanged")
    else:
        want = attempt(lambda: [x.decode() for x in items])
        if want is UnicodeError:
            raises(UnicodeDecodeError, U.convert_to_numpy_str, a)
        else:
            got = lib(U.convert_to_numpy_str, a)
            exact(got, np.array(want, "U%d" % max(1, a.dtype.itemsize)).reshape(a.shape), "convert_to_numpy_str")
            back = lib(U.convert_to_numpy_bytes, got)
            if back.shape != a.shape or back.ravel().tolist() != items:
                raise Violation("bytes came back as %s" % core.short(back))
        if lib(U.convert_to_numpy_bytes, a) is not a:
            raise Violation("convert_to_numpy_bytes did not return the array unchanged")
    exact_same(a, before)
    return (before, lay) if a.size else None


def same_text(got, a):
    if got.shape != a.shape or got.ravel().tolist() != np.asarray(a).ravel().tolist():
        raise Violation("strings came back as %s" % core.short(got))


@st.composite
def wide_strings(draw):
    items = [x.rstrip("\0") for x in draw(st.lists(any_text(), min_size=1, max_size=4))]
    sh = draw(V.shapes(0, 3, 3))
    w = max([len(x) for x in items] + [1]) + draw(st.integers(0, 2))
    return V._fill_cycle(items, np.dtype(draw(st.sampled_from("<>")) + "U%d" % w), sh)


def arrays():
    return st.tuples(V.pick(V.str_arrays(shape=V.shapes(0, 3, 3)), wide_strings(), V.chararrays()), V.layouts)


# ------------------------------------------------------------------ unsigned integers
def check_uints(case, ctx):
    a, lay, length = case
    a = V.relayout(a, lay)
    before = canon(a)
    name = a.dtype.name
    cols = a.shape[-1]
    if length is None:
        n, count = cols, 1
    elif length == cols:
        n, count = cols, 1
    elif length < 1 or cols % length:
        n = None
    else:
        n, count = length, cols // length
    if n is None:
        raises(ValueError, U.convert_to_numpy_str, a, length=length)
        raises(ValueError, U.convert_to_numpy_bytes, a, length=length)
        exact_same(a, before)
        return before, lay, length
    shape = a.shape[:-1] + (count,)
    big = a.dtype.str[0] == ">"
    enc = ENC[name] + ("" if name == "uint8" else "-be" if big else "-le")
    flat = a.ravel().tolist()
    k = int(np.prod(shape))
    step = a.dtype.itemsize
    raws = [b"".join(v.to_bytes(step, "big" if big else "little") for v in flat[i * n:i * n + n]) for i in range(k)]
    want = attempt(lambda: [r.decode(enc, "surrogatepass" if name == "uint32" else "strict") for r in raws])
    if want is UnicodeError:
        raises(UnicodeError, U.convert_to_numpy_str, a, length=length)
    else:
        got = lib(U.convert_to_numpy_str, a, length=length)
        texts(got, shape, [x.rstrip("\0") for x in want], "U")
    want = raws if name == "uint8" else attempt(lambda: [r.decode(enc).encode() for r in raws])
    if want is UnicodeError:
        raises(UnicodeError, U.convert_to_numpy_bytes, a, length=length)
    else:
        got = lib(U.convert_to_numpy_bytes, a, length=length)
        texts(got, shape, [x.rstrip(b"\0") for x in want], "S")
        if k and n:
            if got.dtype.itemsize < n:
                raise Violation("bytes of length %d are too short" % got.dtype.itemsize)
            got[...] = b"?"  # must not alias the input
    want = attempt(lambda: b"".join(raws).decode(enc))
    if want is UnicodeError:
        raises(UnicodeError, U.convert_to_str, a)
    elif lib(U.convert_to_str, a) != want:
        raise Violation("convert_to_str gave %s for %s" % (core.short(U.convert_to_str(a)), core.short(want)))
    exact_same(a, before)
    ctx.label(name)
    return (before, lay, length) if a.size else None


def texts(got, shape, want, kind):
    if type(got) is not np.ndarray or got.dtype.kind != kind or got.shape != shape:
        raise Violation("gave %s %s instead of shape %s" % (type(got), core.short(got), shape))
    if [x for x in got.ravel().tolist()] != want:
        raise Violation("gave %s for %s" % (core.short(got), core.short(want)))


@st.composite
def uint_arrays(draw):
    name = draw(st.sampled_from(sorted(ENC)))
    order = draw(st.sampled_from("<>")) if name != "uint8" else "<"
    enc = ENC[name] + ("" if name == "uint8" else "-be" if order == ">" else "-le")
    dt = np.dtype(name).newbyteorder(order)
    pre = draw(V.shapes(0, 2, 3))
    count = draw(st.integers(0, 3))
    strs = draw(st.lists(any_text(), min_size=1, max_size=4))
    pieces = [s.encode(enc, "surrogatepass") for s in strs]
    width = max(len(p) for p in pieces) // dt.itemsize + draw(st.sampled_from([0, 0, 0, 1]))
    pieces = [p.ljust(width * dt.itemsize, b"\0") for p in pieces]
    total = int(np.prod(pre)) * count
    a = np.frombuffer(b"".join(pieces[i % len(pieces)] for i in range(total)), dt).copy()
    if a.size and draw(st.integers(0, 3)) == 0:
        a[draw(st.integers(0, a.size - 1))] = draw(st.integers(0, 2 ** (8 * dt.itemsize) - 1))
    a = a.reshape(pre + (count * width,))
    cols = a.shape[-1]
    length = draw(V.pick(st.just(width), st.none(), st.integers(-1, 8),
                         st.sampled_from([d for d in range(1, cols + 1) if cols % d == 0] or [cols])))
    return a, draw(V.layouts), length


# ------------------------------------------------------------------ complex
REAL, IMAG = ("r", "re", "real"), ("i", "im", "imag", "imaginary")


def names_model(fields, names):
    """The real and imaginary field, or None."""
    if len(fields) != 2:
        return None
    if None not in names and set(names) == set(fields):
        return tuple(names)
    pick = list(names)
    for s in fields:
        if s.lower() in REAL:
            pick[0] = s
        elif s.lower() in IMAG:
            pick[1] = s
    return tuple(pick) if set(pick) == set(fields) else None


def check_complex(case, ctx):
    a, lay, names, dnames, scalar_ = case
    if scalar_:
        if a.size == 0:
            return None
        a = a.ravel()[0]
    else:
        a = V.relayout(a, lay)
    before = canon(a)
    e = lib(U.encode_complex, a, tuple(names))
    half = np.dtype("f%d" % (a.dtype.itemsize // 2))
    if e.dtype.names != tuple(names) or e.shape != a.shape:
        raise Violation("encoded as %s %s" % (e.dtype, e.shape))
    for n, part in zip(names, (a.real, a.imag)):
        if e.dtype[n].newbyteorder("=") != half:
            raise Violation("encoded with parts %s" % e.dtype)
        if bits(e[n]) != bits(part):
            raise Violation("part %s was encoded as %s" % (n, core.short(e[n])))
    exact_same(a, before)
    want = names_model(list(names), tuple(dnames))
    d = lib(U.decode_complex, e, tuple(dnames))
    if want is None:
        if d is not e:
            raise Violation("was not returned unchanged: %s" % core.short(d))
    else:
        w = np.zeros(a.shape, a.dtype.newbyteorder("="))
        i = list(names).index(want[0])
        w.real, w.imag = ((a.real, a.imag) if i == 0 else (a.imag, a.real))
        if bits(d) != bits(w) or isinstance(d, np.generic) != bool(scalar_):
            raise Violation("decoded as %s" % core.short(d))
    return before, lay, tuple(names), tuple(dnames)


def near_names():
    return st.sampled_from(["r", "i", "re", "im", "real", "imag", "imaginary", "R", "Im", "REAL", "Imaginary", "x",
                            "y", "", " r", "é", "I", "Re"])


@st.composite
def complexes(draw):
    d = np.dtype(draw(st.sampled_from(["<c8", ">c8", "<c16", ">c16", "<c32", ">c32"])))
    a = draw(V.num_arrays(dtypes=st.just(d), shape=V.shapes(0, 3, 3)))
    names = draw(st.lists(near_names().filter(bool), min_size=2, max_size=2, unique=True))
    dn = draw(V.pick(st.just(names), st.just((None, None)), st.just(names[::-1]),
                     st.tuples(V.pick(st.none(), near_names()), V.pick(st.none(), near_names()))))
    return a, draw(V.layouts), names, dn, draw(st.integers(0, 3)) == 0


def check_decode(case, ctx):
    a, dnames, scalar_ = case
    if scalar_:
        if a.size == 0:
            return None
        a = a.ravel()[0]
    before = canon(a)
    d = lib(U.decode_complex, a, tuple(dnames))
    want = names_model(list(a.dtype.names), tuple(dnames)) if a.dtype.names else None
    if want and not all(a.dtype[n].kind in "biuf" for n in want):
        want = None
    if want is None:
        if d is not a:
            raise Violation("was not returned unchanged: %s" % core.short(d))
    else:
        ctx.label("decoded")
        re, im = a[want[0]], a[want[1]]
        ct = np.result_type(re.dtype, im.dtype, np.complex64)
        w = np.zeros(np.shape(re), ct)
        w.real, w.imag = re, im
        if bits(d) != bits(w) or isinstance(d, np.generic) != bool(scalar_):
            raise Violation("decoded as %s instead of %s" % (core.short(d), core.short(w)))
    exact_same(a, before)
    return before, tuple(dnames)


@st.composite
def decodables(draw):
    if draw(st.integers(0, 9)) == 0:
        a = draw(V.num_arrays())
    else:
        n = draw(st.sampled_from([2, 2, 2, 2, 1, 3]))
        names = draw(st.lists(near_names().filter(bool), min_size=n, max_size=n, unique=True))
        d = np.dtype([(x, draw(V.pick(V.num_dtypes(), st.sampled_from(
            [np.dtype("f8"), np.dtype("S3"), np.dtype("c8"), np.dtype("?"), np.dtype(">f4")])))) for x in names])
        a = draw(V.fill_any(d, draw(V.shapes(0, 3, 3))))
        if draw(st.booleans()) and a.ndim:
            a = a.view(np.recarray)
    fields = list(a.dtype.names or ())
    dn = draw(V.pick(st.just((None, None)), st.just(tuple(fields[:2]) if len(fields) >= 2 else (None, "i")),
                     st.just(tuple(fields[1::-1]) if len(fields) >= 2 else ("r", None)),
                     st.tuples(V.pick(st.none(), near_names()), V.pick(st.none(), near_names()))))
    return a, dn, draw(st.integers(0, 3)) == 0


# ------------------------------------------------------------------ dtypes
def build(spec):
    """A dtype from a plain description (dtypes with types other than void do not pickle well)."""
    kind = spec[0]
    if kind == "plain":
        return np.dtype(spec[1])
    if kind == "sub":
        return np.dtype((build(spec[1]), spec[2]))
    fields, align, record, gap, titles = spec[1:]
    d = {"names": [n for n, _ in fields], "formats": [build(s) for _, s in fields]}
    if titles:
        d["titles"] = ["t" + n for n in d["names"]]
    if gap is not None and fields:
        off, offs = 0, []
        for f in d["formats"]:
            offs.append(off)
            off += f.itemsize + gap
        d["offsets"], d["itemsize"] = offs, off
        align = False
    out = np.dtype(d, align=align)
    return np.dtype((np.record, out)) if record else out


def spec_zero(spec):
    if spec[0] == "plain":
        return False
    if spec[0] == "sub":
        return 0 in spec[2] or spec_zero(spec[1])
    return any(spec_zero(s) for _, s in spec[1])


def spec_unicode(spec):
    if spec[0] == "plain":
        return "U" in spec[1]
    if spec[0] == "sub":
        return spec_unicode(spec[1])
    return any(spec_unicode(s) for _, s in spec[1])


def layout(d):
    """Everything about a dtype but the type of its scalars."""
    if d.subdtype is not None:
        return "sub", layout(d.base), d.shape
    if d.names is None:
        return d.str
    return ([(n, layout(d.fields[n][0])) + tuple(d.fields[n][1:]) for n in d.names], d.itemsize)


def check_dtypes(case, ctx):
    d = build(case)
    s = lib(U.convert_dtype_to_str, d)
    if type(s) is not str:
        raise Violation("gave a %s" % type(s))
    back = lib(lambda: np.dtype(ast.literal_eval(s)))
    if back != d or layout(back) != layout(d):
        raise Violation("%r became %s and then %r" % (d, s, back))
    z = lib(U.does_dtype_have_a_zero_shape, d)
    if z is not spec_zero(case):
        raise Violation("does_dtype_have_a_zero_shape(%r) is %r" % (d, z))
    u = lib(U.does_dtype_have_unicode, d)
    if u is not spec_unicode(case):
        raise Violation("does_dtype_have_unicode(%r) is %r" % (d, u))
    ctx.label("zero" if z else "not zero")
    return repr(case)


@V.memo
def dtype_specs():
    plain = st.sampled_from(["?", "<i1", "<u2", ">i4", "<i8", "<f2", ">f4", "<f8", "<c8", ">c16", "<f16", "<c32",
                             "S1", "S5", "<U1", ">U3", "<U7", "V1", "V6", "O", "<M8[ns]", ">m8[3D]", "<M8", "S0",
                             "<U0", "V0"]).map(lambda s: ("plain", s))
    name = V.pick(st.sampled_from(["a", "b", "real", "x y", "é", "(numpy.record, ", "\"'", "\\", "0", "\n", "["]),
                  V.text(1, 4, nul=False))
    shape = V.pick(st.lists(st.integers(1, 3), max_size=3), st.lists(st.integers(0, 3), max_size=3)).map(tuple)

    def some(x):
        fields = st.lists(st.tuples(name, x), max_size=3, unique_by=lambda t: t[0])
        return V.pick(st.tuples(st.just("sub"), x, shape),
                      st.tuples(st.just("fields"), fields, st.booleans(), st.sampled_from([False, False, True]),
                                V.pick(st.none(), st.none(), st.integers(0, 3)),
                                st.sampled_from([False, False, False, True])))
    return st.recursive(plain, some, max_leaves=6).filter(sound)


def sound(spec):
    """NumPy itself has to be able to make it, and to describe it (its str of aligned dtypes having structures without
    fields in them divides by zero)."""
    if fieldless_in_aligned(spec, False):
        return False
    try:
        d = build(spec)
        np.zeros((), d)
    except (ValueError, TypeError):
        return False
    if spec_zero_sized_flex(spec):
        return False
    return True


def fieldless_in_aligned(spec, aligned):
    if spec[0] == "plain":
        return False
    if spec[0] == "sub":
        return fieldless_in_aligned(spec[1], aligned)
    aligned = aligned or spec[2]
    return aligned and not spec[1] or any(fieldless_in_aligned(s, aligned) for _, s in spec[1])


def spec_zero_sized_flex(spec):
    """Strings without length as subarrays or fields are of any length in NumPy."""
    if spec[0] == "plain":
        return False
    inner = [spec[1]] if spec[0] == "sub" else [s for _, s in spec[1]]
    return any(s in (("plain", "S0"), ("plain", "<U0"), ("plain", "V0")) or spec_zero_sized_flex(s) for s in inner)


# ------------------------------------------------------------------ attributes
def attr_value(kind, v):
    if kind == "string":
        return np.bytes_(v.encode()) if isinstance(v, str) else np.bytes_(bytes(v))
    return v


def check_attrs(case, ctx):
    steps, group = case
    f = h5py.File(ctx.file("a.h5"), "w")
    try:
        made = [f.create_group(n) if group else f.create_dataset(n, data=np.arange(3)) for n in ("x", "y")]
        a, b = made[0].attrs, made[1].attrs
        for attributes, discard in steps:
            lib(U.set_attributes_all, made[0], {k: (kind, v) for k, kind, v in attributes}, discard_others=discard)
            if discard:
                for k in list(b):
                    if k not in [t[0] for t in attributes]:
                        del b[k]
            for k, kind, v in attributes:
                if kind == "string_array":
                    b.create(k, [x if isinstance(x, str) else bytes(x).decode() for x in v],
                             dtype=h5py.special_dtype(vlen=str))
                else:
                    b.create(k, attr_value(kind, v))
            out = {"kept": 1}
            lib(U.read_all_attributes_into, a, out)
            if out.pop("kept") != 1 or sorted(out) != sorted(b):
                raise Violation("has attributes %s instead of %s" % (sorted(out), sorted(b)))
            for k in b:
                if a.get_id(k).dtype != b.get_id(k).dtype or a.get_id(k).shape != b.get_id(k).shape:
                    raise Violation("attribute %s is stored as %s %s instead of %s %s" % (
                        k, a.get_id(k).dtype, a.get_id(k).shape, b.get_id(k).dtype, b.get_id(k).shape))
                d = diff(canon(out[k]), canon(b[k]))
                if d:
                    raise Violation("attribute %s: %s" % (k, d))
            for k, kind, v in attributes:
                if kind == "string":
                    w = v if isinstance(v, str) else attempt(bytes(v).decode)
                    if w is not UnicodeError and lib(U.convert_attribute_to_string, out[k]) != w:
                        raise Violation("string %s reads as %r" % (k, U.convert_attribute_to_string(out[k])))
                elif kind == "string_array":
                    w = [x if isinstance(x, str) else bytes(x).decode() for x in v]
                    if lib(U.convert_attribute_to_string_array, out[k]) != w:
                        raise Violation("strings %s read as %r" % (k, U.convert_attribute_to_string_array(out[k])))
                elif lib(U.convert_attribute_to_string, out[k]) is not None:
                    raise Violation("%r taken for a string" % (out[k],))
    finally:
        f.close()
    if U.convert_attribute_to_string(None) is not None or U.convert_attribute_to_string_array(None) is not None:
        raise Violation("None is not kept")
    return repr(steps), group


@V.memo
def attr_steps():
    text = V.text(0, 6, nul=False).map(lambda s: s.rstrip("\0"))
    full = V.text(1, 6, nul=False)
    strs = V.pick(full, full.map(np.str_), full.map(lambda s: s.encode()), full.map(lambda s: np.bytes_(s.encode())))
    items = V.pick(text, text.map(lambda s: s.encode()), full.map(np.str_), full.map(lambda s: np.bytes_(s.encode())))
    vals = V.pick(V.num_arrays(dtypes=V.num_dtypes(big=False), shape=V.shapes(0, 2, 3)), st.integers(0, 255).map(np.uint8),
                  st.integers(0, 9).map(np.int64), st.lists(st.integers(0, 5), min_size=1, max_size=3).map(
                      lambda x: np.uint64(x)))
    name = st.sampled_from(["Python.Type", "MATLAB_fields", "H5PATH", "a", "b", "Python.Shape", "é"])
    one = V.pick(st.tuples(name, st.just("string"), strs),
                 st.tuples(name, st.just("string_array"), st.lists(items, min_size=1, max_size=3)),
                 st.tuples(name, st.just("value"), vals))
    return st.tuples(st.lists(st.tuples(st.lists(one, max_size=4, unique_by=lambda t: t[0]), st.booleans()),
                              min_size=1, max_size=4), st.booleans())


# ------------------------------------------------------------------ wrong types
def check_types(case, ctx):
    for fn in (U.convert_to_str, U.convert_to_numpy_str, U.convert_to_numpy_bytes):
        kind = getattr(getattr(case, "dtype", None), "kind", "")
        if kind in "US" and kind:
            continue
        raises(TypeError, fn, case)
    for fn in (U.convert_dtype_to_str,):
        raises(TypeError, fn, case)
    raises(TypeError, U.read_all_attributes_into, case, {})
    return canon(case)


@V.memo
def wrong_types():
    bad = V.num_arrays(shape=V.shapes(0, 2, 2)).filter(lambda a: a.dtype.name not in ENC)
    return V.pick(V.py_scalars().filter(lambda x: not isinstance(x, (str, bytes, bytearray))), bad,
                  V.np_scalars().filter(lambda x: x.dtype.name not in ENC and x.dtype.kind not in "SU"),
                  V.struct_arrays(), V.void_arrays(), V.void_scalars(), st.lists(V.text(0, 2), max_size=2),
                  st.dictionaries(V.text(0, 2), st.integers(), max_size=2),
                  st.lists(st.integers(0, 9), min_size=1, max_size=2).map(V.obj_array))


SUBS = [
    Sub("scalars", scalars, check_scalars, 30000),
    Sub("arrays", arrays, check_arrays, 8000),
    Sub("uints", uint_arrays, check_uints, 12000),
    Sub("complex", complexes, check_complex, 8000),
    Sub("decode", decodables, check_decode, 6000),
    Sub("dtypes", dtype_specs, check_dtypes, 12000),
    Sub("attrs", attr_steps, check_attrs, 6000),
    Sub("types", wrong_types, check_types, 4000),
]
