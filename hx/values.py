"""Strategies for the values the library documents as supported.

Every strategy yields plain picklable values.  Memory layout (strides, order, writability) does
not survive pickling, so it is a separate integer in the case, applied by ``relayout``.
"""
import collections
import datetime
import fractions
import functools
import string

import numpy as np
from hypothesis import strategies as st

def pick(*strategies):
    """One of the strategies, equally likely (one_of merges nested alternatives)."""
    return st.sampled_from(range(len(strategies))).flatmap(lambda i: strategies[i])


# ---------------------------------------------------------------- text
ASCII = string.ascii_letters + string.digits + " _-+*()[]{}<>=!?,;:'\"#$%&@^|~`"
SPECIAL = "/\\.\t\n\r\x01\x7f"
BMP = "éßÿĀαβγΩ٣中文字한‰€☃ﬀ퟿\ue000\ufeff\ufffd\uffff\x80\xa0"
ASTRAL = "😀🜁𝄞\U00010000\U0010ffff"


def chars(bmp=True, astral=True, nul=True, special=True):
    pool = [st.sampled_from(ASCII), st.sampled_from(ASCII)]
    if special:
        pool.append(st.sampled_from(SPECIAL))
    if bmp:
        pool += [st.sampled_from(BMP), st.characters(max_codepoint=0xFFFF, exclude_categories=("Cs",),
                                                     exclude_characters="\0")]
    if astral:
        pool += [st.sampled_from(ASTRAL)]
    if nul:
        pool.append(st.just("\0"))
    return st.one_of(pool)


_C_ALL = chars()
_C_NONUL = chars(nul=False)
_C_ASCII = st.sampled_from(ASCII + SPECIAL)


def _str(c, min_size, max_size):
    """Strings over a weighted mix of characters (st.text would merge the mix into one alphabet)."""
    return st.lists(c, min_size=min_size, max_size=max_size).map("".join)


def _rstrip(s):
    z = "\0" if isinstance(s, str) else b"\0"
    return s.rstrip(z)


def text(min_size=0, max_size=8, nul=True, trail=False):
    """str values.  NumPy arrays cannot hold strings with trailing NULs, so these have none
    unless ``trail``."""
    c = _C_ALL if nul else _C_NONUL
    s = st.one_of(
        st.text(st.sampled_from(ASCII), min_size=min_size, max_size=max_size),
        _str(_C_ASCII, min_size, max_size),
        _str(c, min_size, max_size),
        _str(c, min_size, max_size),
    )
    if min_size == 0 and max_size >= 8:
        s = pick(s, s, s, s, s, s, s, s, s, s, s, st.builds(lambda x, n: x * n, s, st.sampled_from([15, 40, 300])))
    if not trail:
        s = s.map(_rstrip)
    return s if min_size == 0 else s.filter(lambda x: len(x) >= min_size)


def bytestr(min_size=0, max_size=8, trail=False):
    s = st.one_of(
        _str(_C_ASCII, min_size, max_size).map(lambda x: x.encode()),
        st.binary(min_size=min_size, max_size=max_size),
        _str(_C_ALL, min_size, max_size).map(lambda x: x.encode("utf-8")),
    )
    if min_size == 0 and max_size >= 8:
        s = pick(s, s, s, s, s, s, s, s, s, s, s, st.builds(lambda x, n: x * n, s, st.sampled_from([15, 40, 300])))
    if not trail:
        s = s.map(_rstrip)
    return s if min_size == 0 else s.filter(lambda x: len(x) >= min_size)


surrogates = st.lists(st.sampled_from(["\ud800", "\udfff", "a", "\ud83d", "\ude00", "\u0100"]),
                      min_size=1, max_size=4).map("".join)

# ---------------------------------------------------------------- Python scalars
EDGE_INTS = [0, 1, -1, 2, 127, 128, 255, 256, -128, -129, 2**15, 2**16, 2**31 - 1, 2**31, -(2**31),
             2**32, 2**53 + 1, 2**63 - 1, 2**63, -(2**63), -(2**63) - 1, 2**64 - 1, 2**64, 10**30,
             -(10**25), 2**200]
ints = st.one_of(st.sampled_from(EDGE_INTS), st.integers(-1000, 1000), st.integers(-(2**70), 2**70),
                 st.integers(-(2**63), 2**63 - 1))
small_ints = st.one_of(st.sampled_from([x for x in EDGE_INTS if abs(x) < 2**62]),
                       st.integers(-1000, 1000))
EDGE_FLOATS = [0.0, -0.0, 1.0, -1.5, 1e-310, 5e-324, 1.7976931348623157e308, float("inf"),
               float("-inf"), float("nan"), 3.4e38, 1e-45, 65504.0, 0.1]
floats = st.one_of(st.sampled_from(EDGE_FLOATS), st.floats())
complexes = st.builds(complex, floats, floats)


def timezones():
    off = st.one_of(
        st.integers(-86399, 86399).map(lambda s: datetime.timedelta(seconds=s)),
        st.sampled_from([datetime.timedelta(0), datetime.timedelta(hours=5, minutes=30),
                         -datetime.timedelta(hours=8),
                         datetime.timedelta(seconds=-1, microseconds=999999),
                         datetime.timedelta(hours=1, microseconds=5)]))
    return st.one_of(
        off.map(datetime.timezone),
        st.builds(lambda o, n: datetime.timezone(o, n), off, text(0, 5)),
        st.just(datetime.timezone.utc))


tz_or_none = st.one_of(st.none(), timezones())
timedeltas = st.one_of(
    st.timedeltas(),
    st.sampled_from([datetime.timedelta(0), datetime.timedelta.max, datetime.timedelta.min,
                     datetime.timedelta(microseconds=-1), datetime.timedelta.resolution]))
dates = st.one_of(st.dates(), st.sampled_from([datetime.date.min, datetime.date.max]))
times = st.builds(lambda t, z: t.replace(tzinfo=z), st.times(), tz_or_none)
datetimes = st.builds(lambda t, z: t.replace(tzinfo=z),
                      st.one_of(st.datetimes(),
                                st.sampled_from([datetime.datetime.min, datetime.datetime.max])),
                      tz_or_none)
none_ints = st.one_of(st.none(), ints)
slices = st.builds(slice, none_ints, none_ints, none_ints)
ranges = st.builds(lambda a, b, c: range(a, b, c or 1), ints, ints, ints)
fracs = st.builds(lambda n, d: fractions.Fraction(n, d or 1), ints, ints)

# ---------------------------------------------------------------- dtypes
NUM = ["b1", "u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f4", "f8", "c8", "c16"]
NUM_ALL = NUM + ["f2"]


def num_dtypes(f2=True, big=True):
    base = st.sampled_from(NUM_ALL if f2 else NUM)
    if not big:
        return base.map(np.dtype)
    return st.builds(lambda b, o: np.dtype(o + b) if b not in ("b1", "u1", "i1") else np.dtype(b),
                     base, st.sampled_from("<<<>"))


FIELD_NAMES = ["a", "b", "c", "x1", "real", "imag", "Field", "keys", "é", "α", "a b", "a/b", ".h",
               "..", "a\\b", "data", "shape", "_", "z", "a.b", "中", "title", "n" * 40]


def field_names(max_size=3, min_size=1):
    return st.lists(st.one_of(st.sampled_from(FIELD_NAMES), st.sampled_from(FIELD_NAMES[:6]),
                              text(1, 4, nul=False)),
                    min_size=min_size, max_size=max_size, unique=True)


def sub_shape():
    return st.one_of(st.just(()), st.just(()), st.just(()), st.just((2,)), st.just((1,)),
                     st.just((2, 3)), st.just((3, 1, 2)))


# ---------------------------------------------------------------- arrays
def shapes(min_dims=0, max_dims=4, max_side=4, zero=True):
    return st.lists(st.integers(0, max_side) if zero else st.integers(1, max_side),
                    min_size=min_dims, max_size=max_dims).map(tuple)


def common_shapes(zero=True):
    fixed = [(), (1,), (3,), (2, 3), (1, 4), (4, 1), (2, 3, 4), (1, 1), (1, 1, 1), (2, 2)]
    if zero:
        fixed += [(0,), (0, 0), (1, 0), (0, 3), (2, 0, 3)]
    far = [(257,), (1,) * 7, (2, 1, 1, 2, 1, 1, 1, 1), (300, 1)]
    if zero:
        far += [(0, 300), (300, 0), (0, 70000), (256, 0, 1), (0,) * 5]
    usual = st.sampled_from(fixed)
    return pick(usual, usual, shapes(zero=zero, max_side=3), shapes(zero=zero, max_side=3),
                usual, shapes(zero=zero, max_side=3), st.sampled_from(far))


def num_element(d):
    d = np.dtype(d)
    k = d.kind
    if k == "b":
        return st.booleans()
    if k in "iu":
        info = np.iinfo(d)
        return st.one_of(st.sampled_from([info.min, info.max, 0, 1]),
                         st.integers(int(info.min), int(info.max)))
    if k == "f":
        return floats
    if k == "c":
        return complexes
    raise ValueError(d)


def fill_num(d, shape, elems, ramp):
    n = int(np.prod(shape))
    with np.errstate(all="ignore"):
        if d.kind == "b":
            a = (np.arange(n) * 7 % 5 < 2) if ramp else np.zeros(n, bool)
            a = a.astype(d)
        elif ramp:
            a = np.arange(1, n + 1).astype(d)
            if d.kind == "c":
                a = (a + 1j * (np.arange(n) + 100)).astype(d)
        else:
            a = np.zeros(n, d)
        for i, e in enumerate(elems):
            if n:
                a[(i * 5) % n] = e
    return a.reshape(shape)


@st.composite
def num_arrays(draw, dtypes=None, shape=None):
    d = draw(dtypes if dtypes is not None else num_dtypes())
    sh = draw(shape if shape is not None else common_shapes())
    elems = draw(st.lists(num_element(d), max_size=4))
    return fill_num(d, sh, elems, draw(st.booleans()))


def _fill_cycle(items, d, shape):
    n = int(np.prod(shape))
    a = np.zeros(n, d)
    for i in range(n):
        a[i] = items[i % len(items)] if items else a[i]
    return a.reshape(shape)


@st.composite
def str_arrays(draw, shape=None, kind=None, pad=True, big=True, nul=True):
    kind = kind or draw(st.sampled_from("US"))
    sh = draw(shape if shape is not None else common_shapes())
    items = draw(st.lists(text(0, 5, nul=nul) if kind == "U" else bytestr(0, 5),
                          min_size=1, max_size=4))
    longest = max([len(x) for x in items] + [1])
    width = longest + (draw(st.integers(0, 3)) if pad else 0)
    if pad and draw(st.integers(0, 15)) == 3:
        width += draw(st.sampled_from([20, 63, 100, 250, 300]))
    order = draw(st.sampled_from("<<<>")) if kind == "U" and big else ""
    return _fill_cycle(items, np.dtype("%s%s%d" % (order, kind, width)), sh)


@st.composite
def void_arrays(draw, shape=None):
    sh = draw(shape if shape is not None else common_shapes())
    w = draw(st.one_of(st.integers(1, 9), st.integers(1, 9), st.sampled_from([16, 33, 100, 300])))
    items = draw(st.lists(st.binary(min_size=min(w, 9), max_size=min(w, 9)), min_size=1, max_size=3))
    items = [(x * 40)[:w] for x in items]
    return _fill_cycle([np.void(x) for x in items], np.dtype("V%d" % w), sh)


@st.composite
def struct_dtypes(draw, depth=1, f2=True, strings=True, big=True, min_fields=1):
    if draw(st.integers(0, 15)) == 7:  # as h5py stores complex numbers
        d = draw(num_dtypes(f2=f2, big=big))
        return np.dtype([("r", d), ("i", d)])
    names = draw(field_names(3, min_fields))
    out = []
    for n in names:
        r = draw(st.integers(0, 9))
        if depth and r == 0:
            d = draw(struct_dtypes(depth=depth - 1, f2=f2, strings=strings, big=big))
        elif strings and r in (1, 2):
            d = np.dtype("%s%d" % (draw(st.sampled_from("US" if strings is True else strings)),
                                   draw(st.integers(1, 5))))
        else:
            d = draw(num_dtypes(f2=f2, big=big))
        out.append((n, d, draw(sub_shape())))
    return np.dtype(out)


@st.composite
def fill_any(draw, d, shape, salt=0):
    """An array of dtype ``d`` (any kind but object) with drawn contents."""
    if d.subdtype is not None:
        base, sub = d.subdtype
        return draw(fill_any(base, tuple(shape) + tuple(sub), salt))
    if d.names is not None:
        a = np.zeros(shape, d)
        for i, n in enumerate(d.names):
            sub = d.fields[n][0]
            a[n] = draw(fill_any(sub, shape, salt + 17 * (i + 1)))
        return a
    if d.kind == "U":
        w = d.itemsize // 4
        return _fill_cycle(draw(st.lists(text(0, w), min_size=1, max_size=3)), d, shape)
    if d.kind == "S":
        return _fill_cycle(draw(st.lists(bytestr(0, d.itemsize), min_size=1, max_size=3)), d, shape)
    if d.kind == "V":
        w = d.itemsize
        return _fill_cycle([np.void(x) for x in draw(st.lists(
            st.binary(min_size=w, max_size=w), min_size=1, max_size=3))], d, shape)
    elems = draw(st.lists(num_element(d), max_size=2))
    a = fill_num(d, shape, elems, True)
    return a


@st.composite
def struct_arrays(draw, shape=None, dtypes=None):
    d = draw(dtypes if dtypes is not None else struct_dtypes())
    sh = draw(shape if shape is not None else st.sampled_from(
        [(), (1,), (3,), (2, 2), (1, 2), (2, 1, 3), (0,), (0, 2), (1, 1), (1, 1, 1), (2, 1), (1, 1, 1, 1)]))
    return draw(fill_any(d, sh))


@st.composite
def families(draw, n):
    """``n`` arrays or NumPy scalars that are alike except that (some) differ in a single aspect."""
    d = draw(num_dtypes())
    sh = draw(st.sampled_from([(), (1,), (3,), (2, 2), (1, 1), (2, 3)]))
    a = fill_num(d, sh, draw(st.lists(num_element(d), max_size=3)), True)
    out = [np.roll(a, i) if i % 2 else a.copy() for i in range(n)]
    k = draw(st.integers(0, 6))
    for i in draw(st.lists(st.integers(0, n - 1), max_size=2, unique=True)):
        x = out[i]
        with np.errstate(all="ignore"):
            out[i] = [lambda: x.reshape(x.shape + (1,)), lambda: x[..., :1] if x.ndim else x,
                      lambda: x.reshape(x.shape[::-1]), lambda: x.astype(d.newbyteorder()),
                      lambda: x.real.astype("f8"), lambda: list(x.reshape(-1)), lambda: x.reshape(-1)[0]][k]()
    return out


@st.composite
def obj_arrays(draw, elems, shape=None, max_elems=6):
    sh = draw(shape if shape is not None else st.sampled_from(
        [(), (1,), (2,), (3,), (2, 2), (1, 3), (0,), (2, 0), (1, 1), (2, 1, 2), (6,)]))
    n = int(np.prod(sh))
    if n > 1 and draw(st.integers(0, 5)) == 3:
        items = draw(families(min(n, max_elems)))
    else:
        items = draw(st.lists(elems, min_size=min(n, 1), max_size=min(n, max_elems)))
    a = np.zeros(n, object)
    for i in range(n):
        a[i] = items[i % len(items)]
    return a.reshape(sh)


@st.composite
def obj_struct_arrays(draw, elems):
    """Structured arrays with at least one object field."""
    names = draw(field_names(3, 1))
    dts, vals = [], {}
    sh = draw(st.sampled_from([(1,), (2,), (2, 2), (3,), (1, 1, 1), (2, 1), (1, 2, 2), (5,)]))
    n = int(np.prod(sh))
    for i, nm in enumerate(names):
        if i == 0 or draw(st.booleans()):
            dts.append((nm, object))
            vals[nm] = draw(families(n) if draw(st.booleans()) else st.lists(elems, min_size=n, max_size=n))
        else:
            d = draw(num_dtypes())
            dts.append((nm, d))
            vals[nm] = list(draw(fill_any(d, (n,))))
    a = np.zeros(n, dts)
    for nm in names:
        for i in range(n):
            a[nm][i] = vals[nm][i]
    return a.reshape(sh)


def as_matrix(a):
    return np.asmatrix(a)


def matrices():
    return st.one_of(num_arrays(shape=st.sampled_from([(1, 1), (1, 3), (3, 1), (2, 3), (0, 0), (0, 2)])),
                     str_arrays(shape=st.sampled_from([(1, 1), (2, 3)]), kind="S")
                     ).map(as_matrix)


def chararrays():
    return str_arrays(shape=st.sampled_from([(1,), (3,), (2, 2), (1, 1), (2, 1, 2)])
                      ).map(lambda a: a.view(np.chararray))


def recarrays(dtypes=None):
    return struct_arrays(shape=st.sampled_from([(1,), (3,), (2, 2), (1, 1), (0,)]), dtypes=dtypes
                         ).map(lambda a: a.view(np.recarray))


def np_scalars(f2=True):
    plain = num_dtypes(f2=f2, big=False).flatmap(
        lambda d: num_element(d).map(lambda e: _scalar(d, e)))
    return st.one_of(plain, plain, plain,
                     text(0, 8, trail=True).map(np.str_), bytestr(0, 8, trail=True).map(np.bytes_))


def _scalar(d, e):
    with np.errstate(all="ignore"):
        return fill_num(np.dtype(d), (1,), [e], False)[0]


def void_scalars(dtypes=None):
    return st.one_of(st.binary(min_size=1, max_size=6).map(np.void),
                     struct_arrays(shape=st.just((1,)), dtypes=dtypes).map(lambda a: a[0]))


# ---------------------------------------------------------------- numpy.dtype values
@st.composite
def dtype_values(draw):
    r = draw(st.integers(0, 5))
    if r <= 1:
        return draw(num_dtypes())
    if r == 2:
        return np.dtype("%s%d" % (draw(st.sampled_from("USV")), draw(st.integers(1, 20))))
    if r == 3:
        return np.dtype(object)
    if r == 4:
        return draw(struct_dtypes(depth=2))
    return np.dtype((draw(num_dtypes()), draw(st.sampled_from([(2,), (2, 3)]))))


# ---------------------------------------------------------------- containers
def py_scalars():
    return st.one_of(st.none(), st.just(Ellipsis), st.just(NotImplemented), st.booleans(), ints,
                     floats, complexes, text(trail=True), bytestr(trail=True),
                     bytestr(trail=True).map(bytearray), surrogates)


def py_others():
    return st.one_of(slices, ranges, fracs, timedeltas, timezones(), dates, times, datetimes,
                     dtype_values())


hash_leaf = st.one_of(st.none(), st.booleans(), ints, floats.filter(lambda x: x == x), text(),
                      bytestr(), fracs, timedeltas, dates, timezones(), ranges,
                      st.just(Ellipsis), complexes.filter(lambda x: x == x))
hashables = st.recursive(
    hash_leaf,
    lambda s: st.one_of(st.lists(s, max_size=3).map(tuple), st.frozensets(s, max_size=3)),
    max_leaves=4)

str_keys = st.one_of(text(1, 6), st.sampled_from(FIELD_NAMES))


def like_str_keys():
    return st.one_of(str_keys, str_keys, str_keys.map(lambda s: s.encode("utf-8")),
                     str_keys.map(np.str_), str_keys.map(lambda s: np.bytes_(s.encode("utf-8"))))


def _no_clash(pairs):
    """Drop keys that name the same thing as an earlier key after conversion to text."""
    seen, out = set(), {}
    for k, v in pairs:
        if isinstance(k, bytes):
            try:
                t = k.decode("utf-8")
            except UnicodeDecodeError:
                t = k
        else:
            t = str(k) if isinstance(k, str) else k
        if t not in seen:
            seen.add(t)
            out[k] = v
    return out


def dicts(elems, max_size=4, keys=None, clash=False):
    kk = keys if keys is not None else st.one_of(str_keys, like_str_keys(), hashables)
    one = st.one_of(st.lists(st.tuples(str_keys, elems), min_size=1, max_size=max_size),
                    st.lists(st.tuples(kk, elems), min_size=1, max_size=max_size),
                    st.lists(st.tuples(kk, elems), min_size=2, max_size=max(max_size, 2)),
                    st.lists(st.tuples(kk, elems), max_size=max_size))
    return one.map(dict if clash else _no_clash)


def dict_likes(elems, max_size=4, keys=None):
    d = dicts(elems, max_size, keys)
    kk = keys if keys is not None else st.one_of(str_keys, like_str_keys(), hashables)
    return st.one_of(
        d, d, d.map(collections.OrderedDict),
        st.lists(st.tuples(kk, ints), min_size=1, max_size=max_size
                 ).map(_no_clash).map(collections.Counter),
        st.lists(st.one_of(d, d.map(collections.OrderedDict)), min_size=1, max_size=3
                 ).map(lambda m: collections.ChainMap(*m)))


def arrays(f2=True):
    return st.one_of(num_arrays(dtypes=num_dtypes(f2=f2)), num_arrays(dtypes=num_dtypes(f2=f2)),
                     str_arrays(), matrices(), chararrays())


def leaves():
    return pick(py_scalars(), py_scalars(), np_scalars(), arrays(), arrays(), py_others(),
                struct_arrays(), recarrays(), st.one_of(void_arrays(), void_scalars()))


def nest(leaf, max_leaves=6):
    """``leaf`` in containers to any depth."""
    return st.recursive(
        leaf,
        lambda s: pick(
            st.lists(s, min_size=1, max_size=4), st.lists(s, min_size=2, max_size=5).map(tuple),
            st.one_of(st.lists(s, max_size=2), st.lists(s, max_size=2).map(tuple)),
            st.lists(s, min_size=1, max_size=3).map(collections.deque),
            st.one_of(st.sets(hashables, max_size=3), st.frozensets(hashables, max_size=3)),
            dict_likes(s), dict_likes(s), dicts(s), obj_arrays(s), obj_struct_arrays(s)),
        max_leaves=max_leaves)


# ---------------------------------------------------------------- layout
def relayout(x, mode):
    """The same value with every array (and array in containers) in another memory layout."""
    if mode == 0:
        return x
    if isinstance(x, np.ndarray):
        if x.dtype.hasobject and x.dtype.names is None:
            y = np.zeros(x.shape, object)
            for i in np.ndindex(*x.shape):
                y[i] = relayout(x[i], mode)
            x = y if type(x) is np.ndarray else x
        return _lay(x, mode)
    if type(x) in (list, tuple, collections.deque):
        return type(x)(relayout(y, mode) for y in x)
    if type(x) in (dict, collections.OrderedDict):
        return type(x)((k, relayout(v, mode)) for k, v in x.items())
    return x


def _lay(a, mode):
    cls = type(a)
    if a.ndim == 0:
        return a
    b = np.asarray(a)
    if mode == 1:
        c = np.array(b, order="F")
    elif mode == 2:  # every second element of a larger array along the last axis
        big = np.zeros(b.shape[:-1] + (2 * b.shape[-1],), b.dtype)
        c = big[..., ::2]
        c[...] = b
    elif mode == 3:  # reversed strides
        c = np.array(b[tuple(slice(None, None, -1) for _ in b.shape)])
        c = c[tuple(slice(None, None, -1) for _ in b.shape)]
    elif mode == 4:
        c = np.array(b)
        c.flags.writeable = False
    elif mode == 5:  # a slice of a larger array along the first axis
        big = np.zeros((b.shape[0] + 2,) + b.shape[1:], b.dtype)
        c = big[1:-1]
        c[...] = b
    else:
        c = b
    return c.view(cls) if cls is not np.ndarray else c


layouts = st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5])


def subvalues(x):
    """All values nested in x, x included (for classification)."""
    yield x
    if isinstance(x, np.ndarray) and x.dtype.names is not None and x.dtype.hasobject:
        for n in x.dtype.names:
            yield from subvalues(np.asarray(x[n]))
    elif isinstance(x, np.ndarray) and x.dtype == object:
        for y in x.ravel():
            yield from subvalues(y)
    elif isinstance(x, (list, tuple, set, frozenset, collections.deque)):
        for y in x:
            yield from subvalues(y)
    elif isinstance(x, collections.ChainMap):
        for m in x.maps:
            yield from subvalues(m)
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from subvalues(k)
            yield from subvalues(v)


def depth(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return 1 + max([depth(y) for y in x.ravel()] + [0])
    if isinstance(x, (list, tuple, set, frozenset, collections.deque)):
        return 1 + max([depth(y) for y in x] + [0])
    if isinstance(x, collections.ChainMap):
        return 1 + max([depth(m) for m in x.maps] + [0])
    if isinstance(x, dict):
        return 1 + max([depth(v) for v in x.values()] + [0])
    return 0


# ---------------------------------------------------------------- near misses
def variants(v):
    """Values like ``v`` that a careless overwrite would confuse with it."""
    import warnings
    out = []

    def add(fn):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out.append(fn())
        except Exception:
            pass
    if isinstance(v, np.ndarray):
        b = np.asarray(v)
        if b.dtype.type is np.record:
            b = b.view(np.dtype((np.void, b.dtype)))
        add(lambda: b)
        add(lambda: b.reshape(b.shape[::-1]))
        add(lambda: b.reshape(-1))
        add(lambda: b.reshape(1, -1))
        add(lambda: b[:1])
        add(lambda: b[..., ::-1])
        add(lambda: b.reshape(-1)[0])
        add(lambda: np.zeros((0,) + b.shape[1:], b.dtype))
        add(lambda: np.zeros(b.shape[:-1] + (0,), b.dtype))
        if b.ndim == 2 and b.dtype != object:
            add(lambda: np.asmatrix(b))
        if b.dtype.kind in "US":
            add(lambda: b.view(np.chararray))
            add(lambda: np.char.encode(b, "utf-8"))
            add(lambda: b.astype("U") if b.dtype.kind == "S" else b.astype("S"))
            add(lambda: b.astype(b.dtype.kind + "9"))
        if b.dtype.names:
            add(lambda: b.view(np.recarray))
            from numpy.lib.recfunctions import repack_fields
            add(lambda: repack_fields(b[list(b.dtype.names[:-1])]) if len(b.dtype.names) > 1 else b)
            add(lambda: repack_fields(b[list(b.dtype.names[::-1])]))
            n2 = tuple(n + "_" for n in b.dtype.names)
            add(lambda: b.view([(m, b.dtype[n]) for m, n in zip(n2, b.dtype.names)]))
            add(lambda: {n: b[n] for n in b.dtype.names})
        if b.dtype.kind in "iuf":
            for t in "iuf":
                add(lambda: b.view("%s%d" % (t, b.dtype.itemsize)))
            add(lambda: b.astype("c16"))
            add(lambda: b.astype(b.dtype.newbyteorder()))
            add(lambda: b != 0)
            add(lambda: b + b.dtype.type(1))
        if b.dtype.kind == "c":
            add(lambda: b.real.copy())
            add(lambda: b.conj())
        if b.dtype.kind == "b":
            add(lambda: b.view("u1"))
            add(lambda: ~b)
        if b.ndim == 1:
            add(lambda: list(b))
        add(lambda: None)
        return out
    if isinstance(v, (str, bytes)):
        e = v.encode("utf-8", "replace") if isinstance(v, str) else v
        add(lambda: bytes(e))
        add(lambda: e.decode("utf-8"))
        add(lambda: np.str_(e.decode("utf-8")))
        add(lambda: np.bytes_(e))
        add(lambda: bytearray(e))
        add(lambda: np.array(e.decode("utf-8")))
        add(lambda: np.array([e.decode("utf-8")]))
        add(lambda: v[:0])
        add(lambda: v[::-1])
        add(lambda: list(v))
        return out
    if isinstance(v, (bool, int, float, complex, np.generic)) or v is None:
        add(lambda: np.array(v))
        add(lambda: np.array([v]))
        add(lambda: np.array([[v]]))
        add(lambda: int(v))
        add(lambda: float(v))
        add(lambda: complex(v))
        add(lambda: bool(v))
        add(lambda: str(v))
        add(lambda: [v])
        add(lambda: np.float32(v))
        add(lambda: -v)
        add(lambda: None if v is not None else np.zeros((0,)))
        return out
    if isinstance(v, (list, tuple, collections.deque, set, frozenset)):
        l = list(v)
        for t in (list, tuple, collections.deque, set, frozenset):
            add(lambda: t(l))
        add(lambda: l[::-1])
        add(lambda: l[:-1])
        add(lambda: l + l[:1])
        add(lambda: [])
        add(lambda: {str(i): x for i, x in enumerate(l)})
        add(lambda: obj_array(l))
        add(lambda: obj_array(l).reshape(1, -1))
        return out
    if isinstance(v, dict):
        it = list(v.items())
        add(lambda: dict(it[:-1]))
        add(lambda: collections.OrderedDict(it[::-1]))
        add(lambda: dict(it))
        add(lambda: {k: None for k, _ in it})
        add(lambda: {k: x for (k, _), (_, x) in zip(it, it[1:] + it[:1])})
        add(lambda: {str(k) + "z": x for k, x in it})
        add(lambda: {**{str(k): x for k, x in it}, 1: 2})
        add(lambda: collections.ChainMap(dict(it), {"z": 1}))
        add(lambda: collections.Counter({k: 1 for k in v}))
        add(lambda: {})
        add(lambda: list(v.values()))
        return out
    add(lambda: [v])
    add(lambda: {"a": v})
    add(lambda: {"start": 1, "stop": 2, "step": None})
    add(lambda: None)
    return out


def obj_array(l):
    a = np.zeros(len(l), object)
    for i, x in enumerate(l):
        a[i] = x
    return a


def supported(v):
    """Whether a value (from ``variants``) is one the generators could have made."""
    for x in subvalues(v):
        if isinstance(x, (np.ndarray, np.generic)):
            d = x.dtype
            if d.kind in "mM" or d.itemsize == 0 and d.kind == "V":
                return False
            if d.kind == "O" and isinstance(x, np.matrix):
                return False
    return True


@st.composite
def related(draw, values, n):
    """``n`` values of which neighbours are often near misses of each other."""
    out = [draw(values)]
    while len(out) < n:
        k = draw(st.integers(0, 4))
        if k == 0:
            out.append(draw(values))
            continue
        if k == 1:
            out.append(out[draw(st.integers(0, len(out) - 1))])
            continue
        c = [x for x in variants(out[-1]) if supported(x)]
        out.append(c[draw(st.integers(0, len(c) - 1))] if c else None)
    return out


# ---------------------------------------------------------------- strategies are made once
def memo(fn):
    """Strategies are immutable and costly to make: keep the ones made for the same arguments."""
    kept = functools.lru_cache(3000)(fn)

    @functools.wraps(fn)
    def wrapper(*args, **kw):
        try:
            hash((args, tuple(sorted(kw.items(), key=lambda t: t[0]))))
        except TypeError:
            return fn(*args, **kw)
        return kept(*args, **kw)
    return wrapper


for _n in ("chars text bytestr timezones num_dtypes field_names sub_shape shapes common_shapes num_element "
           "num_arrays str_arrays void_arrays struct_dtypes struct_arrays obj_arrays obj_struct_arrays "
           "matrices chararrays recarrays np_scalars void_scalars dtype_values py_scalars py_others "
           "like_str_keys dicts dict_likes arrays leaves pick nest").split():
    globals()[_n] = memo(globals()[_n])
