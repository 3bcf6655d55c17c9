"""Canonical, hashable descriptions of values: two values are 'the same object' iff equal.

Type identity is part of the description at every level; arrays carry class, dtype and shape; NaNs
are equal whatever their payload, zeros are distinguished by sign.
"""
import collections
import datetime
import fractions
import struct

import numpy as np


def dt(d, order=False):
    """A dtype; byte order is left out unless asked for (it is not part of what is kept)."""
    if d.subdtype is not None:
        return ("sub", dt(d.subdtype[0], order), d.subdtype[1])
    if d.names is not None:
        return ("struct", tuple((n, dt(d.fields[n][0], order)) for n in d.names))
    if not order:
        return d.newbyteorder("=").str
    return d.str


def _f(x):
    if x != x:
        return "nan"
    return struct.pack("<d", x)


def arrdata(a):
    """Canonical contents of an array (any class) as nested hashables, flat in C order."""
    a = np.asarray(a)
    d = a.dtype
    if d.names is not None:
        return tuple((n, np.shape(a[n]), arrdata(a[n])) for n in d.names)
    k = d.kind
    if k == "O":
        return tuple(canon(x) for x in a.ravel())
    if k in "US":
        return tuple(a.ravel().tolist())
    if k == "V":
        return tuple(bytes(x) for x in a.ravel())
    a = np.ascontiguousarray(a.ravel()).astype(d.newbyteorder("="))
    if k == "f":
        nan = np.isnan(a)
        a = np.where(nan, np.array(np.nan, a.dtype), a)
        return (a.dtype.str, a.tobytes()) if a.dtype.itemsize <= 8 else tuple(map(str, a))
    if k == "c":
        return (arrdata(a.real), arrdata(a.imag))
    return (a.dtype.str, a.tobytes())


def as_group(kw):
    """A predicate (dtype, size) -> whether options ``kw`` store such structured data in a form
    that does not record the field dtypes (documented): as a Group, or only the shape if empty."""
    group = kw.get("matlab_compatible", True) or kw.get("structured_numpy_ndarray_as_struct", False)
    shape = kw.get("matlab_compatible", True) or kw.get("store_shape_for_empty", False)

    def loose(d, size):
        return (group or d.hasobject or "\\x00" in str(d) or _special(d)
                or (size == 0 and shape))
    return loose


def _all(d, size):
    return True


def mismatch(got, want, kw=None):
    """None if the two values are the same object under options ``kw``, else the difference.

    Structured arrays are compared by field names and elements; if no structured array in ``want``
    is stored in a form that drops the field dtypes, those have to agree too.
    """
    g, w = canon(got, _all), canon(want, _all)
    if g != w:
        return diff(g, w)
    found = []
    if kw is not None:
        f = as_group(kw)

        def probe(d, size):
            if f(d, size):
                found.append(1)
            return True
        canon(want, probe)
    if not found:
        g, w = canon(got), canon(want)
        if g != w:
            return diff(g, w)
    return None


def _special(d):
    if 0 in d.shape:
        return True
    if d.subdtype is not None:
        return _special(d.base)
    if d.fields is not None:
        return looks_complex(d) or any(_special(v[0]) for v in d.fields.values())
    return d.kind == "U"


def looks_complex(d):
    """h5py gives structures that are stored like its complex numbers as such."""
    return d.names == ("r", "i") and d["r"] == d["i"] and d["r"].kind == "f"


def canon(x, loose=None):
    """Canonical description.  Where ``loose(dtype, size)`` holds, a structured array is described
    by its fields' names and elements rather than by its dtype."""
    if loose is not None:
        if isinstance(x, (np.ndarray, np.void)) and x.dtype.names is not None \
                and loose(x.dtype, np.size(x)):
            flat = np.asarray(x).reshape(-1)
            flat = flat.view(np.dtype((np.void, flat.dtype))) if not flat.dtype.hasobject else flat
            n = type(x).__module__ + "." + type(x).__name__
            if n == "numpy.record":  # elements of record arrays are records at every level
                n = "numpy.void"
            return (n, "fields", x.dtype.names, np.shape(x),
                    tuple(tuple(canon(e[f], loose) for f in x.dtype.names) for e in flat))
        if isinstance(x, np.ndarray) and x.dtype == object:
            return ("%s.%s" % (type(x).__module__, type(x).__name__), "|O", x.shape,
                    tuple(canon(y, loose) for y in np.asarray(x).ravel()))
    return _canon(x, lambda y: canon(y, loose))


def _canon(x, canon):
    t = type(x)
    n = t.__module__ + "." + t.__name__
    if isinstance(x, np.dtype):
        return ("dtype", dt(x))
    if isinstance(x, np.ndarray):
        return (n, dt(x.dtype), x.shape, arrdata(x))
    if isinstance(x, (np.str_, np.bytes_)):
        return (n, len(x), x.tobytes())
    if isinstance(x, np.generic):
        # numpy.void and numpy.record scalars; the type of a scalar is part of the result
        return (n, dt(x.dtype), arrdata(np.asarray(x)))
    if t in (list, tuple, collections.deque):
        return (n, tuple(canon(y) for y in x))
    if t in (set, frozenset):
        return (n, frozenset(collections.Counter(canon(y) for y in x).items()))
    if t is collections.OrderedDict:
        return (n, tuple((canon(k), canon(v)) for k, v in x.items()))
    if t in (dict, collections.Counter):
        return (n, frozenset(collections.Counter((canon(k), canon(v)) for k, v in x.items()).items()))
    if t is collections.ChainMap:
        return (n, tuple(canon(m) for m in x.maps))
    if t is float:
        return (n, _f(x))
    if t is complex:
        return (n, _f(x.real), _f(x.imag))
    if t is slice:
        return (n, canon(x.start), canon(x.stop), canon(x.step))
    if t is range:
        return (n, x.start, x.stop, x.step)
    if t is fractions.Fraction:
        return (n, x.numerator, x.denominator)
    if t is datetime.datetime:
        return (n, x.replace(tzinfo=None, fold=0).isoformat(), canon(x.tzinfo))
    if t is datetime.time:
        return (n, x.replace(tzinfo=None, fold=0).isoformat(), canon(x.tzinfo))
    if t is datetime.timezone:
        return (n, x.__reduce__()[1])
    if t is bytearray:
        return (n, bytes(x))
    if x is None or x is Ellipsis or x is NotImplemented:
        return (n,)
    if t in (bool, int, str, bytes, datetime.date, datetime.timedelta):
        return (n, x)
    return (n, "?", repr(x))


def diff(a, b, path="value"):
    """First difference between two canonical descriptions, for messages."""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
    ra, rb = repr(a), repr(b)
    return "%s: got %s, expected %s" % (path, ra[:600], rb[:600])
