"""An independent statement of the storage format: value + options -> raw HDF5 node.

Written from doc/source/storage_format.rst and the option documentation; nothing of the library is
used.  ``store`` gives the node (hx.raw) the library has to produce for a value written at a path.
"""
import collections
import datetime
import fractions

import numpy as np

from .canon import arrdata, dt, looks_complex

MCLASS = {np.bool_: b"logical", np.uint8: b"uint8", np.uint16: b"uint16", np.uint32: b"uint32",
          np.uint64: b"uint64", np.int8: b"int8", np.int16: b"int16", np.int32: b"int32",
          np.int64: b"int64", np.float32: b"single", np.float64: b"double",
          np.complex64: b"single", np.complex128: b"double", np.bytes_: b"char",
          np.str_: b"char", np.object_: b"cell"}
DEFAULTS = dict(store_python_metadata=True, matlab_compatible=True,
                action_for_matlab_incompatible="error", delete_unused_variables=False,
                structured_numpy_ndarray_as_struct=False, make_atleast_2d=False,
                convert_numpy_bytes_to_utf16=False, convert_numpy_str_to_utf16=False,
                convert_bools_to_uint8=False, reverse_dimension_order=False,
                structs_as_dicts=False, store_shape_for_empty=False, complex_names=("r", "i"),
                group_for_references="/#refs#", oned_as="row", dict_like_keys_name="keys",
                dict_like_values_name="values", compress=True,
                compress_size_threshold=16 * 1024, compression_algorithm="gzip",
                gzip_compression_level=7, shuffle_filter=True,
                compressed_fletcher32_filter=True, uncompressed_fletcher32_filter=False)
FORCED = dict(delete_unused_variables=True, structured_numpy_ndarray_as_struct=True,
              make_atleast_2d=True, convert_numpy_bytes_to_utf16=True,
              convert_numpy_str_to_utf16=True, convert_bools_to_uint8=True,
              reverse_dimension_order=True, store_shape_for_empty=True,
              complex_names=("real", "imag"), group_for_references="/#refs#",
              compression_algorithm="gzip")


def full(kw):
    o = dict(DEFAULTS, **kw)
    if o["matlab_compatible"]:
        o.update(FORCED)
    return o


def refs(o):
    """Where the references group is in the file."""
    return o["group_for_references"]


class Incompatible(Exception):
    """MATLAB compatibility forbids this type (action 'error')."""


class Unsupported(Exception):
    pass


def escape(name):
    """The documented escaping of names."""
    if isinstance(name, bytes):
        name = name.decode("utf-8")
    n = len(name) - len(name.lstrip("."))
    out = "\\x2e" * n
    for c in name[n:]:
        out += {"\0": "\\x00", "/": "\\x2f", "\\": "\\\\"}.get(c, c)
    return out


def unescape(name):
    """Inverse of ``escape`` on its image."""
    out, i = "", 0
    while i < len(name):
        if name[i] == "\\":
            if name[i + 1] == "\\":
                out += "\\"
                i += 2
            else:
                assert name[i + 1] == "x"
                out += chr(int(name[i + 2:i + 4], 16))
                i += 4
        else:
            out += name[i]
            i += 1
    return out


def uint_attr(values, shape=None):
    v = tuple(int(x) for x in values)
    return ("<u8", (len(v),), v)


# "int" and "long" both read as int; the library stores the latter (raw.attrs equates them)
PYTYPES = {bool: b"bool", int: b"long", float: b"float", complex: b"complex", str: b"str",
           bytes: b"bytes", bytearray: b"bytearray", list: b"list", tuple: b"tuple", set: b"set",
           frozenset: b"frozenset", collections.deque: b"collections.deque",
           collections.ChainMap: b"collections.ChainMap", dict: b"dict",
           collections.OrderedDict: b"collections.OrderedDict",
           collections.Counter: b"collections.Counter", slice: b"slice", range: b"range",
           datetime.timedelta: b"datetime.timedelta", datetime.timezone: b"datetime.timezone",
           datetime.date: b"datetime.date", datetime.time: b"datetime.time",
           datetime.datetime: b"datetime.datetime", fractions.Fraction: b"fractions.Fraction",
           type(None): b"builtins.NoneType", type(Ellipsis): b"builtins.ellipsis",
           type(NotImplemented): b"builtins.NotImplementedType"}


def dtype_text(d):
    s = str(d)
    return s if s[0] in "({[" else "'%s'" % s


def as_dict(v):
    """(dict to store, type string) for the types stored as Groups."""
    t = type(v)
    if t in (dict, collections.OrderedDict, collections.Counter):
        return v
    if t in (slice, range):
        return {"start": v.start, "stop": v.stop, "step": v.step}
    if t is fractions.Fraction:
        return {"numerator": v.numerator, "denominator": v.denominator}
    if t is datetime.timedelta:
        return {"days": v.days, "seconds": v.seconds, "microseconds": v.microseconds}
    if t is datetime.date:
        return {"year": v.year, "month": v.month, "day": v.day}
    if t is datetime.time:
        return dict(hour=v.hour, minute=v.minute, second=v.second, microsecond=v.microsecond,
                    tzinfo=v.tzinfo)
    if t is datetime.datetime:
        return dict(year=v.year, month=v.month, day=v.day, hour=v.hour, minute=v.minute,
                    second=v.second, microsecond=v.microsecond, tzinfo=v.tzinfo)
    if t is datetime.timezone:
        return dict(zip(("offset", "name"), v.__reduce__()[1]))
    return None


def obj1d(seq):
    a = np.zeros(len(seq), object)
    for i, x in enumerate(seq):
        a[i] = x
    return a


def as_numpy(v):
    """The NumPy value a value is converted to (None: unsupported)."""
    t = type(v)
    if isinstance(v, np.dtype):
        return np.bytes_(dtype_text(v).encode("utf-8"))
    if isinstance(v, (np.ndarray, np.generic)):
        return v
    if t is bool:
        return np.bool_(v)
    if t is int:
        if -(2 ** 63) <= v < 2 ** 63:
            return np.int64(v)
        return np.bytes_(b"%d" % v)
    if t is float:
        return np.float64(v)
    if t is complex:
        return np.complex128(v)
    if t is str:
        return np.str_(v)
    if t in (bytes, bytearray):
        return np.bytes_(bytes(v))
    if v is None or v is Ellipsis or v is NotImplemented:
        return np.zeros((0,))
    if t in (list, tuple, collections.deque, set, frozenset):
        return obj1d(list(v))
    if t is collections.ChainMap:
        return obj1d(v.maps)
    return None


def type_name(v):
    if isinstance(v, np.dtype):
        return b"numpy.dtype"
    t = type(v)
    if t in PYTYPES:
        return PYTYPES[t]
    if isinstance(v, np.recarray):
        return b"numpy.recarray"
    return ("numpy." + t.__name__).encode()


def container(v):
    if isinstance(v, np.matrix):
        return b"matrix"
    if isinstance(v, np.chararray):
        return b"chararray"
    if isinstance(v, np.recarray):
        return b"recarray"
    return b"ndarray" if isinstance(v, np.ndarray) else b"scalar"


def dict_keys(d, o):
    """Escaped names and type letters, or None if keys and values are stored apart."""
    names, letters = [], b""
    for k in d:
        c = {str: b"t", bytes: b"b", np.str_: b"U", np.bytes_: b"S"}.get(type(k))
        if c is None:
            return None
        if isinstance(k, bytes):
            try:
                s = k.decode("utf-8")
            except UnicodeDecodeError:
                return None
        else:
            s = "".join(k)  # str() drops trailing nulls of NumPy strings
        try:
            s.encode("utf-8")
        except UnicodeEncodeError:
            return None
        s = escape(s)
        if s == "" or s in names:
            return None
        names.append(s)
        letters += c
    return names, letters


def mfields(names, attrs):
    try:
        attrs["MATLAB_fields"] = ("list", (len(names),), tuple(n.encode("ascii") for n in names))
    except UnicodeEncodeError:
        pass


def chars_of(a, width_bytes, out):
    """Strings of an array as code units: the last axis grows by the width of the strings."""
    shape = a.shape if a.shape else (1,)
    n = int(np.prod(shape))
    flat = np.asarray(a).reshape(-1)
    w = width_bytes
    res = np.zeros((n, w), out)
    for i in range(n):
        s = flat[i]
        u = list(s) if isinstance(s, bytes) else [ord(c) for c in s]
        res[i, :len(u)] = u
    return res.reshape(shape[:-1] + (shape[-1] * w,))


def has_zero_shape(d):
    if d.subdtype is not None:
        return 0 in d.shape or has_zero_shape(d.base)
    if d.names is not None:
        return any(has_zero_shape(d.fields[n][0]) for n in d.names)
    return False


def has_complex(d):
    if d.subdtype is not None:
        return has_complex(d.base)
    return d.names is not None and (looks_complex(d) or any(has_complex(d[n]) for n in d.names))


def has_text(d):
    if d.subdtype is not None:
        return has_text(d.base)
    if d.names is not None:
        return any(has_text(d.fields[n][0]) for n in d.names)
    return d.kind == "U"


def has_null_name(d):
    if d.subdtype is not None:
        return has_null_name(d.base)
    if d.names is not None:
        return any("\0" in n or has_null_name(d.fields[n][0]) for n in d.names)
    return False


def store(v, o, path="/x"):
    """The node for value ``v`` stored at ``path`` (None if discarded)."""
    d = as_dict(v)
    if d is not None:
        return store_dict(v, d, o, path)
    a = as_numpy(v)
    if a is None:
        raise Unsupported(type(v))
    return store_numpy(v, a, o, path)


def member(n, o, path):
    """A node as a member of the Group (or the references group) at ``path``."""
    if n is not None and o["matlab_compatible"]:
        n[-1]["H5PATH"] = ("S", path.encode("utf-8"))
    return n


def store_dict(v, d, o, path):
    at = {}
    kn = dict_keys(d, o)
    py, ml = o["store_python_metadata"], o["matlab_compatible"]
    if py:
        at["Python.Type"] = ("S", PYTYPES[type(v)])
    if kn is None:
        names = [escape(o["dict_like_keys_name"]), escape(o["dict_like_values_name"])]
        vals = [tuple(d), tuple(d.values())]
    else:
        names, vals = kn[0], list(d.values())
    mem = {}
    for n, x in zip(names, vals):
        c = member(store(x, o, path + "/" + n), o, path)
        if c is not None:
            mem[n] = c
    if kn is None:
        if py:
            at["Python.dict.StoredAs"] = ("S", b"keys_values")
            at["Python.dict.keys_values_names"] = ("list", (2,), tuple(
                x.encode() for x in (o["dict_like_keys_name"], o["dict_like_values_name"])))
    else:  # what was discarded is not listed
        there = [n for n in names if n in mem]
        if py:
            at["Python.dict.StoredAs"] = ("S", b"individually")
            at["Python.Fields"] = ("list", (len(there),), tuple(n.encode("utf-8") for n in there))
            at["Python.dict.key_str_types"] = (
                "S", bytes(t for n, t in zip(names, kn[1]) if n in mem))
        if ml:
            mfields(there, at)
    if ml:
        at["MATLAB_class"] = ("S", b"struct")
    return ("G", mem, at)


def store_numpy(v, a, o, path):
    py, ml = o["store_python_metadata"], o["matlab_compatible"]
    tp = a.dtype.type
    fields = a.dtype.names
    at = {}
    if ml and tp not in MCLASS and tp is not np.record and \
            not (fields is not None and o["structured_numpy_ndarray_as_struct"]):
        if o["action_for_matlab_incompatible"] == "error":
            raise Incompatible(a.dtype)
        if o["action_for_matlab_incompatible"] == "discard":
            return None
    s = np.asarray(a)
    if s.dtype.type is np.record:  # the elements of recarrays are stored as plain structures
        s = s.view(np.dtype((np.void, s.dtype)), np.ndarray)
    wide = s.dtype.kind in "US" and a.dtype.itemsize > 0
    empty = a.size == 0 or (s.dtype.kind in "US" and a.dtype.itemsize == 0)
    raw_scalar_string = isinstance(a, (np.str_, np.bytes_))
    if raw_scalar_string:  # asarray drops trailing NULs of scalars only when read back
        content = a[:]  # str() drops trailing nulls
    # -- strings to code units
    as_chars = False
    if tp is np.bytes_ and o["convert_numpy_bytes_to_utf16"]:
        if empty or not wide:
            s, as_chars = np.zeros((0,), np.uint16), True
        else:
            if raw_scalar_string:
                c = np.array(list(content), np.uint16)
            else:
                c = chars_of(s, s.dtype.itemsize, np.uint16)
            if (c < 128).all():
                s, as_chars = c, True
    elif tp is np.str_:
        u16 = o["convert_numpy_str_to_utf16"]
        as_chars = True
        if empty or not wide:
            s = np.zeros((0,), np.uint16 if u16 else np.uint32)
        else:
            c = (np.array([ord(x) for x in content], np.uint32) if raw_scalar_string
                 else chars_of(s, s.dtype.itemsize // 4, np.uint32))
            if u16 and (c <= 0xFFFF).all() and not ((c >= 0xD800) & (c <= 0xDFFF)).any():
                c = c.astype(np.uint16)
            s = c
    # -- dimensions
    if o["make_atleast_2d"]:
        one = s.ndim == 1
        s = np.atleast_2d(s)
        if one and o["oned_as"] == "column" and not as_chars:
            s = s.T
    untransposed = s.shape
    if o["reverse_dimension_order"]:
        s = s.T
    if s.dtype == bool and o["convert_bools_to_uint8"]:
        s = s.astype(np.uint8)
    if o["store_shape_for_empty"] and empty:
        s = np.array(untransposed, np.uint64)
    if s.dtype.kind == "c":
        r = np.zeros(s.shape, [(o["complex_names"][0], s.real.dtype),
                               (o["complex_names"][1], s.real.dtype)])
        r[o["complex_names"][0]], r[o["complex_names"][1]] = s.real, s.imag
        s = r
        is_complex = True
    else:
        is_complex = False
    # -- structures
    as_group = (s.dtype.names is not None and not is_complex and (
        o["structured_numpy_ndarray_as_struct"] or s.dtype.hasobject or has_null_name(s.dtype)
        or has_zero_shape(s.dtype) or has_text(s.dtype)
        or has_complex(s.dtype)))
    if py:
        at["Python.Type"] = ("S", type_name(v))
        at["Python.Shape"] = uint_attr(a.shape)
        at["Python.numpy.UnderlyingType"] = ("S", a.dtype.name.encode())
        at["Python.numpy.Container"] = ("S", container(a))
    if fields is not None:
        names = [escape(n) for n in fields]
        zero_sub = any(0 in a.dtype.fields[n][0].shape for n in fields)
        if as_group or o["structured_numpy_ndarray_as_struct"] or a.dtype.hasobject \
                or has_null_name(a.dtype) or a.size == 0 or zero_sub:
            if py:
                at["Python.Fields"] = ("list", (len(names),),
                                       tuple(n.encode("utf-8") for n in names))
            if ml:
                mfields(names, at)
    if empty:
        if py:
            at["Python.Empty"] = ("|u1", (), (1,))
        if ml:
            at["MATLAB_empty"] = ("|u1", (), (1,))
    if ml:
        if fields is not None and o["structured_numpy_ndarray_as_struct"]:
            at["MATLAB_class"] = ("S", b"struct")
        elif tp in MCLASS:
            at["MATLAB_class"] = ("S", MCLASS[tp])
            if tp in (np.bytes_, np.str_, np.bool_):
                at["MATLAB_int_decode"] = (
                    "<i8", (), (1 if s.dtype.kind == "S" else s.dtype.itemsize,))
    if as_group:
        mem = {}
        order = s.T if o["reverse_dimension_order"] else s
        for n, e in zip(fields, names):
            els = np.zeros(order.shape, object)
            for i in np.ndindex(*order.shape):
                els[i] = order[i][n]
            if els.size == 1:
                x = store(els.reshape(-1)[0], o, path + "/" + e)
                c = member(x, o, path)
            else:
                c = store_numpy(els, els, o, path + "/" + e)
                c = member(c[:5] + ({},), o, path)
            if c is not None:
                mem[e] = c
        there = [e for e in names if e in mem]
        if len(there) < len(names):  # what was discarded is not listed
            at.pop("MATLAB_fields", None)
            if py:
                at["Python.Fields"] = ("list", (len(there),), tuple(n.encode("utf-8") for n in there))
            if ml:
                mfields(there, at)
        return ("G", mem, at)
    # -- Dataset
    if s.dtype == object:
        refs = o["group_for_references"]
        data = []
        for x in s.ravel():
            c = member(store(x, o, refs + "/?"), o, refs)
            data.append(("E",) if c is None else c)
        dts, data = "ref", tuple(data)
        nbytes = 8 * s.size
    else:
        nbytes = s.nbytes
        dts, data = None, None
    f = filter_settings(s, nbytes, o)
    if dts is None:
        # h5py reads (r, i) compounds of floats as complex
        if is_complex and o["complex_names"] == ("r", "i"):
            s = a_complex(s)
        dts, data = dt(s.dtype), arrdata(s)
        if isinstance(a, np.bytes_) and s.dtype.kind == "S":
            data = (bytes(a).rstrip(b"\0"),)
    return ("D", dts, s.shape, f, data, at)


def a_complex(s):
    c = np.zeros(s.shape, np.complex64 if s.dtype["r"].itemsize == 4 else np.complex128)
    c.real, c.imag = s["r"], s["i"]
    return c


def filter_settings(s, nbytes, o):
    """(compression, opts, shuffle, fletcher32) documented for a Dataset of this shape and size."""
    if s.shape == ():
        return (None, None, False, False)
    if o["compress"] and nbytes >= o["compress_size_threshold"]:
        alg = o["compression_algorithm"]
        return (alg, o["gzip_compression_level"] if alg == "gzip" else None,
                o["shuffle_filter"], o["compressed_fletcher32_filter"])
    return (None, None, False, o["uncompressed_fletcher32_filter"])
