"""Raw HDF5 content through h5py, as comparable plain data (no code of the library involved).

node ::= ("D", dtype, shape, filters, data, attrs)   a Dataset
       | ("G", {name: node}, attrs)                  a Group
       | ("E",)                                      the canonical empty of the references group
``data`` of reference Datasets is a tuple of nodes (what the references point at).
"""
import h5py
import numpy as np

from .canon import arrdata, dt

CANON = {}


def attr_value(a):
    """Canonical attribute value: strings as bytes/str, lists of strings as tuples, else array."""
    if isinstance(a, (bytes, np.bytes_)):
        return ("S", bytes(a))
    if isinstance(a, (str, np.str_)):
        return ("U", str(a))
    if isinstance(a, h5py.Empty):
        return ("S", b"") if a.dtype.kind == "S" else ("empty", a.dtype.str)
    b = np.asarray(a)
    if b.dtype == object:
        out = []
        for x in b.ravel():
            if isinstance(x, np.ndarray):
                out.append(b"".join(bytes(y) for y in x.ravel()))
            elif isinstance(x, str):
                out.append(x.encode("utf-8", "surrogatepass"))
            else:
                out.append(bytes(x))
        return ("list", b.shape, tuple(out))
    return (b.dtype.newbyteorder("=").str, b.shape, tuple(b.ravel().tolist()))


def attrs(obj, refs=None):
    out = {}
    for k in obj.attrs:
        try:
            out[k] = attr_value(obj.attrs[k])
        except OSError as e:  # h5py cannot read it
            out[k] = ("unreadable", str(e)[:40])
    if out.get("Python.Type") == ("S", b"int"):
        out["Python.Type"] = ("S", b"long")
    h = out.get("H5PATH")
    if refs and h and h[0] == "S" and obj.name.startswith(refs + "/"):
        own = refs + "/" + obj.name[len(refs) + 1:].split("/")[0]
        p = h[1].decode("utf-8", "replace")
        if p == own or p.startswith(own + "/"):  # the name in the references group is free
            out["H5PATH"] = ("S", (refs + "/?" + p[len(own):]).encode("utf-8"))
    return out


EMPTY = {"MATLAB_class": ("S", b"canonical empty"), "MATLAB_empty": ("|u1", (), (1,))}


def canonical_empty(t):
    return (isinstance(t, h5py.Dataset) and t.shape == (2,) and t.dtype == np.uint64
            and not t[...].any() and attrs(t) == EMPTY)


def filters(d):
    return (d.compression, d.compression_opts, bool(d.shuffle), bool(d.fletcher32))


def is_ref(d):
    return isinstance(d, h5py.Dataset) and h5py.check_dtype(ref=d.dtype) is not None


def node(obj, refs=None, depth=0, with_filters=True, skip=()):
    """Describe ``obj``; ``refs`` is the path of the references group, left out as a member."""
    if depth > 60:
        raise RecursionError("references loop")
    if isinstance(obj, h5py.Group):
        mem = {}
        for k in obj:
            p = obj.name.rstrip("/") + "/" + k
            if p == refs or p in skip:
                continue
            link = obj.get(k, getlink=True)
            if isinstance(link, h5py.SoftLink):
                mem[k] = ("soft", link.path)
                continue
            if isinstance(link, h5py.ExternalLink):
                mem[k] = ("external", link.filename, link.path)
                continue
            mem[k] = node(obj[k], refs, depth + 1, with_filters, skip)
        return ("G", mem, attrs(obj, refs))
    if isinstance(obj, h5py.Datatype):
        return ("T", str(obj.dtype), attrs(obj, refs))
    d = obj
    if is_ref(d):
        data = []
        for r in np.asarray(d[...]).ravel():
            if not r:
                data.append(("null",))
                continue
            t = d.file[r]
            if refs is not None and t.name.rsplit("/", 1)[0] == refs.rstrip("/") \
                    and canonical_empty(t):
                data.append(("E",))
            else:
                data.append(node(t, refs, depth + 1, with_filters, skip))
        dts, data = "ref", tuple(data)
    elif d.shape is None:
        dts, data = dt(d.dtype), None
    else:
        x = d[...]
        dts = dt(x.dtype)
        if x.dtype == object:
            data = tuple(repr(y) for y in np.asarray(x).ravel())
        else:
            data = arrdata(x)
    return ("D", dts, d.shape, filters(d) if with_filters else None, data, attrs(d, refs))


def read(filename, path="/", refs="/#refs#", **kw):
    with h5py.File(filename, "r") as f:
        return node(f[path], refs, **kw)


def diff(a, b, path=""):
    """First difference between two nodes (got, expected)."""
    if a == b:
        return None
    if a[0] != b[0]:
        return "%s: got %.300r, expected %.300r" % (path or "/", a, b)
    if a[0] == "G":
        if set(a[1]) != set(b[1]):
            return "%s: members %r, expected %r" % (path or "/", sorted(a[1]), sorted(b[1]))
        for k in a[1]:
            d = diff(a[1][k], b[1][k], path + "/" + k)
            if d:
                return d
        return adiff(a[2], b[2], path)
    if a[0] == "D":
        for i, n in ((1, "dtype"), (2, "shape"), (3, "filters")):
            if a[i] != b[i]:
                return "%s: %s %r, expected %r" % (path or "/", n, a[i], b[i])
        d = adiff(a[5], b[5], path)
        if d:
            return d
        if a[1] == "ref":
            for i, (x, y) in enumerate(zip(a[4], b[4])):
                d = diff(x, y, "%s[%d]" % (path, i))
                if d:
                    return d
        return "%s: data %.400r, expected %.400r" % (path or "/", a[4], b[4])
    return "%s: got %r, expected %r" % (path or "/", a, b)


def adiff(a, b, path):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return "%s@%s: %r, expected %r" % (path or "/", k, a.get(k), b.get(k))
    return None
