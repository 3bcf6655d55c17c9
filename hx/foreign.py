"""Objects other HDF5 software might have put at a path (made with h5py alone)."""
import h5py
import numpy as np
from hypothesis import strategies as st

from . import mat, values as V

SPOIL = {
    "foo": np.int32(3), "Python.Type": np.bytes_("list"), "Python.Shape": np.array([7], np.uint64),
    "Python.Empty": np.uint8(1), "Python.numpy.UnderlyingType": np.bytes_("str32"),
    "Python.numpy.Container": np.bytes_("matrix"), "MATLAB_class": np.bytes_("char"),
    "MATLAB_empty": np.uint8(1), "MATLAB_int_decode": np.int64(2), "H5PATH": np.bytes_("/elsewhere"),
    "Python.dict.StoredAs": np.bytes_("keys_values"), "MATLAB_sparse": np.uint64(3),
    "MATLAB_global": np.uint8(1), "Python.dict.key_str_types": np.bytes_("bbb"),
}
ATTRS = st.one_of(st.just(()), st.lists(st.sampled_from(sorted(SPOIL) + ["fields"]), max_size=5,
                                        unique=True).map(tuple))


def set_attrs(obj, names):
    for n in names:
        if n == "fields":
            a = np.zeros(2, object)
            a[0], a[1] = np.array([b"z"], "S1"), np.array([b"a", b"b"], "S1")
            obj.attrs.create("MATLAB_fields", a, (2,),
                             dtype=h5py.special_dtype(vlen=np.dtype("S1")))
            obj.attrs["Python.Fields"] = np.array(["z", "ab"], object)
        else:
            obj.attrs[n] = SPOIL[n]


kinds = st.one_of(
    st.tuples(st.just("mat"), mat.values(3), mat.STYLES),
    st.tuples(st.just("array"), V.num_arrays(), ATTRS,
              st.sampled_from(["plain", "chunked", "gzip", "lzf", "unlimited", "filled"])),
    st.tuples(st.just("group"), st.lists(st.sampled_from(["a", "b", "keys", "values", "start", "x"]),
                                         max_size=3, unique=True).map(tuple), ATTRS),
    st.tuples(st.just("text"), st.text("ab\u03b1", max_size=4), ATTRS),
    st.tuples(st.just("null"), ATTRS),
    st.tuples(st.just("type"), ATTRS),
    st.tuples(st.just("spoil"), ATTRS),
    st.tuples(st.just("stored"), V.num_arrays(dtypes=st.sampled_from(["u1", "i1", "u2", "i4", "u8", "f4", "f8"])
                                              .map(np.dtype)),
              st.sampled_from(["scaleoffset", "enum", "virtual", "external", "committed", "nbit"]), ATTRS),
    st.tuples(st.just("strings"), V.str_arrays(kind="S", pad=False), st.sampled_from(["nullterm", "utf8", "vlen",
                                                                                      "spacepad"]), ATTRS),
)


def put(f, path, k):
    """Make the foreign object ``k`` at ``path`` of the open h5py.File."""
    if k[0] == "spoil":
        if path in f and isinstance(f.get(path, getlink=True), h5py.HardLink):
            set_attrs(f[path], k[1])
        return
    if f.get(path, getlink=True) is not None:
        del f[path]
    parent, name = path.rsplit("/", 1)
    g = f.require_group(parent or "/")
    if k[0] == "mat":
        mat.Writer(f, k[2], k[2]["refs"]).put_fresh(g, name, k[1])
    elif k[0] == "array":
        a, kw = k[1], {}
        if a.ndim and a.size:
            kw = {"plain": {}, "chunked": dict(chunks=True), "gzip": dict(compression="gzip"),
                  "lzf": dict(compression="lzf", fletcher32=True),
                  "unlimited": dict(maxshape=(None,) * a.ndim), "filled": {}}[k[3]]
        if k[3] == "filled" and a.dtype.kind in "iuf":
            kw = dict(fillvalue=7)
        set_attrs(g.create_dataset(name, data=a, **kw), k[2])
    elif k[0] == "group":
        d = g.create_group(name)
        for n in k[1]:
            d[n] = np.arange(3)
        set_attrs(d, k[2])
    elif k[0] == "text":
        set_attrs(g.create_dataset(name, data=k[1]), k[2])
    elif k[0] == "null":
        set_attrs(g.create_dataset(name, data=h5py.Empty("f4")), k[1])
    elif k[0] == "type":
        g[name] = np.dtype("f8")
        set_attrs(g[name], k[1])
    elif k[0] == "stored":
        a, how = np.ascontiguousarray(k[1]).astype(k[1].dtype.newbyteorder("=")), k[2]
        if how == "scaleoffset" and a.size and a.ndim:
            a = np.clip(np.nan_to_num(a), 0, 100)
            d = g.create_dataset(name, data=a, scaleoffset=1 if a.dtype.kind == "f" else 0)
        elif how == "enum" and a.dtype.kind in "iu":
            d = g.create_dataset(name, data=a, dtype=h5py.enum_dtype({"A": 0, "B": 1}, a.dtype))
        elif how == "virtual" and a.size and a.ndim:
            s = name + "~source"
            if s in g:
                del g[s]
            g[s] = a
            lay = h5py.VirtualLayout(a.shape, a.dtype)
            lay[...] = h5py.VirtualSource(g[s])
            d = g.create_virtual_dataset(name, lay)
        elif how == "external" and a.size and a.ndim:
            d = g.create_dataset(name, a.shape, a.dtype, external=[(f.filename + ".ext", 0, a.nbytes)])
            d[...] = a
        elif how == "committed":
            t = name + "~type"
            if t in g:
                del g[t]
            g[t] = a.dtype
            d = g.create_dataset(name, data=a, dtype=g[t])
        elif how == "nbit" and a.size and a.ndim:
            p = h5py.h5p.create(h5py.h5p.DATASET_CREATE)
            p.set_chunk(a.shape)
            p.set_filter(h5py.h5z.FILTER_NBIT)
            h5py.h5d.create(g.id, name.encode(), h5py.h5t.py_create(a.dtype), h5py.h5s.create_simple(a.shape), p)
            d = g[name]
            d[...] = a
        else:
            d = g.create_dataset(name, data=a)
        set_attrs(d, k[3])
    elif k[0] == "strings":
        a, how = k[1], k[2]
        if how == "vlen":
            o = np.empty(a.shape, object)
            for i in np.ndindex(a.shape):  # variable-length strings cannot hold nulls
                o[i] = bytes(a[i]).replace(b"\0", b"0")
            d = g.create_dataset(name, data=o, dtype=h5py.string_dtype("ascii"))
        else:
            t = h5py.h5t.C_S1.copy()
            t.set_size(max(a.dtype.itemsize, 1))
            t.set_strpad({"nullterm": h5py.h5t.STR_NULLTERM, "utf8": h5py.h5t.STR_NULLPAD,
                          "spacepad": h5py.h5t.STR_SPACEPAD}[how])
            if how == "utf8":
                t.set_cset(h5py.h5t.CSET_UTF8)
            space = h5py.h5s.create_simple(a.shape) if a.ndim else h5py.h5s.create(h5py.h5s.SCALAR)
            h5py.h5d.create(g.id, name.encode(), t, space)
            d = g[name]
        set_attrs(d, k[3])
