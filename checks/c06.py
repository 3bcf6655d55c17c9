"""C06: what each storage option changes on disk (no MATLAB compatibility)."""
import h5py
import hdf5storage as hs
from hypothesis import strategies as st

from hx import core, mat, model, opts, raw, values as V
from hx.canon import canon, diff
from hx.core import Sub, Violation, lib

PROPERTY = "C06"
RULE = ("A case is a generated value, options without MATLAB compatibility (every storage "
        "transformation, name, location, compression and metadata option varied independently) and "
        "an array layout. The raw HDF5 object is compared with an independent statement of the "
        "storage format under those options (dtype, shape, attributes, members, references, "
        "filters, data), and without metadata the value read back is compared with the plain NumPy "
        "equivalent of the raw object. Non-trivial: distinct (value, options).")


def check(case, ctx):
    value, kw, lay = case
    f = ctx.file()
    lib(hs.write, V.relayout(value, lay), path="/x", filename=f, options=hs.Options(**kw))
    o = model.full(kw)
    got = raw.read(f, "/x", o["group_for_references"])
    want = model.store(value, o, "/x")
    d = raw.diff(got, want, "/x")
    if d:
        raise Violation("stored form: %s" % d)
    if not kw["store_python_metadata"]:
        with h5py.File(f, "r") as h:
            want = mat.plain(h["x"], h, o["group_for_references"])
        got = lib(hs.read, path="/x", filename=f, options=hs.Options(**kw))
        d = diff(canon(got), canon(want))
        if d:
            raise Violation("read back %s\n%s" % (core.short(got), d))
        ctx.label("no metadata")
    return canon(value), sorted(kw.items()), lay


def case(values, kw):
    return st.tuples(values, kw, V.layouts)


SUBS = [
    Sub("scalars", lambda: case(st.one_of(V.py_scalars(), V.py_others(), V.np_scalars()), opts.plain()), check, 3500),
    Sub("arrays", lambda: case(st.one_of(V.arrays(), V.void_arrays(), V.void_scalars()), opts.plain()), check, 5000),
    Sub("structured", lambda: case(st.one_of(V.struct_arrays(), V.recarrays()), opts.plain()), check, 3500),
    Sub("nested", lambda: case(V.nest(V.leaves()), opts.plain()), check, 4000),
]
