"""C01: round trip with Python metadata."""
import hdf5storage as hs
from hypothesis import strategies as st

from hx import core, opts, values as V
from hx.canon import canon, mismatch
from hx.core import Sub, Violation, lib

PROPERTY = "C01"
RULE = ("A case is a generated value, options with Python metadata and an array layout; the value "
        "is written and read back and compared for type, dtype, shape and value at every depth. "
        "Non-trivial: distinct (value, options) after canonicalisation.")


def check(case, ctx):
    value, kw, lay = case
    v = V.relayout(value, lay)
    f = ctx.file()
    lib(hs.write, v, path="/x", filename=f, options=hs.Options(**kw))
    got = lib(hs.read, path="/x", filename=f, options=hs.Options(**kw))
    d = mismatch(got, value, kw)
    if d:
        raise Violation("read back %s, wrote %s\n%s" % (core.short(got), core.short(value), d))
    return canon(value), sorted(kw.items()), lay


def case(values):
    return st.tuples(values, opts.python_any(), V.layouts)


SUBS = [
    Sub("pyscalars", lambda: case(st.one_of(V.py_scalars(), V.py_others())), check, 4000),
    Sub("numarrays", lambda: case(st.one_of(V.num_arrays(), V.np_scalars())), check, 4000),
    Sub("strarrays", lambda: case(V.str_arrays()), check, 3000),
    Sub("subclasses", lambda: case(st.one_of(V.matrices(), V.chararrays(), V.recarrays())), check, 3000),
    Sub("structured", lambda: case(V.struct_arrays()), check, 3000),
    Sub("voids", lambda: case(st.one_of(V.void_arrays(), V.void_scalars())), check, 1500),
    Sub("nested", lambda: case(V.nest(V.leaves())), check, 4000),
]
