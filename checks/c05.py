"""C05: MATLAB data without Python metadata reads back as documented NumPy types."""
import hdf5storage as hs
from hypothesis import strategies as st

from hx import core, mat, model, opts, values as V
from hx.canon import canon, diff
from hx.core import Sub, Violation, lib

PROPERTY = "C05"
RULE = ("foreign: generated MATLAB values (all numeric classes, logicals, chars, cells, structs, "
        "struct arrays, empties, nested) written with plain h5py in varied styles of the MAT v7.3 "
        "layout, read and compared with the documented NumPy equivalent. own: generated Python "
        "values written MATLAB compatible without Python metadata, read and compared with the "
        "documented equivalent of the MATLAB value they stand for. Non-trivial: distinct cases "
        "with MATLAB supported types.")


def check_foreign(case, ctx):
    variables, style, as_dicts = case
    f = ctx.file("f.mat")
    mat.build(f, variables, style)
    o = hs.Options(structs_as_dicts=as_dicts)
    for n, m in variables:
        got = lib(hs.read, path="/" + n, filename=f, options=o)
        d = diff(canon(got), canon(mat.to_numpy(m, style, as_dicts)))
        if d:
            raise Violation("variable %s: %s" % (n, d))
    return repr(variables), sorted(style.items()), as_dicts


OWN = dict(fields=True)


def check_own(case, ctx):
    value, kw, lay, as_dicts = case
    f = ctx.file("f.mat")
    lib(hs.write, V.relayout(value, lay), path="/x", filename=f, options=hs.Options(**kw))
    o = model.full(kw)
    try:
        m = mat.decode_names(mat.from_value(value, o))
    except mat.Incompatible:
        return None
    got = lib(hs.read, path="/x", filename=f,
              options=hs.Options(structs_as_dicts=as_dicts, oned_as=o["oned_as"]))
    d = diff(canon(got), canon(mat.to_numpy(m, OWN, as_dicts)))
    if d:
        raise Violation("read back %s\n%s" % (core.short(got), d))
    ctx.label(m[0])
    return canon(value), sorted(kw.items()), lay, as_dicts


def own(values):
    return st.tuples(values, opts.matlab(False), V.layouts, st.booleans())


def foreign():
    return st.tuples(st.lists(st.tuples(mat.names, mat.values()), min_size=1, max_size=2,
                              unique_by=lambda t: t[0]), mat.STYLES, st.booleans())


SUBS = [
    Sub("foreign", foreign, check_foreign, 4000),
    Sub("own", lambda: own(V.leaves()), check_own, 4000),
    Sub("own-nested", lambda: own(V.nest(V.leaves())), check_own, 4000),
]
