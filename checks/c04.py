"""C04: MATLAB compatible files obey the MAT v7.3 layout."""
import datetime
import re
import types

import h5py
import hdf5storage as hs
import numpy as np
from hypothesis import strategies as st

from hx import core, mat, model, opts, raw, values as V
from hx.canon import canon, diff
from hx.core import Sub, Trivial, Violation, lib

PROPERTY = "C04"
RULE = ("A case is a generated value, MATLAB compatible options (Python metadata on or off, "
        "compression varied, either oned_as) and an array layout. The written file's user block is "
        "checked byte by byte; every stored object is compared with an independent statement of the "
        "format (dtype, shape, attributes, references, filters); and the file is decoded by MATLAB's "
        "rules alone and compared with the MATLAB value the Python value stands for. Non-trivial: "
        "distinct (value, options) holding at least one type MATLAB supports.")


def userblock(filename):
    with open(filename, "rb") as f:
        b = f.read(520)
    if len(b) < 520 or b[512:520] != b"\x89HDF\r\n\x1a\n":
        raise Violation("no HDF5 signature after 512 bytes")
    head, mid, ver, rest = b[:116], b[116:124], b[124:128], b[128:512]
    if not re.match(rb"MATLAB 7\.3 MAT-file, [\x20-\x7e]*$", head):
        raise Violation("user block text %r" % head)
    if ver != b"\x00\x02IM" or mid.strip(b"\0 ") or rest.strip(b"\0"):
        raise Violation("user block version/endian bytes %r %r" % (mid, ver))


def check(case, ctx):
    value, kw, lay = case
    f = ctx.file("f.mat")
    lib(hs.write, V.relayout(value, lay), path="/x", filename=f, options=hs.Options(**kw))
    userblock(f)
    o = model.full(kw)
    got = raw.read(f, "/x", "/#refs#")
    want = model.store(value, o, "/x")
    d = raw.diff(got, want, "/x")
    if d:
        raise Violation("stored form: %s" % d)
    try:
        m = mat.from_value(value, o)
    except mat.Incompatible:
        ctx.label("not-matlab")
        return None
    with h5py.File(f, "r") as h:
        try:
            g = mat.parse(h["x"], h)
        except mat.NotMatlab as e:
            raise Violation("MATLAB cannot load it: %s" % e) from None
    d = diff(mat.mcanon(g), mat.mcanon(m))
    if d:
        raise Violation("MATLAB sees another value: %s" % d)
    ctx.label(m[0])
    return canon(value), sorted(kw.items()), lay


def check_existing(case, ctx):
    """A file that has a user block already."""
    value, size, fill, how, meta, old = case
    f = ctx.file("f.mat")
    if old == "library":
        size = 512
        with lib(hs.File, f, writable=True, matlab_compatible=False) as h:
            h["/old"] = np.arange(3.0)
            h["/more"] = {"a": value}
    else:
        with h5py.File(f, "w", userblock_size=size) as h:
            h["old"] = np.arange(3.0)
            if old == "attributes":
                h.attrs["Python.Type"] = h["old"].attrs["Python.Type"] = "bytes"
                h["old"].attrs["MATLAB_class"] = np.bytes_("double")
    if fill:
        with open(f, "r+b") as b:
            b.write(b"x" * (128 if fill == 1 else size))
    with open(f, "rb") as b:
        before = b.read(size)
    kw = dict(matlab_compatible=True, store_python_metadata=meta, action_for_matlab_incompatible="ignore")
    if how == "File":
        with lib(hs.File, f, writable=True, **kw) as h:
            lib(h.write, value, "/x")
    elif how == "savemat":
        lib(hs.savemat, f, {"x": value}, truncate_existing=False, store_python_metadata=meta,
            action_for_matlab_incompatible="ignore")
    else:
        lib(hs.write, value, "/x", filename=f, **kw)
    with open(f, "rb") as b:
        head, rest, sig = b.read(128), b.read(size - 128), b.read(8)
    if not re.match(rb"MATLAB 7\.3 MAT-file, [\x20-\x7e]*$", head[:116]) or head[116:] != b"\0" * 8 + b"\x00\x02IM":
        raise Violation("the file has a user block of %d bytes, that begins with %r" % (size, head))
    if rest != before[128:] or sig != b"\x89HDF\r\n\x1a\n":
        raise Violation("writing the header changed what is behind it")
    with h5py.File(f, "r") as h:
        if h["old"][...].tolist() != [0, 1, 2] or "x" not in h or h.userblock_size != size:
            raise Violation("the file holds %r" % list(h))
    return canon(value), size, fill, how, meta, old


MONTHS = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
DAYS = "Mon Tue Wed Thu Fri Sat Sun".split()


class Clock(datetime.datetime):
    """The time of day while a file is made."""
    @classmethod
    def utcnow(cls):
        return cls.when

    @classmethod
    def now(cls, tz=None):
        return cls.when.replace(tzinfo=tz)


def check_header(case, ctx):
    """The text at the beginning names when the file was made, in English at any time."""
    when, how = case
    f = ctx.file("f.mat")
    real = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)
    fake = types.ModuleType("datetime")
    fake.__dict__.update(vars(datetime))
    fake.datetime, Clock.when = Clock, when
    faked = getattr(hs, "datetime", None) is datetime
    if faked:
        hs.datetime = fake
    try:
        if how == "File":
            lib(hs.File, f, writable=True).close()
        else:
            lib(hs.savemat, f, {"x": 1})
    finally:
        if faked:
            hs.datetime = datetime
    userblock(f)
    with open(f, "rb") as b:
        head = b.read(116).decode("ascii")
    m = re.fullmatch(r"MATLAB 7\.3 MAT-file, Platform: [^,]+, Created on: (\w{3}) (\w{3}) +(\d\d?) "
                     r"(\d\d):(\d\d):(\d\d) (\d{4}) HDF5 schema 1\.00 \.[ \0]*", head)
    if m is None or m[1] not in DAYS or m[2] not in MONTHS:
        raise Violation("the file begins with %r" % head)
    t = datetime.datetime(int(m[7]), 1 + MONTHS.index(m[2]), *map(int, m.group(3, 4, 5, 6)))
    if DAYS[t.weekday()] != m[1]:
        raise Violation("%r names a wrong day of the week" % head)
    if abs(t - when) > datetime.timedelta(hours=26) and abs(t - real) > datetime.timedelta(hours=26):
        raise Violation("%r, written at %s" % (head, when))
    if not faked:
        raise Trivial
    return when, how


def case(values):
    return st.tuples(values, opts.matlab(), V.layouts)


SUBS = [
    Sub("scalars", lambda: case(st.one_of(V.py_scalars(), V.py_others(), V.np_scalars())), check, 3500),
    Sub("arrays", lambda: case(V.arrays()), check, 5000),
    Sub("structured", lambda: case(st.one_of(V.struct_arrays(), V.recarrays())), check, 3000),
    Sub("existing", lambda: st.tuples(V.leaves(), st.sampled_from([512, 512, 1024, 2048, 4096, 65536]), st.integers(0, 2),
                                      st.sampled_from(["File", "savemat", "write"]), st.booleans(),
                                      st.sampled_from(["h5py", "library", "attributes"])), check_existing, 700),
    Sub("header", lambda: st.tuples(st.datetimes(datetime.datetime(1970, 1, 2), datetime.datetime(9999, 12, 30)),
                                    st.sampled_from(["File", "savemat"])), check_header, 300),
    Sub("nested", lambda: case(V.nest(V.leaves())), check, 4000),
]
