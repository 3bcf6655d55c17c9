"""C08: compression and checksums never change data and are applied exactly as set."""
import h5py
import hdf5storage as hs
import numpy as np
from hypothesis import strategies as st

from hx import core, mat, model, opts, raw, values as V
from hx.canon import canon, diff
from hx.core import Sub, Trivial, Violation, lib

PROPERTY = "C08"
RULE = ("filters: a generated value and compression options, the threshold often within one byte of "
        "the size of one of its datasets; every dataset in the file must have exactly the filters "
        "set, and what is read must be what is read with compression off. overwrite: the same over "
        "an existing file written with other compression options. corrupt: an array stored with a "
        "checksum, one byte of its stored chunks changed; reading must raise. Non-trivial: distinct "
        "(value, options) with at least one dataset that is not a scalar.")

COMP = dict(compress=st.booleans(), gzip_compression_level=st.integers(0, 9),
            shuffle_filter=st.booleans(), compressed_fletcher32_filter=st.booleans(),
            uncompressed_fletcher32_filter=st.booleans(),
            compression_algorithm=st.sampled_from(["gzip", "gzip", "lzf"]))


@st.composite
def compression(draw):
    kw = {k: draw(s) for k, s in COMP.items() if draw(st.integers(0, 3))}
    if draw(st.integers(0, 2)) == 0:
        kw["compress_size_threshold"] = draw(st.sampled_from([0, 1, 100, 1 << 14, 1 << 20]))
    return kw


@st.composite
def bigger(draw):
    """Arrays around the default threshold of 16 KiB."""
    d = np.dtype(draw(st.sampled_from(["f8", "i4", "u1", "c16", "S3", "?", "U2", "i2", ">f4"])))
    n = 16384 // (d.itemsize if d.kind != "?" else 1) + draw(st.sampled_from([-1, 0, 1, 50]))
    a = np.arange(n) % draw(st.integers(1, 90))
    a = (a + 33).astype("u1").view("S1").astype(d) if d.kind in "SU" else a.astype(d)
    return draw(st.sampled_from([a, a.reshape(1, -1), a[:n // 2 * 2].reshape(2, -1)]))


def values():
    return V.pick(V.arrays(), bigger(), bigger(), V.leaves(), V.nest(V.pick(V.leaves(), bigger()), 4))


@st.composite
def case(draw):
    v = draw(values())
    base = draw(st.one_of(st.just({}), opts.plain(), opts.matlab()))
    base = {k: x for k, x in base.items() if k not in COMP and k != "compress_size_threshold"}
    base = dict(base, action_for_matlab_incompatible="ignore")
    return v, dict(base, **draw(compression())), draw(st.integers(0, 5)), \
        draw(st.sampled_from([None, None, -1, 0, 1]))


def sizes(n, out):
    """Stored bytes of every dataset described by a model node."""
    if n[0] == "G":
        for x in n[1].values():
            sizes(x, out)
    elif n[0] == "D":
        if n[1] == "ref":
            out.append(8 * len(n[4]))
            for x in n[4]:
                sizes(x, out)
        elif n[2]:
            out.append(n[6] if len(n) > 6 else nbytes(n))
    return out


def nbytes(n):
    def item(d):
        if isinstance(d, str):
            return np.dtype(d).itemsize
        if d[0] == "sub":
            return item(d[1]) * int(np.prod(d[2]))
        return sum(item(x) for _, x in d[1])
    return item(n[1]) * int(np.prod(n[2]))


def settle(case):
    """Options with the threshold next to the size of a dataset."""
    v, kw, idx, delta = case
    if delta is not None:
        s = sizes(model.store(v, model.full(kw)), [])
        if s:
            kw = dict(kw, compress_size_threshold=max(0, s[idx % len(s)] + delta))
    return v, kw


def verify(f, v, kw, plainly):
    o = model.full(kw)
    want = model.store(v, o, "/x")
    d = raw.diff(raw.read(f, "/x", o["group_for_references"]), want, "/x")
    if d:
        raise Violation("stored form: %s" % d)
    got = lib(hs.read, path="/x", filename=f, options=hs.Options(**kw))
    d = diff(canon(got), canon(plainly))
    if d:
        raise Violation("read: %s" % d)
    return want


def check(case, ctx):
    v, kw = settle(case)
    f, g = ctx.file(), ctx.file("off.h5")
    lib(hs.write, v, path="/x", filename=f, options=hs.Options(**kw))
    off = dict(kw, compress=False, uncompressed_fletcher32_filter=False)
    lib(hs.write, v, path="/x", filename=g, options=hs.Options(**off))
    plainly = lib(hs.read, path="/x", filename=g, options=hs.Options(**off))
    want = verify(f, v, kw, plainly)
    s = sizes(want, [])
    if not s:
        return None
    return canon(v), sorted(kw.items())


def check_over(case, ctx):
    case, kw2 = case
    v, kw = settle(case)
    f = ctx.file()
    lib(hs.write, v, path="/x", filename=f, options=hs.Options(**kw))
    plainly = lib(hs.read, path="/x", filename=f, options=hs.Options(**kw))
    kw2 = dict({k: x for k, x in kw.items() if k not in COMP}, **kw2)
    lib(hs.write, v, path="/x", filename=f, options=hs.Options(**kw2))
    want = verify(f, v, kw2, plainly)
    if not sizes(want, []):
        return None
    return canon(v), sorted(kw.items()), sorted(kw2.items())


@st.composite
def overwritten(draw):
    c = draw(case())
    if draw(st.booleans()):
        return c, draw(compression())
    return c, {k: x for k, x in draw(opts.near(c[1])).items() if k in COMP or k == "compress_size_threshold"}


@st.composite
def corrupted(draw):
    v = draw(st.one_of(V.num_arrays(), bigger(), V.str_arrays()).filter(lambda a: a.size and a.ndim))
    base = draw(st.sampled_from([{}, {"matlab_compatible": False},
                                 {"matlab_compatible": False, "store_python_metadata": False}]))
    kw = dict(draw(compression()), **base)
    kw.update(compressed_fletcher32_filter=True, uncompressed_fletcher32_filter=True,
              compress_size_threshold=draw(st.sampled_from([0, 0, 1 << 20])),
              action_for_matlab_incompatible="ignore")
    return v, kw, draw(st.integers(0, 1 << 30)), draw(st.integers(0, 1 << 30)), \
        draw(st.integers(1, 255))


def check_corrupt(case, ctx):
    v, kw, which, where, what = case
    f = ctx.file()
    lib(hs.write, v, path="/x", filename=f, options=hs.Options(**kw))
    before = lib(hs.read, path="/x", filename=f, options=hs.Options(**kw))
    with h5py.File(f, "r") as h:
        d = h["x"]
        if d.shape == () or d.chunks is None:
            raise Violation("a dataset with a checksum that is not chunked: %r" % (d,))
        n = d.id.get_num_chunks()
        c = d.id.get_chunk_info(which % n)
    at = c.byte_offset + where % c.size
    with open(f, "r+b") as b:
        b.seek(at)
        x = b.read(1)[0]
        b.seek(at)
        b.write(bytes([x ^ what]))
    try:
        got = hs.read(path="/x", filename=f, options=hs.Options(**kw))
    except Exception:
        return canon(v), sorted(kw.items()), at, what
    raise Violation("byte %d of the stored data changed; read %s (%s)" % (
        at, core.short(got), "another value" if canon(got) != canon(before) else "as before"))


SUBS = [
    Sub("filters", case, check, 4000),
    Sub("overwrite", overwritten, check_over, 2000),
    Sub("corrupt", corrupted, check_corrupt, 2000),
]
