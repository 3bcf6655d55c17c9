"""Strategies for Options keyword sets (plain dicts)."""
from hypothesis import strategies as st

FORCED = dict(delete_unused_variables=True, structured_numpy_ndarray_as_struct=True,
              make_atleast_2d=True, convert_numpy_bytes_to_utf16=True,
              convert_numpy_str_to_utf16=True, convert_bools_to_uint8=True,
              reverse_dimension_order=True, store_shape_for_empty=True,
              complex_names=("real", "imag"), group_for_references="/#refs#",
              compression_algorithm="gzip")
TRANSFORMS = ["structured_numpy_ndarray_as_struct", "make_atleast_2d",
              "convert_numpy_bytes_to_utf16", "convert_numpy_str_to_utf16",
              "convert_bools_to_uint8", "reverse_dimension_order", "store_shape_for_empty"]
CNAMES = [("r", "i"), ("real", "imag"), ("re", "im"), ("Real", "Imaginary"), ("R", "I")]
REFS = ["/#refs#", "/refs", "/a/b/refs", "/zz"]


def compression():
    return st.one_of(
        st.just({}),
        st.fixed_dictionaries({}, optional=dict(
            compress=st.booleans(),
            compress_size_threshold=st.sampled_from([0, 1, 8, 64, 1000]),
            gzip_compression_level=st.integers(0, 9),
            shuffle_filter=st.booleans(),
            compressed_fletcher32_filter=st.booleans(),
            uncompressed_fletcher32_filter=st.booleans())))


@st.composite
def near(draw, kw):
    """Options that are almost those given."""
    kw = dict(kw)
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        name, values = draw(st.sampled_from(sorted(NEAR.items())))
        if name == "compression_algorithm" and kw.get("matlab_compatible"):
            continue
        kw[name] = draw(st.sampled_from(values))
    return kw


NEAR = dict(compress=[True, False], compress_size_threshold=[0, 1, 8, 64, 1000], gzip_compression_level=[0, 1, 7, 9],
            shuffle_filter=[True, False], compressed_fletcher32_filter=[True, False],
            uncompressed_fletcher32_filter=[True, False], compression_algorithm=["gzip", "lzf"],
            store_python_metadata=[True, False], oned_as=["row", "column"])


def plain(python=None, names=CNAMES, refs=REFS, algorithms=("gzip", "lzf")):
    """Options without MATLAB compatibility, each transformation switched independently."""
    base = {t: st.booleans() for t in TRANSFORMS}
    base.update(delete_unused_variables=st.booleans(), complex_names=st.sampled_from(names),
                group_for_references=st.sampled_from(refs),
                oned_as=st.sampled_from(["row", "column"]),
                dict_like_keys_name=st.sampled_from(["keys", "k", "a/b", ".", "ключ", "#"]),
                dict_like_values_name=st.sampled_from(["values", "v", "b\\x", "..", "зн\U00010000"]),
                compression_algorithm=st.sampled_from(algorithms))
    few = st.dictionaries(st.sampled_from(sorted(base)), st.none(), max_size=2).flatmap(
        lambda d: st.fixed_dictionaries({k: base[k] for k in d}))
    allof = st.fixed_dictionaries({}, optional=base)
    py = st.booleans() if python is None else st.just(python)
    return st.builds(lambda a, c, p: dict(a, matlab_compatible=False, store_python_metadata=p, **c),
                     st.one_of(few, allof), compression(), py)


def matlab(python=None):
    """MATLAB compatible options (types MATLAB does not know are written all the same)."""
    py = st.booleans() if python is None else st.just(python)
    return st.builds(
        lambda o, c, p: dict(c, matlab_compatible=True, store_python_metadata=p, oned_as=o,
                             action_for_matlab_incompatible="ignore"),
        st.sampled_from(["row", "column"]), compression(), py)


def python_any():
    """Any options that store Python metadata."""
    return st.one_of(matlab(True), plain(True))


from .values import memo  # noqa: E402

compression, plain_, matlab, python_any = map(memo, (compression, plain, matlab, python_any))


def plain(python=None, names=CNAMES, refs=REFS, algorithms=("gzip", "lzf")):  # noqa: F811
    return plain_(python, tuple(names), tuple(refs), tuple(algorithms))
